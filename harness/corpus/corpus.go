// Package corpus holds a few rich schemas that together use every feature of the generators.
package corpus

// Set is a named schema of several files.
type Set struct {
	Name  string
	Files map[string]string
}

const base = `package go = "base"
package java = "com.base"

// Color is a colour
[lang: en="Colour"; zh_CN="颜色"]
[ui: form="x"]
enum Color {
    // the red
    [lang: en="Red"; zhCN="红"; fr="Rouge"]
    red = 0
    dark_green = 1
    [lang: de="Blau"; es="Azul"; it="Blu"; ja="青"]
    BLUE = 2
}

[lang: en="Verify"]
enum VerifyBase {
    [format: reg="^[a-z]+$"]
    [lang: en="bad name"; zhCN="名"]
    name_bad = 1
    [format: min="1"; max="9"]
    [lang: en="out of range"; ko="x"]
    out = 2
    [format: null="true"; min="-5"]
    low = 3
    nullBad = 4
}

// Base is a base
data Base {
    // the id
    [db: key="true"; where="AND id = ?"]
    [lang: en="Id"; pt="Id"; ru="Id"]
    int64 id = 0
    [verify: format="VerifyBase.name_bad"]
    [ui: form="input"; table="text"]
    [lang: en="Name"; sv="Namn"]
    string? name = 1
    [db: del="true"]
    date? delete_time = 2
}
`

const user = `package go = "user"
package java = "com.user"
import "base.hbuf"

[db: name="user_info"; get="self"; list="self"; map="id"; insert="self"; inserts="self"; update="self"; set="self"; del="true"; rm="true"; count="true"; table="UserInfo"]
[ui: form="dialog"; table="user"; height="10"; width="20"]
[lang: en="User"; zhCN="用户"; vi="N"]
[cache: min="10"; max="20"]
data UserInfo : Base = 1 {
    [db: where="AND age = ?"; name="user_age"]
    [verify: format="VerifyBase.out"]
    [ui: form="input"; table="text"; digit="2"]
    int32? age = 3
    [ui: form="menu"; table="text"]
    [db: name="colour"; where="AND colour = ?"]
    Color? colour = 4
    [ui: form="date"; table="text"; format="yyyy-MM-dd"]
    [verify: format="VerifyBase.low"]
    int64? big = 5
    decimal? money = 6
    double[]? points = 7
    string<string>? labels = 8
    Color[]? colours = 9
    Base? parent = 10
    Base<int32>? kids = 11
    bool active = 12
    uint64 total = 13
    [ui: form="image"; table="image"; clip="1:1"; extensions="png"]
    string image = 14
    float rate = 15
    [ui: form="switch"; table="switch"]
    bool? on_off = 16
    date at = 17
    int8 tiny = 18
    uint16?[] small = 19
}

data UserQuery {
    [db: where="AND id = ?"]
    int64? id = 1
    [db: limit="LIMIT ?"]
    int32? limit = 2
    [db: offset="OFFSET ?"]
    int32? offset = 3
}

data Empty {
}
`

const svc = `package go = "svc"
package java = "com.svc"
import "base.hbuf"
import "user.hbuf"

// Plain methods
server BaseServer {
    // say hello
    [tag: auth="a","b"; role="x"]
    UserInfo sayHello(UserQuery req) = 1
    void note(Base req) = 2
}

[lang: en="Svc"]
server UserServer : BaseServer = 1 {
    UserInfo get_user(UserQuery q) = 1
    [tag: auth="c"]
    void drop(UserInfo info) = 2
}

server AdminServer : UserServer = 1, BaseServer = 2 {
    Base root(Empty req) = 1
}
`

const one = `package go = "one"
package java = "com.one"
enum E {
    a = 1
    b = 2
}
data D {
    E e = 1
    D? d = 2
    string s = 3
}
server S {
    D f(D req) = 1
}
`

// Sets are the schemas, all well formed.
var Sets = []Set{
	{"rich", map[string]string{"base.hbuf": base, "user.hbuf": user, "svc.hbuf": svc}},
	{"one", map[string]string{"one.hbuf": one}},
	{"base", map[string]string{"base.hbuf": base}},
}

// Faulty are schemas with errors in several files: the reported one must not depend on the run.
var Faulty = []Set{
	{"two errors", map[string]string{"a.hbuf": "data A {\n    X a = 1\n}\n", "b.hbuf": "data B {\n    Y a = 1\n}\n", "c.hbuf": "data C : Z = 1 {\n}\n"}},
	{"cycles", map[string]string{"a.hbuf": "import \"b.hbuf\"\ndata A : B = 1 {\n}\n", "b.hbuf": "import \"a.hbuf\"\ndata B : A = 1 {\n}\n", "c.hbuf": "data C : C = 1 {\n}\n"}},
	{"bad verify", map[string]string{"a.hbuf": "package go = \"p\"\ndata A {\n    [verify: format=\"E.x\"]\n    string a = 1\n    [verify: format=\"F.x\"]\n    string b = 2\n}\n", "b.hbuf": "package go = \"p\"\ndata B {\n    [verify: format=\"G\"]\n    string a = 1\n}\n"}},
	{"bad imports", map[string]string{"a.hbuf": "import \"x.hbuf\"\n", "b.hbuf": "import \"y.hbuf\"\n"}},
	{"syntax", map[string]string{"a.hbuf": "data {\n", "b.hbuf": "enum {\n", "c.hbuf": "data A {}\n"}},
	{"same names", map[string]string{"a.hbuf": "import \"b.hbuf\"\nimport \"c.hbuf\"\ndata A {\n}\n", "b.hbuf": "data A {\n}\n", "c.hbuf": "data A {\n}\n"}},
}
