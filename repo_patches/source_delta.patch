From e079642596b32e086ea55402e1dbdf515fe4a6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 001/103] fix: report errors of the first token instead of
 crashing on the missing file node

---
 pkg/parser/interface.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/interface.go b/pkg/parser/interface.go
index 3a58826..1c4fe92 100644
--- a/pkg/parser/interface.go
+++ b/pkg/parser/interface.go
@@ -83,7 +83,9 @@ func ParseFile(fset *token.FileSet, filename string, src interface{}, mode Mode)
 	// parse source
 	p.init(fset, filename, text, mode)
 	f = p.parseFile()
-	f.Path = filename
+	if f != nil {
+		f.Path = filename
+	}
 	return
 }
 
-- 
2.43.0


From 56ba4b886439cac8c341142f44c093de78065b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 002/103] fix: report an array or map as method parameter or
 result instead of crashing

---
 pkg/parser/parser.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index a0fc84d..e5d7e24 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -610,10 +610,21 @@ func (p *parser) parseMethodSpec() *ast.FuncType {
 	p.expect(token.RPAREN)
 	id := p.parseId()
 
+	resultType, ok := result.(*ast.VarType)
+	if !ok {
+		p.error(result.Pos(), "method result can only be a data type")
+		resultType = &ast.VarType{TypeExpr: &ast.BadExpr{From: result.Pos(), To: result.End()}}
+	}
+	paramType, ok := param.(*ast.VarType)
+	if !ok {
+		p.error(param.Pos(), "method parameter can only be a data type")
+		paramType = &ast.VarType{TypeExpr: &ast.BadExpr{From: param.Pos(), To: param.End()}}
+	}
+
 	var typ = &ast.FuncType{
-		Result:    result.(*ast.VarType),
+		Result:    resultType,
 		Name:      name,
-		Param:     param.(*ast.VarType),
+		Param:     paramType,
 		ParamName: paramName,
 		Doc:       doc,
 		Comment:   doc,
-- 
2.43.0


From 641ea875aba2018e84868faef586caafcdac82ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 003/103] fix: require '=' between an enum item and its number

---
 pkg/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index e5d7e24..fe172e0 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -840,6 +840,9 @@ func (p *parser) parseEnumItem(scope *ast.Scope) *ast.EnumItem {
 	name := p.parseIdent()
 
 	var id *ast.BasicLit
+	if p.tok != token.ASSIGN {
+		p.errorExpected(p.pos, "'='")
+	}
 	p.next()
 	if p.tok != token.INT {
 		p.errorExpected(p.pos, "not find int")
-- 
2.43.0


From 30d02a45044b88705ae254bc8677da7ab0fdc458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 004/103] fix: do not swallow the token after a method

---
 pkg/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index fe172e0..38181c1 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -874,7 +874,7 @@ func (p *parser) parseServerSpec(doc *ast.CommentGroup, tags []*ast.Tag) ast.Spe
 	var list []*ast.FuncType
 	for p.tok != token.RBRACE && p.tok != token.EOF {
 		list = append(list, p.parseMethodSpec())
-		p.next()
+		p.expectSemi()
 	}
 	rbrace := p.expect(token.RBRACE)
 
-- 
2.43.0


From 8e110490c635031d8529ae54b76276fc7b15ac72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 005/103] fix: report '.' before a digit as an illegal
 character instead of scanning it forever

---
 pkg/scanner/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 1d3d44d..62be993 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -708,7 +708,7 @@ scanAgain:
 			insertSemi = true
 			tok = token.IDENT
 		}
-	case isDecimal(ch) || ch == '.' && isDecimal(rune(s.peek())):
+	case isDecimal(ch):
 		insertSemi = true
 		tok, lit = s.scanNumber()
 	default:
-- 
2.43.0


From 2effd774f86ff90eacb76c0bf9236c9e43496d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 006/103] fix: report a lone '/' as an illegal character

---
 pkg/scanner/scanner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 62be993..2e9f747 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -780,6 +780,10 @@ scanAgain:
 				}
 				tok = token.COMMENT
 				lit = comment
+			} else {
+				s.errorf(s.file.Offset(pos), "illegal character %#U", ch)
+				insertSemi = s.insertSemi // preserve insertSemi info
+				lit = string(ch)
 			}
 		case '=':
 			tok = token.ASSIGN
-- 
2.43.0


From 4bbceffa7c400a274aaffd33dc087c9698839a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:55 +0000
Subject: [PATCH 007/103] fix: convert names with empty or multi-byte parts
 without crashing or splitting a character

---
 pkg/build/build.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index bb87369..42d1cf8 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -8,6 +8,7 @@ import (
 	"path/filepath"
 	"regexp"
 	"strings"
+	"unicode/utf8"
 )
 
 type BaseType string
@@ -428,8 +429,15 @@ func StringToHumpName(val string) string {
 	temp := strings.Split(val, "_")
 	var ret string
 	for _, item := range temp {
-		ret += strings.ToUpper(item[:1])
-		ret += item[1:]
+		if 0 == len(item) {
+			continue
+		}
+		_, size := utf8.DecodeRuneInString(item)
+		ret += strings.ToUpper(item[:size])
+		ret += item[size:]
+	}
+	if 0 == len(ret) {
+		return val
 	}
 	return ret
 }
@@ -442,10 +450,18 @@ func StringToFirstLower(val string) string {
 	temp := strings.Split(val, "_")
 	var ret string
 	for _, item := range temp {
-		ret += strings.ToUpper(item[:1])
-		ret += item[1:]
+		if 0 == len(item) {
+			continue
+		}
+		_, size := utf8.DecodeRuneInString(item)
+		ret += strings.ToUpper(item[:size])
+		ret += item[size:]
+	}
+	if 0 == len(ret) {
+		return val
 	}
-	return strings.ToLower(ret[:1]) + ret[1:]
+	_, size := utf8.DecodeRuneInString(ret)
+	return strings.ToLower(ret[:size]) + ret[size:]
 }
 
 // StringToUnderlineName 下划线
-- 
2.43.0


From 71d667b98072256e0479eed2c46b40efa72943fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 008/103] fix: reject types that extend themselves instead of
 recursing forever

---
 pkg/build/build.go | 56 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 42d1cf8..09002a6 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -158,9 +158,65 @@ func (b *Builder) checkFiles() error {
 		}
 	}
 
+	for _, file := range b.pkg.Files {
+		err := b.checkCircularExtends(file)
+		if err != nil {
+			return err
+		}
+	}
+
 	return nil
 }
 
+// checkCircularExtends rejects types that extend themselves, directly or through other types
+func (b *Builder) checkCircularExtends(file *ast.File) error {
+	for _, s := range file.Specs {
+		spec, ok := s.(*ast.TypeSpec)
+		if !ok {
+			continue
+		}
+		for _, item := range getExtends(spec.Type) {
+			if isExtends(item, spec.Type, map[ast.Expr]void{}) {
+				return scanner.Error{
+					Pos: b.fset.Position(item.Name.NamePos),
+					Msg: "Circular extends: " + item.Name.Name,
+				}
+			}
+		}
+	}
+	return nil
+}
+
+func getExtends(expr ast.Expr) []*ast.Extends {
+	switch t := expr.(type) {
+	case *ast.DataType:
+		return t.Extends
+	case *ast.ServerType:
+		return t.Extends
+	}
+	return nil
+}
+
+func isExtends(item *ast.Extends, expr ast.Expr, visited map[ast.Expr]void) bool {
+	spec, ok := item.Name.Obj.Decl.(*ast.TypeSpec)
+	if !ok {
+		return false
+	}
+	if spec.Type == expr {
+		return true
+	}
+	if _, ok := visited[spec.Type]; ok {
+		return false
+	}
+	visited[spec.Type] = void{}
+	for _, next := range getExtends(spec.Type) {
+		if isExtends(next, expr, visited) {
+			return true
+		}
+	}
+	return false
+}
+
 func (b *Builder) checkFile(file *ast.File, imports map[string]void) error {
 	for index, s := range file.Specs {
 		switch s.(type) {
-- 
2.43.0


From 56f03b19730259d709b656e4e6ab3daafee0c155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 009/103] fix: cut every where condition by its own length

---
 pkg/build/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/build/database.go b/pkg/build/database.go
index 15c700b..925bb8d 100644
--- a/pkg/build/database.go
+++ b/pkg/build/database.go
@@ -74,7 +74,7 @@ func GetDB(n string, tag []*ast.Tag) []*DB {
 					} else if "where" == item.Name.Name {
 						where := make([]string, len(item.Values))
 						for i, val := range item.Values {
-							where[i] = val.Value[1 : len(item.Values[0].Value)-1]
+							where[i] = val.Value[1 : len(val.Value)-1]
 						}
 						db.Where = where
 					} else if "offset" == item.Name.Name {
-- 
2.43.0


From fe33e8c2e1e446c0b9e083e8946b2488136dc2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 010/103] fix: report unknown and nested types as map keys
 instead of crashing

---
 pkg/build/build.go | 2 +-
 pkg/build/data.go  | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 09002a6..59988f9 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -322,7 +322,7 @@ func (b *Builder) checkDataMapKey(file *ast.File, varType *ast.VarType) error {
 			return nil
 		}
 		obj := b.GetDataType(file, varType.TypeExpr.(*ast.Ident).Name)
-		if obj.Kind == ast.Enum {
+		if nil != obj && obj.Kind == ast.Enum {
 			varType.TypeExpr.(*ast.Ident).Obj = obj
 			return nil
 		}
diff --git a/pkg/build/data.go b/pkg/build/data.go
index 83836e2..9a5ed6c 100644
--- a/pkg/build/data.go
+++ b/pkg/build/data.go
@@ -170,7 +170,14 @@ func (b *Builder) checkDataItem(file *ast.File, data *ast.DataType) error {
 			}
 		case *ast.MapType:
 			ma := item.Type.(*ast.MapType)
-			err := b.checkDataMapKey(file, ma.Key.(*ast.VarType))
+			key, ok := ma.Key.(*ast.VarType)
+			if !ok {
+				return scanner.Error{
+					Pos: b.fset.Position(ma.Key.Pos()),
+					Msg: "Map keys can only be of type",
+				}
+			}
+			err := b.checkDataMapKey(file, key)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 735c88be13ec55026bdf9fa46e5230d7d0931ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 011/103] fix: report a bind or verify value without a member
 instead of crashing

---
 pkg/build/binding.go | 2 +-
 pkg/build/verify.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/build/binding.go b/pkg/build/binding.go
index 8fbfa79..c59442f 100644
--- a/pkg/build/binding.go
+++ b/pkg/build/binding.go
@@ -25,7 +25,7 @@ func GetBinding(tags []*ast.Tag, file *ast.File, getType func(file *ast.File, na
 					return nil, NewError(item.Pos()+1, "Not set value")
 				}
 				temp := strings.Split(value, ".")
-				if 0 == len(temp) {
+				if 2 > len(temp) {
 					return nil, NewError(item.Pos()+1, "Not find server method:"+value)
 				}
 
diff --git a/pkg/build/verify.go b/pkg/build/verify.go
index 662eecf..c77f15d 100644
--- a/pkg/build/verify.go
+++ b/pkg/build/verify.go
@@ -36,7 +36,7 @@ func GetVerify(tags []*ast.Tag, file *ast.File, getType func(file *ast.File, nam
 					return nil, NewError(i.Pos()+1, "Not set format")
 				}
 				temp := strings.Split(format, ".")
-				if 0 == len(temp) {
+				if 2 > len(temp) {
 					return nil, NewError(i.Pos()+1, "Not find enum field:"+format)
 				}
 
-- 
2.43.0


From 9e3b51bb099ccd8df6d9a175bb2a8c3710e23af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 012/103] fix: do not crash when a db table names an enum

---
 pkg/golang/database.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 61777a3..343f8d7 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -65,7 +65,11 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 		if nil == table {
 			return nil
 		}
-		typ = table.Decl.(*ast.TypeSpec).Type.(*ast.DataType)
+		data, ok := table.Decl.(*ast.TypeSpec).Type.(*ast.DataType)
+		if !ok {
+			return nil
+		}
+		typ = data
 		dbs, fields, key, err = b.getDBField(typ)
 		if nil != err {
 			return nil
-- 
2.43.0


From e03da84fcccd375ec51c4f8fd738d0273ab61e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 013/103] fix: check the keys of every tag, not only of the
 first

---
 pkg/build/build.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 59988f9..4f6dc44 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -367,7 +367,10 @@ func (b *Builder) checkTags(tags []*ast.Tag) error {
 	}
 
 	for _, tag := range tags {
-		return b.checkKeyValue(tag.KV)
+		err := b.checkKeyValue(tag.KV)
+		if err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 548f684dd7c2232ef1052fd442c19fd99b69daef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 014/103] fix: check the tags of enums

---
 pkg/build/enum.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/build/enum.go b/pkg/build/enum.go
index aa4acf6..a24da0e 100644
--- a/pkg/build/enum.go
+++ b/pkg/build/enum.go
@@ -6,6 +6,10 @@ import (
 )
 
 func (b *Builder) checkEnum(file *ast.File, enum *ast.EnumType, index int) error {
+	err := b.checkTags(enum.Tags)
+	if err != nil {
+		return err
+	}
 	name := enum.Name.Name
 	if _, ok := _keys[BaseType(name)]; ok {
 		return scanner.Error{
@@ -21,7 +25,7 @@ func (b *Builder) checkEnum(file *ast.File, enum *ast.EnumType, index int) error
 		}
 	}
 
-	err := b.checkEnumItem(file, enum)
+	err = b.checkEnumItem(file, enum)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 6d34a6ed15c6a0a79be2896e112eab2ba74262dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 015/103] fix: compare field and item numbers by value

---
 pkg/build/build.go | 14 ++++++++++++++
 pkg/build/data.go  |  2 +-
 pkg/build/enum.go  |  2 +-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 4f6dc44..596c5a2 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -7,6 +7,7 @@ import (
 	"hbuf/pkg/token"
 	"path/filepath"
 	"regexp"
+	"strconv"
 	"strings"
 	"unicode/utf8"
 )
@@ -375,6 +376,19 @@ func (b *Builder) checkTags(tags []*ast.Tag) error {
 	return nil
 }
 
+// equalNumber compares two number literals by value, whatever their base
+func equalNumber(a string, b string) bool {
+	if a == b {
+		return true
+	}
+	x, err := strconv.ParseUint(a, 0, 64)
+	if err != nil {
+		return false
+	}
+	y, err := strconv.ParseUint(b, 0, 64)
+	return err == nil && x == y
+}
+
 func GetTag(tags []*ast.Tag, key string) (*ast.Tag, bool) {
 	if nil == tags {
 		return nil, false
diff --git a/pkg/build/data.go b/pkg/build/data.go
index 9a5ed6c..0c94b10 100644
--- a/pkg/build/data.go
+++ b/pkg/build/data.go
@@ -231,7 +231,7 @@ func (b *Builder) checkDataDuplicateItem(data *ast.DataType, index int, name str
 func (b *Builder) checkDataDuplicateValue(data *ast.DataType, index int, id string) bool {
 	for i := index + 1; i < len(data.Fields.List); i++ {
 		s := data.Fields.List[i]
-		if s.Id.Value == id {
+		if equalNumber(s.Id.Value, id) {
 			return true
 		}
 	}
diff --git a/pkg/build/enum.go b/pkg/build/enum.go
index a24da0e..5e06a94 100644
--- a/pkg/build/enum.go
+++ b/pkg/build/enum.go
@@ -75,7 +75,7 @@ func (b *Builder) checkEnumDuplicateItem(enum *ast.EnumType, index int, name str
 func (b *Builder) checkEnumDuplicateValue(enum *ast.EnumType, index int, id string) bool {
 	for i := index + 1; i < len(enum.Items); i++ {
 		s := enum.Items[i]
-		if s.Id.Value == id {
+		if equalNumber(s.Id.Value, id) {
 			return true
 		}
 	}
-- 
2.43.0


From c53e12406cfd34227c9c5bf6781b291bb21b206d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 016/103] fix: match the input pattern against whole names of
 schema files only

---
 pkg/build/build.go      | 9 ++++++---
 pkg/parser/interface.go | 4 ++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 596c5a2..9a475a9 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -112,10 +112,13 @@ func NewBuilder(build Function, param *Param) *Builder {
 }
 
 func Build(out string, in string, typ string, pack string) error {
-	in = filepath.Clean(in)
+	in, err := filepath.Abs(in)
+	if err != nil {
+		return err
+	}
 	path := filepath.Dir(in)
-	name := in[len(path)+1:]
-	reg, err := regexp.Compile(strings.ReplaceAll(name, "*", "(.*)"))
+	name := filepath.Base(in)
+	reg, err := regexp.Compile("^" + strings.ReplaceAll(regexp.QuoteMeta(name), "\\*", "(.*)") + "$")
 	if err != nil {
 		return err
 	}
diff --git a/pkg/parser/interface.go b/pkg/parser/interface.go
index 1c4fe92..14ae3bf 100644
--- a/pkg/parser/interface.go
+++ b/pkg/parser/interface.go
@@ -100,6 +100,10 @@ func ParseDir(fset *token.FileSet, pkg *ast.Package, path string, reg *regexp.Re
 			if err != nil {
 				return err
 			}
+			continue
+		}
+		if ".hbuf" != filepath.Ext(item.Name()) {
+			continue
 		}
 		if !reg.MatchString(item.Name()) {
 			continue
-- 
2.43.0


From e1babc9d01d34e1297cb7ed04a82528f3e1d3c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 017/103] fix: resolve absolute imports and imports in the root
 directory

---
 pkg/parser/interface.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/parser/interface.go b/pkg/parser/interface.go
index 14ae3bf..f7fd9b5 100644
--- a/pkg/parser/interface.go
+++ b/pkg/parser/interface.go
@@ -138,12 +138,13 @@ func parseDirFile(fset *token.FileSet, pkg *ast.Package, path string, name strin
 	for _, spec := range f.Imports {
 		imp := spec.Path.Value
 		imp = imp[1 : len(imp)-1]
-		if !("/" == imp || 0 != len(filepath.VolumeName(imp))) {
+		if !filepath.IsAbs(imp) {
 			imp = filepath.Join(path, imp)
-			spec.Path.Value = imp
 		}
+		imp = filepath.Clean(imp)
+		spec.Path.Value = imp
 		path := filepath.Dir(imp)
-		name := imp[len(path)+1:]
+		name := filepath.Base(imp)
 		err := parseDirFile(fset, pkg, path, name)
 		if err != nil {
 			switch err.(type) {
-- 
2.43.0


From 8eeaef49cbaec879ee2b4918d4478c446aa1846e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 018/103] fix: report the import of a file that is no schema
 file

---
 pkg/parser/interface.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/parser/interface.go b/pkg/parser/interface.go
index f7fd9b5..a4f44cc 100644
--- a/pkg/parser/interface.go
+++ b/pkg/parser/interface.go
@@ -130,6 +130,9 @@ func parseDirFile(fset *token.FileSet, pkg *ast.Package, path string, name strin
 		return nil
 	}
 
+	if ".hbuf" != filepath.Ext(name) {
+		return &fs.PathError{Op: "import", Path: filePath, Err: fs.ErrInvalid}
+	}
 	f, err := ParseFile(fset, filePath, nil, AllErrors|ParseComments)
 	if err != nil {
 		return err
-- 
2.43.0


From 438f374a626628f8629a948e817bb3abd310bb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 019/103] fix: allow a file to import itself

---
 pkg/build/build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 9a475a9..fd52623 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -283,7 +283,7 @@ func (b *Builder) checkDuplicateType(file *ast.File, index int, name string) boo
 	}
 
 	for _, spec := range file.Imports {
-		if f, ok := b.pkg.Files[spec.Path.Value]; ok {
+		if f, ok := b.pkg.Files[spec.Path.Value]; ok && f != file {
 			if obj := f.Scope.Lookup(name); nil != obj {
 				return true
 			}
-- 
2.43.0


From e19a6bdf5622036d369695d13520063152bb24c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 020/103] fix: check and generate the files in a fixed order

---
 pkg/build/build.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index fd52623..1690174 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -7,6 +7,7 @@ import (
 	"hbuf/pkg/token"
 	"path/filepath"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 	"unicode/utf8"
@@ -136,7 +137,8 @@ func Build(out string, in string, typ string, pack string) error {
 		return err
 	}
 
-	for path, file := range build.pkg.Files {
+	for _, path := range build.getPaths() {
+		file := build.pkg.Files[path]
 		_, name := filepath.Split(path)
 		err := build.build(file, build.fset, &Param{
 			out:   filepath.Join(build.param.out, name),
@@ -151,8 +153,16 @@ func Build(out string, in string, typ string, pack string) error {
 	return nil
 }
 
+// getPaths returns the paths of all files in a fixed order
+func (b *Builder) getPaths() []string {
+	paths := GetKeysByMap(b.pkg.Files)
+	sort.Strings(paths)
+	return paths
+}
+
 func (b *Builder) checkFiles() error {
-	for path, file := range b.pkg.Files {
+	for _, path := range b.getPaths() {
+		file := b.pkg.Files[path]
 		imports := map[string]void{
 			path: {},
 		}
@@ -162,8 +172,8 @@ func (b *Builder) checkFiles() error {
 		}
 	}
 
-	for _, file := range b.pkg.Files {
-		err := b.checkCircularExtends(file)
+	for _, path := range b.getPaths() {
+		err := b.checkCircularExtends(b.pkg.Files[path])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 48ec1eea2d582a58ce65d40beaed6e94d92e6c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:25 +0000
Subject: [PATCH 021/103] fix: report an input that matches no schema file

---
 pkg/build/build.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 1690174..950bc75 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -1,6 +1,7 @@
 package build
 
 import (
+	"errors"
 	"hbuf/pkg/ast"
 	"hbuf/pkg/parser"
 	"hbuf/pkg/scanner"
@@ -132,6 +133,9 @@ func Build(out string, in string, typ string, pack string) error {
 	if err != nil {
 		return err
 	}
+	if 0 == len(build.pkg.Files) {
+		return errors.New("Not find input: " + in)
+	}
 	err = build.checkFiles()
 	if err != nil {
 		return err
-- 
2.43.0


From c77b5a1bf9c1672925b41ea2ebff8555518b9de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:00 +0000
Subject: [PATCH 022/103] fix: report output files that cannot be written
 completely

---
 pkg/build/build.go           |  6 ++++++
 pkg/dart/dart.go             | 26 +++++++++-----------------
 pkg/golang/gloang.go         | 25 ++++++++-----------------
 pkg/java/java.go             | 22 +++++++---------------
 pkg/typescript/typescript.go | 28 ++++++++++------------------
 5 files changed, 40 insertions(+), 67 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 950bc75..202041c 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -6,6 +6,7 @@ import (
 	"hbuf/pkg/parser"
 	"hbuf/pkg/scanner"
 	"hbuf/pkg/token"
+	"os"
 	"path/filepath"
 	"regexp"
 	"sort"
@@ -97,6 +98,11 @@ func (p *Param) GetPkg() *ast.Package {
 	return p.pkg
 }
 
+// WriteFile writes an output file of a schema file
+func (p *Param) WriteFile(out string, text string) error {
+	return os.WriteFile(out, []byte(text), 0666)
+}
+
 type Builder struct {
 	fset  *token.FileSet
 	pkg   *ast.Package
diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index 62b402b..26e1b7f 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strings"
 )
 
 var _types = map[build.BaseType]string{
@@ -73,19 +74,19 @@ func Build(file *ast.File, fset *token.FileSet, param *build.Param) error {
 	}
 
 	if 0 < dst.data.GetCode().Len() {
-		err := writerFile(dst.data, filepath.Join(dir, name+".data.dart"))
+		err := writerFile(param, dst.data, filepath.Join(dir, name+".data.dart"))
 		if err != nil {
 			return err
 		}
 	}
 	if 0 < dst.enum.GetCode().Len() {
-		err = writerFile(dst.enum, filepath.Join(dir, name+".enum.dart"))
+		err = writerFile(param, dst.enum, filepath.Join(dir, name+".enum.dart"))
 		if err != nil {
 			return err
 		}
 	}
 	if 0 < dst.server.GetCode().Len() {
-		err = writerFile(dst.server, filepath.Join(dir, name+".server.dart"))
+		err = writerFile(param, dst.server, filepath.Join(dir, name+".server.dart"))
 		if err != nil {
 			return err
 		}
@@ -93,13 +94,13 @@ func Build(file *ast.File, fset *token.FileSet, param *build.Param) error {
 
 	printLanguge(dst.ui)
 	if 0 < dst.ui.GetCode().Len() {
-		err = writerFile(dst.ui, filepath.Join(dir, name+".ui.dart"))
+		err = writerFile(param, dst.ui, filepath.Join(dir, name+".ui.dart"))
 		if err != nil {
 			return err
 		}
 	}
 	if 0 < dst.verify.GetCode().Len() {
-		err = writerFile(dst.verify, filepath.Join(dir, name+".verify.dart"))
+		err = writerFile(param, dst.verify, filepath.Join(dir, name+".verify.dart"))
 		if err != nil {
 			return err
 		}
@@ -139,17 +140,8 @@ func (b *Builder) GetDataType(file *ast.File, name string) *ast.Object {
 	return nil
 }
 
-func writerFile(data *build.Writer, out string) error {
-	fc, err := os.Create(out)
-	if err != nil {
-		return err
-	}
-	defer func(fc *os.File) {
-		err := fc.Close()
-		if err != nil {
-			print(err)
-		}
-	}(fc)
+func writerFile(param *build.Param, data *build.Writer, out string) error {
+	fc := &strings.Builder{}
 	_, _ = fc.WriteString("// @dart = 2.12\n\n")
 	if 0 < len(data.GetImports()) {
 		imps := make([]string, len(data.GetImports()))
@@ -167,7 +159,7 @@ func writerFile(data *build.Writer, out string) error {
 	_, _ = fc.WriteString("\n")
 
 	_, _ = fc.WriteString(data.GetCode().String())
-	return nil
+	return param.WriteFile(out, fc.String())
 }
 
 func (b *Builder) Node(dst *DartWriter, fset *token.FileSet, node interface{}) error {
diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index b67ee5b..feb1458 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -106,31 +106,31 @@ func Build(file *ast.File, fSet *token.FileSet, param *build.Param) error {
 	}
 
 	if 0 < dst.data.GetCode().Len() {
-		err := b.writerFile(dst.data, dst.data.Packages, filepath.Join(dir, name+".data.go"), 1)
+		err := b.writerFile(param, dst.data, dst.data.Packages, filepath.Join(dir, name+".data.go"), 1)
 		if err != nil {
 			return err
 		}
 	}
 	if 0 < dst.enum.GetCode().Len() {
-		err = b.writerFile(dst.enum, dst.enum.Packages, filepath.Join(dir, name+".enum.go"), 0)
+		err = b.writerFile(param, dst.enum, dst.enum.Packages, filepath.Join(dir, name+".enum.go"), 0)
 		if err != nil {
 			return err
 		}
 	}
 	if 0 < dst.server.GetCode().Len() {
-		err = b.writerFile(dst.server, dst.server.Packages, filepath.Join(dir, name+".server.go"), 0)
+		err = b.writerFile(param, dst.server, dst.server.Packages, filepath.Join(dir, name+".server.go"), 0)
 		if err != nil {
 			return err
 		}
 	}
 	if 0 < dst.database.GetCode().Len() {
-		err = b.writerFile(dst.database, dst.database.Packages, filepath.Join(dir, name+".database.go"), 0)
+		err = b.writerFile(param, dst.database, dst.database.Packages, filepath.Join(dir, name+".database.go"), 0)
 		if err != nil {
 			return err
 		}
 	}
 	if 0 < dst.verify.GetCode().Len() {
-		err = b.writerFile(dst.verify, dst.verify.Packages, filepath.Join(dir, name+".verify.go"), 0)
+		err = b.writerFile(param, dst.verify, dst.verify.Packages, filepath.Join(dir, name+".verify.go"), 0)
 		if err != nil {
 			return err
 		}
@@ -138,17 +138,8 @@ func Build(file *ast.File, fSet *token.FileSet, param *build.Param) error {
 	return nil
 }
 
-func (b *Builder) writerFile(data *build.Writer, packages string, out string, i int) error {
-	fc, err := os.Create(out)
-	if err != nil {
-		return err
-	}
-	defer func(fc *os.File) {
-		err := fc.Close()
-		if err != nil {
-			print(err)
-		}
-	}(fc)
+func (b *Builder) writerFile(param *build.Param, data *build.Writer, packages string, out string, i int) error {
+	fc := &strings.Builder{}
 
 	_, _ = fc.WriteString("package " + packages + "\n\n")
 
@@ -174,7 +165,7 @@ func (b *Builder) writerFile(data *build.Writer, packages string, out string, i
 	}
 	code := data.GetCode().String()
 	_, _ = fc.WriteString(code[:len(code)-1])
-	return nil
+	return param.WriteFile(out, fc.String())
 }
 
 func (b *Builder) Node(dst *GoWriter, fset *token.FileSet, node interface{}) error {
diff --git a/pkg/java/java.go b/pkg/java/java.go
index 180c4fa..891f2fa 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strings"
 )
 
 var _types = map[build.BaseType]string{
@@ -81,19 +82,19 @@ func Build(file *ast.File, fset *token.FileSet, param *build.Param) error {
 	}
 
 	if 0 < dst.data.GetCode().Len() {
-		err := writerFile(dst.data, dst.Packages, filepath.Join(dir, name+"Data.java"))
+		err := writerFile(param, dst.data, dst.Packages, filepath.Join(dir, name+"Data.java"))
 		if err != nil {
 			return err
 		}
 	}
 	if 0 < dst.enum.GetCode().Len() {
-		err = writerFile(dst.enum, dst.Packages, filepath.Join(dir, name+"Enum.java"))
+		err = writerFile(param, dst.enum, dst.Packages, filepath.Join(dir, name+"Enum.java"))
 		if err != nil {
 			return err
 		}
 	}
 	if 0 < dst.server.GetCode().Len() {
-		err = writerFile(dst.server, dst.Packages, filepath.Join(dir, name+"Server.java"))
+		err = writerFile(param, dst.server, dst.Packages, filepath.Join(dir, name+"Server.java"))
 		if err != nil {
 			return err
 		}
@@ -134,17 +135,8 @@ func (b *Builder) GetDataType(file *ast.File, name string) *ast.Object {
 	return nil
 }
 
-func writerFile(data *build.Writer, packages string, out string) error {
-	fc, err := os.Create(out)
-	if err != nil {
-		return err
-	}
-	defer func(fc *os.File) {
-		err := fc.Close()
-		if err != nil {
-			print(err)
-		}
-	}(fc)
+func writerFile(param *build.Param, data *build.Writer, packages string, out string) error {
+	fc := &strings.Builder{}
 
 	_, _ = fc.WriteString("package " + packages + ";\n\n")
 
@@ -163,7 +155,7 @@ func writerFile(data *build.Writer, packages string, out string) error {
 	}
 	_, _ = fc.WriteString("\n")
 	_, _ = fc.WriteString(data.GetCode().String())
-	return nil
+	return param.WriteFile(out, fc.String())
 }
 
 func (b *Builder) Node(dst *JavaWriter, fset *token.FileSet, node interface{}) error {
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index ecfd7a7..a25e4f5 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -9,6 +9,7 @@ import (
 	"path/filepath"
 	"sort"
 	"strconv"
+	"strings"
 )
 
 var _types = map[build.BaseType]string{
@@ -85,39 +86,39 @@ func Build(file *ast.File, fSet *token.FileSet, param *build.Param) error {
 	}
 
 	if 0 < dst.data.GetCode().Len() {
-		err := writerFile(dst.data, filepath.Join(dir, name+".data.ts"))
+		err := writerFile(param, dst.data, filepath.Join(dir, name+".data.ts"))
 		if err != nil {
 			return err
 		}
 	}
 	if 0 < dst.enum.GetCode().Len() {
-		err = writerFile(dst.enum, filepath.Join(dir, name+".enum.ts"))
+		err = writerFile(param, dst.enum, filepath.Join(dir, name+".enum.ts"))
 		if err != nil {
 			return err
 		}
 	}
 	if 0 < dst.server.GetCode().Len() {
-		err = writerFile(dst.server, filepath.Join(dir, name+".server.ts"))
+		err = writerFile(param, dst.server, filepath.Join(dir, name+".server.ts"))
 		if err != nil {
 			return err
 		}
 	}
 	printLanguge(dst.ui.GetLangs(), dst.lang)
 	if 0 < dst.lang.GetCode().Len() {
-		err = writerFile(dst.lang, filepath.Join(dir, name+".lang.ts"))
+		err = writerFile(param, dst.lang, filepath.Join(dir, name+".lang.ts"))
 		if err != nil {
 			return err
 		}
 	}
 
 	if 0 < dst.ui.GetCode().Len() {
-		err = writerFile(dst.ui, filepath.Join(dir, name+".ui.tsx"))
+		err = writerFile(param, dst.ui, filepath.Join(dir, name+".ui.tsx"))
 		if err != nil {
 			return err
 		}
 	}
 	if 0 < dst.verify.GetCode().Len() {
-		err = writerFile(dst.verify, filepath.Join(dir, name+".verify.ts"))
+		err = writerFile(param, dst.verify, filepath.Join(dir, name+".verify.ts"))
 		if err != nil {
 			return err
 		}
@@ -157,17 +158,8 @@ func (b *Builder) GetDataType(file *ast.File, name string) *ast.Object {
 	return nil
 }
 
-func writerFile(data *build.Writer, out string) error {
-	fc, err := os.Create(out)
-	if err != nil {
-		return err
-	}
-	defer func(fc *os.File) {
-		err := fc.Close()
-		if err != nil {
-			print(err)
-		}
-	}(fc)
+func writerFile(param *build.Param, data *build.Writer, out string) error {
+	fc := &strings.Builder{}
 	if 0 < len(data.GetImports()) {
 		imps := make([]string, len(data.GetImports()))
 
@@ -185,7 +177,7 @@ func writerFile(data *build.Writer, out string) error {
 	_, _ = fc.WriteString("\n")
 
 	_, _ = fc.WriteString(data.GetCode().String())
-	return nil
+	return param.WriteFile(out, fc.String())
 }
 
 func (b *Builder) Node(dst *DartWriter, fset *token.FileSet, node interface{}) error {
-- 
2.43.0


From caa29211469fb6e1ef101a9e622813ffd0d25c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 023/103] fix: report schema files whose output files would
 overwrite each other

---
 pkg/build/build.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 202041c..0b65183 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -100,6 +100,10 @@ func (p *Param) GetPkg() *ast.Package {
 
 // WriteFile writes an output file of a schema file
 func (p *Param) WriteFile(out string, text string) error {
+	if _, ok := p.build.outputs[out]; ok {
+		return errors.New("Duplicate output file: " + out)
+	}
+	p.build.outputs[out] = void{}
 	return os.WriteFile(out, []byte(text), 0666)
 }
 
@@ -108,6 +112,8 @@ type Builder struct {
 	pkg   *ast.Package
 	build Function
 	param *Param
+
+	outputs map[string]void
 }
 
 func NewBuilder(build Function, param *Param) *Builder {
@@ -116,6 +122,8 @@ func NewBuilder(build Function, param *Param) *Builder {
 		pkg:   ast.NewPackage(),
 		build: build,
 		param: param,
+
+		outputs: map[string]void{},
 	}
 }
 
-- 
2.43.0


From 061945660ded789c7b64ee2d86b8aacd8324e17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:18 +0000
Subject: [PATCH 024/103] fix: use the generated Go name wherever a type,
 server or method is referred to

---
 pkg/golang/data.go   | 2 +-
 pkg/golang/gloang.go | 2 +-
 pkg/golang/server.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/golang/data.go b/pkg/golang/data.go
index ce3cf51..792bc80 100644
--- a/pkg/golang/data.go
+++ b/pkg/golang/data.go
@@ -117,7 +117,7 @@ func (b *Builder) printDefault(dst *build.Writer, expr ast.Expr) {
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			pack := b.getPackage(dst, expr)
-			dst.Code(pack + (expr.(*ast.Ident)).Name)
+			dst.Code(pack + build.StringToHumpName((expr.(*ast.Ident)).Name))
 			if t.Obj.Kind == ast.Enum {
 				dst.Code("(0)")
 			} else {
diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index feb1458..eba1b07 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -231,7 +231,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, b2 bool) {
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			pack := b.getPackage(dst, expr)
-			dst.Code(pack + (expr.(*ast.Ident)).Name)
+			dst.Code(pack + build.StringToHumpName((expr.(*ast.Ident)).Name))
 		} else {
 			if build.Date == build.BaseType((expr.(*ast.Ident)).Name) {
 				dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/hbuf", "")
diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 8c5df35..6204d8d 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -133,7 +133,7 @@ func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *bu
 		dst.Code("\terr := ")
 	}
 	dst.Code(pack)
-	dst.Code("Get").Code(bind.Server.Name.Name).Code("(ctx).").Code(bind.Method.Name.Name).Code("(ctx, &")
+	dst.Code("Get").Code(build.StringToHumpName(bind.Server.Name.Name)).Code("(ctx).").Code(build.StringToHumpName(bind.Method.Name.Name)).Code("(ctx, &")
 	dst.Code("req.")
 	b.printType(dst, bind.Method.Param.Type(), true)
 	dst.Code(")\n")
-- 
2.43.0


From 48c48e7e0638c6b33fba83cfee8f2a397358143c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 025/103] fix: generate usable Go packages and imports for
 dotted and reserved package names

---
 pkg/golang/gloang.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index eba1b07..3ffb7b3 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -33,6 +33,17 @@ var _typesDefaultValue = map[build.BaseType]string{
 	build.Decimal: "decimal.Zero",
 }
 
+// Names the generated code uses itself, so that an imported package must not be called by them
+var _usedNames = map[string]struct{}{
+	"json": {}, "context": {}, "sql": {}, "rand": {}, "time": {}, "regexp": {}, "utf8": {}, "decimal": {},
+	"hbuf": {}, "rpc": {}, "manage": {}, "erro": {}, "db": {}, "cache": {}, "utl": {},
+	"g": {}, "e": {}, "i": {}, "p": {}, "r": {}, "s": {}, "c": {}, "cv": {}, "val": {}, "ret": {}, "reps": {}, "req": {}, "err": {},
+	"buf": {}, "data": {}, "ctx": {}, "client": {}, "server": {}, "names": {}, "router": {}, "ok": {}, "match": {},
+	"tableName": {}, "key": {}, "list": {}, "rows": {}, "count": {}, "pointer": {},
+	"any": {}, "bool": {}, "byte": {}, "error": {}, "false": {}, "float32": {}, "float64": {}, "int": {}, "int8": {}, "int16": {},
+	"int32": {}, "int64": {}, "len": {}, "make": {}, "append": {}, "nil": {}, "string": {}, "true": {}, "uint8": {}, "uint16": {}, "uint32": {}, "init": {},
+}
+
 type GoWriter struct {
 	data     *build.Writer
 	enum     *build.Writer
@@ -141,7 +152,7 @@ func Build(file *ast.File, fSet *token.FileSet, param *build.Param) error {
 func (b *Builder) writerFile(param *build.Param, data *build.Writer, packages string, out string, i int) error {
 	fc := &strings.Builder{}
 
-	_, _ = fc.WriteString("package " + packages + "\n\n")
+	_, _ = fc.WriteString("package " + packages[strings.LastIndex(packages, ".")+1:] + "\n\n")
 
 	if 0 < len(data.GetImports()) {
 		_, _ = fc.WriteString("import (\n")
@@ -285,10 +296,18 @@ func (b *Builder) getPackage(dst *build.Writer, expr ast.Expr) string {
 	}
 
 	packs := strings.Split(pack, ".")
-	pack = packs[len(packs)-1]
+	name := packs[len(packs)-1]
+	alias := ""
+	if _, ok := _usedNames[name]; ok || 1 < len(packs) {
+		alias = strings.Join(packs, "_")
+		if _, ok := _usedNames[alias]; ok {
+			alias += "_pkg"
+		}
+		name = alias
+	}
 
-	dst.Import(b.packages+pack, "")
-	return pack + "."
+	dst.Import(b.packages+strings.Join(packs, "/"), alias)
+	return name + "."
 }
 
 func (b *Builder) getFile(name *ast.Ident) *ast.File {
-- 
2.43.0


From a28c712be011877bfe3384db206dddab86b1913f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:46 +0000
Subject: [PATCH 026/103] fix: name the request in generated Go clients and
 default servers as their bodies do

---
 pkg/golang/server.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 6204d8d..383a11b 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -1,6 +1,7 @@
 package golang
 
 import (
+	"go/token"
 	"hbuf/pkg/ast"
 	"hbuf/pkg/build"
 	"sort"
@@ -45,7 +46,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 
 		dst.Code("\t" + build.StringToHumpName(method.Name.Name))
 		dst.Code("(ctx context.Context, ")
-		dst.Code(build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(paramName(method.ParamName.Name))
 		dst.Code(" *")
 		b.printType(dst, method.Param, true)
 		dst.Code(") ")
@@ -60,6 +61,15 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("}\n\n")
 }
 
+// paramName returns the Go parameter name, which must not be a Go keyword or the name of the context
+func paramName(name string) string {
+	name = build.StringToFirstLower(name)
+	if token.IsKeyword(name) || "ctx" == name {
+		return name + "_"
+	}
+	return name
+}
+
 func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) error {
 	serverName := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
@@ -84,9 +94,7 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 
 		dst.Code("func (s *Default" + serverName + ") ")
 		dst.Code(build.StringToHumpName(method.Name.Name))
-		dst.Code("(ctx context.Context, ")
-		dst.Code(build.StringToFirstLower(method.ParamName.Name))
-		dst.Code(" *")
+		dst.Code("(ctx context.Context, req *")
 		b.printType(dst, method.Param, true)
 		if isSub {
 			dst.Code(") error {\n")
@@ -187,9 +195,7 @@ func (b *Builder) printClient(dst *build.Writer, typ *ast.ServerType) {
 
 		dst.Code("func (r *" + serverName + "Client) ")
 		dst.Code(build.StringToHumpName(method.Name.Name))
-		dst.Code("(ctx context.Context, ")
-		dst.Code(build.StringToFirstLower(method.ParamName.Name))
-		dst.Code(" *")
+		dst.Code("(ctx context.Context, req *")
 		b.printType(dst, method.Param, true)
 		dst.Code(") ")
 		if isMethod {
-- 
2.43.0


From ff30a9d35df87b356c4391a7ebfc0b1eb788512f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:49 +0000
Subject: [PATCH 027/103] fix: generate bound methods with the results and
 names their server declares

---
 pkg/build/build.go   |  2 +-
 pkg/golang/server.go | 83 +++++++++++++++++++++++++++++++++++---------
 pkg/golang/verify.go |  2 ++
 3 files changed, 69 insertions(+), 18 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 0b65183..f7995bf 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -165,7 +165,7 @@ func Build(out string, in string, typ string, pack string) error {
 			build: build,
 		})
 		if err != nil {
-			return err
+			return ErrorToFileError(err, build.fset)
 		}
 	}
 	return nil
diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 383a11b..87f34d4 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -90,8 +90,6 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 		}
 		isSub := method.Result.Type().(*ast.Ident).Name == "void"
 
-		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/erro", "")
-
 		dst.Code("func (s *Default" + serverName + ") ")
 		dst.Code(build.StringToHumpName(method.Name.Name))
 		dst.Code("(ctx context.Context, req *")
@@ -115,9 +113,13 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 				dst.Code("\treturn nil,")
 			}
 
+			dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/erro", "")
 			dst.Code(" erro.NewError(\"not find server " + build.StringToUnderlineName(typ.Name.Name) + "\")\n")
 		} else {
-			b.printBinding(dst, method, bind, isSub)
+			err := b.printBinding(dst, method, bind, isSub)
+			if nil != err {
+				return err
+			}
 		}
 		dst.Code("}\n\n")
 	}
@@ -125,14 +127,30 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 }
 
 func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *build.Binding, isSub bool) error {
-	verify, err := build.GetVerify(method.Param.Type().(*ast.Ident).Obj.Decl.(*ast.TypeSpec).Type.(*ast.DataType).Tags, dst.File, b.GetDataType)
-	if err != nil {
-		return err
+	param := b.getBindName(method.Param, bind.Method.Param)
+	if nil == param {
+		return build.NewError(method.Param.Pos(), "Not a parameter of the bound method: "+bind.Method.Name.Name)
+	}
+	if isSub != (bind.Method.Result.Type().(*ast.Ident).Name == "void") {
+		return build.NewError(method.Result.Pos(), "Not the result of the bound method: "+bind.Method.Name.Name)
 	}
-	if nil != verify {
+	var result *string
+	if !isSub {
+		result = b.getBindName(method.Result, bind.Method.Result)
+		if nil == result {
+			return build.NewError(method.Result.Pos(), "Not the result of the bound method: "+bind.Method.Name.Name)
+		}
+	}
+
+	if _, ok := build.GetTag(method.Param.Type().(*ast.Ident).Obj.Decl.(*ast.TypeSpec).Type.(*ast.DataType).Tags, "verify"); ok {
 		dst.Code("\tif err := req.Verify(ctx); err != nil {\n")
-		dst.Code("\t\treturn nil, erro.Wrap(err)\n")
+		if isSub {
+			dst.Code("\t\treturn erro.Wrap(err)\n")
+		} else {
+			dst.Code("\t\treturn nil, erro.Wrap(err)\n")
+		}
 		dst.Code("\t}\n")
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/erro", "")
 	}
 	pack := b.getPackage(dst, bind.Server.Name)
 	if !isSub {
@@ -141,27 +159,58 @@ func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *bu
 		dst.Code("\terr := ")
 	}
 	dst.Code(pack)
-	dst.Code("Get").Code(build.StringToHumpName(bind.Server.Name.Name)).Code("(ctx).").Code(build.StringToHumpName(bind.Method.Name.Name)).Code("(ctx, &")
-	dst.Code("req.")
-	b.printType(dst, bind.Method.Param.Type(), true)
+	dst.Code("Get").Code(build.StringToHumpName(bind.Server.Name.Name)).Code("(ctx).").Code(build.StringToHumpName(bind.Method.Name.Name)).Code("(ctx, ")
+	if 0 < len(*param) {
+		dst.Code("&req.").Code(*param)
+	} else {
+		dst.Code("req")
+	}
 	dst.Code(")\n")
 
 	dst.Code("\tif err != nil {\n")
-	dst.Code("\t\treturn nil, err\n")
+	if isSub {
+		dst.Code("\t\treturn err\n")
+	} else {
+		dst.Code("\t\treturn nil, err\n")
+	}
 	dst.Code("\t}\n")
 
 	dst.Code("\treturn ")
 	if !isSub {
-		dst.Code("&")
-		b.printType(dst, method.Result.Type(), true)
-		dst.Code("{")
-		b.printType(dst, bind.Method.Result.Type(), true)
-		dst.Code(": *reps}, ")
+		if 0 < len(*result) {
+			dst.Code("&")
+			b.printType(dst, method.Result.Type(), true)
+			dst.Code("{").Code(*result).Code(": *reps}, ")
+		} else {
+			dst.Code("reps, ")
+		}
 	}
 	dst.Code("nil\n")
 	return nil
 }
 
+// getBindName returns the name of the embedded part of typ that has the type of bind, an empty name if both
+// are the same type, or nil if typ does not extend the type of bind
+func (b *Builder) getBindName(typ *ast.VarType, bind *ast.VarType) *string {
+	t := typ.Type().(*ast.Ident)
+	obj := bind.Type().(*ast.Ident).Obj
+	name := ""
+	if t.Obj == obj {
+		return &name
+	}
+	data, ok := t.Obj.Decl.(*ast.TypeSpec).Type.(*ast.DataType)
+	if !ok {
+		return nil
+	}
+	for _, extend := range data.Extends {
+		if extend.Name.Obj == obj {
+			name = build.StringToHumpName(extend.Name.Name)
+			return &name
+		}
+	}
+	return nil
+}
+
 func (b *Builder) printClient(dst *build.Writer, typ *ast.ServerType) {
 	serverName := build.StringToHumpName(typ.Name.Name)
 	dst.Code("type " + serverName + "Client struct {\n")
diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index cec26bb..3bd9f35 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -39,6 +39,8 @@ func (b *Builder) GetDataType(file *ast.File, name string) *ast.Object {
 				return obj
 			case *ast.EnumType:
 				return obj
+			case *ast.ServerType:
+				return obj
 			}
 		}
 	}
-- 
2.43.0


From a8386dc1dc892f54a0a1cb66521072b81c698955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:40 +0000
Subject: [PATCH 028/103] fix: import what generated Go validation uses and
 nothing else, and compare with the declared bounds

---
 pkg/golang/verify.go | 48 +++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 25 deletions(-)

diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index 3bd9f35..de848a4 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -8,7 +8,6 @@ import (
 )
 
 func (b *Builder) printVerifyCode(dst *build.Writer, data *ast.DataType) error {
-	dst.Import("context", "")
 	err := b.printVerifyFieldCode(dst, data)
 	if err != nil {
 		return err
@@ -78,6 +77,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 			return nil
 		}
 
+		dst.Import("context", "")
 		dst.Code("func (i *" + dName + ") Verify" + fName + "(ctx context.Context) error {\n")
 
 		first := true
@@ -87,17 +87,21 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				continue
 			}
 
-			pack := b.getPackage(dst, val.Enum.Name) + build.StringToHumpName(val.Enum.Name.Name) + build.StringToHumpName(val.Item.Name.Name)
+			val := val
+			fail := func() {
+				pack := b.getPackage(dst, val.Enum.Name) + build.StringToHumpName(val.Enum.Name.Name) + build.StringToHumpName(val.Item.Name.Name)
+				dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
+				dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
+			}
 
 			if build.IsNil(field.Type) && 0 == i {
-				dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 				if !f.Null {
 					dst.Code("\tif nil == i." + fName)
 					if build.GetBaseType(field.Type) == build.String {
 						dst.Code(" || len(i.Get" + fName + "()) == 0")
 					}
 					dst.Code(" {\n")
-					dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
+					fail()
 					dst.Code("\t}\n")
 				} else {
 					dst.Code("\tif nil == i." + fName)
@@ -110,9 +114,8 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				}
 			}
 			if build.IsEnum(field.Type) {
-				dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 				dst.Code("\tif 0 == len(i.Get" + fName + "().ToName()) {\n")
-				dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
+				fail()
 				dst.Code("\t}\n")
 			} else if build.IsMap(field.Type) {
 
@@ -123,7 +126,6 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				switch t {
 				case build.Int8, build.Int16, build.Int32, build.Uint8, build.Uint16, build.Uint32, build.Float, build.Double:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
-						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
 							dst.Code(f.Min + " > i.Get" + fName + "() ")
@@ -135,36 +137,35 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							dst.Code(f.Max + " < i.Get" + fName + "() ")
 						}
 						dst.Code("{\n")
-						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
+						fail()
 						dst.Code("\t}\n")
 					}
 				case build.Uint64, build.Int64:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
-						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
-							dst.Code(f.Min + " > i.Get" + fName + "().Val ")
+							dst.Code(f.Min + " > i.Get" + fName + "() ")
 						}
 						if 0 < len(f.Max) {
 							if 0 < len(f.Min) {
 								dst.Code("|| ")
 							}
-							dst.Code(f.Max + " < i.Get" + fName + "().Val ")
+							dst.Code(f.Max + " < i.Get" + fName + "() ")
 						}
 						dst.Code("{\n")
-						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
+						fail()
 						dst.Code("\t}\n")
 					}
 				case build.Date:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
-						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
+						dst.Import("time", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
 							parse, err := time.Parse("2006-01-02T15:04:05Z", f.Min)
 							if err != nil {
 								return err
 							}
-							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " > i.Get" + fName + "().UnixMilli() ")
+							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " > time.Time(i.Get" + fName + "()).UnixMilli() ")
 						}
 						if 0 < len(f.Max) {
 							if 0 < len(f.Min) {
@@ -174,15 +175,15 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							if err != nil {
 								return err
 							}
-							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " < i.Get" + fName + "().UnixMilli() ")
+							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " < time.Time(i.Get" + fName + "()).UnixMilli() ")
 						}
 						dst.Code("{ //" + f.Min + "--" + f.Max + "\n")
-						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
+						fail()
 						dst.Code("\t}\n")
 					}
 				case build.Decimal:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
-						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
+						dst.Import("github.com/shopspring/decimal", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
 							dst.Code("decimal.NewFromFloat(" + f.Min + ").GreaterThan(i.Get" + fName + "()) ")
@@ -191,15 +192,13 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							if 0 < len(f.Min) {
 								dst.Code("|| ")
 							}
-							dst.Code("decimal.NewFromFloat(" + f.Min + ").LessThan(i.Get" + fName + "()) ")
+							dst.Code("decimal.NewFromFloat(" + f.Max + ").LessThan(i.Get" + fName + "()) ")
 						}
 						dst.Code("{\n")
-						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
+						fail()
 						dst.Code("\t}\n")
 					}
 				case build.String:
-					dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
-					pack := b.getPackage(dst, val.Enum.Name) + build.StringToHumpName(val.Enum.Name.Name) + build.StringToHumpName(val.Item.Name.Name)
 					if 0 < len(f.Min) || 0 < len(f.Max) {
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
@@ -214,7 +213,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							dst.Code(f.Max + " < utf8.RuneCountInString(i.Get" + fName + "()) ")
 						}
 						dst.Code("{\n")
-						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
+						fail()
 						dst.Code("\t}\n")
 					}
 					if 0 < len(f.Reg) {
@@ -228,7 +227,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						dst.Code("\t\treturn err\n")
 						dst.Code("\t}\n")
 						dst.Code("\tif !match {\n")
-						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
+						fail()
 						dst.Code("\t}\n")
 						first = false
 					}
@@ -248,8 +247,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 
 func (b *Builder) printVerifyDataCode(dst *build.Writer, data *ast.DataType) error {
 	dName := build.StringToHumpName(data.Name.Name)
-	b.getPackage(dst, data.Name)
-
+	dst.Import("context", "")
 	dst.Code("func (i *" + dName + ") Verify(ctx context.Context) error {\n")
 
 	isErr := true
-- 
2.43.0


From 7c0e7c0f9f5266d8b890d51a25947c2b143ff262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:41 +0000
Subject: [PATCH 029/103] fix: take the pattern of a raw string as it is
 written

---
 pkg/build/format.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/build/format.go b/pkg/build/format.go
index 610f864..84ab967 100644
--- a/pkg/build/format.go
+++ b/pkg/build/format.go
@@ -2,6 +2,7 @@ package build
 
 import (
 	"hbuf/pkg/ast"
+	"strconv"
 )
 
 type Format struct {
@@ -25,6 +26,10 @@ func GetFormat(tags []*ast.Tag) *Format {
 				f.Null = "true" == item.Values[0].Value[1:len(item.Values[0].Value)-1]
 			} else if "reg" == item.Name.Name {
 				f.Reg = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+				if '`' == item.Values[0].Value[0] {
+					f.Reg = strconv.Quote(f.Reg)
+					f.Reg = f.Reg[1 : len(f.Reg)-1]
+				}
 			} else if "min" == item.Name.Name {
 				f.Min = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
 			} else if "max" == item.Name.Name {
-- 
2.43.0


From ce91e7ef4851785538d8d607fb8eef406f0f83df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 030/103] fix: look up the rules of an inherited field in the
 file that declares it

---
 pkg/golang/verify.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index de848a4..c18d60e 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -69,7 +69,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 	err := build.EnumField(data, func(field *ast.Field, data *ast.DataType) error {
 		fName := build.StringToHumpName(field.Name.Name)
 
-		verify, err := build.GetVerify(field.Tags, dst.File, b.GetDataType)
+		verify, err := build.GetVerify(field.Tags, b.getFile(data.Name), b.GetDataType)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 44fa411bdaaed07798bbace7a67db4c73cac5f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 031/103] fix: keep every line of a documentation comment
 inside the generated comment

---
 pkg/build/build.go       |  6 ++++++
 pkg/dart/data.go         |  6 +++---
 pkg/dart/enum.go         |  4 ++--
 pkg/dart/server.go       |  4 ++--
 pkg/golang/data.go       |  6 +++---
 pkg/golang/enum.go       |  4 ++--
 pkg/golang/server.go     | 10 +++++-----
 pkg/java/data.go         |  6 +++---
 pkg/java/enum.go         |  4 ++--
 pkg/java/server.go       |  4 ++--
 pkg/typescript/data.go   |  4 ++--
 pkg/typescript/enum.go   |  4 ++--
 pkg/typescript/server.go |  6 +++---
 13 files changed, 37 insertions(+), 31 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index f7995bf..f50f649 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -525,6 +525,12 @@ func CheckSuperMethod(name string, typ *ast.ServerType) bool {
 	return false
 }
 
+// DocText returns the text of a comment, with every line but the first after the prefix
+func DocText(doc *ast.CommentGroup, prefix string) string {
+	text := strings.NewReplacer("\u2028", " ", "\u2029", " ", "\r", " ").Replace(doc.Text())
+	return strings.ReplaceAll(strings.TrimSuffix(text, "\n"), "\n", "\n"+prefix) + "\n"
+}
+
 // StringToHumpName 转驼峰名
 func StringToHumpName(val string) string {
 	if 0 == len(val) {
diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index 792e74a..2328086 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -15,7 +15,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 }
 func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + build.DocText(typ.Doc, "///"))
 	}
 	dst.Code("abstract class " + build.StringToHumpName(typ.Name.Name) + " implements Data")
 	if nil != typ.Extends {
@@ -24,7 +24,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	dst.Code("{\n")
 	for _, field := range typ.Fields.List {
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t/// Get " + field.Doc.Text())
+			dst.Code("\t/// Get " + build.DocText(field.Doc, "\t/// "))
 		}
 		isSuper := build.CheckSuperField(field.Name.Name, typ)
 		if isSuper {
@@ -36,7 +36,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 		dst.Code(";\n\n")
 
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t/// Set " + field.Doc.Text())
+			dst.Code("\t/// Set " + build.DocText(field.Doc, "\t/// "))
 		}
 		if isSuper {
 			dst.Code("\t@override\n")
diff --git a/pkg/dart/enum.go b/pkg/dart/enum.go
index 9b1fec7..5bbb24e 100644
--- a/pkg/dart/enum.go
+++ b/pkg/dart/enum.go
@@ -18,7 +18,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 		b.getPackage(dst, typ.Name, "ui")
 	}
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + build.DocText(typ.Doc, "///"))
 	}
 	dst.Code("class " + enumName)
 	dst.Code("{\n")
@@ -57,7 +57,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 
 	for _, item := range typ.Items {
 		if nil != item.Doc && 0 < len(item.Doc.Text()) {
-			dst.Code("\t///" + item.Doc.Text())
+			dst.Code("\t///" + build.DocText(item.Doc, "\t///"))
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
 		dst.Code("\tstatic final " + itemName + " = " + enumName + "._(" + item.Id.Value + ", '" + build.StringToHumpName(item.Name.Name) + "'")
diff --git a/pkg/dart/server.go b/pkg/dart/server.go
index 87cba6a..c08e33f 100644
--- a/pkg/dart/server.go
+++ b/pkg/dart/server.go
@@ -18,7 +18,7 @@ func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) {
 
 func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + build.DocText(typ.Doc, "///"))
 	}
 	dst.Code("abstract class " + build.StringToHumpName(typ.Name.Name))
 	if nil != typ.Extends {
@@ -28,7 +28,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("{\n")
 	for _, method := range typ.Methods {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("///" + method.Doc.Text())
+			dst.Code("///" + build.DocText(method.Doc, "///"))
 		}
 		if build.CheckSuperMethod(method.Name.Name, typ) {
 			dst.Code("  @override\n")
diff --git a/pkg/golang/data.go b/pkg/golang/data.go
index 792bc80..0f83fde 100644
--- a/pkg/golang/data.go
+++ b/pkg/golang/data.go
@@ -17,7 +17,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 	dst.Import("encoding/json", "")
 	name := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("// " + name + " " + typ.Doc.Text())
+		dst.Code("// " + name + " " + build.DocText(typ.Doc, "// "))
 	}
 	dst.Code("type " + name + " struct")
 	dst.Code(" {\n")
@@ -78,7 +78,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 
 	for _, field := range typ.Fields.List {
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("// Get" + build.StringToHumpName(field.Name.Name) + " Get " + field.Doc.Text())
+			dst.Code("// Get" + build.StringToHumpName(field.Name.Name) + " Get " + build.DocText(field.Doc, "// "))
 		}
 		dst.Code("func (g *" + build.StringToHumpName(typ.Name.Name) + ") Get" + build.StringToHumpName(field.Name.Name) + "() ")
 		b.printType(dst, field.Type, false)
@@ -96,7 +96,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 		dst.Code("}\n\n")
 
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("// Set" + build.StringToHumpName(field.Name.Name) + " Set " + field.Doc.Text())
+			dst.Code("// Set" + build.StringToHumpName(field.Name.Name) + " Set " + build.DocText(field.Doc, "// "))
 		}
 		dst.Code("func (g *" + build.StringToHumpName(typ.Name.Name) + ") Set" + build.StringToHumpName(field.Name.Name) + "(val ")
 		b.printType(dst, field.Type, false)
diff --git a/pkg/golang/enum.go b/pkg/golang/enum.go
index 2611abc..32bac28 100644
--- a/pkg/golang/enum.go
+++ b/pkg/golang/enum.go
@@ -9,7 +9,7 @@ import (
 func printEnumCode(dst *build.Writer, typ *ast.EnumType) {
 	name := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("// " + name + " " + typ.Doc.Text())
+		dst.Code("// " + name + " " + build.DocText(typ.Doc, "// "))
 	}
 	maxLen := 0
 	dst.Code("type " + name + " int\n\n")
@@ -20,7 +20,7 @@ func printEnumCode(dst *build.Writer, typ *ast.EnumType) {
 			maxLen = l
 		}
 		if nil != item.Doc && 0 < len(item.Doc.Text()) {
-			dst.Code("// " + name + itemName + " " + item.Doc.Text())
+			dst.Code("// " + name + itemName + " " + build.DocText(item.Doc, "// "))
 		}
 		dst.Code("const " + name + itemName + " " + name + " = " + item.Id.Value + "\n\n")
 	}
diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 87f34d4..0704691 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -26,7 +26,7 @@ func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) error
 func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	serverName := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("// " + build.StringToHumpName(serverName) + " " + typ.Doc.Text())
+		dst.Code("// " + build.StringToHumpName(serverName) + " " + build.DocText(typ.Doc, "// "))
 	}
 	dst.Code("type " + serverName)
 	dst.Code(" interface {\n")
@@ -40,7 +40,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 		}
 		isFast = false
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("\t//" + build.StringToHumpName(method.Name.Name) + " " + method.Doc.Text())
+			dst.Code("\t//" + build.StringToHumpName(method.Name.Name) + " " + build.DocText(method.Doc, "\t// "))
 		}
 		isMethod := method.Result.Type().(*ast.Ident).Name == "void"
 
@@ -73,7 +73,7 @@ func paramName(name string) string {
 func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) error {
 	serverName := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("// " + build.StringToHumpName(serverName) + " " + typ.Doc.Text())
+		dst.Code("// " + build.StringToHumpName(serverName) + " " + build.DocText(typ.Doc, "// "))
 	}
 	dst.Code("type Default" + serverName)
 	dst.Code(" struct {\n")
@@ -86,7 +86,7 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 
 	for _, method := range typ.Methods {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("// " + build.StringToHumpName(method.Name.Name) + " " + method.Doc.Text())
+			dst.Code("// " + build.StringToHumpName(method.Name.Name) + " " + build.DocText(method.Doc, "// "))
 		}
 		isSub := method.Result.Type().(*ast.Ident).Name == "void"
 
@@ -236,7 +236,7 @@ func (b *Builder) printClient(dst *build.Writer, typ *ast.ServerType) {
 	name := build.StringToUnderlineName(typ.Name.Name)
 	err := build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("// " + build.StringToHumpName(method.Name.Name) + " " + method.Doc.Text())
+			dst.Code("// " + build.StringToHumpName(method.Name.Name) + " " + build.DocText(method.Doc, "// "))
 		}
 		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/hbuf", "")
 
diff --git a/pkg/java/data.go b/pkg/java/data.go
index 2ca61f9..5ddf849 100644
--- a/pkg/java/data.go
+++ b/pkg/java/data.go
@@ -14,7 +14,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 
 func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + build.DocText(typ.Doc, "///"))
 	}
 	dst.Code("\tinterface " + build.StringToHumpName(typ.Name.Name) + " extends Data")
 	if nil != typ.Extends {
@@ -23,7 +23,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	dst.Code(" {\n")
 	for _, field := range typ.Fields.List {
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t/// Get " + field.Doc.Text())
+			dst.Code("\t/// Get " + build.DocText(field.Doc, "\t/// "))
 		}
 		isSuper := build.CheckSuperField(field.Name.Name, typ)
 		if isSuper {
@@ -35,7 +35,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 		dst.Code("();\n\n")
 
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t/// Set " + field.Doc.Text())
+			dst.Code("\t/// Set " + build.DocText(field.Doc, "\t/// "))
 		}
 		if isSuper {
 			dst.Code("\t@override\n")
diff --git a/pkg/java/enum.go b/pkg/java/enum.go
index 09a1027..3524949 100644
--- a/pkg/java/enum.go
+++ b/pkg/java/enum.go
@@ -16,7 +16,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 		b.getPackage(dst, typ.Name, "ui")
 	}
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + build.DocText(typ.Doc, "///"))
 	}
 	dst.Code("\tclass " + enumName)
 	dst.Code("\t{\n")
@@ -61,7 +61,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 
 	for _, item := range typ.Items {
 		if nil != item.Doc && 0 < len(item.Doc.Text()) {
-			dst.Code("///" + item.Doc.Text())
+			dst.Code("///" + build.DocText(item.Doc, "///"))
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
 		dst.Code("\t\tstatic final " + enumName + " " + itemName + " = new " + enumName + "(" + item.Id.Value + ", \"" + itemName + "\"")
diff --git a/pkg/java/server.go b/pkg/java/server.go
index 38627c8..eadf612 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -18,7 +18,7 @@ func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) {
 
 func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + build.DocText(typ.Doc, "///"))
 	}
 	dst.Code("\tinterface " + build.StringToHumpName(typ.Name.Name))
 	if nil != typ.Extends {
@@ -28,7 +28,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("{\n")
 	for _, method := range typ.Methods {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("///" + method.Doc.Text())
+			dst.Code("///" + build.DocText(method.Doc, "///"))
 		}
 		if build.CheckSuperMethod(method.Name.Name, typ) {
 			dst.Code("\t@override\n")
diff --git a/pkg/typescript/data.go b/pkg/typescript/data.go
index 58c91d5..7776400 100644
--- a/pkg/typescript/data.go
+++ b/pkg/typescript/data.go
@@ -13,7 +13,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 
 func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + build.DocText(typ.Doc, "///"))
 	}
 	dst.Code("export class " + build.StringToHumpName(typ.Name.Name) + " implements h.Data")
 	if nil != typ.Extends {
@@ -22,7 +22,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	dst.Code(" {\n")
 	err := build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t///" + field.Doc.Text())
+			dst.Code("\t///" + build.DocText(field.Doc, "\t///"))
 		}
 		dst.Code("\t")
 		dst.Code(build.StringToFirstLower(field.Name.Name) + ": ")
diff --git a/pkg/typescript/enum.go b/pkg/typescript/enum.go
index f3134ae..2be1d6f 100644
--- a/pkg/typescript/enum.go
+++ b/pkg/typescript/enum.go
@@ -12,7 +12,7 @@ func (b *Builder) printEnumCode(dst *build.Writer, typ *ast.EnumType) {
 func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	enumName := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + build.DocText(typ.Doc, "///"))
 	}
 	dst.Code("export class " + enumName)
 	dst.Code("{\n")
@@ -44,7 +44,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 
 	for _, item := range typ.Items {
 		if nil != item.Doc && 0 < len(item.Doc.Text()) {
-			dst.Code("\t///" + item.Doc.Text())
+			dst.Code("\t///" + build.DocText(item.Doc, "\t///"))
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
 		dst.Code("\tpublic static readonly " + itemName + " = new " + enumName + "(")
diff --git a/pkg/typescript/server.go b/pkg/typescript/server.go
index d41599b..8d73a06 100644
--- a/pkg/typescript/server.go
+++ b/pkg/typescript/server.go
@@ -16,7 +16,7 @@ func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) {
 
 func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + build.DocText(typ.Doc, "///"))
 	}
 	dst.Code("export interface " + build.StringToHumpName(typ.Name.Name))
 	if nil != typ.Extends {
@@ -26,7 +26,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code(" {\n")
 	for _, method := range typ.Methods {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("\t//" + method.Doc.Text())
+			dst.Code("\t//" + build.DocText(method.Doc, "\t// "))
 		}
 		isMethod := method.Result.Type().(*ast.Ident).Name == "void"
 
@@ -69,7 +69,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 
 	_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("\t//" + method.Doc.Text())
+			dst.Code("\t//" + build.DocText(method.Doc, "\t// "))
 		}
 		isMethod := method.Result.Type().(*ast.Ident).Name == "void"
 
-- 
2.43.0


From e8c4025fcc5a83bd64b796108a51f4758c5866e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 032/103] fix: import what generated database functions use and
 nothing else

---
 pkg/golang/database.go | 73 +++++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 36 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 343f8d7..7921bee 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -14,6 +14,29 @@ type cache struct {
 	max int
 }
 
+// importDb imports what every database function uses
+func (b *Builder) importDb(dst *build.Writer, isCache bool) {
+	dst.Import("context", "")
+	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
+	if isCache {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
+	}
+}
+
+func (b *Builder) printDuration(dst *build.Writer, c *cache) {
+	if 0 >= c.min {
+		dst.Code("0")
+		return
+	}
+	dst.Import("time", "")
+	if c.min >= c.max {
+		dst.Code(strconv.Itoa(c.min) + "*time.Second")
+		return
+	}
+	dst.Import("math/rand", "")
+	dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + ")+" + strconv.Itoa(c.min) + ")*time.Second")
+}
+
 func getCache(name string, tags []*ast.Tag) *cache {
 	val, ok := build.GetTag(tags, "cache")
 	if !ok {
@@ -47,9 +70,6 @@ func getCache(name string, tags []*ast.Tag) *cache {
 }
 
 func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error {
-	dst.Import("context", "")
-	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
-
 	dbs, wFields, key, err := b.getDBField(typ)
 	if 0 == len(dbs) || nil != err {
 		return nil
@@ -465,6 +485,7 @@ func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string
 	dst.AddImports(w.GetImports())
 
 	item, scan, _ := b.getItemAndValue(fields, key)
+	b.importDb(dst, nil != c)
 	dst.Code("func (g " + fName + ") DbList(ctx context.Context) ([]" + dName + ", error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	dst.Code("\ts := db.NewSql()\n")
@@ -478,7 +499,6 @@ func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string
 
 	dst.Code("\tret := make([]" + dName + ", 0)\n")
 	if nil != c {
-		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\tlist, key, _ := cache.DbGet(ctx, \"\", tableName, s, &ret)\n")
 		dst.Code("\tif list != nil {\n")
 		dst.Code("\t\treturn *list, nil\n")
@@ -498,14 +518,8 @@ func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string
 	dst.Code("\t}\n")
 
 	if nil != c {
-		dst.Import("math/rand", "")
-		dst.Import("time", "")
 		dst.Code("\t_, _ = cache.DbSet(ctx, key, tableName, s, &ret, ")
-		if 0 < c.min {
-			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + ")+" + strconv.Itoa(c.min) + ")*time.Second")
-		} else {
-			dst.Code("0")
-		}
+		b.printDuration(dst, c)
 		dst.Code(")\n")
 		dst.Code("\tdefer cache.DbUnlock(ctx, tableName)\n")
 	}
@@ -532,6 +546,7 @@ func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType,
 	dst.AddImports(KName.GetImports())
 
 	item, scan, _ := b.getItemAndValue(fields, key)
+	b.importDb(dst, nil != c)
 	dst.Code("func (g " + fName + ") DbMap(ctx context.Context) (map[" + kType.String() + "]" + dName + ", error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	dst.Code("\ts := db.NewSql()\n")
@@ -545,7 +560,6 @@ func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType,
 
 	dst.Code("\tret := make(map[" + kType.String() + "]" + dName + ")\n")
 	if nil != c {
-		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\tlist, key, _ := cache.DbGet(ctx, \"\", tableName, s, &ret)\n")
 		dst.Code("\tif list != nil {\n")
 		dst.Code("\t\treturn *list, nil\n")
@@ -565,14 +579,8 @@ func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType,
 	dst.Code("\t}\n")
 
 	if nil != c {
-		dst.Import("math/rand", "")
-		dst.Import("time", "")
 		dst.Code("\t_, _ = cache.DbSet(ctx, key, tableName, s, &ret, ")
-		if 0 < c.min {
-			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + ")+" + strconv.Itoa(c.min) + ")*time.Second")
-		} else {
-			dst.Code("0")
-		}
+		b.printDuration(dst, c)
 		dst.Code(")\n")
 		dst.Code("\tdefer cache.DbUnlock(ctx, tableName)\n")
 	}
@@ -587,6 +595,7 @@ func (b *Builder) printCountData(dst *build.Writer, typ *ast.DataType, db *build
 	w := b.getParamWhere(dst, wFields, false, false, true)
 	dst.AddImports(w.GetImports())
 
+	b.importDb(dst, nil != c)
 	dst.Code("func (g " + fName + ") DbCount(ctx context.Context) (int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	dst.Code("\ts := db.NewSql()\n")
@@ -614,14 +623,8 @@ func (b *Builder) printCountData(dst *build.Writer, typ *ast.DataType, db *build
 	dst.Code("\t}\n")
 
 	if nil != c {
-		dst.Import("math/rand", "")
-		dst.Import("time", "")
 		dst.Code("\t_, _ = cache.DbSet(ctx, key, tableName, s, &count, ")
-		if 0 < c.min {
-			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + ")+" + strconv.Itoa(c.min) + ")*time.Second")
-		} else {
-			dst.Code("0")
-		}
+		b.printDuration(dst, c)
 		dst.Code(")\n")
 		dst.Code("\tdefer cache.DbUnlock(ctx, tableName)\n")
 	}
@@ -636,6 +639,7 @@ func (b *Builder) printDeleteData(dst *build.Writer, db *build.DB, wFields []*bu
 	w := b.getParamWhere(dst, wFields, true, false, false)
 	dst.AddImports(w.GetImports())
 
+	b.importDb(dst, isCache)
 	dst.Code("func (g " + fName + ") DbDel(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if isCache {
@@ -664,6 +668,7 @@ func (b *Builder) printRemoveData(dst *build.Writer, db *build.DB, wFields []*bu
 	w := b.getParamWhere(dst, wFields, true, false, false)
 	dst.AddImports(w.GetImports())
 
+	b.importDb(dst, isCache)
 	dst.Code("func (g " + fName + ") DbRemove(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if isCache {
@@ -687,9 +692,8 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 	if typ != fType {
 		val = "parent"
 	}
-	w := b.getParamWhere(dst, wFields, false, false, false)
-	dst.AddImports(w.GetImports())
 
+	b.importDb(dst, nil != c)
 	dst.Code("func (g " + fName + ") DbInsert(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if nil != c {
@@ -712,6 +716,7 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 
 func (b *Builder) printInsertListData(dst *build.Writer, typ *ast.DataType, db *build.DB, fields []*build.DBField, key *build.DBField, isCache bool) {
 	name := build.StringToHumpName(typ.Name.Name)
+	b.importDb(dst, isCache)
 	dst.Code("func (g " + name + ") DbInsertList(ctx context.Context, val []*" + name + ") (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	dst.Code("\tif nil == val || 0 == len(val) {\n")
@@ -763,6 +768,7 @@ func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key stri
 	w := b.getParamWhere(dst, fields, false, false, false)
 	dst.AddImports(w.GetImports())
 
+	b.importDb(dst, nil != c)
 	dst.Code("func (g " + fName + ") DbUpdate(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if nil != c {
@@ -795,6 +801,7 @@ func (b *Builder) printSetData(dst *build.Writer, typ *ast.DataType, key string,
 	w := b.getParamWhere(dst, wFields, false, false, false)
 	dst.AddImports(w.GetImports())
 
+	b.importDb(dst, nil != c)
 	dst.Code("func (g " + fName + ") DbSet(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if nil != c {
@@ -865,6 +872,7 @@ func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string,
 
 	item, scan, _ := b.getItemAndValue(fields, key)
 
+	b.importDb(dst, nil != c)
 	dst.Code("func (g " + fName + ") DbGet(ctx context.Context) (*" + dName + ", error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	dst.Code("\ts := db.NewSql()\n")
@@ -879,7 +887,6 @@ func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string,
 	dst.Code("\tvar val *" + dName + "\n")
 
 	if nil != c {
-		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\tcv, key, _ := cache.DbGet(ctx, \"\", tableName, s, &val)\n")
 		dst.Code("\tif cv != nil {\n")
 		dst.Code("\t\treturn *cv, nil\n")
@@ -894,14 +901,8 @@ func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string,
 	dst.Code("\t\treturn nil, err\n")
 	dst.Code("\t}\n")
 	if nil != c {
-		dst.Import("math/rand", "")
-		dst.Import("time", "")
 		dst.Code("\t_, _ = cache.DbSet(ctx, key, tableName, s, &val, ")
-		if 0 < c.min {
-			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + ")+" + strconv.Itoa(c.min) + ")*time.Second")
-		} else {
-			dst.Code("0")
-		}
+		b.printDuration(dst, c)
 		dst.Code(")\n")
 		dst.Code("\tdefer cache.DbUnlock(ctx, tableName)\n")
 	}
-- 
2.43.0


From eee24a5c70d81f99b9409003d6e64bbe847d1ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:55 +0000
Subject: [PATCH 033/103] fix: restrict operations on one row by the declared
 key column

---
 pkg/golang/database.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 7921bee..030e1c7 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -140,7 +140,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 	if fDbs[0].Del {
 		w := wFields
 		if typ == fType {
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
 		b.printDeleteData(dst, dbs[0], w, fType, nil != c)
@@ -149,7 +149,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 	if fDbs[0].Remove {
 		w := wFields
 		if typ == fType {
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
 		b.printRemoveData(dst, dbs[0], w, fType, nil != c)
@@ -182,7 +182,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			f = wFields
 		}
 		if typ == fType {
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
 		b.printUpdateData(dst, typ, val, dbs[0], w, f, fType, c)
@@ -196,7 +196,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			f = wFields
 		}
 		if typ == fType {
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
 		b.printSetData(dst, typ, val, dbs[0], w, f, fType, c)
@@ -210,7 +210,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			f = wFields
 		}
 		if typ == fType {
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			key.Dbs[0].DefaultWhere = true
 			w = []*build.DBField{key}
 		}
-- 
2.43.0


From 46c3095fc90ad7a674a85423618ba52b8c26b11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:56 +0000
Subject: [PATCH 034/103] fix: never update or delete every row when the key is
 not set

---
 pkg/golang/database.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 030e1c7..a0578be 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -141,6 +141,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 		w := wFields
 		if typ == fType {
 			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
+			key.Dbs[0].DefaultWhere = true
 			w = []*build.DBField{key}
 		}
 		b.printDeleteData(dst, dbs[0], w, fType, nil != c)
@@ -150,6 +151,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 		w := wFields
 		if typ == fType {
 			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
+			key.Dbs[0].DefaultWhere = true
 			w = []*build.DBField{key}
 		}
 		b.printRemoveData(dst, dbs[0], w, fType, nil != c)
@@ -183,6 +185,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 		}
 		if typ == fType {
 			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
+			key.Dbs[0].DefaultWhere = true
 			w = []*build.DBField{key}
 		}
 		b.printUpdateData(dst, typ, val, dbs[0], w, f, fType, c)
@@ -197,6 +200,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 		}
 		if typ == fType {
 			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
+			key.Dbs[0].DefaultWhere = true
 			w = []*build.DBField{key}
 		}
 		b.printSetData(dst, typ, val, dbs[0], w, f, fType, c)
@@ -308,7 +312,7 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 		fieldName := build.StringToHumpName(field.Field.Name.Name)
 		for i, item := range text {
 			if 1 == len(text) || !build.IsArray(field.Field.Type) {
-				if build.IsNil(field.Field.Type) {
+				if build.IsNil(field.Field.Type) && !field.Dbs[0].DefaultWhere {
 					if build.IsArray(field.Field.Type) {
 						where.Code("\tif 0 < len(g." + fieldName + ") {\n")
 					} else {
-- 
2.43.0


From cf6d1692b934c5886a5bfc35a0a3d0dfc4ea951a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:57 +0000
Subject: [PATCH 035/103] fix: restrict an update by its own conditions

---
 pkg/golang/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index a0578be..079fa17 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -769,7 +769,7 @@ func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key stri
 	if typ != fType {
 		key = "parent"
 	}
-	w := b.getParamWhere(dst, fields, false, false, false)
+	w := b.getParamWhere(dst, wFields, false, false, false)
 	dst.AddImports(w.GetImports())
 
 	b.importDb(dst, nil != c)
-- 
2.43.0


From 120804ed75cc8fe8f226b086ce1f6a2edfdf544b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:00 +0000
Subject: [PATCH 036/103] fix: return the rows of lists and maps as the
 declared type, with the declared key

---
 pkg/build/database.go  | 2 +-
 pkg/golang/database.go | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/build/database.go b/pkg/build/database.go
index 925bb8d..cdc3812 100644
--- a/pkg/build/database.go
+++ b/pkg/build/database.go
@@ -96,7 +96,7 @@ func GetDB(n string, tag []*ast.Tag) []*DB {
 					} else if "list" == item.Name.Name {
 						db.List = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
 					} else if "map" == item.Name.Name {
-						db.Map = strings.ToLower(item.Values[0].Value[1 : len(item.Values[0].Value)-1])
+						db.Map = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
 					} else if "table" == item.Name.Name {
 						db.Table = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
 					} else if "set" == item.Name.Name {
diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 079fa17..eb5604a 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -480,10 +480,12 @@ func (b *Builder) printParam(buf *build.Writer, text string, self *build.DBField
 func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) {
 	fName := build.StringToHumpName(fType.Name.Name)
 	dName := build.StringToHumpName(typ.Name.Name)
-	if typ != fType {
+	if typ == fType {
 		key = "self"
 	} else if "self" == key {
 		dName = fName
+	} else {
+		key = "self"
 	}
 	w := b.getParamWhere(dst, wFields, true, true, true)
 	dst.AddImports(w.GetImports())
@@ -539,10 +541,12 @@ func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType,
 	}
 	fName := build.StringToHumpName(fType.Name.Name)
 	dName := build.StringToHumpName(typ.Name.Name)
-	if typ != fType {
+	if typ == fType {
 		key = "self"
 	} else if "self" == key {
 		dName = fName
+	} else {
+		key = "self"
 	}
 	w := b.getParamWhere(dst, wFields, true, true, true)
 	dst.AddImports(w.GetImports())
-- 
2.43.0


From e22dacc3c08f3991b9426897904049b30e5fa91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:34 +0000
Subject: [PATCH 037/103] fix: refer to the row type of another type's table by
 its own name and package

---
 pkg/golang/database.go | 47 +++++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index eb5604a..64d3593 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -173,7 +173,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 		if "self" == val {
 			f = wFields
 		}
-		b.printInsertListData(dst, typ, dbs[0], f, key, nil != c)
+		b.printInsertListData(dst, typ, val, dbs[0], f, fType, nil != c)
 	}
 
 	val = strings.ToLower(fDbs[0].Update)
@@ -477,16 +477,18 @@ func (b *Builder) printParam(buf *build.Writer, text string, self *build.DBField
 	return nil
 }
 
+// getDataName returns the type of the rows: the type itself, or the type of its table
+func (b *Builder) getDataName(dst *build.Writer, typ *ast.DataType, fType *ast.DataType, key string) string {
+	if "self" == key {
+		typ = fType
+	}
+	return b.getPackage(dst, typ.Name) + build.StringToHumpName(typ.Name.Name)
+}
+
 func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) {
 	fName := build.StringToHumpName(fType.Name.Name)
-	dName := build.StringToHumpName(typ.Name.Name)
-	if typ == fType {
-		key = "self"
-	} else if "self" == key {
-		dName = fName
-	} else {
-		key = "self"
-	}
+	dName := b.getDataName(dst, typ, fType, key)
+	key = "self"
 	w := b.getParamWhere(dst, wFields, true, true, true)
 	dst.AddImports(w.GetImports())
 
@@ -540,14 +542,8 @@ func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType,
 		return
 	}
 	fName := build.StringToHumpName(fType.Name.Name)
-	dName := build.StringToHumpName(typ.Name.Name)
-	if typ == fType {
-		key = "self"
-	} else if "self" == key {
-		dName = fName
-	} else {
-		key = "self"
-	}
+	dName := b.getDataName(dst, typ, fType, key)
+	key = "self"
 	w := b.getParamWhere(dst, wFields, true, true, true)
 	dst.AddImports(w.GetImports())
 	dst.AddImports(kType.GetImports())
@@ -722,10 +718,11 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 	dst.Code("}\n\n")
 }
 
-func (b *Builder) printInsertListData(dst *build.Writer, typ *ast.DataType, db *build.DB, fields []*build.DBField, key *build.DBField, isCache bool) {
-	name := build.StringToHumpName(typ.Name.Name)
+func (b *Builder) printInsertListData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, fields []*build.DBField, fType *ast.DataType, isCache bool) {
+	fName := build.StringToHumpName(fType.Name.Name)
+	dName := b.getDataName(dst, typ, fType, key)
 	b.importDb(dst, isCache)
-	dst.Code("func (g " + name + ") DbInsertList(ctx context.Context, val []*" + name + ") (int64, int64, error) {\n")
+	dst.Code("func (g " + fName + ") DbInsertList(ctx context.Context, val []*" + dName + ") (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	dst.Code("\tif nil == val || 0 == len(val) {\n")
 	dst.Code("\t\treturn 0, 0, nil\n")
@@ -866,14 +863,8 @@ func (b *Builder) printSet(fields []*build.DBField, key string, isNil bool) *bui
 
 func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) {
 	fName := build.StringToHumpName(fType.Name.Name)
-	dName := build.StringToHumpName(typ.Name.Name)
-	if typ == fType {
-		key = "self"
-	} else if "self" == key {
-		dName = fName
-	} else {
-		key = "self"
-	}
+	dName := b.getDataName(dst, typ, fType, key)
+	key = "self"
 
 	w := b.getParamWhere(dst, wFields, false, true, true)
 	dst.AddImports(w.GetImports())
-- 
2.43.0


From e03bf1fd95dbc5bd01b5299622a5445b75c17c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 038/103] fix: write exactly the columns that are read, by
 their declared names

---
 pkg/golang/database.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 64d3593..e96b9f6 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -269,6 +269,17 @@ func (b *Builder) printNameData(dst *build.Writer, typ *ast.DataType) {
 	dst.Code("\n")
 }
 
+// isColumn reports whether the field is a column, and not only a condition or an order of the rows
+func isColumn(field *build.DBField) bool {
+	db := field.Dbs[0]
+	return db.DefaultWhere ||
+		0 == len(db.Where) &&
+			0 == len(db.Limit) &&
+			0 == len(db.Group) &&
+			0 == len(db.Offset) &&
+			0 == len(db.Order)
+}
+
 func (b *Builder) getItemAndValue(fields []*build.DBField, key string) (strings.Builder, strings.Builder, strings.Builder) {
 	item := strings.Builder{}
 	scan := strings.Builder{}
@@ -277,14 +288,9 @@ func (b *Builder) getItemAndValue(fields []*build.DBField, key string) (strings.
 	for _, field := range fields {
 		get := ""
 		if 0 < len(field.Dbs[0].Get) {
-			get = strings.ReplaceAll(field.Dbs[0].Get, "?", build.StringToUnderlineName(field.Dbs[0].Name))
-		} else if "self" == key && (field.Dbs[0].DefaultWhere ||
-			0 == len(field.Dbs[0].Where) &&
-				0 == len(field.Dbs[0].Limit) &&
-				0 == len(field.Dbs[0].Group) &&
-				0 == len(field.Dbs[0].Offset) &&
-				0 == len(field.Dbs[0].Order)) {
-			get = build.StringToUnderlineName(field.Dbs[0].Name)
+			get = strings.ReplaceAll(field.Dbs[0].Get, "?", field.Dbs[0].Name)
+		} else if "self" == key && isColumn(field) {
+			get = field.Dbs[0].Name
 		} else {
 			continue
 		}
@@ -738,6 +744,9 @@ func (b *Builder) printInsertListData(dst *build.Writer, typ *ast.DataType, key
 	dst.Code("\ts.T(\"INSERT INTO \").T(tableName).T(\" (")
 	isFist := true
 	for _, field := range fields {
+		if !isColumn(field) {
+			continue
+		}
 		if !isFist {
 			dst.Code(", ")
 		}
@@ -752,6 +761,9 @@ func (b *Builder) printInsertListData(dst *build.Writer, typ *ast.DataType, key
 	dst.Code("\t\ts.T(\"(\").L(\",\", ")
 	isFist = true
 	for _, field := range fields {
+		if !isColumn(field) {
+			continue
+		}
 		if !isFist {
 			dst.Code(", ")
 		}
@@ -837,7 +849,7 @@ func (b *Builder) printSet(fields []*build.DBField, key string, isNil bool) *bui
 		set := ""
 		if 0 < len(field.Dbs[0].Set) {
 			set = field.Dbs[0].Name + " = " + field.Dbs[0].Set
-		} else if "self" == key {
+		} else if "self" == key && isColumn(field) {
 			set = field.Dbs[0].Name + " = ?"
 		} else {
 			continue
-- 
2.43.0


From 56e7d851e935114feb5b44d58b9b29e9540fe2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:36 +0000
Subject: [PATCH 039/103] fix: join several groups or orders of one query

---
 pkg/golang/database.go | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index e96b9f6..288f8ff 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -347,20 +347,31 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 	}
 
 	if groupBy {
-		isFist := true
+		groups := 0
+		for _, field := range fields {
+			if 0 < len(field.Dbs[0].Group) {
+				groups++
+			}
+		}
+		if 1 < groups {
+			where.Code("\tgroup := \" GROUP BY \"\n")
+		}
 		for _, field := range fields {
 			group := field.Dbs[0].Group
 			if 0 < len(group) {
 				if build.IsNil(field.Field.Type) {
 					where.Code("\tif nil != g." + build.StringToHumpName(field.Field.Name.Name) + " {\t")
 				}
-				if isFist {
-					where.Code("\ts.T(\" GROUP BY \")")
+				if 1 < groups {
+					where.Code("\ts.T(group)")
 				} else {
-					where.Code("\ts.T(\", \")")
+					where.Code("\ts.T(\" GROUP BY \")")
 				}
 
 				_ = b.printParam(where, group, field, fields, "", "")
+				if 1 < groups {
+					where.Code("\tgroup = \", \"\n")
+				}
 				if build.IsNil(field.Field.Type) {
 					where.Code("\t}\n")
 				}
@@ -369,7 +380,15 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 	}
 
 	if orderBy {
-
+		orders := 0
+		for _, field := range fields {
+			if 0 < len(field.Dbs[0].Order) {
+				orders++
+			}
+		}
+		if 1 < orders {
+			where.Code("\torder := \" ORDER BY \"\n")
+		}
 		for _, field := range fields {
 			order := field.Dbs[0].Order
 			if 0 < len(order) {
@@ -382,10 +401,16 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 				}
 
 				where.Code(" {\n")
-				where.Code("\t\ts.T(\" ORDER BY \")")
+				if 1 < orders {
+					where.Code("\t\ts.T(order)")
+				} else {
+					where.Code("\t\ts.T(\" ORDER BY \")")
+				}
 
 				_ = b.printParam(where, order, field, fields, "", "")
-
+				if 1 < orders {
+					where.Code("\t\torder = \", \"\n")
+				}
 				where.Code("\t}\n")
 			}
 		}
-- 
2.43.0


From b46b8ec5f4d988b62211095706c4337bd745eb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 040/103] fix: limit a query only by limits and offsets that
 are set

---
 pkg/golang/database.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 288f8ff..d2d0ad6 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -418,13 +418,20 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 
 	if page {
 		if limit, ok := b.getLimit(fields); ok {
+			isNil := build.IsNil(limit.Field.Type)
+			if isNil {
+				where.Code("\tif nil != g." + build.StringToHumpName(limit.Field.Name.Name) + " {\n")
+			}
 			if offset, ok := b.getOffset(fields); ok {
 				where.Code("\ts.T(\" LIMIT " + offset.Dbs[0].Offset + ", " + limit.Dbs[0].Limit + "\")")
-				where.Code(".P(g." + build.StringToHumpName(offset.Field.Name.Name) + ", g." + build.StringToHumpName(limit.Field.Name.Name) + ")\n")
+				where.Code(".P(g.Get" + build.StringToHumpName(offset.Field.Name.Name) + "(), g." + build.StringToHumpName(limit.Field.Name.Name) + ")\n")
 			} else {
 				where.Code("\ts.T(\" LIMIT " + limit.Dbs[0].Limit + "\")")
 				where.Code(".P(g." + build.StringToHumpName(limit.Field.Name.Name) + ")\n")
 			}
+			if isNil {
+				where.Code("\t}\n")
+			}
 		}
 	}
 	return where
-- 
2.43.0


From 6d84f76b36d320a1d03f21773c0780c9e38bf51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 041/103] fix: do not index a list of conditions beyond its
 length

---
 pkg/golang/database.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index d2d0ad6..2eca720 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -340,7 +340,9 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 					_ = b.printParam(where, item, field, fields, "["+strconv.Itoa(i)+"]", "\t\ts")
 					where.Code("\t}\n")
 				} else {
-					_ = b.printParam(where, item, field, fields, "["+strconv.Itoa(i)+"]", "\ts")
+					where.Code("\tif " + strconv.Itoa(i) + " < len(g." + fieldName + ") {\n")
+					_ = b.printParam(where, item, field, fields, "["+strconv.Itoa(i)+"]", "\t\ts")
+					where.Code("\t}\n")
 				}
 			}
 		}
-- 
2.43.0


From 71581848060af8009baf82621a1921a085d20037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:09 +0000
Subject: [PATCH 042/103] fix: report database tags that name no field instead
 of crashing or generating broken code

---
 pkg/golang/database.go | 29 +++++++++++++++++++++++------
 pkg/golang/gloang.go   |  1 +
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 2eca720..1ac752c 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -3,7 +3,6 @@ package golang
 import (
 	"hbuf/pkg/ast"
 	"hbuf/pkg/build"
-	"hbuf/pkg/scanner"
 	"regexp"
 	"strconv"
 	"strings"
@@ -103,6 +102,10 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 		return nil
 	}
 
+	if nil == key && isOperation(fDbs[0]) {
+		return build.NewError(fType.Name.Pos(), "Not find db field: "+typ.Name.Name)
+	}
+
 	if 0 == len(fDbs[0].Table) {
 		b.printScanData(dst, typ, dbs[0], wFields, key)
 		b.printNameData(dst, typ)
@@ -220,7 +223,13 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 		}
 		b.printGetData(dst, typ, val, dbs[0], w, f, fType, c)
 	}
-	return nil
+	return b.err
+}
+
+// isOperation reports whether any database function is to be generated
+func isOperation(db *build.DB) bool {
+	return db.Count || db.Del || db.Remove ||
+		0 < len(db.List)+len(db.Map)+len(db.Insert)+len(db.Inserts)+len(db.Update)+len(db.Set)+len(db.Get)
 }
 
 func (b *Builder) getDBField(typ *ast.DataType) ([]*build.DB, []*build.DBField, *build.DBField, error) {
@@ -450,6 +459,14 @@ func (b *Builder) findField(fields []*build.DBField, name string) *build.DBField
 
 var paramRex = regexp.MustCompile(`(\?{\w+})|(\${\w+})|\$|\?`)
 
+// failParam records that a condition of the field names a field that does not exist
+func (b *Builder) failParam(self *build.DBField, name string) error {
+	if nil == b.err {
+		b.err = build.NewError(self.Field.Name.Pos(), "Invalid name: "+name)
+	}
+	return b.err
+}
+
 func (b *Builder) printParam(buf *build.Writer, text string, self *build.DBField, fields []*build.DBField, array, tab string) error {
 	match := paramRex.FindAllStringSubmatchIndex(text, -1)
 	buf.Code(tab)
@@ -467,6 +484,9 @@ func (b *Builder) printParam(buf *build.Writer, text string, self *build.DBField
 				if t != "$" {
 					field = b.findField(fields, t[2:len(t)-1])
 				}
+				if nil == field {
+					return b.failParam(self, t[2:len(t)-1])
+				}
 
 				buf.Code(".T(")
 				if build.IsNil(field.Field.Type) {
@@ -485,10 +505,7 @@ func (b *Builder) printParam(buf *build.Writer, text string, self *build.DBField
 					temp = ""
 				}
 				if nil == field {
-					return scanner.Error{
-						//Pos: b.Position(data.Name.Pos()),
-						Msg: "Invalid name: " + t[2:len(t)-1],
-					}
+					return b.failParam(self, t[2:len(t)-1])
 				}
 				if 0 == len(field.Dbs[0].Converter) && build.IsArray(field.Field.Type) && 0 == len(temp) {
 					buf.Code(".L(\",\", ")
diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index 3ffb7b3..31b423d 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -86,6 +86,7 @@ type Builder struct {
 	pkg      *ast.Package
 	packages string
 	fSet     *token.FileSet
+	err      error
 }
 
 func Build(file *ast.File, fSet *token.FileSet, param *build.Param) error {
-- 
2.43.0


From 6c22082e1a87d5a937f59b766e925d88a038a292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:53 +0000
Subject: [PATCH 043/103] fix: let a redeclared field hide the inherited one in
 every generator

---
 pkg/build/build.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index f50f649..abe3f05 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -445,6 +445,16 @@ func GetKeyValue(kvs []*ast.KeyValue, key string) (*ast.KeyValue, bool) {
 }
 
 func enumField(typ *ast.DataType, fields map[string]struct{}, call func(field *ast.Field, data *ast.DataType) error) error {
+	// A field hides the inherited fields of its name
+	own := make([]*ast.Field, 0)
+	for _, field := range typ.Fields.List {
+		if _, ok := fields[field.Name.Name]; ok {
+			continue
+		}
+		fields[field.Name.Name] = struct{}{}
+		own = append(own, field)
+	}
+
 	for _, extend := range typ.Extends {
 		types := extend.Name.Obj.Decl.(*ast.TypeSpec)
 		data := types.Type.(*ast.DataType)
@@ -454,15 +464,11 @@ func enumField(typ *ast.DataType, fields map[string]struct{}, call func(field *a
 		}
 	}
 
-	for _, field := range typ.Fields.List {
-		if _, ok := fields[field.Name.Name]; ok {
-			continue
-		}
+	for _, field := range own {
 		err := call(field, typ)
 		if err != nil {
 			return err
 		}
-		fields[field.Name.Name] = struct{}{}
 	}
 	return nil
 }
-- 
2.43.0


From 1863cf9146f57ec3bcd1ad7d2acfd6dcb4a7d33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:54 +0000
Subject: [PATCH 044/103] fix: keep fields that are inherited more than once
 accessible in Go

---
 pkg/golang/data.go | 45 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/pkg/golang/data.go b/pkg/golang/data.go
index 0f83fde..1e1c2cc 100644
--- a/pkg/golang/data.go
+++ b/pkg/golang/data.go
@@ -26,8 +26,9 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 	nameLen := 0
 	typLen := 0
 	tagLen := 0
-	fields := make([]dataField, len(typ.Fields.List))
-	for i, field := range typ.Fields.List {
+	list := b.getDataFields(typ)
+	fields := make([]dataField, len(list))
+	for i, field := range list {
 		temp := build.NewWriter()
 		temp.Packages = dst.Packages
 		b.printType(temp, field.Type, true)
@@ -76,7 +77,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 	dst.Code("\treturn json.Unmarshal(data, g)\n")
 	dst.Code("}\n\n")
 
-	for _, field := range typ.Fields.List {
+	for _, field := range list {
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
 			dst.Code("// Get" + build.StringToHumpName(field.Name.Name) + " Get " + build.DocText(field.Doc, "// "))
 		}
@@ -111,6 +112,44 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 	}
 }
 
+// getDataFields returns the fields of the struct: those of the type, and those it inherits more than once,
+// which would be ambiguous in Go
+func (b *Builder) getDataFields(typ *ast.DataType) []*ast.Field {
+	list := append([]*ast.Field{}, typ.Fields.List...)
+	found := map[string]struct{}{}
+	for _, field := range list {
+		found[field.Name.Name] = struct{}{}
+	}
+	level := []*ast.DataType{typ}
+	for 0 < len(level) {
+		next := make([]*ast.DataType, 0)
+		for _, item := range level {
+			for _, extend := range item.Extends {
+				next = append(next, extend.Name.Obj.Decl.(*ast.TypeSpec).Type.(*ast.DataType))
+			}
+		}
+		count := map[string]int{}
+		for _, item := range next {
+			for _, field := range b.getDataFields(item) {
+				count[field.Name.Name]++
+			}
+		}
+		for _, item := range next {
+			for _, field := range b.getDataFields(item) {
+				if _, ok := found[field.Name.Name]; ok {
+					continue
+				}
+				found[field.Name.Name] = struct{}{}
+				if 1 < count[field.Name.Name] {
+					list = append(list, field)
+				}
+			}
+		}
+		level = next
+	}
+	return list
+}
+
 func (b *Builder) printDefault(dst *build.Writer, expr ast.Expr) {
 	switch expr.(type) {
 	case *ast.Ident:
-- 
2.43.0


From 14b2296d61c1d8bf9554100d904c18d54f811388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:17 +0000
Subject: [PATCH 045/103] fix: let default Go servers implement methods that
 are inherited more than once

---
 pkg/golang/server.go | 68 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 68 insertions(+)

diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 0704691..a6a5f2e 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -123,9 +123,77 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 		}
 		dst.Code("}\n\n")
 	}
+	for _, method := range b.getAmbiguousMethods(typ) {
+		isSub := method.Result.Type().(*ast.Ident).Name == "void"
+		name := build.StringToHumpName(method.Name.Name)
+		dst.Code("func (s *Default" + serverName + ") " + name + "(ctx context.Context, req *")
+		b.printType(dst, method.Param, true)
+		if isSub {
+			dst.Code(") error {\n")
+		} else {
+			dst.Code(") (*")
+			b.printType(dst, method.Result.Type(), true)
+			dst.Code(", error) {\n")
+		}
+		dst.Code("\treturn s.Default" + build.StringToHumpName(b.getMethodExtend(typ, method).Name.Name) + "." + name + "(ctx, req)\n")
+		dst.Code("}\n\n")
+	}
 	return nil
 }
 
+// getAmbiguousMethods returns the methods the server inherits more than once, whose default implementations
+// would be ambiguous in Go
+func (b *Builder) getAmbiguousMethods(typ *ast.ServerType) []*ast.FuncType {
+	var list []*ast.FuncType
+	found := map[string]struct{}{}
+	for _, method := range typ.Methods {
+		found[method.Name.Name] = struct{}{}
+	}
+	level := []*ast.ServerType{typ}
+	for 0 < len(level) {
+		next := make([]*ast.ServerType, 0)
+		for _, item := range level {
+			for _, extend := range item.Extends {
+				next = append(next, extend.Name.Obj.Decl.(*ast.TypeSpec).Type.(*ast.ServerType))
+			}
+		}
+		count := map[string]int{}
+		methods := make([]*ast.FuncType, 0)
+		for _, item := range next {
+			for _, method := range append(b.getAmbiguousMethods(item), item.Methods...) {
+				count[method.Name.Name]++
+				methods = append(methods, method)
+			}
+		}
+		for _, method := range methods {
+			if _, ok := found[method.Name.Name]; ok {
+				continue
+			}
+			found[method.Name.Name] = struct{}{}
+			if 1 < count[method.Name.Name] {
+				list = append(list, method)
+			}
+		}
+		level = next
+	}
+	return list
+}
+
+// getMethodExtend returns the first base of the server that has the method
+func (b *Builder) getMethodExtend(typ *ast.ServerType, method *ast.FuncType) *ast.Extends {
+	for _, extend := range typ.Extends {
+		found := false
+		_ = build.EnumMethod(extend.Name.Obj.Decl.(*ast.TypeSpec).Type.(*ast.ServerType), func(item *ast.FuncType, server *ast.ServerType) error {
+			found = found || item.Name.Name == method.Name.Name
+			return nil
+		})
+		if found {
+			return extend
+		}
+	}
+	return typ.Extends[0]
+}
+
 func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *build.Binding, isSub bool) error {
 	param := b.getBindName(method.Param, bind.Method.Param)
 	if nil == param {
-- 
2.43.0


From 412d9c7607815c12be98179af4a0a3315ca88480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:40 +0000
Subject: [PATCH 046/103] fix: check for null by the first rule that has a
 format in generated Go validation

---
 pkg/golang/verify.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index c18d60e..0e6017a 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -81,7 +81,8 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 		dst.Code("func (i *" + dName + ") Verify" + fName + "(ctx context.Context) error {\n")
 
 		first := true
-		for i, val := range verify.GetFormat() {
+		checkNil := build.IsNil(field.Type)
+		for _, val := range verify.GetFormat() {
 			f := build.GetFormat(val.Item.Tags)
 			if nil == f {
 				continue
@@ -94,7 +95,8 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
 			}
 
-			if build.IsNil(field.Type) && 0 == i {
+			if checkNil {
+				checkNil = false
 				if !f.Null {
 					dst.Code("\tif nil == i." + fName)
 					if build.GetBaseType(field.Type) == build.String {
-- 
2.43.0


From 01fbc4e3ab19a30a66169c0ec64d85c177de0f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:42 +0000
Subject: [PATCH 047/103] fix: compare decimals with the exact declared bounds
 in generated Go validation

---
 pkg/golang/verify.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index 0e6017a..e284a13 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -1,6 +1,7 @@
 package golang
 
 import (
+	"github.com/shopspring/decimal"
 	"hbuf/pkg/ast"
 	"hbuf/pkg/build"
 	"strconv"
@@ -188,13 +189,13 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						dst.Import("github.com/shopspring/decimal", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
-							dst.Code("decimal.NewFromFloat(" + f.Min + ").GreaterThan(i.Get" + fName + "()) ")
+							dst.Code(decimalBound(f.Min) + ".GreaterThan(i.Get" + fName + "()) ")
 						}
 						if 0 < len(f.Max) {
 							if 0 < len(f.Min) {
 								dst.Code("|| ")
 							}
-							dst.Code("decimal.NewFromFloat(" + f.Max + ").LessThan(i.Get" + fName + "()) ")
+							dst.Code(decimalBound(f.Max) + ".LessThan(i.Get" + fName + "()) ")
 						}
 						dst.Code("{\n")
 						fail()
@@ -247,6 +248,14 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 	return nil
 }
 
+// decimalBound 生成 decimal 的上下限，保留其全部精度
+func decimalBound(val string) string {
+	if _, err := decimal.NewFromString(val); err != nil {
+		return "decimal.NewFromFloat(" + val + ")"
+	}
+	return "decimal.RequireFromString(" + strconv.Quote(val) + ")"
+}
+
 func (b *Builder) printVerifyDataCode(dst *build.Writer, data *ast.DataType) error {
 	dName := build.StringToHumpName(data.Name.Name)
 	dst.Import("context", "")
-- 
2.43.0


From 1a29923c124a70e4fbe175735dea82771747a8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:22 +0000
Subject: [PATCH 048/103] fix: take the values of tags as raw strings as they
 are written in generated Go routers

---
 pkg/golang/server.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index a6a5f2e..9c90b63 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -5,6 +5,7 @@ import (
 	"hbuf/pkg/ast"
 	"hbuf/pkg/build"
 	"sort"
+	"strconv"
 )
 
 func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) error {
@@ -375,7 +376,12 @@ func (b *Builder) getTag(tags []*ast.Tag) *Tag {
 		for _, item := range val.KV {
 			list := make([]string, 0)
 			for _, value := range item.Values {
-				list = append(list, value.Value[1:len(value.Value)-1])
+				val := value.Value[1 : len(value.Value)-1]
+				if '`' == value.Value[0] {
+					val = strconv.Quote(val)
+					val = val[1 : len(val)-1]
+				}
+				list = append(list, val)
 			}
 			au[item.Name.Name] = list
 		}
-- 
2.43.0


From 452888c85bb65ea729f944dd31beb89a19eda2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 049/103] fix: take database tags written as raw strings as
 they are written in generated Go code

---
 pkg/build/database.go  | 44 ++++++++++++++++++++++++++----------------
 pkg/golang/database.go |  2 +-
 2 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/pkg/build/database.go b/pkg/build/database.go
index cdc3812..a7d2145 100644
--- a/pkg/build/database.go
+++ b/pkg/build/database.go
@@ -40,6 +40,16 @@ type DBField struct {
 	Field *ast.Field
 }
 
+// tagText returns the value of a tag as it is written between the quotes of a string
+func tagText(val *ast.BasicLit) string {
+	text := val.Value[1 : len(val.Value)-1]
+	if '`' == val.Value[0] {
+		text = strconv.Quote(text)
+		text = text[1 : len(text)-1]
+	}
+	return text
+}
+
 func GetDB(n string, tag []*ast.Tag) []*DB {
 	var dbs []*DB
 	for _, val := range tag {
@@ -60,47 +70,47 @@ func GetDB(n string, tag []*ast.Tag) []*DB {
 			if nil != val.KV {
 				for _, item := range val.KV {
 					if "name" == item.Name.Name {
-						db.Name = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+						db.Name = tagText(item.Values[0])
 					} else if "schema" == item.Name.Name {
-						db.Schema = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+						db.Schema = tagText(item.Values[0])
 					} else if "converter" == item.Name.Name {
-						db.Converter = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+						db.Converter = tagText(item.Values[0])
 					} else if "order" == item.Name.Name {
-						db.Order = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+						db.Order = tagText(item.Values[0])
 					} else if "key" == item.Name.Name {
 						db.Key = "true" == item.Values[0].Value[1:len(item.Values[0].Value)-1]
 					} else if "typ" == item.Name.Name {
-						db.typ = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+						db.typ = tagText(item.Values[0])
 					} else if "where" == item.Name.Name {
 						where := make([]string, len(item.Values))
 						for i, val := range item.Values {
-							where[i] = val.Value[1 : len(val.Value)-1]
+							where[i] = tagText(val)
 						}
 						db.Where = where
 					} else if "offset" == item.Name.Name {
-						db.Offset = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+						db.Offset = tagText(item.Values[0])
 					} else if "limit" == item.Name.Name {
-						db.Limit = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+						db.Limit = tagText(item.Values[0])
 					} else if "insert" == item.Name.Name {
-						db.Insert = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+						db.Insert = tagText(item.Values[0])
 					} else if "inserts" == item.Name.Name {
-						db.Inserts = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+						db.Inserts = tagText(item.Values[0])
 					} else if "update" == item.Name.Name {
-						db.Update = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+						db.Update = tagText(item.Values[0])
 					} else if "group" == item.Name.Name {
-						db.Group = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+						db.Group = tagText(item.Values[0])
 					} else if "del" == item.Name.Name {
 						db.Del = "true" == strings.ToLower(item.Values[0].Value[1:len(item.Values[0].Value)-1])
 					} else if "get" == item.Name.Name {
-						db.Get = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+						db.Get = tagText(item.Values[0])
 					} else if "list" == item.Name.Name {
-						db.List = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+						db.List = tagText(item.Values[0])
 					} else if "map" == item.Name.Name {
-						db.Map = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+						db.Map = tagText(item.Values[0])
 					} else if "table" == item.Name.Name {
-						db.Table = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+						db.Table = tagText(item.Values[0])
 					} else if "set" == item.Name.Name {
-						db.Set = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+						db.Set = tagText(item.Values[0])
 					} else if "count" == item.Name.Name {
 						db.Count = "true" == strings.ToLower(item.Values[0].Value[1:len(item.Values[0].Value)-1])
 					} else if "force" == item.Name.Name {
diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 1ac752c..a21150d 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -264,7 +264,7 @@ func (b *Builder) printScanData(dst *build.Writer, typ *ast.DataType, db *build.
 	name := build.StringToHumpName(typ.Name.Name)
 	item, scan, _ := b.getItemAndValue(fields, "self")
 	dst.Code("func (val *" + name + ") DbScan() (string, []any) {\n")
-	dst.Code("\treturn `" + item.String() + "`,\n")
+	dst.Code("\treturn \"" + item.String() + "\",\n")
 	dst.Code("\t\t[]any{" + scan.String() + "}\n")
 	dst.Code("}\n")
 	dst.Code("\n")
-- 
2.43.0


From d363807f21235d7df3496585e6528af280fc110f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 050/103] fix: do not crash when a condition takes its text
 from a field that is not set in generated Go code

---
 pkg/golang/database.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index a21150d..261ccb2 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -488,14 +488,9 @@ func (b *Builder) printParam(buf *build.Writer, text string, self *build.DBField
 					return b.failParam(self, t[2:len(t)-1])
 				}
 
-				buf.Code(".T(")
-				if build.IsNil(field.Field.Type) {
-					buf.Code("*g.")
-				} else {
-					buf.Code("g.")
-				}
+				buf.Code(".T(g.Get")
 				buf.Code(build.StringToHumpName(field.Field.Name.Name))
-				buf.Code(")")
+				buf.Code("())")
 
 			} else if t == "?" || (2 < len(t) && "?{" == t[0:2]) {
 				field := self
-- 
2.43.0


From 5def403f626d4ba34d34e279af9df43a2e69c607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:07 +0000
Subject: [PATCH 051/103] fix: reject arguments that are no flags instead of
 ignoring them and all flags after them

---
 cmd/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/main.go b/cmd/main.go
index 189ea4b..1df3572 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -32,6 +32,9 @@ func main() {
 		return
 	}
 
+	if 0 < flag.NArg() {
+		log.Fatalln("Unexpected argument:", flag.Arg(0))
+	}
 	if nil == out || 0 == len(*out) {
 		log.Fatalln("Output directory not found")
 	}
-- 
2.43.0


From bdf436a071d3d0a054f47fc089c137387c16b03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:08 +0000
Subject: [PATCH 052/103] fix: exit with an error status when the build fails

---
 cmd/main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/main.go b/cmd/main.go
index 1df3572..a1ec59c 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -9,6 +9,7 @@ import (
 	"hbuf/pkg/java"
 	ts "hbuf/pkg/typescript"
 	"log"
+	"os"
 )
 
 var version = "0.0.1"
@@ -49,12 +50,12 @@ func main() {
 	}
 	if !build.CheckType(*typ) {
 		fmt.Println(fmt.Errorf("Type error : %s", *typ))
-		return
+		os.Exit(1)
 	}
 
 	err := build.Build(*out, *in, *typ, *pack)
 	if err != nil {
 		fmt.Println(fmt.Errorf("Build error: %s", err))
-		return
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From 5e7a61941622cd9d7043ab54f95c40ffc9a5a631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:03 +0000
Subject: [PATCH 053/103] fix: generate into the current directory when it is
 the output directory

---
 pkg/build/build.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index abe3f05..0a8bff8 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -132,6 +132,10 @@ func Build(out string, in string, typ string, pack string) error {
 	if err != nil {
 		return err
 	}
+	out, err = filepath.Abs(out)
+	if err != nil {
+		return err
+	}
 	path := filepath.Dir(in)
 	name := filepath.Base(in)
 	reg, err := regexp.Compile("^" + strings.ReplaceAll(regexp.QuoteMeta(name), "\\*", "(.*)") + "$")
-- 
2.43.0


From 6cb2293c9fd30e226e2c13e54933aa3838088a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 054/103] fix: name types in generated TypeScript as they are
 declared

---
 pkg/typescript/data.go       | 8 ++++----
 pkg/typescript/typescript.go | 6 +++---
 pkg/typescript/ui.go         | 2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/typescript/data.go b/pkg/typescript/data.go
index 7776400..9e53b7a 100644
--- a/pkg/typescript/data.go
+++ b/pkg/typescript/data.go
@@ -198,16 +198,16 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 					}
 				} else {
 					if empty {
-						dst.Code("null == " + name + " ? null : " + p + "." + t.Name + ".valueOf(Number(" + v + ").valueOf())")
+						dst.Code("null == " + name + " ? null : " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(Number(" + v + ").valueOf())")
 					} else {
-						dst.Code("null == " + name + " ? " + p + "." + t.Name + ".valueOf(0) : " + p + "." + t.Name + ".valueOf(Number(" + v + ").valueOf())")
+						dst.Code("null == " + name + " ? " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(0) : " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(Number(" + v + ").valueOf())")
 					}
 				}
 			} else if ast.Data == t.Obj.Kind {
 				if empty {
-					dst.Code("null == " + name + " ? null : " + p + "." + t.Name + ".fromJson(" + v + ")")
+					dst.Code("null == " + name + " ? null : " + p + "." + build.StringToHumpName(t.Name) + ".fromJson(" + v + ")")
 				} else {
-					dst.Code("null == " + name + " ? " + p + "." + t.Name + ".fromJson({}) : " + p + "." + t.Name + ".fromJson(" + v + ")")
+					dst.Code("null == " + name + " ? " + p + "." + build.StringToHumpName(t.Name) + ".fromJson({}) : " + p + "." + build.StringToHumpName(t.Name) + ".fromJson(" + v + ")")
 				}
 			} else {
 				dst.Code("map[\"" + name + "\"]")
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index a25e4f5..99e1d0d 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -237,7 +237,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool, isR
 				pkg := b.getPackage(dst, expr, "")
 				dst.Code(pkg)
 				dst.Code(".")
-				dst.Code(expr.(*ast.Ident).Name)
+				dst.Code(build.StringToHumpName(expr.(*ast.Ident).Name))
 			}
 		} else {
 			if isRecordKey {
@@ -324,14 +324,14 @@ func (b *Builder) printDefault(dst *build.Writer, expr ast.Expr, notEmpty bool)
 				pkg := b.getPackage(dst, expr, "")
 				dst.Code(pkg)
 				dst.Code(".")
-				dst.Code(expr.(*ast.Ident).Name)
+				dst.Code(build.StringToHumpName(expr.(*ast.Ident).Name))
 				dst.Code(".valueOf(0)")
 			} else {
 				dst.Code("new ")
 				pkg := b.getPackage(dst, expr, "")
 				dst.Code(pkg)
 				dst.Code(".")
-				dst.Code(expr.(*ast.Ident).Name)
+				dst.Code(build.StringToHumpName(expr.(*ast.Ident).Name))
 				dst.Code("()")
 			}
 		} else {
diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index 024327a..85ba27d 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -315,7 +315,7 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 			dst.Code("(").Code(name).Code(" == null || ").Code(name).Code(".length == 0)").Code(" ? null : ")
 		}
 		p := b.getPackage(dst, t.Name, "")
-		dst.Code("(").Code(p).Code(".").Code(t.Name.Name).Code(".nameOf(").Code(name).Code("))")
+		dst.Code("(").Code(p).Code(".").Code(build.StringToHumpName(t.Name.Name)).Code(".nameOf(").Code(name).Code("))")
 	case *ast.Ident:
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
-- 
2.43.0


From b5db8ed14bc52374a25b9989f424350cd6bdda78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:35 +0000
Subject: [PATCH 055/103] fix: use strings for boolean map keys in generated
 TypeScript

---
 pkg/typescript/typescript.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index 99e1d0d..6e5c3af 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -247,6 +247,8 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool, isR
 					dst.Code("string")
 				} else if build.Date == build.BaseType((expr.(*ast.Ident).Name)) {
 					dst.Code("number")
+				} else if build.Bool == build.BaseType((expr.(*ast.Ident).Name)) {
+					dst.Code("string")
 				} else {
 					dst.Code(_types[build.BaseType((expr.(*ast.Ident).Name))])
 				}
-- 
2.43.0


From 8152d4dc963395e563798250a1539d3b46a37c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:46 +0000
Subject: [PATCH 056/103] fix: make generated TypeScript validation valid
 TypeScript that follows the declared rules

---
 pkg/typescript/verify.go | 279 +++++++++++++++++++--------------------
 1 file changed, 135 insertions(+), 144 deletions(-)

diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index 655a64b..1a43f6a 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -1,6 +1,7 @@
 package ts
 
 import (
+	"encoding/json"
 	"hbuf/pkg/ast"
 	"hbuf/pkg/build"
 	"strconv"
@@ -29,7 +30,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 	dName := build.StringToHumpName(data.Name.Name)
 	err := build.EnumField(data, func(field *ast.Field, data *ast.DataType) error {
 		fName := build.StringToHumpName(field.Name.Name)
-		verify, err := build.GetVerify(field.Tags, dst.File, b.GetDataType)
+		verify, err := build.GetVerify(field.Tags, b.getFile(dst, data), b.GetDataType)
 		if err != nil {
 			return err
 		}
@@ -38,16 +39,27 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 		}
 		dst.Import("element-plus", "type {LocaleContext}")
 		dst.Code("export const verify").Code(dName).Code("_").Code(fName).Code(" = (locale: LocaleContext) => (rule: any, value: any, callback: any): any => {\n")
-		dst.Tab(1).Code("value = '' + value\n")
-		isNull := build.IsNil(field.Type)
-		for i, val := range verify.GetFormat() {
+
+		t := build.BaseType("")
+		if !build.IsEnum(field.Type) && !build.IsMap(field.Type) && !build.IsArray(field.Type) {
+			t = build.GetBaseType(field.Type)
+		}
+		switch t {
+		case build.Int8, build.Int16, build.Int32, build.Uint8, build.Uint16, build.Uint32, build.Float, build.Double,
+			build.Int64, build.Uint64, build.Decimal, build.String:
+			dst.Tab(1).Code("value = null == value ? '' : '' + value\n")
+		}
+
+		checkNil := build.IsNil(field.Type)
+		for _, val := range verify.GetFormat() {
 			f := build.GetFormat(val.Item.Tags)
 			if nil == f {
 				continue
 			}
 			pName := b.getPackage(dst, val.Enum.Name, "enum")
-			if isNull && 0 == i {
-				dst.Tab(1).Code("if (value == '' || value == 'null' || value == 'undefined') {\n")
+			if checkNil {
+				checkNil = false
+				dst.Tab(1).Code("if (null == value || '' === value) {\n")
 				if !f.Null {
 					b.printVerifyError(dst, pName, val)
 				} else {
@@ -55,121 +67,50 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				}
 				dst.Tab(1).Code("}\n")
 			}
-			if build.IsEnum(field.Type) {
-				//dst.Code("\tif 0 < len(i.Get" + fName + "().ToName()) {\n")
-				//dst.Code("\t\treturn &hbuf.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
-				//dst.Code("\t}\n")
-			} else if build.IsMap(field.Type) {
-
-			} else if build.IsArray(field.Type) {
-
-			} else {
-				t := build.GetBaseType(field.Type)
-				switch t {
-				case build.Int8:
-					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*", field.Type, "–128", "127")
-				case build.Int16:
-					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*", field.Type, "-32768", "32767")
-				case build.Int32:
-					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*", field.Type, "-2147483648", "2147483647")
-				case build.Uint8:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "0", "255")
-				case build.Uint16:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "0", "65535")
-				case build.Uint32:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "0", "4294967295")
-				case build.Float, build.Double:
-					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*", field.Type, "", "")
-				case build.Int64:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "-9223372036854775808", "9223372036854775808")
-				case build.Uint64:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "0", "18446744073709551615615")
-				case build.Date:
-					dst.Code("\tDateTime? val = DateTime.tryParse(value!);\n")
-					dst.Code("\tif (null == val) {\n")
-					b.printVerifyError(dst, pName, val)
-					dst.Code("\t}\n")
-					if 0 < len(f.Min) || 0 < len(f.Max) {
-						dst.Code("\tif (")
-						if 0 < len(f.Min) {
-							parse, err := time.Parse("2006-01-02T15:04:05Z", f.Min)
-							if err != nil {
-								return err
-							}
-							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " > val.millisecondsSinceEpoch")
-						}
-						if 0 < len(f.Max) {
-							if 0 < len(f.Min) {
-								dst.Code(" || ")
-							}
-							parse, err := time.Parse("2006-01-02T15:04:05Z", f.Max)
-							if err != nil {
-								return err
-							}
-							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " < val.millisecondsSinceEpoch")
-						}
-						dst.Code(") {\n")
-						b.printVerifyError(dst, pName, val)
-						b.printVerifyError(dst, pName, val)
-						dst.Code("\t}\n")
-					}
-				case build.Decimal:
-					if 0 < len(f.Reg) {
-						dst.Code("\tif (!new RegExp(\"" + strings.ReplaceAll(f.Reg, "$", "\\$") + "\").test(value!)) {\n")
-						b.printVerifyError(dst, pName, val)
-						dst.Code("\t}\n")
-					}
-					if i == len(verify.GetFormat())-1 {
-						dst.Code("\tif (!new RegExp(\"-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*\").test(value")
-						if build.IsNil(field.Type) {
-							dst.Code("!")
-						}
-						dst.Code(")) {\n")
-						b.printVerifyError(dst, pName, val)
-						dst.Code("\t}\n")
-
-						dst.Import("decimal.js", "* as d")
-						dst.Code("\tDecimal? val = Decimal.tryParse(value!);\n")
-						dst.Code("\tif (null == val) {\n")
-						b.printVerifyError(dst, pName, val)
-						dst.Code("\t}\n")
-						if 0 < len(f.Min) || 0 < len(f.Max) {
-							dst.Code("\tif (")
-							if 0 < len(f.Min) {
-								dst.Code("1 == val.compareTo(Decimal.fromInt(" + f.Min + "))")
-							}
-							if 0 < len(f.Max) {
-								if 0 < len(f.Min) {
-									dst.Code(" || ")
-								}
-								dst.Code("-1 == val.compareTo(Decimal.fromInt(" + f.Max + "))")
-							}
-							dst.Code(") {\n")
-							b.printVerifyError(dst, pName, val)
-							dst.Code("\t}\n")
-						}
+			switch t {
+			case build.Int8:
+				b.verifyNum(dst, pName, val, f, _regInt, "-128", "127")
+			case build.Int16:
+				b.verifyNum(dst, pName, val, f, _regInt, "-32768", "32767")
+			case build.Int32:
+				b.verifyNum(dst, pName, val, f, _regInt, "-2147483648", "2147483647")
+			case build.Uint8:
+				b.verifyNum(dst, pName, val, f, _regInt, "0", "255")
+			case build.Uint16:
+				b.verifyNum(dst, pName, val, f, _regInt, "0", "65535")
+			case build.Uint32:
+				b.verifyNum(dst, pName, val, f, _regInt, "0", "4294967295")
+			case build.Int64:
+				b.verifyNum(dst, pName, val, f, _regInt, "-9223372036854775808", "9223372036854775807")
+			case build.Uint64:
+				b.verifyNum(dst, pName, val, f, _regInt, "0", "18446744073709551615")
+			case build.Float, build.Double, build.Decimal:
+				b.verifyNum(dst, pName, val, f, _regFloat, "", "")
+			case build.Date:
+				err := b.verifyDate(dst, pName, val, f)
+				if err != nil {
+					return err
+				}
+			case build.String:
+				if 0 < len(f.Min) || 0 < len(f.Max) {
+					dst.Tab(1).Code("if (")
+					if 0 < len(f.Min) {
+						dst.Code(f.Min + " > Array.from(value).length")
 					}
-				case build.String:
-					if 0 < len(f.Min) || 0 < len(f.Max) {
-						dst.Code("\tif (")
+					if 0 < len(f.Max) {
 						if 0 < len(f.Min) {
-							dst.Code(f.Min + " > (value?.length ?? 0)")
-						}
-						if 0 < len(f.Max) {
-							if 0 < len(f.Min) {
-								dst.Code(" || ")
-							}
-							dst.Code(f.Max + " < (value?.length ?? 0)")
+							dst.Code(" || ")
 						}
-						dst.Code(") {\n")
-						b.printVerifyError(dst, pName, val)
-						dst.Code("\t}\n")
-					}
-					if len(f.Reg) > 0 {
-						dst.Code("\tif (!new RegExp(\"" + f.Reg + "\").test(value!)) {\n")
-						b.printVerifyError(dst, pName, val)
-						dst.Code("\t}\n")
+						dst.Code(f.Max + " < Array.from(value).length")
 					}
+					dst.Code(") {\n")
+					b.printVerifyError(dst, pName, val)
+					dst.Tab(1).Code("}\n")
+				}
+				if len(f.Reg) > 0 {
+					dst.Tab(1).Code("if (!new RegExp(" + regText(f.Reg) + ").test(value)) {\n")
+					b.printVerifyError(dst, pName, val)
+					dst.Tab(1).Code("}\n")
 				}
 			}
 		}
@@ -178,52 +119,102 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 		return nil
 	})
 	if err != nil {
-		return err
+		return build.ErrorToFileError(err, b.fSet)
 	}
 	return nil
 }
 
-func (b *Builder) verifyNum(dst *build.Writer, pName string, val *build.VerifyEnum, f *build.Format, reg string, field ast.Type, min, max string) {
-	dst.Tab(1).Code("if (!new RegExp(\"" + reg + "\").test(value")
-	if build.IsNil(field) {
-		dst.Code("!")
+const _regInt = "^[-+]?[0-9]+$"
+const _regFloat = "^[-+]?([0-9]+(\\\\.[0-9]*)?|\\\\.[0-9]+)([eE][-+]?[0-9]+)?$"
+
+// getFile returns the file that declares a data type
+func (b *Builder) getFile(dst *build.Writer, data *ast.DataType) *ast.File {
+	if nil != data.Name.Obj {
+		if file, ok := data.Name.Obj.Data.(*ast.File); ok {
+			return file
+		}
+	}
+	return dst.File
+}
+
+// regText writes a pattern as a string
+func regText(reg string) string {
+	text, err := strconv.Unquote("\"" + reg + "\"")
+	if err != nil {
+		return "\"" + reg + "\""
 	}
+	buf := &strings.Builder{}
+	enc := json.NewEncoder(buf)
+	enc.SetEscapeHTML(false)
+	if err := enc.Encode(text); err != nil {
+		return "\"" + reg + "\""
+	}
+	return strings.TrimSpace(buf.String())
+}
 
-	dst.Code(")) {\n")
+func (b *Builder) verifyDate(dst *build.Writer, pName string, val *build.VerifyEnum, f *build.Format) error {
+	dst.Tab(1).Code("if (null == value || isNaN(new Date(value).getTime())) {\n")
 	b.printVerifyError(dst, pName, val)
 	dst.Tab(1).Code("}\n")
-	dst.Tab(1).Code("try {\n")
-	dst.Import("decimal.js", "* as d")
-	dst.Tab(2).Code("const val = new d.Decimal(value!);\n")
-
-	if 0 < len(min) {
-		dst.Tab(2).Code("if (val.lessThan(new d.Decimal(\"").Code(min).Code("\")) || val.greaterThan(new d.Decimal(\"").Code(max).Code("\"))) {\n")
-		dst.Tab(1)
-		b.printVerifyError(dst, pName, val)
-		dst.Tab(2).Code("}\n")
+	if 0 == len(f.Min) && 0 == len(f.Max) {
+		return nil
 	}
 
-	if 0 < len(f.Min) || 0 < len(f.Max) {
-		dst.Tab(2).Code("if (")
+	dst.Tab(1).Code("if (")
+	if 0 < len(f.Min) {
+		parse, err := time.Parse("2006-01-02T15:04:05Z", f.Min)
+		if err != nil {
+			return err
+		}
+		dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " > new Date(value).getTime()")
+	}
+	if 0 < len(f.Max) {
 		if 0 < len(f.Min) {
-			dst.Code("new d.Decimal(").Code(f.Min).Code(").greaterThan(val)")
+			dst.Code(" || ")
 		}
-		if 0 < len(f.Max) {
-			if 0 < len(f.Min) {
-				dst.Code(" || ")
-			}
-			dst.Code("new d.Decimal(").Code(f.Max).Code(").lessThan(val)")
+		parse, err := time.Parse("2006-01-02T15:04:05Z", f.Max)
+		if err != nil {
+			return err
 		}
-		dst.Code(") {\n")
-		b.printVerifyError(dst, pName, val)
+		dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " < new Date(value).getTime()")
+	}
+	dst.Code(") {\n")
+	b.printVerifyError(dst, pName, val)
+	dst.Tab(1).Code("}\n")
+	return nil
+}
 
-		dst.Code("\t}\n")
+func (b *Builder) verifyNum(dst *build.Writer, pName string, val *build.VerifyEnum, f *build.Format, reg string, min, max string) {
+	dst.Tab(1).Code("if (!new RegExp(\"" + reg + "\").test(value)) {\n")
+	b.printVerifyError(dst, pName, val)
+	dst.Tab(1).Code("}\n")
+
+	var conds []string
+	if 0 < len(min) {
+		conds = append(conds, "val.lessThan(\""+min+"\")", "val.greaterThan(\""+max+"\")")
+	}
+	if 0 < len(f.Min) {
+		conds = append(conds, "val.lessThan("+strconv.Quote(f.Min)+")")
+	}
+	if 0 < len(f.Max) {
+		conds = append(conds, "val.greaterThan("+strconv.Quote(f.Max)+")")
+	}
+	if 0 == len(conds) {
+		return
 	}
 
-	dst.Tab(1).Code("} catch (e){\n")
+	dst.Tab(1).Code("try {\n")
+	dst.Import("decimal.js", "* as d")
+	dst.Tab(2).Code("const val = new d.Decimal(value);\n")
+	dst.Tab(2).Code("if (" + strings.Join(conds, " || ") + ") {\n")
+	dst.Tab(1)
+	b.printVerifyError(dst, pName, val)
+	dst.Tab(2).Code("}\n")
+	dst.Tab(1).Code("} catch (e) {\n")
 	b.printVerifyError(dst, pName, val)
 	dst.Tab(1).Code("}\n")
 }
+
 func (b *Builder) printVerifyError(dst *build.Writer, pName string, val *build.VerifyEnum) {
 	dst.Tab(2).Code("return callback(new Error(locale.t(").Code(pName).Code(".")
 	dst.Code(build.StringToHumpName(val.Enum.Name.Name)).Code(".")
-- 
2.43.0


From d5bfb084af7aa29f9855504975745b774202efd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 057/103] fix: do not name parameters by reserved words in
 generated TypeScript

---
 pkg/typescript/server.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/pkg/typescript/server.go b/pkg/typescript/server.go
index 8d73a06..8abc044 100644
--- a/pkg/typescript/server.go
+++ b/pkg/typescript/server.go
@@ -32,7 +32,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 
 		dst.Code("\t" + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
-		dst.Code(build.StringToFirstLower(method.ParamName.Name) + ": ")
+		dst.Code(paramName(method.ParamName.Name) + ": ")
 		b.printType(dst, method.Param, false, false)
 
 		dst.Code(", ctx?: h.Context): ")
@@ -75,7 +75,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 
 		dst.Code("\t" + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
-		dst.Code(build.StringToFirstLower(method.ParamName.Name) + ": ")
+		dst.Code(paramName(method.ParamName.Name) + ": ")
 		b.printType(dst, method.Param, false, false)
 
 		dst.Code(", ctx?: h.Context): ")
@@ -99,7 +99,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("\", ")
 		dst.Code("0 << 32 | " + method.Id.Value)
 		dst.Code(", ")
-		dst.Code(build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(paramName(method.ParamName.Name))
 		dst.Code(", ")
 		if isMethod {
 			dst.Code("null, null);\n")
@@ -164,3 +164,21 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("\t}\n")
 	dst.Code("}\n")
 }
+
+var _reserved = map[string]struct{}{
+	"arguments": {}, "await": {}, "break": {}, "case": {}, "catch": {}, "class": {}, "const": {}, "continue": {}, "ctx": {},
+	"debugger": {}, "default": {}, "delete": {}, "do": {}, "else": {}, "enum": {}, "eval": {}, "export": {}, "extends": {},
+	"false": {}, "finally": {}, "for": {}, "function": {}, "if": {}, "implements": {}, "import": {}, "in": {},
+	"instanceof": {}, "interface": {}, "let": {}, "new": {}, "null": {}, "package": {}, "private": {}, "protected": {},
+	"public": {}, "return": {}, "static": {}, "super": {}, "switch": {}, "this": {}, "throw": {}, "true": {}, "try": {},
+	"typeof": {}, "var": {}, "void": {}, "while": {}, "with": {}, "yield": {},
+}
+
+// paramName returns the name of a parameter, which must be neither reserved nor the name of the context
+func paramName(name string) string {
+	name = build.StringToFirstLower(name)
+	if _, ok := _reserved[name]; ok {
+		return name + "_"
+	}
+	return name
+}
-- 
2.43.0


From d88cd4eac1b6ee0d6bdc5e52588ce04d351aa30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:52 +0000
Subject: [PATCH 058/103] fix: write numbers so that every language reads them
 alike

---
 pkg/build/build.go       | 10 ++++++++++
 pkg/dart/enum.go         |  2 +-
 pkg/dart/server.go       | 14 +++++++-------
 pkg/java/enum.go         |  2 +-
 pkg/java/server.go       | 12 ++++++------
 pkg/typescript/enum.go   |  2 +-
 pkg/typescript/server.go |  2 +-
 7 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 0a8bff8..4a2937a 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -6,6 +6,7 @@ import (
 	"hbuf/pkg/parser"
 	"hbuf/pkg/scanner"
 	"hbuf/pkg/token"
+	"math/big"
 	"os"
 	"path/filepath"
 	"regexp"
@@ -795,3 +796,12 @@ func GetMapKeys[K MapKeyType, E any](maps map[K]E) []K {
 	}
 	return list
 }
+
+// NumberText returns a number in its decimal form, which every language reads alike
+func NumberText(val string) string {
+	i, ok := new(big.Int).SetString(val, 0)
+	if !ok {
+		return val
+	}
+	return i.String()
+}
diff --git a/pkg/dart/enum.go b/pkg/dart/enum.go
index 5bbb24e..a8fe317 100644
--- a/pkg/dart/enum.go
+++ b/pkg/dart/enum.go
@@ -60,7 +60,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 			dst.Code("\t///" + build.DocText(item.Doc, "\t///"))
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
-		dst.Code("\tstatic final " + itemName + " = " + enumName + "._(" + item.Id.Value + ", '" + build.StringToHumpName(item.Name.Name) + "'")
+		dst.Code("\tstatic final " + itemName + " = " + enumName + "._(" + build.NumberText(item.Id.Value) + ", '" + build.StringToHumpName(item.Name.Name) + "'")
 		if isUi {
 			dst.Code(", (context) => " + enumName + "Localizations.of(context)." + itemName)
 		}
diff --git a/pkg/dart/server.go b/pkg/dart/server.go
index c08e33f..31dd8a4 100644
--- a/pkg/dart/server.go
+++ b/pkg/dart/server.go
@@ -54,7 +54,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("  @override\n")
 	dst.Code("  String get name => \"" + build.StringToUnderlineName(typ.Name.Name) + "\";\n\n")
 	dst.Code("  @override\n")
-	//TODO dst.Code("  int get id => " + typ.Id.Value + ";\n\n")
+	//TODO dst.Code("  int get id => " + build.NumberText(typ.Id.Value) + ";\n\n")
 	dst.Code("  int get id => " + "0" + ";\n\n")
 
 	_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
@@ -72,8 +72,8 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code(">(\"")
 		dst.Code(build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
-		//TODO dst.Code(server.Id.Value + " << 32 | " + method.Id.Value)
-		dst.Code("0 << 32 | " + method.Id.Value)
+		//TODO dst.Code(build.NumberText(server.Id.Value) + " << 32 | " + build.NumberText(method.Id.Value))
+		dst.Code("0 << 32 | " + build.NumberText(method.Id.Value))
 		dst.Code(", ")
 		dst.Code(build.StringToFirstLower(method.ParamName.Name))
 		dst.Code(", ")
@@ -98,7 +98,7 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("  String get name => \"" + build.StringToUnderlineName(typ.Name.Name) + "\";\n\n")
 
 	dst.Code("  @override\n")
-	//TODO dst.Code("  int get id => " + typ.Id.Value + ";\n\n")
+	//TODO dst.Code("  int get id => " + build.NumberText(typ.Id.Value) + ";\n\n")
 	dst.Code("  int get id => 0;\n\n")
 
 	dst.Code("  Map<String, ServerInvoke> _invokeNames = {};\n\n")
@@ -135,8 +135,8 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 
 	dst.Code("    _invokeIds = {\n")
 	_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
-		//dst.Code("        " + server.Id.Value + " << 32 | " + method.Id.Value + ": ServerInvoke(\n")
-		dst.Code("        0 << 32 | " + method.Id.Value + ": ServerInvoke(\n")
+		//dst.Code("        " + build.NumberText(server.Id.Value) + " << 32 | " + build.NumberText(method.Id.Value) + ": ServerInvoke(\n")
+		dst.Code("        0 << 32 | " + build.NumberText(method.Id.Value) + ": ServerInvoke(\n")
 		dst.Code("        toData: (List<int> buf) async {\n")
 		dst.Code("          return ")
 		b.printType(dst, method.Param.Type(), false)
@@ -162,7 +162,7 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 	//dst.Code("  ByteData invokeData(int id, ByteData data) {\n")
 	//dst.Code("    switch (id) {\n")
 	//_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
-	//	dst.Code("      case " + server.Id.Values + " << 32 | " + method.Id.Values + " :\n")
+	//	dst.Code("      case " + build.NumberText(server.Id.Value)s + " << 32 | " + build.NumberText(method.Id.Value)s + " :\n")
 	//	dst.Code("        return server." + build.StringToFirstLower(method.Name.Name) + "(")
 	//	printType(dst, method.Param.Type(), false)
 	//	dst.Code(".fromData(data)!).toData();\n")
diff --git a/pkg/java/enum.go b/pkg/java/enum.go
index 3524949..1e7e8fb 100644
--- a/pkg/java/enum.go
+++ b/pkg/java/enum.go
@@ -64,7 +64,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 			dst.Code("///" + build.DocText(item.Doc, "///"))
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
-		dst.Code("\t\tstatic final " + enumName + " " + itemName + " = new " + enumName + "(" + item.Id.Value + ", \"" + itemName + "\"")
+		dst.Code("\t\tstatic final " + enumName + " " + itemName + " = new " + enumName + "(" + build.NumberText(item.Id.Value) + ", \"" + itemName + "\"")
 		if isUi {
 			dst.Code(", (context) => " + enumName + "Localizations.of(context)." + itemName)
 		}
diff --git a/pkg/java/server.go b/pkg/java/server.go
index eadf612..e94bd2a 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -59,7 +59,7 @@ func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("\t\t}\n\n")
 	dst.Code("\t\t@Override\n")
 	dst.Code("\t\tpublic long getId() {\n")
-	//TODO dst.Code("\t\t\treturn " + typ.Id.Value + ";\n")
+	//TODO dst.Code("\t\t\treturn " + build.NumberText(typ.Id.Value) + ";\n")
 	dst.Code("\t\t\treturn 0;\n")
 	dst.Code("\t\t}\n\n")
 
@@ -76,8 +76,8 @@ func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("\t\t\treturn invoke(\"")
 		dst.Code(build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
-		//TODO dst.Code(server.Id.Value + " << 32 | " + method.Id.Value)
-		dst.Code("0 << 32 | " + method.Id.Value)
+		//TODO dst.Code(build.NumberText(server.Id.Value) + " << 32 | " + build.NumberText(method.Id.Value))
+		dst.Code("0 << 32 | " + build.NumberText(method.Id.Value))
 		dst.Code(", ")
 		dst.Code(build.StringToFirstLower(method.ParamName.Name))
 		dst.Code(", (data) -> Data.formJson.invoke(new String(data), ")
@@ -102,7 +102,7 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 	//dst.Code("\tString get name => \"" + build.StringToUnderlineName(typ.Name.Name) + "\";\n\n")
 	//
 	//dst.Code("\t@override\n")
-	//dst.Code("\tint get id => " + typ.Id.Values + ";\n\n")
+	//dst.Code("\tint get id => " + build.NumberText(typ.Id.Value)s + ";\n\n")
 	//
 	//dst.Code("\tMap<String, ServerInvoke> _invokeNames = {};\n\n")
 	//
@@ -138,7 +138,7 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 	//
 	//dst.Code("\t\t_invokeIds = {\n")
 	//_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
-	//	dst.Code("\t\t\t\t" + server.Id.Values + " << 32 | " + method.Id.Values + ": ServerInvoke(\n")
+	//	dst.Code("\t\t\t\t" + build.NumberText(server.Id.Value)s + " << 32 | " + build.NumberText(method.Id.Value)s + ": ServerInvoke(\n")
 	//	dst.Code("\t\t\t\ttoData: (List<int> buf) async {\n")
 	//	dst.Code("\t\t\t\t\treturn ")
 	//	b.printType(dst, method.Param.Type(), false)
@@ -164,7 +164,7 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 	////dst.Code("  ByteData invokeData(int id, ByteData data) {\n")
 	////dst.Code("    switch (id) {\n")
 	////_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
-	////	dst.Code("      case " + server.Id.Values + " << 32 | " + method.Id.Values + " :\n")
+	////	dst.Code("      case " + build.NumberText(server.Id.Value)s + " << 32 | " + build.NumberText(method.Id.Value)s + " :\n")
 	////	dst.Code("        return server." + build.StringToFirstLower(method.Name.Name) + "(")
 	////	printType(dst, method.Param.Type(), false)
 	////	dst.Code(".fromData(data)!).toData();\n")
diff --git a/pkg/typescript/enum.go b/pkg/typescript/enum.go
index 2be1d6f..d15def5 100644
--- a/pkg/typescript/enum.go
+++ b/pkg/typescript/enum.go
@@ -48,7 +48,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
 		dst.Code("\tpublic static readonly " + itemName + " = new " + enumName + "(")
-		dst.Code(item.Id.Value + ", \"" + build.StringToHumpName(item.Name.Name) + "\"")
+		dst.Code(build.NumberText(item.Id.Value) + ", \"" + build.StringToHumpName(item.Name.Name) + "\"")
 		dst.Code(");\n\n")
 	}
 	dst.Code("\n")
diff --git a/pkg/typescript/server.go b/pkg/typescript/server.go
index 8abc044..c2f70db 100644
--- a/pkg/typescript/server.go
+++ b/pkg/typescript/server.go
@@ -97,7 +97,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code(">(\"")
 		dst.Code(build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
-		dst.Code("0 << 32 | " + method.Id.Value)
+		dst.Code("0 << 32 | " + build.NumberText(method.Id.Value))
 		dst.Code(", ")
 		dst.Code(paramName(method.ParamName.Name))
 		dst.Code(", ")
-- 
2.43.0


From e03796246e006ec964bf7b5de1c44e6f25d41206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:24 +0000
Subject: [PATCH 059/103] fix: keep null values of maps in the JSON form of
 generated TypeScript data

---
 pkg/typescript/data.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/typescript/data.go b/pkg/typescript/data.go
index 9e53b7a..936a64d 100644
--- a/pkg/typescript/data.go
+++ b/pkg/typescript/data.go
@@ -347,14 +347,14 @@ func (b *Builder) printToJson(dst *build.Writer, key string, name string, expr a
 					dst.Code(name)
 				} else {
 					if empty {
-						dst.Code(name + "?.value")
+						dst.Code(name + "?.value ?? null")
 					} else {
 						dst.Code(name + ".value")
 					}
 				}
 			} else if ast.Data == t.Obj.Kind {
 				if empty {
-					dst.Code(name + "?.toJson()")
+					dst.Code(name + "?.toJson() ?? null")
 				} else {
 					dst.Code(name + ".toJson()")
 				}
@@ -370,7 +370,7 @@ func (b *Builder) printToJson(dst *build.Writer, key string, name string, expr a
 					dst.Code(name)
 				} else {
 					if empty {
-						dst.Code(name + "?.toString()")
+						dst.Code(name + "?.toString() ?? null")
 					} else {
 						dst.Code(name + ".toString()")
 					}
@@ -381,7 +381,7 @@ func (b *Builder) printToJson(dst *build.Writer, key string, name string, expr a
 					dst.Code(name)
 				} else {
 					if empty {
-						dst.Code(name + "?.getTime()")
+						dst.Code(name + "?.getTime() ?? null")
 					} else {
 						dst.Code(name + ".getTime()")
 					}
@@ -389,7 +389,7 @@ func (b *Builder) printToJson(dst *build.Writer, key string, name string, expr a
 
 			case build.Decimal:
 				if empty {
-					dst.Code(name + "?.toString()")
+					dst.Code(name + "?.toString() ?? null")
 				} else {
 					dst.Code(name + ".toString()")
 				}
-- 
2.43.0


From dc2db2b80a16ae53c2808cfb67a4be51286036af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:26 +0000
Subject: [PATCH 060/103] fix: read unsigned 64 bit numbers as unsigned in
 generated TypeScript

---
 pkg/typescript/data.go       | 8 ++++++--
 pkg/typescript/typescript.go | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/typescript/data.go b/pkg/typescript/data.go
index 936a64d..e170b9c 100644
--- a/pkg/typescript/data.go
+++ b/pkg/typescript/data.go
@@ -229,10 +229,14 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 					}
 				} else {
 					dst.Import("long", "Long")
+					zero, unsigned := "Long.ZERO", ""
+					if build.Uint64 == build.BaseType(t.Name) {
+						zero, unsigned = "Long.UZERO", ", true"
+					}
 					if empty {
-						dst.Code("null == " + name + " ? null : Long.fromString(" + v + ".toString())")
+						dst.Code("null == " + name + " ? null : Long.fromString(" + v + ".toString()" + unsigned + ")")
 					} else {
-						dst.Code("null == " + name + " ? Long.ZERO : Long.fromString(" + v + ".toString())")
+						dst.Code("null == " + name + " ? " + zero + " : Long.fromString(" + v + ".toString()" + unsigned + ")")
 					}
 				}
 			case build.Float, build.Double:
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index 6e5c3af..9032dd2 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -20,7 +20,7 @@ var _types = map[build.BaseType]string{
 
 var _typesValue = map[build.BaseType]string{
 	build.Int8: "0", build.Int16: "0", build.Int32: "0", build.Int64: "Long.ZERO", build.Uint8: "0",
-	build.Uint16: "0", build.Uint32: "0", build.Uint64: "Long.ZERO", build.Bool: "false", build.Float: "0.0",
+	build.Uint16: "0", build.Uint32: "0", build.Uint64: "Long.UZERO", build.Bool: "false", build.Float: "0.0",
 	build.Double: "0.0", build.String: "\"\"", build.Date: "new Date()", build.Decimal: "new d.Decimal(0)",
 }
 
-- 
2.43.0


From 4b0082cba0b1c1c67eee152b6a22f9ee0cb865cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:29 +0000
Subject: [PATCH 061/103] fix: give fields of an enum without item 0 a default
 in generated TypeScript

---
 pkg/build/build.go           | 21 +++++++++++++++++++++
 pkg/typescript/data.go       |  2 +-
 pkg/typescript/typescript.go |  2 +-
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 4a2937a..cd93d48 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -805,3 +805,24 @@ func NumberText(val string) string {
 	}
 	return i.String()
 }
+
+// EnumDefault returns the number of the default item of an enum: 0 or, if no item has it, that of the first item
+func EnumDefault(expr *ast.Ident) string {
+	if nil == expr.Obj {
+		return "0"
+	}
+	spec, ok := expr.Obj.Decl.(*ast.TypeSpec)
+	if !ok {
+		return "0"
+	}
+	enum, ok := spec.Type.(*ast.EnumType)
+	if !ok || 0 == len(enum.Items) {
+		return "0"
+	}
+	for _, item := range enum.Items {
+		if equalNumber(item.Id.Value, "0") {
+			return "0"
+		}
+	}
+	return NumberText(enum.Items[0].Id.Value)
+}
diff --git a/pkg/typescript/data.go b/pkg/typescript/data.go
index e170b9c..e2da11a 100644
--- a/pkg/typescript/data.go
+++ b/pkg/typescript/data.go
@@ -200,7 +200,7 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 					if empty {
 						dst.Code("null == " + name + " ? null : " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(Number(" + v + ").valueOf())")
 					} else {
-						dst.Code("null == " + name + " ? " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(0) : " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(Number(" + v + ").valueOf())")
+						dst.Code("null == " + name + " ? " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(" + build.EnumDefault(t) + ") : " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(Number(" + v + ").valueOf())")
 					}
 				}
 			} else if ast.Data == t.Obj.Kind {
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index 9032dd2..65782b6 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -327,7 +327,7 @@ func (b *Builder) printDefault(dst *build.Writer, expr ast.Expr, notEmpty bool)
 				dst.Code(pkg)
 				dst.Code(".")
 				dst.Code(build.StringToHumpName(expr.(*ast.Ident).Name))
-				dst.Code(".valueOf(0)")
+				dst.Code(".valueOf(" + build.EnumDefault(t) + ")")
 			} else {
 				dst.Code("new ")
 				pkg := b.getPackage(dst, expr, "")
-- 
2.43.0


From 1c0b2d0683f0c3aee13664f2fe1d913ed6068c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:12 +0000
Subject: [PATCH 062/103] fix: name the interfaces of generated Java after
 their file, and refer to types by them

---
 pkg/java/data.go |  2 +-
 pkg/java/enum.go |  7 -------
 pkg/java/java.go | 54 +++++++++++++++++++++++++-----------------------
 3 files changed, 29 insertions(+), 34 deletions(-)

diff --git a/pkg/java/data.go b/pkg/java/data.go
index 5ddf849..db9ae73 100644
--- a/pkg/java/data.go
+++ b/pkg/java/data.go
@@ -170,6 +170,6 @@ func (b *Builder) printExtend(dst *build.Writer, extends []*ast.Extends, start b
 		if 0 != i || start {
 			dst.Code(", ")
 		}
-		dst.Code(build.StringToHumpName(v.Name.Name))
+		dst.Code(b.getPackage(dst, v.Name) + build.StringToHumpName(v.Name.Name))
 	}
 }
diff --git a/pkg/java/enum.go b/pkg/java/enum.go
index 1e7e8fb..62a00bb 100644
--- a/pkg/java/enum.go
+++ b/pkg/java/enum.go
@@ -11,10 +11,6 @@ func (b *Builder) printEnumCode(dst *build.Writer, typ *ast.EnumType) {
 
 func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	enumName := build.StringToHumpName(typ.Name.Name)
-	_, isUi := build.GetTag(typ.Tags, "ui")
-	if isUi {
-		b.getPackage(dst, typ.Name, "ui")
-	}
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
 		dst.Code("///" + build.DocText(typ.Doc, "///"))
 	}
@@ -65,9 +61,6 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
 		dst.Code("\t\tstatic final " + enumName + " " + itemName + " = new " + enumName + "(" + build.NumberText(item.Id.Value) + ", \"" + itemName + "\"")
-		if isUi {
-			dst.Code(", (context) => " + enumName + "Localizations.of(context)." + itemName)
-		}
 		dst.Code(");\n")
 	}
 	dst.Code("\n")
diff --git a/pkg/java/java.go b/pkg/java/java.go
index 891f2fa..6e22808 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -177,9 +177,10 @@ func (b *Builder) Node(dst *JavaWriter, fset *token.FileSet, node interface{}) e
 	dst.SetPath(file)
 	dst.SetPackages(val.Value.Value[1 : len(val.Value.Value)-1])
 
-	dst.data.Code("public interface UserData {\n")
-	dst.server.Code("public interface UserServer {\n")
-	dst.enum.Code("public interface UserEnum {\n")
+	name := getFileName(file)
+	dst.data.Code("public interface " + name + "Data {\n")
+	dst.server.Code("public interface " + name + "Server {\n")
+	dst.enum.Code("public interface " + name + "Enum {\n")
 	for _, s := range file.Specs {
 		switch s.(type) {
 		case *ast.ImportSpec:
@@ -215,8 +216,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool) {
 	case *ast.Ident:
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
-			b.getPackage(dst, expr, "")
-			dst.Code(expr.(*ast.Ident).Name)
+			dst.Code(b.getPackage(dst, t) + build.StringToHumpName(t.Name))
 		} else {
 			if build.Decimal == build.BaseType((expr.(*ast.Ident).Name)) {
 				dst.Import("java.math.BigDecimal", "")
@@ -251,30 +251,32 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool) {
 	}
 }
 
-func (b *Builder) getPackage(dst *build.Writer, expr ast.Expr, s string) string {
-	file := (expr.(*ast.Ident)).Obj.Data
-	switch file.(type) {
-	case *ast.File:
-		break
-	default:
+// getPackage returns the package and interface in which a type is declared, when they are not those of the writer
+func (b *Builder) getPackage(dst *build.Writer, expr *ast.Ident) string {
+	file, ok := expr.Obj.Data.(*ast.File)
+	if !ok {
 		return ""
 	}
 
-	_, name := filepath.Split(file.(*ast.File).Path)
-	name = dst.Packages + "." + build.StringToHumpName(name[:len(name)-len(".hbuf")])
-	if 0 < len(s) {
-		name = name + "." + s + ".dart"
-	} else {
-		switch (expr.(*ast.Ident)).Obj.Kind {
-		case ast.Data:
-			name = name + "Data.*"
-		case ast.Enum:
-			name = name + "Enum.*"
-		case ast.Server:
-			name = name + "Server.*"
-		}
+	pack := dst.Packages
+	if val, ok := file.Packages["java"]; ok {
+		pack = val.Value.Value[1 : len(val.Value.Value)-1]
 	}
 
-	dst.Import(name, "")
-	return ""
+	name := getFileName(file)
+	switch expr.Obj.Kind {
+	case ast.Data:
+		name += "Data"
+	case ast.Enum:
+		name += "Enum"
+	case ast.Server:
+		name += "Server"
+	}
+	return pack + "." + name + "."
+}
+
+// getFileName returns the first part of the names of the interfaces generated for a file
+func getFileName(file *ast.File) string {
+	_, name := filepath.Split(file.Path)
+	return build.StringToHumpName(name[:len(name)-len(".hbuf")])
 }
-- 
2.43.0


From a4d912aff4aabd3e1882b520b2c29bfba89bcd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:13 +0000
Subject: [PATCH 063/103] fix: write the override annotation of generated Java
 as Java has it

---
 pkg/java/data.go   | 4 ++--
 pkg/java/server.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/java/data.go b/pkg/java/data.go
index db9ae73..1df33f6 100644
--- a/pkg/java/data.go
+++ b/pkg/java/data.go
@@ -27,7 +27,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 		}
 		isSuper := build.CheckSuperField(field.Name.Name, typ)
 		if isSuper {
-			dst.Code("\t@override\n")
+			dst.Code("\t\t@Override\n")
 		}
 		dst.Code("\t\t")
 		b.printType(dst, field.Type, false)
@@ -38,7 +38,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 			dst.Code("\t/// Set " + build.DocText(field.Doc, "\t/// "))
 		}
 		if isSuper {
-			dst.Code("\t@override\n")
+			dst.Code("\t\t@Override\n")
 		}
 		dst.Code("\t\tvoid set")
 		dst.Code(build.StringToHumpName(field.Name.Name) + "(")
diff --git a/pkg/java/server.go b/pkg/java/server.go
index e94bd2a..77c1ec1 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -31,7 +31,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 			dst.Code("///" + build.DocText(method.Doc, "///"))
 		}
 		if build.CheckSuperMethod(method.Name.Name, typ) {
-			dst.Code("\t@override\n")
+			dst.Code("\t\t@Override\n")
 		}
 		dst.Code("\t\tCompletableFuture<")
 		b.printType(dst, method.Result.Type(), false)
-- 
2.43.0


From d537267c4fc9dd302e055446a368edf457a35991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:14 +0000
Subject: [PATCH 064/103] fix: import BigInteger in generated Java where it is
 used

---
 pkg/java/java.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/java/java.go b/pkg/java/java.go
index 6e22808..2b50343 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -222,7 +222,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool) {
 				dst.Import("java.math.BigDecimal", "")
 			} else if build.Date == build.BaseType((expr.(*ast.Ident).Name)) {
 				dst.Import("java.util.Date", "")
-			} else if build.Int64 == build.BaseType((expr.(*ast.Ident).Name)) {
+			} else if build.Uint64 == build.BaseType((expr.(*ast.Ident).Name)) {
 				dst.Import("java.math.BigInteger", "")
 			}
 			if notEmpty {
-- 
2.43.0


From dd46b790feade18c96895ba4517f244e4e39c229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:14 +0000
Subject: [PATCH 065/103] fix: make the enums of generated Java compile, and
 find their items by name

---
 pkg/java/enum.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pkg/java/enum.go b/pkg/java/enum.go
index 62a00bb..7ff5f33 100644
--- a/pkg/java/enum.go
+++ b/pkg/java/enum.go
@@ -16,8 +16,8 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	}
 	dst.Code("\tclass " + enumName)
 	dst.Code("\t{\n")
-	dst.Code("\t\tfinal int value;\n")
-	dst.Code("\t\tfinal String name;\n\n")
+	dst.Code("\t\tpublic final int value;\n")
+	dst.Code("\t\tpublic final String name;\n\n")
 
 	dst.Code("\t\tprivate " + enumName + "(int value, String name){\n")
 	dst.Code("\t\t\tthis.value = value;\n")
@@ -28,8 +28,8 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	dst.Code("\t\tpublic boolean equals(Object o) {\n")
 	dst.Code("\t\t\tif (this == o) return true;\n")
 	dst.Code("\t\t\tif (o == null || getClass() != o.getClass()) return false;\n")
-	dst.Code("\t\t\tTest test = (Test) o;\n")
-	dst.Code("\t\t\treturn value == test.value;\n")
+	dst.Code("\t\t\t" + enumName + " item = (" + enumName + ") o;\n")
+	dst.Code("\t\t\treturn value == item.value;\n")
 	dst.Code("\t\t}\n\n")
 
 	dst.Code("\t\t@Override\n")
@@ -43,16 +43,16 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	dst.Code("\t\t\t\t\treturn item;\n")
 	dst.Code("\t\t\t\t}\n")
 	dst.Code("\t\t\t}\n")
-	dst.Code("\t\t\tthrow new RuntimeException(\"Get Test by value error, value=\" + value);\n")
+	dst.Code("\t\t\tthrow new RuntimeException(\"Get " + enumName + " by value error, value=\" + value);\n")
 	dst.Code("\t\t}\n\n")
 
 	dst.Code("\t\tpublic static " + enumName + " nameOf(String name) {\n")
 	dst.Code("\t\t\tfor (" + enumName + " item : values) {\n")
-	dst.Code("\t\t\t\tif (item.name == name) {\n")
+	dst.Code("\t\t\t\tif (item.name.equals(name)) {\n")
 	dst.Code("\t\t\t\t\treturn item;\n")
 	dst.Code("\t\t\t\t}\n")
 	dst.Code("\t\t\t}\n")
-	dst.Code("\t\t\tthrow new RuntimeException(\"Get Test by name error, name=\" + name);\n")
+	dst.Code("\t\t\tthrow new RuntimeException(\"Get " + enumName + " by name error, name=\" + name);\n")
 	dst.Code("\t\t}\n\n")
 
 	for _, item := range typ.Items {
@@ -60,11 +60,11 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 			dst.Code("///" + build.DocText(item.Doc, "///"))
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
-		dst.Code("\t\tstatic final " + enumName + " " + itemName + " = new " + enumName + "(" + build.NumberText(item.Id.Value) + ", \"" + itemName + "\"")
+		dst.Code("\t\tpublic static final " + enumName + " " + itemName + " = new " + enumName + "(" + build.NumberText(item.Id.Value) + ", \"" + itemName + "\"")
 		dst.Code(");\n")
 	}
 	dst.Code("\n")
-	dst.Code("\t\tstatic final " + enumName + "[] values = new " + enumName + "[]{\n")
+	dst.Code("\t\tpublic static final " + enumName + "[] values = new " + enumName + "[]{\n")
 	for _, item := range typ.Items {
 		dst.Code("\t\t\t" + build.StringToAllUpper(item.Name.Name) + ",\n")
 	}
-- 
2.43.0


From e609205d22efd6c26f0f9486746852578374ff77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:15 +0000
Subject: [PATCH 066/103] fix: generate Java for methods without a result, and
 ids that are long

---
 pkg/java/server.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/pkg/java/server.go b/pkg/java/server.go
index 77c1ec1..e79def7 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -34,7 +34,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 			dst.Code("\t\t@Override\n")
 		}
 		dst.Code("\t\tCompletableFuture<")
-		b.printType(dst, method.Result.Type(), false)
+		b.printResult(dst, method.Result)
 		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
@@ -66,7 +66,7 @@ func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 	_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
 		dst.Code("\t\t@Override\n")
 		dst.Code("\t\tpublic CompletableFuture<")
-		b.printType(dst, method.Result.Type(), false)
+		b.printResult(dst, method.Result)
 		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
@@ -77,14 +77,18 @@ func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code(build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
 		//TODO dst.Code(build.NumberText(server.Id.Value) + " << 32 | " + build.NumberText(method.Id.Value))
-		dst.Code("0 << 32 | " + build.NumberText(method.Id.Value))
+		dst.Code("0L << 32 | " + build.NumberText(method.Id.Value) + "L")
 		dst.Code(", ")
 		dst.Code(build.StringToFirstLower(method.ParamName.Name))
-		dst.Code(", (data) -> Data.formJson.invoke(new String(data), ")
-		b.printType(dst, method.Result.Type(), false)
-		dst.Code("Impl.class), (data)-> new ")
-		b.printType(dst, method.Result.Type(), false)
-		dst.Code("Impl().formData(data));\n")
+		if isVoid(method.Result) {
+			dst.Code(", null, null);\n")
+		} else {
+			dst.Code(", (data) -> Data.formJson.invoke(new String(data), ")
+			b.printType(dst, method.Result.Type(), false)
+			dst.Code("Impl.class), (data)-> new ")
+			b.printType(dst, method.Result.Type(), false)
+			dst.Code("Impl().formData(data));\n")
+		}
 
 		dst.Code("\t\t}\n\n")
 		return nil
@@ -92,6 +96,19 @@ func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("\t}\n\n")
 }
 
+func isVoid(result *ast.VarType) bool {
+	ident, ok := result.Type().(*ast.Ident)
+	return ok && "void" == ident.Name
+}
+
+func (b *Builder) printResult(dst *build.Writer, result *ast.VarType) {
+	if isVoid(result) {
+		dst.Code("Void")
+	} else {
+		b.printType(dst, result.Type(), false)
+	}
+}
+
 func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 	//dst.Code("class " + build.StringToHumpName(typ.Name.Name) + "Router extends ServerRouter")
 	//
-- 
2.43.0


From a98b5bb73d680e25ae5f14588f76b52939420890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:41 +0000
Subject: [PATCH 067/103] fix: keep comments from being read as Unicode escapes
 in generated Java

---
 pkg/java/data.go   | 6 +++---
 pkg/java/enum.go   | 4 ++--
 pkg/java/java.go   | 5 +++++
 pkg/java/server.go | 4 ++--
 4 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/pkg/java/data.go b/pkg/java/data.go
index 1df33f6..44806fb 100644
--- a/pkg/java/data.go
+++ b/pkg/java/data.go
@@ -14,7 +14,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 
 func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + build.DocText(typ.Doc, "///"))
+		dst.Code("///" + docText(typ.Doc, "///"))
 	}
 	dst.Code("\tinterface " + build.StringToHumpName(typ.Name.Name) + " extends Data")
 	if nil != typ.Extends {
@@ -23,7 +23,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	dst.Code(" {\n")
 	for _, field := range typ.Fields.List {
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t/// Get " + build.DocText(field.Doc, "\t/// "))
+			dst.Code("\t/// Get " + docText(field.Doc, "\t/// "))
 		}
 		isSuper := build.CheckSuperField(field.Name.Name, typ)
 		if isSuper {
@@ -35,7 +35,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 		dst.Code("();\n\n")
 
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t/// Set " + build.DocText(field.Doc, "\t/// "))
+			dst.Code("\t/// Set " + docText(field.Doc, "\t/// "))
 		}
 		if isSuper {
 			dst.Code("\t\t@Override\n")
diff --git a/pkg/java/enum.go b/pkg/java/enum.go
index 7ff5f33..ec2faea 100644
--- a/pkg/java/enum.go
+++ b/pkg/java/enum.go
@@ -12,7 +12,7 @@ func (b *Builder) printEnumCode(dst *build.Writer, typ *ast.EnumType) {
 func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	enumName := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + build.DocText(typ.Doc, "///"))
+		dst.Code("///" + docText(typ.Doc, "///"))
 	}
 	dst.Code("\tclass " + enumName)
 	dst.Code("\t{\n")
@@ -57,7 +57,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 
 	for _, item := range typ.Items {
 		if nil != item.Doc && 0 < len(item.Doc.Text()) {
-			dst.Code("///" + build.DocText(item.Doc, "///"))
+			dst.Code("///" + docText(item.Doc, "///"))
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
 		dst.Code("\t\tpublic static final " + enumName + " " + itemName + " = new " + enumName + "(" + build.NumberText(item.Id.Value) + ", \"" + itemName + "\"")
diff --git a/pkg/java/java.go b/pkg/java/java.go
index 2b50343..5083d53 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -280,3 +280,8 @@ func getFileName(file *ast.File) string {
 	_, name := filepath.Split(file.Path)
 	return build.StringToHumpName(name[:len(name)-len(".hbuf")])
 }
+
+// docText returns the text of a comment, in which no backslash begins a Unicode escape
+func docText(doc *ast.CommentGroup, prefix string) string {
+	return strings.ReplaceAll(build.DocText(doc, prefix), "\\", "\\\\")
+}
diff --git a/pkg/java/server.go b/pkg/java/server.go
index e79def7..a53d9a3 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -18,7 +18,7 @@ func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) {
 
 func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + build.DocText(typ.Doc, "///"))
+		dst.Code("///" + docText(typ.Doc, "///"))
 	}
 	dst.Code("\tinterface " + build.StringToHumpName(typ.Name.Name))
 	if nil != typ.Extends {
@@ -28,7 +28,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("{\n")
 	for _, method := range typ.Methods {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("///" + build.DocText(method.Doc, "///"))
+			dst.Code("///" + docText(method.Doc, "///"))
 		}
 		if build.CheckSuperMethod(method.Name.Name, typ) {
 			dst.Code("\t\t@Override\n")
-- 
2.43.0


From 6b54bd170dce8de4686f53eb852df5af77fa7379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:41 +0000
Subject: [PATCH 068/103] fix: name members of generated Java by no reserved
 word

---
 pkg/java/data.go   | 14 +++++++-------
 pkg/java/java.go   | 38 ++++++++++++++++++++++++++++++++++++++
 pkg/java/server.go | 10 +++++-----
 3 files changed, 50 insertions(+), 12 deletions(-)

diff --git a/pkg/java/data.go b/pkg/java/data.go
index 44806fb..6eaecdf 100644
--- a/pkg/java/data.go
+++ b/pkg/java/data.go
@@ -31,7 +31,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 		}
 		dst.Code("\t\t")
 		b.printType(dst, field.Type, false)
-		dst.Code(" get" + build.StringToHumpName(field.Name.Name))
+		dst.Code(" get" + accessorName(field.Name.Name))
 		dst.Code("();\n\n")
 
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
@@ -41,7 +41,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 			dst.Code("\t\t@Override\n")
 		}
 		dst.Code("\t\tvoid set")
-		dst.Code(build.StringToHumpName(field.Name.Name) + "(")
+		dst.Code(accessorName(field.Name.Name) + "(")
 		b.printType(dst, field.Type, false)
 		dst.Code(" value);\n\n")
 	}
@@ -59,22 +59,22 @@ func (b *Builder) printDataEntity(dst *build.Writer, typ *ast.DataType) {
 	err := build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
 		dst.Code("\t\t")
 		b.printType(dst, field.Type, false)
-		dst.Code(" " + build.StringToFirstLower(field.Name.Name) + ";\n\n")
+		dst.Code(" " + memberName(field.Name.Name) + ";\n\n")
 
 		dst.Code("\t\t@Override\n")
 		dst.Code("\t\tpublic ")
 		b.printType(dst, field.Type, false)
-		dst.Code(" get" + build.StringToHumpName(field.Name.Name))
+		dst.Code(" get" + accessorName(field.Name.Name))
 		dst.Code("(){\n")
-		dst.Code("\t\t\treturn this." + build.StringToFirstLower(field.Name.Name) + ";\n")
+		dst.Code("\t\t\treturn this." + memberName(field.Name.Name) + ";\n")
 		dst.Code("\t\t}\n\n")
 
 		dst.Code("\t\t@Override\n")
 		dst.Code("\t\tpublic void set")
-		dst.Code(build.StringToHumpName(field.Name.Name) + "(")
+		dst.Code(accessorName(field.Name.Name) + "(")
 		b.printType(dst, field.Type, false)
 		dst.Code(" value){\n")
-		dst.Code("\t\t\tthis." + build.StringToFirstLower(field.Name.Name) + " = value;\n")
+		dst.Code("\t\t\tthis." + memberName(field.Name.Name) + " = value;\n")
 		dst.Code("\t\t}\n\n")
 		return nil
 	})
diff --git a/pkg/java/java.go b/pkg/java/java.go
index 5083d53..ba9cc30 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -23,6 +23,44 @@ var _nullTypes = map[build.BaseType]string{
 	build.Double: "Double", build.String: "String", build.Date: "Date", build.Decimal: "BigDecimal",
 }
 
+// _reserved are the words of Java which are no identifiers
+var _reserved = map[string]struct{}{
+	"abstract": {}, "assert": {}, "boolean": {}, "break": {}, "byte": {}, "case": {}, "catch": {}, "char": {}, "class": {},
+	"const": {}, "continue": {}, "default": {}, "do": {}, "double": {}, "else": {}, "enum": {}, "extends": {}, "false": {},
+	"final": {}, "finally": {}, "float": {}, "for": {}, "goto": {}, "if": {}, "implements": {}, "import": {},
+	"instanceof": {}, "int": {}, "interface": {}, "long": {}, "native": {}, "new": {}, "null": {}, "package": {},
+	"private": {}, "protected": {}, "public": {}, "return": {}, "short": {}, "static": {}, "strictfp": {}, "super": {},
+	"switch": {}, "synchronized": {}, "this": {}, "throw": {}, "throws": {}, "transient": {}, "true": {}, "try": {},
+	"void": {}, "volatile": {}, "while": {},
+}
+
+// memberName returns the name of a field or method, which must not be reserved
+func memberName(name string) string {
+	name = build.StringToFirstLower(name)
+	if _, ok := _reserved[name]; ok {
+		return name + "_"
+	}
+	return name
+}
+
+// paramName returns the name of a parameter, which must be neither reserved nor a name used beside it
+func paramName(name string) string {
+	name = memberName(name)
+	if "ctx" == name || "data" == name {
+		return name + "_"
+	}
+	return name
+}
+
+// accessorName returns what follows get and set in the names of the methods of a field, which must not be getClass
+func accessorName(name string) string {
+	name = build.StringToHumpName(name)
+	if "Class" == name {
+		return name + "_"
+	}
+	return name
+}
+
 type JavaWriter struct {
 	data     *build.Writer
 	enum     *build.Writer
diff --git a/pkg/java/server.go b/pkg/java/server.go
index a53d9a3..0c68811 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -35,10 +35,10 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 		}
 		dst.Code("\t\tCompletableFuture<")
 		b.printResult(dst, method.Result)
-		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
+		dst.Code("> " + memberName(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
-		dst.Code(" " + build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(" " + paramName(method.ParamName.Name))
 		dst.Code(", Server.Context ctx) throws Exception ;\n\n")
 	}
 	dst.Code("\t}\n\n")
@@ -67,10 +67,10 @@ func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("\t\t@Override\n")
 		dst.Code("\t\tpublic CompletableFuture<")
 		b.printResult(dst, method.Result)
-		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
+		dst.Code("> " + memberName(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
-		dst.Code(" " + build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(" " + paramName(method.ParamName.Name))
 		dst.Code(", Server.Context ctx) throws Exception {\n")
 
 		dst.Code("\t\t\treturn invoke(\"")
@@ -79,7 +79,7 @@ func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 		//TODO dst.Code(build.NumberText(server.Id.Value) + " << 32 | " + build.NumberText(method.Id.Value))
 		dst.Code("0L << 32 | " + build.NumberText(method.Id.Value) + "L")
 		dst.Code(", ")
-		dst.Code(build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(paramName(method.ParamName.Name))
 		if isVoid(method.Result) {
 			dst.Code(", null, null);\n")
 		} else {
-- 
2.43.0


From 745441052051dd35a7c910070e5aeb009c65e71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:29 +0000
Subject: [PATCH 069/103] fix: call inherited methods by the routes the
 generated Go servers have

---
 pkg/dart/server.go       | 4 ++--
 pkg/java/server.go       | 2 +-
 pkg/typescript/server.go | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/dart/server.go b/pkg/dart/server.go
index 31dd8a4..1f326df 100644
--- a/pkg/dart/server.go
+++ b/pkg/dart/server.go
@@ -70,7 +70,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("    return invoke<")
 		b.printType(dst, method.Result.Type(), false)
 		dst.Code(">(\"")
-		dst.Code(build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
+		dst.Code(build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
 		//TODO dst.Code(build.NumberText(server.Id.Value) + " << 32 | " + build.NumberText(method.Id.Value))
 		dst.Code("0 << 32 | " + build.NumberText(method.Id.Value))
@@ -114,7 +114,7 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("  " + build.StringToHumpName(typ.Name.Name) + "Router(this.server){\n")
 	dst.Code("    _invokeNames = {\n")
 	_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
-		dst.Code("      \"" + build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\": ServerInvoke(\n")
+		dst.Code("      \"" + build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\": ServerInvoke(\n")
 		dst.Code("        toData: (List<int> buf) async {\n")
 		dst.Code("          return ")
 		b.printType(dst, method.Param.Type(), false)
diff --git a/pkg/java/server.go b/pkg/java/server.go
index 0c68811..ee86ec9 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -74,7 +74,7 @@ func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code(", Server.Context ctx) throws Exception {\n")
 
 		dst.Code("\t\t\treturn invoke(\"")
-		dst.Code(build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
+		dst.Code(build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
 		//TODO dst.Code(build.NumberText(server.Id.Value) + " << 32 | " + build.NumberText(method.Id.Value))
 		dst.Code("0L << 32 | " + build.NumberText(method.Id.Value) + "L")
diff --git a/pkg/typescript/server.go b/pkg/typescript/server.go
index c2f70db..c67bb17 100644
--- a/pkg/typescript/server.go
+++ b/pkg/typescript/server.go
@@ -95,7 +95,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 			b.printType(dst, method.Result.Type(), false, false)
 		}
 		dst.Code(">(\"")
-		dst.Code(build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
+		dst.Code(build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
 		dst.Code("0 << 32 | " + build.NumberText(method.Id.Value))
 		dst.Code(", ")
@@ -139,7 +139,7 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("\t\tthis.server = server\n")
 	dst.Code("\t\tthis.invoke = {\n")
 	err := build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
-		dst.Code("\t\t\t\"" + build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\": {\n")
+		dst.Code("\t\t\t\"" + build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\": {\n")
 		dst.Code("\t\t\t\tformData(data: BinaryData | Record<string, any>): h.Data {\n")
 		dst.Code("\t\t\t\t\treturn ")
 		b.printType(dst, method.Param.Type(), false, false)
-- 
2.43.0


From 7f3e6397e1f57bd8ba820b89b051b1ced3a5667a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:32 +0000
Subject: [PATCH 070/103] fix: reject fields, methods and items whose names
 become the same name

---
 pkg/build/build.go | 64 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 64 insertions(+)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index cd93d48..00e1d95 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -202,6 +202,70 @@ func (b *Builder) checkFiles() error {
 		}
 	}
 
+	for _, path := range b.getPaths() {
+		err := b.checkMemberNames(b.pkg.Files[path])
+		if err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
+// checkMemberNames rejects fields, methods and items of one type, inherited ones included, whose names differ but become
+// the same name in the generated code or in what it sends
+func (b *Builder) checkMemberNames(file *ast.File) error {
+	for _, s := range file.Specs {
+		spec, ok := s.(*ast.TypeSpec)
+		if !ok {
+			continue
+		}
+		type member struct {
+			name string
+			pos  token.Pos
+		}
+		names := map[string]member{}
+		check := func(name *ast.Ident, own bool) error {
+			pos := spec.Name.Pos()
+			if own {
+				pos = name.Pos()
+			}
+			for _, key := range []string{"hump:" + StringToHumpName(name.Name), "underline:" + StringToUnderlineName(name.Name)} {
+				other, ok := names[key]
+				if !ok {
+					names[key] = member{name.Name, pos}
+				} else if other.name != name.Name {
+					return scanner.Error{
+						Pos: b.fset.Position(other.pos),
+						Msg: "Duplicate item: " + other.name + ", " + name.Name,
+					}
+				}
+			}
+			return nil
+		}
+
+		var err error
+		switch t := spec.Type.(type) {
+		case *ast.DataType:
+			err = EnumField(t, func(field *ast.Field, data *ast.DataType) error {
+				return check(field.Name, data == t)
+			})
+		case *ast.ServerType:
+			err = EnumMethod(t, func(method *ast.FuncType, server *ast.ServerType) error {
+				return check(method.Name, server == t)
+			})
+		case *ast.EnumType:
+			for _, item := range t.Items {
+				err = check(item.Name, true)
+				if err != nil {
+					break
+				}
+			}
+		}
+		if err != nil {
+			return err
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 309f48ddeedf973a835ebe733a8ee97cbf33d1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:43 +0000
Subject: [PATCH 071/103] fix: name types in generated Dart as they are
 declared

---
 pkg/dart/dart.go | 2 +-
 pkg/dart/data.go | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index 26e1b7f..1afad0b 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -207,7 +207,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool) {
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			b.getPackage(dst, expr, "")
-			dst.Code(expr.(*ast.Ident).Name)
+			dst.Code(build.StringToHumpName(expr.(*ast.Ident).Name))
 		} else {
 			if build.Decimal == build.BaseType((expr.(*ast.Ident).Name)) {
 				dst.Import("package:decimal/decimal.dart", "")
diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index 2328086..b4a46bc 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -405,18 +405,19 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 	switch expr.(type) {
 	case *ast.Ident:
 		t := expr.(*ast.Ident)
+		typeName := build.StringToHumpName(t.Name)
 		if nil != t.Obj {
 			if ast.Enum == t.Obj.Kind {
 				if empty {
-					dst.Code("null == " + name + " ? null :" + v + " is num ? " + t.Name + ".valueOf(" + v + ".toInt()) : null == num.tryParse(" + v + ".toString()) ? null : " + t.Name + ".valueOf(num.tryParse(" + v + ".toString())!.toInt())")
+					dst.Code("null == " + name + " ? null :" + v + " is num ? " + typeName + ".valueOf(" + v + ".toInt()) : null == num.tryParse(" + v + ".toString()) ? null : " + typeName + ".valueOf(num.tryParse(" + v + ".toString())!.toInt())")
 				} else {
-					dst.Code("null == " + name + " ? " + t.Name + ".valueOf(0) : " + t.Name + ".valueOf(" + v + " is num ? " + v + ".toInt() : num.tryParse(" + v + ".toString())?.toInt() ?? 0)")
+					dst.Code("null == " + name + " ? " + typeName + ".valueOf(0) : " + typeName + ".valueOf(" + v + " is num ? " + v + ".toInt() : num.tryParse(" + v + ".toString())?.toInt() ?? 0)")
 				}
 			} else if ast.Data == t.Obj.Kind {
 				if empty {
-					dst.Code("null == " + name + " ? null : " + t.Name + ".fromMap(" + v + ")")
+					dst.Code("null == " + name + " ? null : " + typeName + ".fromMap(" + v + ")")
 				} else {
-					dst.Code("null == " + name + " ? " + t.Name + ".fromMap({}) : " + t.Name + ".fromMap(" + v + ")")
+					dst.Code("null == " + name + " ? " + typeName + ".fromMap({}) : " + typeName + ".fromMap(" + v + ")")
 				}
 			} else {
 				dst.Code("map[\"" + name + "\"]")
-- 
2.43.0


From 5d5ecf22c34be3ba50103b5f6a398b331ee5b189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:44 +0000
Subject: [PATCH 072/103] fix: write and copy the values of maps in generated
 Dart

---
 pkg/dart/data.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index b4a46bc..4816206 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -386,13 +386,13 @@ func (b *Builder) printCopy(dst *build.Writer, name string, expr ast.Expr, data
 			dst.Code(name + "?.map((key,value) => MapEntry(")
 			b.printCopy(dst, "key", t.Key, data, empty)
 			dst.Code(",")
-			b.printCopy(dst, "value", t.Key, data, empty)
-			dst.Code(")")
+			b.printCopy(dst, "value", t.VType, data, empty)
+			dst.Code("))")
 		} else {
 			dst.Code(name + ".map((key,value) => MapEntry(")
 			b.printCopy(dst, "key", t.Key, data, empty)
 			dst.Code(",")
-			b.printCopy(dst, "value", t.Key, data, empty)
+			b.printCopy(dst, "value", t.VType, data, empty)
 			dst.Code("))")
 		}
 	case *ast.VarType:
@@ -582,13 +582,13 @@ func (b *Builder) printToMap(dst *build.Writer, name string, expr ast.Expr, data
 			dst.Code(name + "?.map((key,value) => MapEntry(")
 			b.printToMap(dst, "key", t.Key, data, empty)
 			dst.Code(",")
-			b.printToMap(dst, "value", t.Key, data, empty)
-			dst.Code(")")
+			b.printToMap(dst, "value", t.VType, data, empty)
+			dst.Code("))")
 		} else {
 			dst.Code(name + ".map((key,value) => MapEntry(")
 			b.printToMap(dst, "key", t.Key, data, empty)
 			dst.Code(",")
-			b.printToMap(dst, "value", t.Key, data, empty)
+			b.printToMap(dst, "value", t.VType, data, empty)
 			dst.Code("))")
 		}
 	case *ast.VarType:
-- 
2.43.0


From 892681acbd411c4321a5b5cf6d902088b9d24f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:46 +0000
Subject: [PATCH 073/103] fix: give lists and maps of generated Dart the types
 of their elements

---
 pkg/dart/data.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index 4816206..bdfd386 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -474,7 +474,9 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 		t := expr.(*ast.ArrayType)
 		empty = t.IsEmpty()
 		if empty {
-			dst.Code("null == " + name + " ? null : (" + v + "! is! List ? null : (temp as List).map((temp) => ")
+			dst.Code("null == " + name + " ? null : (" + v + "! is! List ? null : (temp as List).map<")
+			b.printType(dst, t.VType, false)
+			dst.Code(">((temp) => ")
 			b.printFormMap(dst, "temp", "temp", t.VType, data, empty)
 			dst.Code(").toList())")
 		} else {
@@ -482,7 +484,9 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 			b.printType(dst, t.VType, false)
 			dst.Code(">[] : (temp! is! List ? <")
 			b.printType(dst, t.VType, false)
-			dst.Code(">[] : (temp as List).map((item) => ")
+			dst.Code(">[] : (temp as List).map<")
+			b.printType(dst, t.VType, false)
+			dst.Code(">((item) => ")
 			b.printFormMap(dst, "item", "item", t.VType, data, empty)
 			dst.Code(").toList())")
 		}
@@ -490,7 +494,11 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 		t := expr.(*ast.MapType)
 		empty = t.IsEmpty()
 		if empty {
-			dst.Code("null == " + name + " ? null : (" + v + "! is! Map ? null : (temp as Map).map((key,value) => MapEntry(")
+			dst.Code("null == " + name + " ? null : (" + v + "! is! Map ? null : (temp as Map).map<")
+			b.printType(dst, t.Key, false)
+			dst.Code(", ")
+			b.printType(dst, t.VType, false)
+			dst.Code(">((key,value) => MapEntry(")
 			b.printFormMap(dst, "key", "key", t.Key, data, empty)
 			dst.Code(",")
 			b.printFormMap(dst, "value", "value", t.VType, data, empty)
@@ -504,7 +512,11 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 			b.printType(dst, t.Key, false)
 			dst.Code(",")
 			b.printType(dst, t.VType, false)
-			dst.Code(">{} : (temp as Map).map((key,value) => MapEntry(")
+			dst.Code(">{} : (temp as Map).map<")
+			b.printType(dst, t.Key, false)
+			dst.Code(", ")
+			b.printType(dst, t.VType, false)
+			dst.Code(">((key,value) => MapEntry(")
 			b.printFormMap(dst, "key", "key", t.Key, data, empty)
 			dst.Code(",")
 			b.printFormMap(dst, "value", "value", t.VType, data, empty)
-- 
2.43.0


From 4058d1b4c90325b69943017c435179c59d4a8515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:49 +0000
Subject: [PATCH 074/103] fix: generate valid Dart for methods that return
 nothing

---
 pkg/dart/server.go | 57 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/pkg/dart/server.go b/pkg/dart/server.go
index 1f326df..28cfd44 100644
--- a/pkg/dart/server.go
+++ b/pkg/dart/server.go
@@ -16,6 +16,21 @@ func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) {
 
 }
 
+// isVoid tells whether a method returns nothing
+func isVoid(result *ast.VarType) bool {
+	id, ok := result.Type().(*ast.Ident)
+	return ok && nil == id.Obj && "void" == id.Name
+}
+
+// printResult prints the type of what a method returns
+func (b *Builder) printResult(dst *build.Writer, result *ast.VarType) {
+	if isVoid(result) {
+		dst.Code("void")
+		return
+	}
+	b.printType(dst, result.Type(), false)
+}
+
 func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
 		dst.Code("///" + build.DocText(typ.Doc, "///"))
@@ -34,7 +49,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 			dst.Code("  @override\n")
 		}
 		dst.Code("  Future<")
-		b.printType(dst, method.Result.Type(), false)
+		b.printResult(dst, method.Result)
 		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
@@ -60,7 +75,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 	_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
 		dst.Code("  @override\n")
 		dst.Code("  Future<")
-		b.printType(dst, method.Result.Type(), false)
+		b.printResult(dst, method.Result)
 		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
@@ -68,7 +83,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code(", [Context? ctx]){\n")
 
 		dst.Code("    return invoke<")
-		b.printType(dst, method.Result.Type(), false)
+		b.printResult(dst, method.Result)
 		dst.Code(">(\"")
 		dst.Code(build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
@@ -76,11 +91,15 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("0 << 32 | " + build.NumberText(method.Id.Value))
 		dst.Code(", ")
 		dst.Code(build.StringToFirstLower(method.ParamName.Name))
-		dst.Code(", ")
-		b.printType(dst, method.Result.Type(), false)
-		dst.Code(".fromMap, ")
-		b.printType(dst, method.Result.Type(), false)
-		dst.Code(".fromData);\n")
+		if isVoid(method.Result) {
+			dst.Code(", (map) {}, (data) {});\n")
+		} else {
+			dst.Code(", ")
+			b.printType(dst, method.Result.Type(), false)
+			dst.Code(".fromMap, ")
+			b.printType(dst, method.Result.Type(), false)
+			dst.Code(".fromData);\n")
+		}
 
 		dst.Code("  }\n\n")
 		return nil
@@ -124,9 +143,7 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("     	   return utf8.encode(json.encode(data.toMap()));\n")
 		dst.Code("        },\n")
 		dst.Code("        invoke: (Context ctx, Data data) async {\n")
-		dst.Code("     	   return await server." + build.StringToFirstLower(method.Name.Name) + "(data as ")
-		b.printType(dst, method.Param.Type(), false)
-		dst.Code(", ctx);\n")
+		b.printInvoke(dst, method)
 		dst.Code("        },\n")
 		dst.Code("      ),\n")
 		return nil
@@ -146,9 +163,7 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("     	   return data.toData().buffer.asUint8List();\n")
 		dst.Code("        },\n")
 		dst.Code("        invoke: (Context ctx, Data data) async {\n")
-		dst.Code("     	   return await server." + build.StringToFirstLower(method.Name.Name) + "(data as ")
-		b.printType(dst, method.Param.Type(), false)
-		dst.Code(", ctx);\n")
+		b.printInvoke(dst, method)
 		dst.Code("        },\n")
 		dst.Code("      ),\n")
 		return nil
@@ -182,3 +197,17 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 
 	dst.Code("}\n\n")
 }
+
+// printInvoke prints the call of a method of the server
+func (b *Builder) printInvoke(dst *build.Writer, method *ast.FuncType) {
+	if isVoid(method.Result) {
+		dst.Code("     	   await server." + build.StringToFirstLower(method.Name.Name) + "(data as ")
+	} else {
+		dst.Code("     	   return await server." + build.StringToFirstLower(method.Name.Name) + "(data as ")
+	}
+	b.printType(dst, method.Param.Type(), false)
+	dst.Code(", ctx);\n")
+	if isVoid(method.Result) {
+		dst.Code("     	   return null;\n")
+	}
+}
-- 
2.43.0


From 67e59757966ae2f08e8e93b723db9797d6fa3c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:47 +0000
Subject: [PATCH 075/103] fix: generate Dart identifiers for names that are
 reserved or taken

---
 pkg/dart/dart.go   | 48 ++++++++++++++++++++++++++++++++++++++++++++++
 pkg/dart/data.go   | 46 ++++++++++++++++++++++----------------------
 pkg/dart/server.go | 16 ++++++++--------
 pkg/dart/ui.go     | 18 ++++++++---------
 4 files changed, 88 insertions(+), 40 deletions(-)

diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index 1afad0b..8044bf3 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -17,6 +17,54 @@ var _types = map[build.BaseType]string{
 	build.Double: "double", build.String: "String", build.Date: "DateTime", build.Decimal: "Decimal",
 }
 
+// _reserved are the words of Dart which are no identifiers, everywhere or in what is generated
+var _reserved = map[string]struct{}{
+	"assert": {}, "await": {}, "break": {}, "case": {}, "catch": {}, "class": {}, "const": {}, "continue": {}, "default": {},
+	"do": {}, "else": {}, "enum": {}, "extends": {}, "false": {}, "final": {}, "finally": {}, "for": {}, "if": {}, "in": {},
+	"is": {}, "new": {}, "null": {}, "rethrow": {}, "return": {}, "super": {}, "switch": {}, "this": {}, "throw": {},
+	"true": {}, "try": {}, "var": {}, "void": {}, "while": {}, "with": {}, "yield": {},
+}
+
+// _fieldMembers are the other members of data classes and what these classes use
+var _fieldMembers = map[string]struct{}{
+	"hashCode": {}, "noSuchMethod": {}, "runtimeType": {}, "toString": {},
+	"copy": {}, "copyWith": {}, "fromData": {}, "fromMap": {}, "toData": {}, "toMap": {},
+	"bool": {}, "double": {}, "dynamic": {}, "identical": {}, "int": {}, "num": {}, "other": {},
+}
+
+// _methodMembers are the other members of servers and their clients and what these classes use
+var _methodMembers = map[string]struct{}{
+	"hashCode": {}, "noSuchMethod": {}, "runtimeType": {}, "toString": {}, "id": {}, "int": {}, "invoke": {}, "name": {},
+}
+
+// _paramNames are the names beside the parameter of a method
+var _paramNames = map[string]struct{}{"ctx": {}, "invoke": {}}
+
+func checkName(name string, used ...map[string]struct{}) string {
+	name = build.StringToFirstLower(name)
+	for _, words := range used {
+		if _, ok := words[name]; ok {
+			return name + "_"
+		}
+	}
+	return name
+}
+
+// fieldName returns the name of a field, which must be neither reserved nor another member
+func fieldName(name string) string {
+	return checkName(name, _reserved, _fieldMembers)
+}
+
+// methodName returns the name of a method, which must be neither reserved nor another member
+func methodName(name string) string {
+	return checkName(name, _reserved, _methodMembers)
+}
+
+// paramName returns the name of a parameter, which must be neither reserved nor a name used beside it
+func paramName(name string) string {
+	return checkName(name, _reserved, _paramNames)
+}
+
 type DartWriter struct {
 	data   *build.Writer
 	enum   *build.Writer
diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index bdfd386..48c63d0 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -32,7 +32,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 		}
 		dst.Code("\t")
 		b.printType(dst, field.Type, false)
-		dst.Code(" get " + build.StringToFirstLower(field.Name.Name))
+		dst.Code(" get " + fieldName(field.Name.Name))
 		dst.Code(";\n\n")
 
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
@@ -42,7 +42,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 			dst.Code("\t@override\n")
 		}
 		dst.Code("\tset ")
-		dst.Code(build.StringToFirstLower(field.Name.Name) + "(")
+		dst.Code(fieldName(field.Name.Name) + "(")
 		b.printType(dst, field.Type, false)
 		dst.Code(" value);\n\n")
 	}
@@ -58,7 +58,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 			dst.Code("required ")
 		}
 		b.printType(dst, field.Type, false)
-		dst.Code(" " + build.StringToFirstLower(field.Name.Name))
+		dst.Code(" " + fieldName(field.Name.Name))
 		dst.Code(",\n")
 		return nil
 	})
@@ -74,9 +74,9 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	dst.Code("\t\treturn _" + build.StringToHumpName(typ.Name.Name) + "(\n")
 	err = build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
 		dst.Code("\t\t\t")
-		dst.Code(build.StringToFirstLower(field.Name.Name))
+		dst.Code(fieldName(field.Name.Name))
 		dst.Code(": ")
-		dst.Code(build.StringToFirstLower(field.Name.Name))
+		dst.Code(fieldName(field.Name.Name))
 		dst.Code(",\n")
 		return nil
 	})
@@ -103,7 +103,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 		}
 		dst.Code("\t\t")
 		b.printType(dst, field.Type, true)
-		dst.Code("? " + build.StringToFirstLower(field.Name.Name))
+		dst.Code("? " + fieldName(field.Name.Name))
 		dst.Code(",\n")
 		return nil
 	})
@@ -131,7 +131,7 @@ func (b *Builder) printDataEntity(dst *build.Writer, typ *ast.DataType) {
 		dst.Code("\t@override\n")
 		dst.Code("\t")
 		b.printType(dst, field.Type, false)
-		dst.Code(" " + build.StringToFirstLower(field.Name.Name))
+		dst.Code(" " + fieldName(field.Name.Name))
 		dst.Code(";\n\n")
 		return nil
 	})
@@ -150,7 +150,7 @@ func (b *Builder) printDataEntity(dst *build.Writer, typ *ast.DataType) {
 		if !field.Type.IsEmpty() {
 			dst.Code("required ")
 		}
-		dst.Code("this." + build.StringToFirstLower(field.Name.Name))
+		dst.Code("this." + fieldName(field.Name.Name))
 		dst.Code(",\n")
 		return nil
 	})
@@ -168,7 +168,7 @@ func (b *Builder) printDataEntity(dst *build.Writer, typ *ast.DataType) {
 	dst.Code("\t\treturn _" + build.StringToHumpName(typ.Name.Name) + "(\n")
 
 	err = build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
-		dst.Code("\t\t\t" + build.StringToFirstLower(field.Name.Name) + ": ")
+		dst.Code("\t\t\t" + fieldName(field.Name.Name) + ": ")
 		jsonName := build.StringToUnderlineName(field.Name.Name)
 		b.printFormMap(dst, "(temp = map[\""+jsonName+"\"])", "temp", field.Type, data, false)
 		dst.Code(",\n")
@@ -188,7 +188,7 @@ func (b *Builder) printDataEntity(dst *build.Writer, typ *ast.DataType) {
 	err = build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
 		dst.Code("\t\t\t\"" + build.StringToUnderlineName(field.Name.Name))
 		dst.Code("\":")
-		b.printToMap(dst, build.StringToFirstLower(field.Name.Name), field.Type, data, false)
+		b.printToMap(dst, fieldName(field.Name.Name), field.Type, data, false)
 		dst.Code(",\n")
 		return nil
 	})
@@ -202,7 +202,7 @@ func (b *Builder) printDataEntity(dst *build.Writer, typ *ast.DataType) {
 	dst.Code("\t\treturn _" + build.StringToHumpName(typ.Name.Name) + ".fromMap({});\n")
 
 	//err = build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
-	//	dst.Code("      " + build.StringToFirstLower(field.Name.Name))
+	//	dst.Code("      " + fieldName(field.Name.Name))
 	//	dst.Code(": map[\"" + getJsonName(field) + "\"]")
 	//	dst.Code(",\n")
 	//	return nil
@@ -220,7 +220,7 @@ func (b *Builder) printDataEntity(dst *build.Writer, typ *ast.DataType) {
 	dst.Code("\t\treturn ByteData.view(Uint8List(12).buffer);\n")
 	//err = build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
 	//	dst.Code("      \"" + getJsonName(field))
-	//	dst.Code("\": " + build.StringToFirstLower(field.Name.Name) + ",\n")
+	//	dst.Code("\": " + fieldName(field.Name.Name) + ",\n")
 	//	return nil
 	//})
 	//if err != nil {
@@ -239,7 +239,7 @@ func (b *Builder) printDataEntity(dst *build.Writer, typ *ast.DataType) {
 		}
 		dst.Code("\t\t")
 		b.printType(dst, field.Type, true)
-		dst.Code("? " + build.StringToFirstLower(field.Name.Name))
+		dst.Code("? " + fieldName(field.Name.Name))
 		dst.Code(",\n")
 		return nil
 	})
@@ -255,11 +255,11 @@ func (b *Builder) printDataEntity(dst *build.Writer, typ *ast.DataType) {
 	dst.Code("\t\treturn _" + build.StringToHumpName(typ.Name.Name) + "(\n")
 	err = build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
 		dst.Code("\t\t\t")
-		dst.Code(build.StringToFirstLower(field.Name.Name))
+		dst.Code(fieldName(field.Name.Name))
 		dst.Code(": ")
-		dst.Code(build.StringToFirstLower(field.Name.Name))
+		dst.Code(fieldName(field.Name.Name))
 		dst.Code("?? this.")
-		dst.Code(build.StringToFirstLower(field.Name.Name))
+		dst.Code(fieldName(field.Name.Name))
 		dst.Code(",\n")
 		return nil
 	})
@@ -276,9 +276,9 @@ func (b *Builder) printDataEntity(dst *build.Writer, typ *ast.DataType) {
 	dst.Code("\t\t\t\t\truntimeType == other.runtimeType ")
 	err = build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
 		dst.Code("&& \n\t\t\t\t\t")
-		dst.Code(build.StringToFirstLower(field.Name.Name))
+		dst.Code(fieldName(field.Name.Name))
 		dst.Code(" == other.")
-		dst.Code(build.StringToFirstLower(field.Name.Name))
+		dst.Code(fieldName(field.Name.Name))
 		return nil
 	})
 	if err != nil {
@@ -290,7 +290,7 @@ func (b *Builder) printDataEntity(dst *build.Writer, typ *ast.DataType) {
 	dst.Code("\tint get hashCode => 0 ")
 	err = build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
 		dst.Code(" ^ ")
-		dst.Code(build.StringToFirstLower(field.Name.Name))
+		dst.Code(fieldName(field.Name.Name))
 		dst.Code(".hashCode")
 		return nil
 	})
@@ -304,9 +304,9 @@ func (b *Builder) printDataEntity(dst *build.Writer, typ *ast.DataType) {
 	dst.Code("\t\treturn _" + build.StringToHumpName(typ.Name.Name) + "(\n")
 	err = build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
 		dst.Code("\t\t\t")
-		dst.Code(build.StringToFirstLower(field.Name.Name))
+		dst.Code(fieldName(field.Name.Name))
 		dst.Code(": ")
-		b.printCopy(dst, build.StringToFirstLower(field.Name.Name), field.Type, data, true)
+		b.printCopy(dst, fieldName(field.Name.Name), field.Type, data, true)
 		dst.Code(",\n")
 		return nil
 	})
@@ -325,9 +325,9 @@ func (b *Builder) printDataEntity(dst *build.Writer, typ *ast.DataType) {
 			dst.Code("\n\t\t\t")
 		}
 		isFast = false
-		dst.Code(build.StringToFirstLower(field.Name.Name))
+		dst.Code(fieldName(field.Name.Name))
 		dst.Code(": $")
-		dst.Code(build.StringToFirstLower(field.Name.Name))
+		dst.Code(fieldName(field.Name.Name))
 		return nil
 	})
 	if err != nil {
diff --git a/pkg/dart/server.go b/pkg/dart/server.go
index 28cfd44..2833dd5 100644
--- a/pkg/dart/server.go
+++ b/pkg/dart/server.go
@@ -50,10 +50,10 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 		}
 		dst.Code("  Future<")
 		b.printResult(dst, method.Result)
-		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
+		dst.Code("> " + methodName(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
-		dst.Code(" " + build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(" " + paramName(method.ParamName.Name))
 		dst.Code(", [Context? ctx]);\n\n")
 	}
 	dst.Code("}\n\n")
@@ -76,10 +76,10 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("  @override\n")
 		dst.Code("  Future<")
 		b.printResult(dst, method.Result)
-		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
+		dst.Code("> " + methodName(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
-		dst.Code(" " + build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(" " + paramName(method.ParamName.Name))
 		dst.Code(", [Context? ctx]){\n")
 
 		dst.Code("    return invoke<")
@@ -90,7 +90,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 		//TODO dst.Code(build.NumberText(server.Id.Value) + " << 32 | " + build.NumberText(method.Id.Value))
 		dst.Code("0 << 32 | " + build.NumberText(method.Id.Value))
 		dst.Code(", ")
-		dst.Code(build.StringToFirstLower(method.ParamName.Name))
+		dst.Code(paramName(method.ParamName.Name))
 		if isVoid(method.Result) {
 			dst.Code(", (map) {}, (data) {});\n")
 		} else {
@@ -178,7 +178,7 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 	//dst.Code("    switch (id) {\n")
 	//_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
 	//	dst.Code("      case " + build.NumberText(server.Id.Value)s + " << 32 | " + build.NumberText(method.Id.Value)s + " :\n")
-	//	dst.Code("        return server." + build.StringToFirstLower(method.Name.Name) + "(")
+	//	dst.Code("        return server." + methodName(method.Name.Name) + "(")
 	//	printType(dst, method.Param.Type(), false)
 	//	dst.Code(".fromData(data)!).toData();\n")
 	//	return nil
@@ -201,9 +201,9 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 // printInvoke prints the call of a method of the server
 func (b *Builder) printInvoke(dst *build.Writer, method *ast.FuncType) {
 	if isVoid(method.Result) {
-		dst.Code("     	   await server." + build.StringToFirstLower(method.Name.Name) + "(data as ")
+		dst.Code("     	   await server." + methodName(method.Name.Name) + "(data as ")
 	} else {
-		dst.Code("     	   return await server." + build.StringToFirstLower(method.Name.Name) + "(data as ")
+		dst.Code("     	   return await server." + methodName(method.Name.Name) + "(data as ")
 	}
 	b.printType(dst, method.Param.Type(), false)
 	dst.Code(", ctx);\n")
diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index 87c6ec9..e5f54bd 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -220,7 +220,7 @@ func (b *Builder) printTable(dst *build.Writer, typ *ast.DataType, u *ui) {
 			index = *table.index
 		}
 		dst.Code("\t\ttables.columns[\"")
-		fieldName := build.StringToFirstLower(field.Name.Name)
+		fieldName := fieldName(field.Name.Name)
 		dst.Code(fieldName)
 		dst.Code("\"] = TablesColumn(\n")
 		dst.Code("\t\t\t\tindex: " + strconv.Itoa(index) + ",\n")
@@ -497,7 +497,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 	setValue := build.NewWriter()
 	err := build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
 		form := b.getUI(field.Tags)
-		fieldName := build.StringToFirstLower(field.Name.Name)
+		fieldName := fieldName(field.Name.Name)
 		if nil == form {
 			return nil
 		}
@@ -551,7 +551,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			setValue.Code("\t\t" + fieldName + ".padding = padding;\n")
 			if nil != verify {
 				b.getPackage(dst, typ.Name, "verify")
-				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(fieldName) + "(context, val!);\n")
+				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, val!);\n")
 			}
 			setValue.Code("\t\t" + fieldName + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
 
@@ -575,7 +575,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			setValue.Code("\t\t" + fieldName + ".padding = padding;\n")
 			if nil != verify {
 				b.getPackage(dst, typ.Name, "verify")
-				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(fieldName) + "(context, val!);\n")
+				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, val!);\n")
 			}
 			setValue.Code("\t\t" + fieldName + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
 
@@ -607,7 +607,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			}
 			if nil != verify {
 				b.getPackage(dst, typ.Name, "verify")
-				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(fieldName) + "(context, val!);\n")
+				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, val!);\n")
 			}
 			setValue.Code("\t\t" + fieldName + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
 
@@ -665,7 +665,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			}
 			if nil != verify {
 				b.getPackage(dst, typ.Name, "verify")
-				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(fieldName) + "(context, val!);\n")
+				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, val!);\n")
 			}
 			setValue.Code("\t\t" + fieldName + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
 			fields.Code("\t\t\t" + fieldName + ".build(context),\n")
@@ -690,7 +690,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			setValue.Code("\t\t" + fieldName + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n")
 			if nil != verify {
 				b.getPackage(dst, typ.Name, "verify")
-				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(fieldName) + "(context, val?.toString());\n")
+				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, val?.toString());\n")
 			}
 			setValue.Code("\t\t" + fieldName + ".items = [\n")
 			b.printMenuItem(setValue, field.Type, false)
@@ -713,7 +713,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			setValue.Code("\t\t" + fieldName + ".padding = padding;\n")
 			if nil != verify {
 				b.getPackage(dst, typ.Name, "verify")
-				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(fieldName) + "(context, val!);\n")
+				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, val!);\n")
 			}
 			setValue.Code("\t\t" + fieldName + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
 
@@ -738,7 +738,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			setValue.Code("\t\t" + fieldName + ".padding = padding;\n")
 			if nil != verify {
 				b.getPackage(dst, typ.Name, "verify")
-				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(fieldName) + "(context, val!);\n")
+				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, val!);\n")
 			}
 			setValue.Code("\t\t" + fieldName + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
 
-- 
2.43.0


From 6d3d1c48d0f573636f97a46f3a30aef6cc1c50cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:48 +0000
Subject: [PATCH 076/103] fix: write the keys of maps as strings in generated
 Dart

---
 pkg/dart/data.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index 48c63d0..b2ebb92 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -458,7 +458,7 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 				if empty {
 					dst.Code("null == " + name + " ? null : (" + v + " is bool ? " + v + " : (" + v + " is num ? 0 != " + v + " : (null == num.tryParse(" + v + ".toString()) ? null : 0 != num.tryParse(" + v + ".toString()))))")
 				} else {
-					dst.Code("null == " + name + " ? false:(" + v + " is bool ? " + v + " : 0 != (" + v + " is num ? " + v + " : num.tryParse(" + v + ".toString()) ?? 0))")
+					dst.Code("null == " + name + " ? false:(" + v + " is bool ? " + v + " : \"true\" == " + v + ".toString() || 0 != (" + v + " is num ? " + v + " : num.tryParse(" + v + ".toString()) ?? 0))")
 				}
 			case build.Decimal:
 				if empty {
@@ -592,13 +592,13 @@ func (b *Builder) printToMap(dst *build.Writer, name string, expr ast.Expr, data
 		empty = t.IsEmpty()
 		if empty {
 			dst.Code(name + "?.map((key,value) => MapEntry(")
-			b.printToMap(dst, "key", t.Key, data, empty)
+			b.printToKey(dst, "key", t.Key)
 			dst.Code(",")
 			b.printToMap(dst, "value", t.VType, data, empty)
 			dst.Code("))")
 		} else {
 			dst.Code(name + ".map((key,value) => MapEntry(")
-			b.printToMap(dst, "key", t.Key, data, empty)
+			b.printToKey(dst, "key", t.Key)
 			dst.Code(",")
 			b.printToMap(dst, "value", t.VType, data, empty)
 			dst.Code("))")
@@ -609,6 +609,29 @@ func (b *Builder) printToMap(dst *build.Writer, name string, expr ast.Expr, data
 	}
 }
 
+// printToKey prints the key of a map as a string, which is what JSON has as keys
+func (b *Builder) printToKey(dst *build.Writer, name string, expr ast.Expr) {
+	switch t := expr.(type) {
+	case *ast.Ident:
+		if nil != t.Obj {
+			dst.Code(name + ".value.toString()")
+			return
+		}
+		switch build.BaseType(t.Name) {
+		case build.String:
+			dst.Code(name)
+		case build.Date:
+			dst.Code(name + ".millisecondsSinceEpoch.toString()")
+		case build.Uint64:
+			dst.Code(name + ".toStringUnsigned()")
+		default:
+			dst.Code(name + ".toString()")
+		}
+	case *ast.VarType:
+		b.printToKey(dst, name, t.Type())
+	}
+}
+
 func (b *Builder) printExtend(dst *build.Writer, extends []*ast.Extends, start bool) {
 	for i, v := range extends {
 		if 0 != i || start {
-- 
2.43.0


From cdf7746dfed535989a251c3c07a477f6dc201c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:49 +0000
Subject: [PATCH 077/103] fix: write uint64 without sign in generated Dart

---
 pkg/dart/data.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index b2ebb92..f07207c 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -553,7 +553,13 @@ func (b *Builder) printToMap(dst *build.Writer, name string, expr ast.Expr, data
 			switch build.BaseType(expr.(*ast.Ident).Name) {
 			case build.Int8, build.Int16, build.Int32, build.Uint32, build.Uint8, build.Uint16, build.Float, build.Double, build.String, build.Bool:
 				dst.Code(name)
-			case build.Uint64, build.Int64:
+			case build.Uint64:
+				if empty {
+					dst.Code(name + "?.toStringUnsigned()")
+				} else {
+					dst.Code(name + ".toStringUnsigned()")
+				}
+			case build.Int64:
 				if empty {
 					dst.Code(name + "?.toString()")
 				} else {
-- 
2.43.0


From 938b998814248193be45c54da9a2b1b3136163c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:57 +0000
Subject: [PATCH 078/103] fix: default enums without an item of number 0 to
 their first item in generated Dart

---
 pkg/dart/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index f07207c..e3d89c9 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -411,7 +411,7 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 				if empty {
 					dst.Code("null == " + name + " ? null :" + v + " is num ? " + typeName + ".valueOf(" + v + ".toInt()) : null == num.tryParse(" + v + ".toString()) ? null : " + typeName + ".valueOf(num.tryParse(" + v + ".toString())!.toInt())")
 				} else {
-					dst.Code("null == " + name + " ? " + typeName + ".valueOf(0) : " + typeName + ".valueOf(" + v + " is num ? " + v + ".toInt() : num.tryParse(" + v + ".toString())?.toInt() ?? 0)")
+					dst.Code("null == " + name + " ? " + typeName + ".valueOf(" + build.EnumDefault(t) + ") : " + typeName + ".valueOf(" + v + " is num ? " + v + ".toInt() : num.tryParse(" + v + ".toString())?.toInt() ?? " + build.EnumDefault(t) + ")")
 				}
 			} else if ast.Data == t.Obj.Kind {
 				if empty {
-- 
2.43.0


From b2b76a4a6d9ededa5f67e795edee967815ebdbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:27 +0000
Subject: [PATCH 079/103] fix: a Dart enum item named like its enum did not
 compile

---
 pkg/dart/dart.go   |  9 +++++++++
 pkg/dart/enum.go   |  4 ++--
 pkg/dart/ui.go     |  2 +-
 pkg/dart/verify.go | 26 +++++++++++++-------------
 4 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index 8044bf3..d13a9ea 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -65,6 +65,15 @@ func paramName(name string) string {
 	return checkName(name, _reserved, _paramNames)
 }
 
+// itemName returns the name of an item, which must not be the name of its enum
+func itemName(enum *ast.EnumType, item *ast.EnumItem) string {
+	name := build.StringToAllUpper(item.Name.Name)
+	if name == build.StringToHumpName(enum.Name.Name) {
+		return name + "_"
+	}
+	return name
+}
+
 type DartWriter struct {
 	data   *build.Writer
 	enum   *build.Writer
diff --git a/pkg/dart/enum.go b/pkg/dart/enum.go
index a8fe317..acfc35f 100644
--- a/pkg/dart/enum.go
+++ b/pkg/dart/enum.go
@@ -59,7 +59,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 		if nil != item.Doc && 0 < len(item.Doc.Text()) {
 			dst.Code("\t///" + build.DocText(item.Doc, "\t///"))
 		}
-		itemName := build.StringToAllUpper(item.Name.Name)
+		itemName := itemName(typ, item)
 		dst.Code("\tstatic final " + itemName + " = " + enumName + "._(" + build.NumberText(item.Id.Value) + ", '" + build.StringToHumpName(item.Name.Name) + "'")
 		if isUi {
 			dst.Code(", (context) => " + enumName + "Localizations.of(context)." + itemName)
@@ -69,7 +69,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	dst.Code("\n")
 	dst.Code("\tstatic final List<" + enumName + "> values = [\n")
 	for _, item := range typ.Items {
-		dst.Code("\t\t" + build.StringToAllUpper(item.Name.Name) + ",\n")
+		dst.Code("\t\t" + itemName(typ, item) + ",\n")
 	}
 	dst.Code("\t];\n\n")
 
diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index e5f54bd..74263bd 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -35,7 +35,7 @@ func (b *Builder) printEnumUi(dst *build.Writer, typ *ast.EnumType) {
 	enumName := build.StringToHumpName(typ.Name.Name)
 	lang := dst.GetLang(enumName)
 	for _, item := range typ.Items {
-		itemName := build.StringToAllUpper(item.Name.Name)
+		itemName := itemName(typ, item)
 		lang.Add(itemName, item.Tags)
 	}
 }
diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index fb72025..aa51c5a 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -50,7 +50,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 			if isNull && 0 == i {
 				if !f.Null {
 					dst.Code("\tif (text?.isEmpty ?? true) {\n")
-					dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
+					dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + itemName(val.Enum, val.Item) + ".toText(context);\n")
 					dst.Code("\t}\n")
 				} else {
 					dst.Code("\tif (text?.isEmpty ?? true) {\n")
@@ -90,7 +90,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				case build.Date:
 					dst.Code("\tDateTime? val = DateTime.tryParse(text!);\n")
 					dst.Code("\tif (null == val) {\n")
-					dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
+					dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + itemName(val.Enum, val.Item) + ".toText(context);\n")
 					dst.Code("\t}\n")
 					if 0 < len(f.Min) || 0 < len(f.Max) {
 						dst.Code("\tif (")
@@ -112,13 +112,13 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " < val.millisecondsSinceEpoch")
 						}
 						dst.Code(") {\n")
-						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
+						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + itemName(val.Enum, val.Item) + ".toText(context);\n")
 						dst.Code("\t}\n")
 					}
 				case build.Decimal:
 					if 0 < len(f.Reg) {
 						dst.Code("\tif (!RegExp(\"" + strings.ReplaceAll(f.Reg, "$", "\\$") + "\").hasMatch(text!)) {\n")
-						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
+						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + itemName(val.Enum, val.Item) + ".toText(context);\n")
 						dst.Code("\t}\n")
 					}
 					if i == len(verify.GetFormat())-1 {
@@ -127,13 +127,13 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							dst.Code("!")
 						}
 						dst.Code(")) {\n")
-						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
+						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + itemName(val.Enum, val.Item) + ".toText(context);\n")
 						dst.Code("\t}\n")
 
 						dst.Import("package:decimal/decimal.dart", "")
 						dst.Code("\tDecimal? val = Decimal.tryParse(text!);\n")
 						dst.Code("\tif (null == val) {\n")
-						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
+						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + itemName(val.Enum, val.Item) + ".toText(context);\n")
 						dst.Code("\t}\n")
 						if 0 < len(f.Min) || 0 < len(f.Max) {
 							dst.Code("\tif (")
@@ -147,7 +147,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 								dst.Code("-1 == val.compareTo(Decimal.fromInt(" + f.Max + "))")
 							}
 							dst.Code(") {\n")
-							dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
+							dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + itemName(val.Enum, val.Item) + ".toText(context);\n")
 							dst.Code("\t}\n")
 						}
 					}
@@ -164,12 +164,12 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							dst.Code(f.Max + " < (text?.length ?? 0)")
 						}
 						dst.Code(") {\n")
-						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
+						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + itemName(val.Enum, val.Item) + ".toText(context);\n")
 						dst.Code("\t}\n")
 					}
 					if len(f.Reg) > 0 {
 						dst.Code("\tif (!RegExp(\"" + strings.ReplaceAll(f.Reg, "$", "\\$") + "\").hasMatch(text!)) {\n")
-						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
+						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + itemName(val.Enum, val.Item) + ".toText(context);\n")
 						dst.Code("\t}\n")
 					}
 				}
@@ -192,17 +192,17 @@ func (b *Builder) verifyNum(dst *build.Writer, val *build.VerifyEnum, f *build.F
 	}
 
 	dst.Code(")) {\n")
-	dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
+	dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + itemName(val.Enum, val.Item) + ".toText(context);\n")
 	dst.Code("\t}\n")
 	dst.Import("package:decimal/decimal.dart", "")
 	dst.Code("\tvar val = Decimal.tryParse(text!);\n")
 	dst.Code("\tif (null == val) {\n")
-	dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
+	dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + itemName(val.Enum, val.Item) + ".toText(context);\n")
 	dst.Code("\t}\n")
 
 	if 0 < len(min) {
 		dst.Code("\tif (val < Decimal.parse(\"" + min + "\") || val > Decimal.parse(\"" + max + "\")) {\n")
-		dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
+		dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + itemName(val.Enum, val.Item) + ".toText(context);\n")
 		dst.Code("\t}\n")
 	}
 
@@ -218,7 +218,7 @@ func (b *Builder) verifyNum(dst *build.Writer, val *build.VerifyEnum, f *build.F
 			dst.Code("Decimal.tryParse(" + f.Max + ") < val")
 		}
 		dst.Code(") {\n")
-		dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
+		dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + itemName(val.Enum, val.Item) + ".toText(context);\n")
 		dst.Code("\t}\n")
 	}
 }
-- 
2.43.0


From bcf5019f913a2daf59732315a3972f799276ede0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:39 +0000
Subject: [PATCH 080/103] fix: a TypeScript form with dates for one date did
 not compile and dropped the date

---
 pkg/typescript/ui.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index 85ba27d..7361546 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -477,7 +477,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 				} else if "month" == form.form {
 					dst.Code("_ctx.$timeToUtc($event)")
 				} else if "dates" == form.form {
-					dst.Code("($event?.length ?? 0 == 0) ? null :_ctx.$timeToUtc($event[0])")
+					dst.Code("(Array.isArray($event) && 0 < $event.length) ? _ctx.$timeToUtc($event[0]) : null")
 				} else if "year" == form.form {
 					dst.Code("_ctx.$timeToUtc($event)")
 				} else {
-- 
2.43.0


From 5e64b27c7883c7b12c64d63837d732061219215d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:41 +0000
Subject: [PATCH 081/103] fix: a TypeScript form with a password that may be
 null did not compile

---
 pkg/typescript/ui.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index 7361546..cf88df0 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -585,9 +585,6 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			if isNull {
 				dst.Tab(7).Code("clearable\n")
 			}
-			if isNull {
-				dst.Tab(7).Code("clearable\n")
-			}
 			if form.onlyRead {
 				dst.Tab(7).Code("disabled\n")
 			}
-- 
2.43.0


From f6cf0b7b388b31a6df881db7944bc55274db4a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:51 +0000
Subject: [PATCH 082/103] fix: a TypeScript form with a text for a field of a
 data type did not compile

---
 pkg/typescript/ui.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index cf88df0..155af15 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -396,6 +396,8 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 	case *ast.VarType:
 		t := expr.(*ast.VarType)
 		b.printFormString(dst, name, t.Type(), t.Empty, digit, format)
+	default:
+		dst.Code(name)
 	}
 }
 
-- 
2.43.0


From b554cd8e5a15a3dfbc87ea87cff875c6a858f8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:54 +0000
Subject: [PATCH 083/103] fix: a TypeScript form with a password for a field of
 a data type did not compile

---
 pkg/typescript/ui.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index 155af15..6d863ef 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -575,7 +575,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 		} else if "pass" == form.form {
 			dst.Tab(6).Code("<el-input\n")
 			dst.Tab(7).Code("modelValue={")
-			b.printToString(dst, "_ctx.model!."+fieldName, field.Type, false, form.digit, form.format, " ?? \"\"")
+			b.printToString(dst, "_ctx.model!."+fieldName, field.Type, false, form.digit, form.format, " || \"\"")
 			dst.Code("}\n")
 
 			dst.Tab(7).Code("onUpdate:modelValue={($event: string) => _ctx.model!.").Code(fieldName).Code(" = ")
-- 
2.43.0


From 842f09432c0cc5bdfab5904cbe533560c681d1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:45 +0000
Subject: [PATCH 084/103] fix: the readable form of names that start with a
 capital began with a space, and letters of other scripts were torn

---
 pkg/build/language.go | 43 ++++++++++++++++---------------------------
 1 file changed, 16 insertions(+), 27 deletions(-)

diff --git a/pkg/build/language.go b/pkg/build/language.go
index 4977bc8..c0567ef 100644
--- a/pkg/build/language.go
+++ b/pkg/build/language.go
@@ -4,6 +4,7 @@ import (
 	"hbuf/pkg/ast"
 	"regexp"
 	"strings"
+	"unicode"
 )
 
 type Language struct {
@@ -60,37 +61,25 @@ func GetLang(val string, key string, lanMap map[string]string) string {
 		val = strings.ToLower(val)
 	}
 
-	rex := regexp.MustCompile(`[A-Z_]`)
-	match := rex.FindAllStringSubmatchIndex(val, -1)
-	if nil == match {
-		return strings.ToUpper(val[:1]) + strings.ToLower(val[1:])
-	}
-	var ret string
-	var index = 0
-	for _, item := range match {
-		temp := val[index:item[0]]
-		if 0 == strings.Index(temp, "_") {
-			temp = temp[1:]
-		}
-		if 0 == len(temp) {
+	ret := &strings.Builder{}
+	space := false
+	for _, r := range val {
+		if '_' == r {
+			space = true
 			continue
 		}
-		if 0 == len(ret) {
-			ret += strings.ToUpper(temp[:1])
-			ret += strings.ToLower(temp[1:])
+		if 0 == ret.Len() {
+			ret.WriteRune(unicode.ToUpper(r))
 		} else {
-			ret += " " + strings.ToLower(temp)
+			if space || unicode.IsUpper(r) {
+				ret.WriteRune(' ')
+			}
+			ret.WriteRune(unicode.ToLower(r))
 		}
-		index = item[0]
+		space = false
 	}
-	if index < len(val) {
-		temp := val[index:]
-		if 0 == strings.Index(temp, "_") {
-			temp = temp[1:]
-		}
-		if 0 < len(temp) {
-			ret += " " + strings.ToLower(temp)
-		}
+	if 0 == ret.Len() {
+		return val
 	}
-	return ret
+	return ret.String()
 }
-- 
2.43.0


From a6be5fbad9e7f5ddf85bac1dddeb5bbef072852a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:47 +0000
Subject: [PATCH 085/103] fix: TypeScript language tables had empty texts for
 entries without a text in a language

---
 pkg/typescript/language.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/typescript/language.go b/pkg/typescript/language.go
index 15c44e0..911744b 100644
--- a/pkg/typescript/language.go
+++ b/pkg/typescript/language.go
@@ -24,7 +24,7 @@ func printLanguge(langs map[string]*build.Language, dst *build.Writer) {
 			names := build.GetMapKeys(l.Lang)
 			sort.Strings(names)
 			for _, name := range names {
-				dst.Tab(2).Code(name).Code(": ").Code("\"").Code(l.Lang[name][key]).Code("\",\n")
+				dst.Tab(2).Code(name).Code(": ").Code("\"").Code(build.GetLang(name, key, l.Lang[name])).Code("\",\n")
 			}
 			dst.Tab(1).Code("},\n")
 		}
-- 
2.43.0


From c8c80b09668c2b7e53722316cbb9fc48b9e0ab73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:50 +0000
Subject: [PATCH 086/103] fix: texts of language tables with quotes, escapes or
 dollar signs became other texts

---
 pkg/build/language.go      | 19 ++++++++++++++++++-
 pkg/dart/language.go       | 10 ++++++++--
 pkg/typescript/language.go |  2 +-
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/pkg/build/language.go b/pkg/build/language.go
index c0567ef..c1d625c 100644
--- a/pkg/build/language.go
+++ b/pkg/build/language.go
@@ -1,8 +1,10 @@
 package build
 
 import (
+	"encoding/json"
 	"hbuf/pkg/ast"
 	"regexp"
+	"strconv"
 	"strings"
 	"unicode"
 )
@@ -40,12 +42,27 @@ func getLanguage(tags []*ast.Tag) map[string]string {
 	lang := make(map[string]string, 0)
 	if nil != val.KV {
 		for _, item := range val.KV {
-			lang[StringToFirstLower(item.Name.Name)] = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+			text, err := strconv.Unquote(item.Values[0].Value)
+			if err != nil {
+				text = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+			}
+			lang[StringToFirstLower(item.Name.Name)] = text
 		}
 	}
 	return lang
 }
 
+// QuoteLang writes a text as a string literal of the generated languages
+func QuoteLang(text string) string {
+	buf := &strings.Builder{}
+	enc := json.NewEncoder(buf)
+	enc.SetEscapeHTML(false)
+	if err := enc.Encode(text); err != nil {
+		return strconv.Quote(text)
+	}
+	return strings.TrimSpace(buf.String())
+}
+
 func GetLang(val string, key string, lanMap map[string]string) string {
 	if nil != lanMap {
 		if text, ok := lanMap[key]; ok {
diff --git a/pkg/dart/language.go b/pkg/dart/language.go
index 836891b..ab5d44f 100644
--- a/pkg/dart/language.go
+++ b/pkg/dart/language.go
@@ -3,6 +3,7 @@ package dart
 import (
 	"hbuf/pkg/build"
 	"sort"
+	"strings"
 )
 
 func printLanguge(dst *build.Writer) {
@@ -72,7 +73,7 @@ func printLanguge(dst *build.Writer) {
 
 		for _, key := range lanKeys {
 			dst.Code("  @override\n")
-			dst.Code("  String get " + key + " => \"" + build.GetLang(key, "____", l.Lang[key]) + "\";\n")
+			dst.Code("  String get " + key + " => " + langText(build.GetLang(key, "____", l.Lang[key])) + ";\n")
 			dst.Code("\n")
 		}
 		dst.Code("}\n")
@@ -84,7 +85,7 @@ func printLanguge(dst *build.Writer) {
 			dst.Code("  const " + keyName + l.Name + "Localizations();\n")
 			for _, f := range lanKeys {
 				dst.Code("  @override\n")
-				dst.Code("  String get " + f + " => \"" + build.GetLang(f, key, l.Lang[f]) + "\";\n")
+				dst.Code("  String get " + f + " => " + langText(build.GetLang(f, key, l.Lang[f])) + ";\n")
 				dst.Code("\n")
 			}
 			dst.Code("}\n")
@@ -92,3 +93,8 @@ func printLanguge(dst *build.Writer) {
 		}
 	}
 }
+
+// langText writes a text as a string, in which Dart would replace what follows a dollar sign
+func langText(text string) string {
+	return strings.ReplaceAll(build.QuoteLang(text), "$", "\\$")
+}
diff --git a/pkg/typescript/language.go b/pkg/typescript/language.go
index 911744b..05bd42a 100644
--- a/pkg/typescript/language.go
+++ b/pkg/typescript/language.go
@@ -24,7 +24,7 @@ func printLanguge(langs map[string]*build.Language, dst *build.Writer) {
 			names := build.GetMapKeys(l.Lang)
 			sort.Strings(names)
 			for _, name := range names {
-				dst.Tab(2).Code(name).Code(": ").Code("\"").Code(build.GetLang(name, key, l.Lang[name])).Code("\",\n")
+				dst.Tab(2).Code(name).Code(": ").Code(build.QuoteLang(build.GetLang(name, key, l.Lang[name]))).Code(",\n")
 			}
 			dst.Tab(1).Code("},\n")
 		}
-- 
2.43.0


From c8890259df7e24cef3dd2a3997f1073b9adbdcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:09 +0000
Subject: [PATCH 087/103] fix: a Dart enum with an ui tag and no items imported
 a file that is not written

---
 pkg/dart/enum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dart/enum.go b/pkg/dart/enum.go
index acfc35f..b0f9984 100644
--- a/pkg/dart/enum.go
+++ b/pkg/dart/enum.go
@@ -14,7 +14,7 @@ func (b *Builder) printEnumCode(dst *build.Writer, typ *ast.EnumType) {
 func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	enumName := build.StringToHumpName(typ.Name.Name)
 	_, isUi := build.GetTag(typ.Tags, "ui")
-	if isUi {
+	if isUi && 0 < len(typ.Items) {
 		b.getPackage(dst, typ.Name, "ui")
 	}
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-- 
2.43.0


From 1eeb245a110ca18b04f067c38c781c1b0178eef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:06 +0000
Subject: [PATCH 088/103] fix: the readable form of item names with digits was
 spelled letter by letter in Dart

---
 pkg/build/language.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/build/language.go b/pkg/build/language.go
index c1d625c..4d4c460 100644
--- a/pkg/build/language.go
+++ b/pkg/build/language.go
@@ -74,7 +74,7 @@ func GetLang(val string, key string, lanMap map[string]string) string {
 		return val
 	}
 
-	if !regexp.MustCompile(`[a-z0-9]`).MatchString(val) {
+	if !regexp.MustCompile(`[a-z]`).MatchString(val) {
 		val = strings.ToLower(val)
 	}
 
-- 
2.43.0


From 90ac96e91fa878633df8fb821a11c28b15e4f48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:32 +0000
Subject: [PATCH 089/103] fix: TypeScript forms and tables showed the text null
 for lists, maps and data without a value

---
 pkg/typescript/ui.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index 6d863ef..4274531 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -293,9 +293,9 @@ func (b *Builder) printToString(dst *build.Writer, name string, expr ast.Expr, e
 			}
 		}
 	case *ast.ArrayType:
-		dst.Code("\"\"+").Code(name)
+		dst.Code("null == ").Code(name).Code(" ? \"\" : \"\"+").Code(name)
 	case *ast.MapType:
-		dst.Code("\"\"+").Code(name)
+		dst.Code("null == ").Code(name).Code(" ? \"\" : \"\"+").Code(name)
 	case *ast.VarType:
 		t := expr.(*ast.VarType)
 		b.printToString(dst, name, t.Type(), t.Empty, digit, format, val)
@@ -303,7 +303,7 @@ func (b *Builder) printToString(dst *build.Writer, name string, expr ast.Expr, e
 			dst.Code(val)
 		}
 	default:
-		dst.Code("\"\"+").Code(name)
+		dst.Code("null == ").Code(name).Code(" ? \"\" : \"\"+").Code(name)
 	}
 }
 
-- 
2.43.0


From 6c3bf869612c0dd5a101b205e4835892560e6fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:42 +0000
Subject: [PATCH 090/103] fix: TypeScript forms read uint64 as signed numbers

---
 pkg/typescript/ui.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index 4274531..bff7faa 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -344,7 +344,7 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 				if empty {
 					dst.Code("(").Code(name).Code(" == null || ").Code(name).Code(".length == 0)").Code(" ? null : ")
 				}
-				dst.Code("(/^[+]?[0-9]+$/.test(").Code(name).Code(") ? Long.fromValue(" + name + ") :").Code(name).Code(")")
+				dst.Code("(/^[+]?[0-9]+$/.test(").Code(name).Code(") ? Long.fromValue(" + name + ", true) :").Code(name).Code(")")
 			case build.Float, build.Double:
 				if empty {
 					dst.Code("(").Code(name).Code(" == null || ").Code(name).Code(".length == 0)").Code(" ? null : ")
-- 
2.43.0


From cd2e43c7b9eb55bbde159a491177e39d36d4935e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:50 +0000
Subject: [PATCH 091/103] fix: TypeScript forms took texts that only contain a
 number as a number

---
 pkg/typescript/ui.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index bff7faa..bdb8649 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -349,7 +349,7 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 				if empty {
 					dst.Code("(").Code(name).Code(" == null || ").Code(name).Code(".length == 0)").Code(" ? null : ")
 				}
-				dst.Code("(/([-+]?\\d+)(\\.\\d+)?/.test(").Code(name).Code(") ? Number.parseFloat(" + name + ") :").Code(name).Code(")")
+				dst.Code("(/^[-+]?([0-9]+(\\.[0-9]*)?|\\.[0-9]+)([eE][-+]?[0-9]+)?$/.test(").Code(name).Code(") ? Number.parseFloat(" + name + ") :").Code(name).Code(")")
 			case build.Bool:
 				if empty {
 					dst.Code("(").Code(name).Code(" == null || ").Code(name).Code(".length == 0)").Code(" ? null : ")
-- 
2.43.0


From 989f37a6808248b3a627c6e813769b7ad43bb711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:55 +0000
Subject: [PATCH 092/103] fix: TypeScript forms set dates that are entered as
 text to numbers

---
 pkg/typescript/ui.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index bdb8649..ae189ef 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -359,7 +359,7 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 				if empty {
 					dst.Code("(").Code(name).Code(" == null || ").Code(name).Code(".length == 0)").Code(" ? null : ")
 				}
-				dst.Code("Date.parse(" + name + ") ?? ").Code(name)
+				dst.Code("(Number.isNaN(Date.parse(").Code(name).Code(")) ? ").Code(name).Code(" : new Date(").Code(name).Code("))")
 			case build.Decimal:
 				dst.Import("decimal.js", "* as d")
 				if empty {
-- 
2.43.0


From b85f461166a86b501e118db318870e1433ebe6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:25 +0000
Subject: [PATCH 093/103] fix: Java files of schemas whose names are no
 identifiers did not compile

---
 pkg/java/java.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pkg/java/java.go b/pkg/java/java.go
index ba9cc30..cd0769f 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -9,6 +9,7 @@ import (
 	"path/filepath"
 	"sort"
 	"strings"
+	"unicode"
 )
 
 var _types = map[build.BaseType]string{
@@ -112,7 +113,7 @@ func Build(file *ast.File, fset *token.FileSet, param *build.Param) error {
 	}
 
 	dir, name := filepath.Split(param.GetOut())
-	name = build.StringToHumpName(name[:len(name)-len(".hbuf")])
+	name = fileName(name)
 
 	err = os.MkdirAll(dir, os.ModePerm)
 	if err != nil {
@@ -316,7 +317,22 @@ func (b *Builder) getPackage(dst *build.Writer, expr *ast.Ident) string {
 // getFileName returns the first part of the names of the interfaces generated for a file
 func getFileName(file *ast.File) string {
 	_, name := filepath.Split(file.Path)
-	return build.StringToHumpName(name[:len(name)-len(".hbuf")])
+	return fileName(name)
+}
+
+// fileName returns the first part of the names of the interfaces generated for a file of a name, which may have characters
+// that no identifier has
+func fileName(name string) string {
+	name = strings.Map(func(r rune) rune {
+		if unicode.IsLetter(r) || unicode.IsDigit(r) || '$' == r {
+			return r
+		}
+		return '_'
+	}, build.StringToHumpName(name[:len(name)-len(".hbuf")]))
+	if unicode.IsDigit([]rune(name + "_")[0]) {
+		return "_" + name
+	}
+	return name
 }
 
 // docText returns the text of a comment, in which no backslash begins a Unicode escape
-- 
2.43.0


From 8085da31602bdd42f16176b42f306c4e74dacd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:39 +0000
Subject: [PATCH 094/103] fix: Go files of schemas named for a system, as
 a_windows, were left out of the build

---
 pkg/golang/gloang.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index 31b423d..877e397 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -1,10 +1,12 @@
 package golang
 
 import (
+	gobuild "go/build"
 	"go/printer"
 	ast "hbuf/pkg/ast"
 	"hbuf/pkg/build"
 	"hbuf/pkg/token"
+	"io"
 	"os"
 	"path/filepath"
 	"sort"
@@ -89,6 +91,27 @@ type Builder struct {
 	err      error
 }
 
+// fileName keeps the name of a generated file from being one the go command leaves out: it ignores
+// files that begin with "_" or "." and builds those named for a system or an architecture only there.
+func fileName(name string) string {
+	none := gobuild.Default
+	none.GOOS, none.GOARCH = "none", "none"
+	none.OpenFile = func(string) (io.ReadCloser, error) {
+		return io.NopCloser(strings.NewReader("package p\n")), nil
+	}
+	if strings.HasPrefix(name, "_") || strings.HasPrefix(name, ".") {
+		name = "hbuf" + name
+	}
+	if match, err := none.MatchFile("", name+".data.go"); err == nil && !match {
+		first, rest, found := strings.Cut(name, ".")
+		name = first + "_"
+		if found {
+			name += "." + rest
+		}
+	}
+	return name
+}
+
 func Build(file *ast.File, fSet *token.FileSet, param *build.Param) error {
 	b := Builder{
 		fSet:  fSet,
@@ -106,7 +129,7 @@ func Build(file *ast.File, fSet *token.FileSet, param *build.Param) error {
 	}
 
 	dir, name := filepath.Split(param.GetOut())
-	name = name[:len(name)-len(".hbuf")]
+	name = fileName(name[:len(name)-len(".hbuf")])
 	packs := strings.Split(dst.packages, ".")
 	for _, pack := range packs {
 		dir = filepath.Join(dir, pack)
-- 
2.43.0


From faebbf5e0047b8b97dae19ae6fceb2daf2aa4a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:08 +0000
Subject: [PATCH 095/103] fix: Dart validators of numbers did not compile and
 judged otherwise than Go

---
 pkg/dart/verify.go | 264 ++++++++++++++++++++-------------------------
 1 file changed, 114 insertions(+), 150 deletions(-)

diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index aa51c5a..a36da5f 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -1,6 +1,7 @@
 package dart
 
 import (
+	"encoding/json"
 	"hbuf/pkg/ast"
 	"hbuf/pkg/build"
 	"strconv"
@@ -40,139 +41,62 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 		}
 
 		dst.Code("String? verify" + dName + "_" + fName + "(BuildContext context, String? text) {\n")
-		isNull := build.IsNil(field.Type)
-		for i, val := range verify.GetFormat() {
+
+		t := build.BaseType("")
+		if !build.IsEnum(field.Type) && !build.IsMap(field.Type) && !build.IsArray(field.Type) {
+			t = build.GetBaseType(field.Type)
+		}
+		checkNil := build.IsNil(field.Type)
+		first := true
+		for _, val := range verify.GetFormat() {
 			f := build.GetFormat(val.Item.Tags)
 			if nil == f {
 				continue
 			}
 			b.getPackage(dst, val.Enum.Name, "enum")
-			if isNull && 0 == i {
+			if checkNil {
+				checkNil = false
+				dst.Code("\tif (text?.isEmpty ?? true) {\n")
 				if !f.Null {
-					dst.Code("\tif (text?.isEmpty ?? true) {\n")
-					dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + itemName(val.Enum, val.Item) + ".toText(context);\n")
-					dst.Code("\t}\n")
+					b.printVerifyError(dst, val)
 				} else {
-					dst.Code("\tif (text?.isEmpty ?? true) {\n")
 					dst.Code("\t\treturn null;\n")
-					dst.Code("\t}\n")
 				}
+				dst.Code("\t}\n")
 			}
-			if build.IsEnum(field.Type) {
-				//dst.Code("\tif 0 < len(i.Get" + fName + "().ToName()) {\n")
-				//dst.Code("\t\treturn &hbuf.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
-				//dst.Code("\t}\n")
-			} else if build.IsMap(field.Type) {
-
-			} else if build.IsArray(field.Type) {
-
-			} else {
-				t := build.GetBaseType(field.Type)
-				switch t {
-				case build.Int8:
-					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*", field.Type, "–128", "127")
-				case build.Int16:
-					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*", field.Type, "-32768", "32767")
-				case build.Int32:
-					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*", field.Type, "-2147483648", "2147483647")
-				case build.Uint8:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "0", "255")
-				case build.Uint16:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "0", "65535")
-				case build.Uint32:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "0", "4294967295")
-				case build.Float, build.Double:
-					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*", field.Type, "", "")
-				case build.Int64:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "-9223372036854775808", "9223372036854775808")
-				case build.Uint64:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "0", "18446744073709551615615")
-				case build.Date:
-					dst.Code("\tDateTime? val = DateTime.tryParse(text!);\n")
-					dst.Code("\tif (null == val) {\n")
-					dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + itemName(val.Enum, val.Item) + ".toText(context);\n")
-					dst.Code("\t}\n")
-					if 0 < len(f.Min) || 0 < len(f.Max) {
-						dst.Code("\tif (")
-						if 0 < len(f.Min) {
-							parse, err := time.Parse("2006-01-02T15:04:05Z", f.Min)
-							if err != nil {
-								return err
-							}
-							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " > val.millisecondsSinceEpoch")
-						}
-						if 0 < len(f.Max) {
-							if 0 < len(f.Min) {
-								dst.Code(" || ")
-							}
-							parse, err := time.Parse("2006-01-02T15:04:05Z", f.Max)
-							if err != nil {
-								return err
-							}
-							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " < val.millisecondsSinceEpoch")
-						}
-						dst.Code(") {\n")
-						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + itemName(val.Enum, val.Item) + ".toText(context);\n")
-						dst.Code("\t}\n")
-					}
-				case build.Decimal:
-					if 0 < len(f.Reg) {
-						dst.Code("\tif (!RegExp(\"" + strings.ReplaceAll(f.Reg, "$", "\\$") + "\").hasMatch(text!)) {\n")
-						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + itemName(val.Enum, val.Item) + ".toText(context);\n")
-						dst.Code("\t}\n")
-					}
-					if i == len(verify.GetFormat())-1 {
-						dst.Code("\tif (!RegExp(\"-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*\").hasMatch(text")
-						if build.IsNil(field.Type) {
-							dst.Code("!")
-						}
-						dst.Code(")) {\n")
-						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + itemName(val.Enum, val.Item) + ".toText(context);\n")
-						dst.Code("\t}\n")
-
-						dst.Import("package:decimal/decimal.dart", "")
-						dst.Code("\tDecimal? val = Decimal.tryParse(text!);\n")
-						dst.Code("\tif (null == val) {\n")
-						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + itemName(val.Enum, val.Item) + ".toText(context);\n")
-						dst.Code("\t}\n")
-						if 0 < len(f.Min) || 0 < len(f.Max) {
-							dst.Code("\tif (")
-							if 0 < len(f.Min) {
-								dst.Code("1 == val.compareTo(Decimal.fromInt(" + f.Min + "))")
-							}
-							if 0 < len(f.Max) {
-								if 0 < len(f.Min) {
-									dst.Code(" || ")
-								}
-								dst.Code("-1 == val.compareTo(Decimal.fromInt(" + f.Max + "))")
-							}
-							dst.Code(") {\n")
-							dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + itemName(val.Enum, val.Item) + ".toText(context);\n")
-							dst.Code("\t}\n")
-						}
-					}
-				case build.String:
-					if 0 < len(f.Min) || 0 < len(f.Max) {
-						dst.Code("\tif (")
-						if 0 < len(f.Min) {
-							dst.Code(f.Min + " > (text?.length ?? 0)")
-						}
-						if 0 < len(f.Max) {
-							if 0 < len(f.Min) {
-								dst.Code(" || ")
-							}
-							dst.Code(f.Max + " < (text?.length ?? 0)")
-						}
-						dst.Code(") {\n")
-						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + itemName(val.Enum, val.Item) + ".toText(context);\n")
-						dst.Code("\t}\n")
-					}
-					if len(f.Reg) > 0 {
-						dst.Code("\tif (!RegExp(\"" + strings.ReplaceAll(f.Reg, "$", "\\$") + "\").hasMatch(text!)) {\n")
-						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + itemName(val.Enum, val.Item) + ".toText(context);\n")
-						dst.Code("\t}\n")
-					}
+			var conds []string
+			switch t {
+			case build.Int8:
+				conds = b.verifyNum(dst, first, f, _regInt, "-128", "127")
+			case build.Int16:
+				conds = b.verifyNum(dst, first, f, _regInt, "-32768", "32767")
+			case build.Int32:
+				conds = b.verifyNum(dst, first, f, _regInt, "-2147483648", "2147483647")
+			case build.Uint8:
+				conds = b.verifyNum(dst, first, f, _regInt, "0", "255")
+			case build.Uint16:
+				conds = b.verifyNum(dst, first, f, _regInt, "0", "65535")
+			case build.Uint32:
+				conds = b.verifyNum(dst, first, f, _regInt, "0", "4294967295")
+			case build.Int64:
+				conds = b.verifyNum(dst, first, f, _regInt, "-9223372036854775808", "9223372036854775807")
+			case build.Uint64:
+				conds = b.verifyNum(dst, first, f, _regInt, "0", "18446744073709551615")
+			case build.Float, build.Double, build.Decimal:
+				conds = b.verifyNum(dst, first, f, _regFloat, "", "")
+			case build.Date:
+				conds, err = b.verifyDate(dst, first, f)
+				if err != nil {
+					return err
 				}
+			case build.String:
+				conds = b.verifyString(f)
+			}
+			first = false
+			if 0 < len(conds) {
+				dst.Code("\tif (" + strings.Join(conds, " || ") + ") {\n")
+				b.printVerifyError(dst, val)
+				dst.Code("\t}\n")
 			}
 		}
 		dst.Code("\treturn null;\n")
@@ -185,40 +109,80 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 	return nil
 }
 
-func (b *Builder) verifyNum(dst *build.Writer, val *build.VerifyEnum, f *build.Format, reg string, field ast.Type, min, max string) {
-	dst.Code("\tif (!RegExp(\"" + reg + "\").hasMatch(text")
-	if build.IsNil(field) {
-		dst.Code("!")
-	}
+const _regInt = "^[-+]?[0-9]+\\$"
+const _regFloat = "^[-+]?([0-9]+(\\\\.[0-9]*)?|\\\\.[0-9]+)([eE][-+]?[0-9]+)?\\$"
 
-	dst.Code(")) {\n")
+func (b *Builder) printVerifyError(dst *build.Writer, val *build.VerifyEnum) {
 	dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + itemName(val.Enum, val.Item) + ".toText(context);\n")
-	dst.Code("\t}\n")
-	dst.Import("package:decimal/decimal.dart", "")
-	dst.Code("\tvar val = Decimal.tryParse(text!);\n")
-	dst.Code("\tif (null == val) {\n")
-	dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + itemName(val.Enum, val.Item) + ".toText(context);\n")
-	dst.Code("\t}\n")
+}
 
-	if 0 < len(min) {
-		dst.Code("\tif (val < Decimal.parse(\"" + min + "\") || val > Decimal.parse(\"" + max + "\")) {\n")
-		dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + itemName(val.Enum, val.Item) + ".toText(context);\n")
-		dst.Code("\t}\n")
+// regText writes a pattern as a string
+func regText(reg string) string {
+	text, err := strconv.Unquote("\"" + reg + "\"")
+	if err != nil {
+		text = reg
 	}
+	buf := &strings.Builder{}
+	enc := json.NewEncoder(buf)
+	enc.SetEscapeHTML(false)
+	_ = enc.Encode(text)
+	return strings.ReplaceAll(strings.TrimSpace(buf.String()), "$", "\\$")
+}
 
-	if 0 < len(f.Min) || 0 < len(f.Max) {
-		dst.Code("\tif (")
-		if 0 < len(f.Min) {
-			dst.Code("Decimal.tryParse(" + f.Min + ") > val")
+// verifyNum returns the conditions under which the text is no number that a rule allows
+func (b *Builder) verifyNum(dst *build.Writer, first bool, f *build.Format, reg string, min, max string) []string {
+	if first {
+		dst.Import("package:decimal/decimal.dart", "")
+		dst.Code("\tfinal val = RegExp(\"" + reg + "\").hasMatch(text ?? \"\") ? Decimal.tryParse(text ?? \"\") : null;\n")
+	}
+	conds := []string{"null == val"}
+	for _, m := range []string{min, f.Min} {
+		if 0 < len(m) {
+			conds = append(conds, "val < Decimal.parse("+strconv.Quote(m)+")")
 		}
-		if 0 < len(f.Max) {
-			if 0 < len(f.Min) {
-				dst.Code(" || ")
-			}
-			dst.Code("Decimal.tryParse(" + f.Max + ") < val")
+	}
+	for _, m := range []string{max, f.Max} {
+		if 0 < len(m) {
+			conds = append(conds, "val > Decimal.parse("+strconv.Quote(m)+")")
 		}
-		dst.Code(") {\n")
-		dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + itemName(val.Enum, val.Item) + ".toText(context);\n")
-		dst.Code("\t}\n")
 	}
+	return conds
+}
+
+// verifyDate returns the conditions under which the text is no date that a rule allows
+func (b *Builder) verifyDate(dst *build.Writer, first bool, f *build.Format) ([]string, error) {
+	if first {
+		dst.Code("\tfinal val = DateTime.tryParse(text ?? \"\");\n")
+	}
+	conds := []string{"null == val"}
+	if 0 < len(f.Min) {
+		parse, err := time.Parse("2006-01-02T15:04:05Z", f.Min)
+		if err != nil {
+			return nil, err
+		}
+		conds = append(conds, strconv.FormatInt(parse.UnixMilli(), 10)+" > val.millisecondsSinceEpoch")
+	}
+	if 0 < len(f.Max) {
+		parse, err := time.Parse("2006-01-02T15:04:05Z", f.Max)
+		if err != nil {
+			return nil, err
+		}
+		conds = append(conds, strconv.FormatInt(parse.UnixMilli(), 10)+" < val.millisecondsSinceEpoch")
+	}
+	return conds, nil
+}
+
+// verifyString returns the conditions under which the text is none that a rule allows
+func (b *Builder) verifyString(f *build.Format) []string {
+	var conds []string
+	if 0 < len(f.Min) {
+		conds = append(conds, f.Min+" > (text ?? \"\").runes.length")
+	}
+	if 0 < len(f.Max) {
+		conds = append(conds, f.Max+" < (text ?? \"\").runes.length")
+	}
+	if 0 < len(f.Reg) {
+		conds = append(conds, "!RegExp("+regText(f.Reg)+").hasMatch(text ?? \"\")")
+	}
+	return conds
 }
-- 
2.43.0


From e40881c5d723a8967af475b941375968e83d756c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:09 +0000
Subject: [PATCH 096/103] fix: errors of Dart validators were dropped, and
 rules of inherited fields looked up in the wrong file

---
 pkg/dart/dart.go   | 15 ++++++++++++---
 pkg/dart/ui.go     |  2 +-
 pkg/dart/verify.go | 14 ++++++++++++--
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index d13a9ea..7e97c1d 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -105,12 +105,14 @@ func NewGoWriter() *DartWriter {
 type Builder struct {
 	lang map[string]struct{}
 	pkg  *ast.Package
+	fSet *token.FileSet
 }
 
 func Build(file *ast.File, fset *token.FileSet, param *build.Param) error {
 	b := Builder{
 		lang: map[string]struct{}{},
 		pkg:  param.GetPkg(),
+		fSet: fset,
 	}
 	dst := NewGoWriter()
 	err := b.Node(dst, fset, file)
@@ -237,18 +239,24 @@ func (b *Builder) Node(dst *DartWriter, fset *token.FileSet, node interface{}) e
 		switch s.(type) {
 		case *ast.ImportSpec:
 		case *ast.TypeSpec:
-			b.printTypeSpec(dst, (s.(*ast.TypeSpec)).Type)
+			err := b.printTypeSpec(dst, (s.(*ast.TypeSpec)).Type)
+			if err != nil {
+				return err
+			}
 		}
 	}
 	return nil
 }
 
-func (b *Builder) printTypeSpec(dst *DartWriter, expr ast.Expr) {
+func (b *Builder) printTypeSpec(dst *DartWriter, expr ast.Expr) error {
 	switch expr.(type) {
 	case *ast.DataType:
 		b.printDataCode(dst.data, expr.(*ast.DataType))
 		b.printFormCode(dst.ui, expr)
-		b.printVerifyCode(dst.verify, expr.(*ast.DataType))
+		err := b.printVerifyCode(dst.verify, expr.(*ast.DataType))
+		if err != nil {
+			return err
+		}
 	case *ast.ServerType:
 		b.printServerCode(dst.server, expr.(*ast.ServerType))
 
@@ -256,6 +264,7 @@ func (b *Builder) printTypeSpec(dst *DartWriter, expr ast.Expr) {
 		b.printEnumCode(dst.enum, expr.(*ast.EnumType))
 		b.printFormCode(dst.ui, expr)
 	}
+	return nil
 }
 
 func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool) {
diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index 74263bd..85454c0 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -509,7 +509,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 		isArray := build.IsArray(field.Type)
 		isNil := build.IsNil(field.Type)
 
-		verify, err := build.GetVerify(field.Tags, dst.File, b.GetDataType)
+		verify, err := build.GetVerify(field.Tags, b.getFile(dst, data), b.GetDataType)
 		if err != nil {
 			return err
 		}
diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index a36da5f..45a198c 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -32,7 +32,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 	dName := build.StringToHumpName(data.Name.Name)
 	err := build.EnumField(data, func(field *ast.Field, data *ast.DataType) error {
 		fName := build.StringToHumpName(field.Name.Name)
-		verify, err := build.GetVerify(field.Tags, dst.File, b.GetDataType)
+		verify, err := build.GetVerify(field.Tags, b.getFile(dst, data), b.GetDataType)
 		if err != nil {
 			return err
 		}
@@ -104,11 +104,21 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 		return nil
 	})
 	if err != nil {
-		return err
+		return build.ErrorToFileError(err, b.fSet)
 	}
 	return nil
 }
 
+// getFile returns the file that declares a data type
+func (b *Builder) getFile(dst *build.Writer, data *ast.DataType) *ast.File {
+	if nil != data.Name.Obj {
+		if file, ok := data.Name.Obj.Data.(*ast.File); ok {
+			return file
+		}
+	}
+	return dst.File
+}
+
 const _regInt = "^[-+]?[0-9]+\\$"
 const _regFloat = "^[-+]?([0-9]+(\\\\.[0-9]*)?|\\\\.[0-9]+)([eE][-+]?[0-9]+)?\\$"
 
-- 
2.43.0


From 0528d3f013dfabb2ff11b7405f87503914e70ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:10 +0000
Subject: [PATCH 097/103] fix: Dart validators were ambiguous about enums of
 the same name in several files

---
 pkg/dart/dart.go   |  6 +++++-
 pkg/dart/verify.go | 24 +++++++++++++++++++-----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index 7e97c1d..724bcd2 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -212,7 +212,11 @@ func writerFile(param *build.Param, data *build.Writer, out string) error {
 		}
 		sort.Strings(imps)
 		for _, val := range imps {
-			_, _ = fc.WriteString("import '" + val + "';\n")
+			_, _ = fc.WriteString("import '" + val + "'")
+			if as := data.GetImports()[val]; 0 < len(as) {
+				_, _ = fc.WriteString(" as " + as)
+			}
+			_, _ = fc.WriteString(";\n")
 		}
 	}
 	_, _ = fc.WriteString("\n")
diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index 45a198c..9703134 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"hbuf/pkg/ast"
 	"hbuf/pkg/build"
+	"path/filepath"
 	"strconv"
 	"strings"
 	"time"
@@ -53,12 +54,12 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 			if nil == f {
 				continue
 			}
-			b.getPackage(dst, val.Enum.Name, "enum")
+			enum := b.getEnum(dst, val)
 			if checkNil {
 				checkNil = false
 				dst.Code("\tif (text?.isEmpty ?? true) {\n")
 				if !f.Null {
-					b.printVerifyError(dst, val)
+					b.printVerifyError(dst, enum, val)
 				} else {
 					dst.Code("\t\treturn null;\n")
 				}
@@ -95,7 +96,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 			first = false
 			if 0 < len(conds) {
 				dst.Code("\tif (" + strings.Join(conds, " || ") + ") {\n")
-				b.printVerifyError(dst, val)
+				b.printVerifyError(dst, enum, val)
 				dst.Code("\t}\n")
 			}
 		}
@@ -119,11 +120,24 @@ func (b *Builder) getFile(dst *build.Writer, data *ast.DataType) *ast.File {
 	return dst.File
 }
 
+// getEnum returns the name of an enum. Those of other files have a prefix, as several may have the same name
+func (b *Builder) getEnum(dst *build.Writer, val *build.VerifyEnum) string {
+	name := build.StringToHumpName(val.Enum.Name.Name)
+	file, ok := val.Enum.Name.Obj.Data.(*ast.File)
+	if !ok || file.Path == dst.File.Path {
+		b.getPackage(dst, val.Enum.Name, "enum")
+		return name
+	}
+	_, path := filepath.Split(file.Path)
+	path = path[:len(path)-len(".hbuf")] + ".enum.dart"
+	return dst.Import(path, "e"+strconv.Itoa(len(dst.GetImports()))) + "." + name
+}
+
 const _regInt = "^[-+]?[0-9]+\\$"
 const _regFloat = "^[-+]?([0-9]+(\\\\.[0-9]*)?|\\\\.[0-9]+)([eE][-+]?[0-9]+)?\\$"
 
-func (b *Builder) printVerifyError(dst *build.Writer, val *build.VerifyEnum) {
-	dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + itemName(val.Enum, val.Item) + ".toText(context);\n")
+func (b *Builder) printVerifyError(dst *build.Writer, enum string, val *build.VerifyEnum) {
+	dst.Code("\t\treturn " + enum + "." + itemName(val.Enum, val.Item) + ".toText(context);\n")
 }
 
 // regText writes a pattern as a string
-- 
2.43.0


From 62e85d3697dc62750798587fc81844ed2dc9dd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:47 +0000
Subject: [PATCH 098/103] fix: Dart forms of fields without null, of arrays and
 of dates did not compile, and unsigned numbers and enums in them lost their
 value

---
 pkg/dart/ui.go | 73 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 45 insertions(+), 28 deletions(-)

diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index 85454c0..643adb0 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -274,7 +274,7 @@ func (b *Builder) printTable(dst *build.Writer, typ *ast.DataType, u *ui) {
 					dst.Code("?")
 				}
 				dst.Code(".map((e) => e")
-				b.printToString(dst, field.Type, false, table.digit, table.format, "??\"\"")
+				b.printToString(dst, field.Type.(*ast.ArrayType).VType, false, table.digit, table.format, "??\"\"")
 				dst.Code(").join(',')")
 				if isNull {
 					dst.Code(" ?? ''")
@@ -290,7 +290,7 @@ func (b *Builder) printTable(dst *build.Writer, typ *ast.DataType, u *ui) {
 					dst.Code("?")
 				}
 				dst.Code(".map((e) => e")
-				b.printToString(dst, field.Type, false, table.digit, table.format, "??\"\"")
+				b.printToString(dst, field.Type.(*ast.ArrayType).VType, false, table.digit, table.format, "??\"\"")
 				dst.Code(").join(',')")
 				if isNull {
 					dst.Code(" ?? ''")
@@ -334,11 +334,16 @@ func (b *Builder) printToString(dst *build.Writer, expr ast.Expr, empty bool, di
 			b.printToString(dst, t.Obj.Decl.(*ast.TypeSpec).Type, empty, digit, format, val)
 		} else {
 			switch build.BaseType(t.Name) {
-			case build.Int8, build.Int16, build.Int32, build.Int64, build.Uint8, build.Uint16, build.Uint32, build.Uint64:
+			case build.Int8, build.Int16, build.Int32, build.Int64, build.Uint8, build.Uint16, build.Uint32:
 				if empty {
 					dst.Code("?")
 				}
 				dst.Code(".toString()")
+			case build.Uint64:
+				if empty {
+					dst.Code("?")
+				}
+				dst.Code(".toStringUnsigned()")
 			case build.Float, build.Double:
 				if empty {
 					dst.Code("?")
@@ -398,23 +403,32 @@ func (b *Builder) printToString(dst *build.Writer, expr ast.Expr, empty bool, di
 	}
 }
 
-func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr, empty bool, digit int, format string) {
+// printSaved writes the value that the text of a control stands for. No text stands for null
+func (b *Builder) printSaved(dst *build.Writer, field *ast.Field) {
+	if build.IsNil(field.Type) {
+		dst.Code("\"\" == val ? null : ")
+	}
+	b.printFormString(dst, "val", "!", field.Type, false)
+}
+
+// printFormString writes the value of a text. not is what makes the text one that is not null
+func (b *Builder) printFormString(dst *build.Writer, name string, not string, expr ast.Expr, empty bool) {
 	switch expr.(type) {
 	case *ast.EnumType:
 		t := expr.(*ast.EnumType)
-		dst.Code(t.Name.Name + ".nameOf(" + name + "!)")
+		dst.Code(build.StringToHumpName(t.Name.Name) + ".values.firstWhere((item) => item.toText(context) == " + name + ")")
 	case *ast.Ident:
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			b.getPackage(dst, expr, "")
-			b.printFormString(dst, name, t.Obj.Decl.(*ast.TypeSpec).Type, empty, digit, format)
+			b.printFormString(dst, name, not, t.Obj.Decl.(*ast.TypeSpec).Type, empty)
 		} else {
 			switch build.BaseType(t.Name) {
 			case build.Int8, build.Int16, build.Int32, build.Uint8, build.Uint16, build.Uint32:
 				if empty {
 					dst.Code(name + "==null ? null : num.tryParse(" + name + ")?.toInt()")
 				} else {
-					dst.Code("num.tryParse(" + name + "!)!.toInt()")
+					dst.Code("num.tryParse(" + name + not + ")!.toInt()")
 				}
 
 			case build.Uint64, build.Int64:
@@ -422,34 +436,34 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 				if empty {
 					dst.Code(name + "==null ? null : Int64.parseInt(" + name + ")")
 				} else {
-					dst.Code("Int64.parseInt(" + name + "!)")
+					dst.Code("Int64.parseInt(" + name + not + ")")
 				}
 			case build.Float, build.Double:
 				if empty {
 					dst.Code(name + "==null ? null : num.tryParse(" + name + ")?.toDouble()")
 				} else {
-					dst.Code("num.tryParse(" + name + "!)!.toDouble()")
+					dst.Code("num.tryParse(" + name + not + ")!.toDouble()")
 				}
 			case build.Bool:
 				dst.Code("\"true\" == " + name)
 			case build.Date:
 				if empty {
-					dst.Code(name + "==null ? null : DateTime.tryParse(" + name + ")")
+					dst.Code(name + "==null ? null : DateTime.tryParse(" + name + ".replaceAll(\"/\", \"-\"))")
 				} else {
-					dst.Code("DateTime.tryParse(" + name + "!) ?? DateTime.now()")
+					dst.Code("DateTime.parse(" + name + not + ".replaceAll(\"/\", \"-\"))")
 				}
 			case build.Decimal:
 				dst.Import("package:decimal/decimal.dart", "")
 				if empty {
 					dst.Code(name + "==null ? null : Decimal.fromJson(" + name + ")")
 				} else {
-					dst.Code("Decimal.fromJson(" + name + "!)")
+					dst.Code("Decimal.fromJson(" + name + not + ")")
 				}
 			default:
 				if empty {
 					dst.Code(name)
 				} else {
-					dst.Code(name + "!")
+					dst.Code(name + not)
 				}
 			}
 		}
@@ -473,7 +487,7 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 		//}
 	case *ast.VarType:
 		t := expr.(*ast.VarType)
-		b.printFormString(dst, name, t.Type(), t.Empty, digit, format)
+		b.printFormString(dst, name, not, t.Type(), t.Empty)
 	}
 }
 
@@ -521,17 +535,22 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 					setValue.Code("?")
 				}
 				setValue.Code(".map((e) => e")
-				b.printToString(setValue, field.Type, false, form.digit, form.format, "??\"\"")
+				b.printToString(setValue, field.Type.(*ast.ArrayType).VType, false, form.digit, form.format, "??\"\"")
 				setValue.Code(").join(\",\");\n")
 				if !form.onlyRead {
-					setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = ")
-					setValue.Code("val?.split(\",\").map((e) =>e")
-					b.printFormString(setValue, "val", field.Type, false, form.digit, form.format)
-					setValue.Code(").toList()")
-					if !isNil {
-						setValue.Code(" ?? [] ")
+					setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = (val?.isEmpty ?? true) ? ")
+					if isNil {
+						setValue.Code("null")
+					} else {
+						setValue.Code("[]")
 					}
-					setValue.Code(";\n")
+					setValue.Code(" : val!.split(\",\").map((e) => ")
+					item := field.Type.(*ast.ArrayType).VType
+					if item.Empty {
+						setValue.Code("\"\" == e ? null : ")
+					}
+					b.printFormString(setValue, "e", "", item.Type(), false)
+					setValue.Code(").toList();\n")
 				}
 			} else {
 				setValue.Code("\t\t" + fieldName + ".initialValue = info." + fieldName)
@@ -539,8 +558,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 				setValue.Code(";\n")
 				if !form.onlyRead {
 					setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = ")
-					setValue.Code("\"\" == val ? null : ")
-					b.printFormString(setValue, "val", field.Type, false, form.digit, form.format)
+					b.printSaved(setValue, field)
 					setValue.Code(";\n")
 				}
 			}
@@ -588,8 +606,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			setValue.Code(";\n")
 			if !form.onlyRead {
 				setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = ")
-				setValue.Code("\"\" == val ? null : ")
-				b.printFormString(setValue, "val", field.Type, false, form.digit, form.format)
+				b.printSaved(setValue, field)
 				setValue.Code(";\n")
 			}
 			setValue.Code("\t\t" + fieldName + ".readOnly = readOnly || " + onlyRead + ";\n")
@@ -705,8 +722,8 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			setValue.Code(";\n")
 			if !form.onlyRead {
 				setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = ")
-				setValue.Code("\"\" == val ? null : ")
-				setValue.Code("val ;\n")
+				b.printSaved(setValue, field)
+				setValue.Code(";\n")
 			}
 			setValue.Code("\t\t" + fieldName + ".readOnly = readOnly || " + onlyRead + ";\n")
 			setValue.Code("\t\t" + fieldName + ".widthSizes = sizes;\n")
-- 
2.43.0


From 220c7be762eb0d97bd2f1a2148132eedc3838fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:31 +0000
Subject: [PATCH 099/103] fix: Dart forms with rules did not compile for
 controls of other values than texts, and refused the dates they show

---
 pkg/dart/ui.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index 643adb0..bf91824 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -411,6 +411,22 @@ func (b *Builder) printSaved(dst *build.Writer, field *ast.Field) {
 	b.printFormString(dst, "val", "!", field.Type, false)
 }
 
+// verifyText is what a validator gets of the text of a control. It reads dates as DateTime does
+func verifyText(field *ast.Field) string {
+	if build.Date == build.GetBaseType(field.Type) {
+		return "val?.replaceAll(\"/\", \"-\")"
+	}
+	return "val"
+}
+
+// verifyValue is what a validator gets of the value of a control
+func verifyValue(field *ast.Field) string {
+	if build.Uint64 == build.GetBaseType(field.Type) {
+		return "val?.toStringUnsigned()"
+	}
+	return "val?.toString()"
+}
+
 // printFormString writes the value of a text. not is what makes the text one that is not null
 func (b *Builder) printFormString(dst *build.Writer, name string, not string, expr ast.Expr, empty bool) {
 	switch expr.(type) {
@@ -569,7 +585,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			setValue.Code("\t\t" + fieldName + ".padding = padding;\n")
 			if nil != verify {
 				b.getPackage(dst, typ.Name, "verify")
-				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, val!);\n")
+				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, " + verifyText(field) + ");\n")
 			}
 			setValue.Code("\t\t" + fieldName + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
 
@@ -593,7 +609,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			setValue.Code("\t\t" + fieldName + ".padding = padding;\n")
 			if nil != verify {
 				b.getPackage(dst, typ.Name, "verify")
-				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, val!);\n")
+				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, " + verifyValue(field) + ");\n")
 			}
 			setValue.Code("\t\t" + fieldName + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
 
@@ -624,7 +640,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			}
 			if nil != verify {
 				b.getPackage(dst, typ.Name, "verify")
-				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, val!);\n")
+				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, " + verifyText(field) + ");\n")
 			}
 			setValue.Code("\t\t" + fieldName + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
 
@@ -682,7 +698,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			}
 			if nil != verify {
 				b.getPackage(dst, typ.Name, "verify")
-				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, val!);\n")
+				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, (val?.isEmpty ?? true) ? null : val!.first.url);\n")
 			}
 			setValue.Code("\t\t" + fieldName + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
 			fields.Code("\t\t\t" + fieldName + ".build(context),\n")
@@ -707,7 +723,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			setValue.Code("\t\t" + fieldName + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n")
 			if nil != verify {
 				b.getPackage(dst, typ.Name, "verify")
-				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, val?.toString());\n")
+				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, " + verifyValue(field) + ");\n")
 			}
 			setValue.Code("\t\t" + fieldName + ".items = [\n")
 			b.printMenuItem(setValue, field.Type, false)
@@ -730,7 +746,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			setValue.Code("\t\t" + fieldName + ".padding = padding;\n")
 			if nil != verify {
 				b.getPackage(dst, typ.Name, "verify")
-				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, val!);\n")
+				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, " + verifyText(field) + ");\n")
 			}
 			setValue.Code("\t\t" + fieldName + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
 
@@ -755,7 +771,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			setValue.Code("\t\t" + fieldName + ".padding = padding;\n")
 			if nil != verify {
 				b.getPackage(dst, typ.Name, "verify")
-				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, val!);\n")
+				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, " + verifyValue(field) + ");\n")
 			}
 			setValue.Code("\t\t" + fieldName + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
 
-- 
2.43.0


From 51038c75cf7ab9445120a7d7075b3935fb21ff7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:59 +0000
Subject: [PATCH 100/103] fix: Dart forms failed or changed booleans when a
 control has no value, and did not compile for fields named as their members

---
 pkg/dart/dart.go |  13 ++++
 pkg/dart/ui.go   | 165 ++++++++++++++++++++++++-----------------------
 2 files changed, 96 insertions(+), 82 deletions(-)

diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index 724bcd2..6037043 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -37,6 +37,11 @@ var _methodMembers = map[string]struct{}{
 	"hashCode": {}, "noSuchMethod": {}, "runtimeType": {}, "toString": {}, "id": {}, "int": {}, "invoke": {}, "name": {},
 }
 
+// _formMembers are the other members of forms and the parameters of what builds them
+var _formMembers = map[string]struct{}{
+	"build": {}, "builder": {}, "context": {}, "info": {}, "padding": {}, "readOnly": {}, "sizes": {},
+}
+
 // _paramNames are the names beside the parameter of a method
 var _paramNames = map[string]struct{}{"ctx": {}, "invoke": {}}
 
@@ -55,6 +60,14 @@ func fieldName(name string) string {
 	return checkName(name, _reserved, _fieldMembers)
 }
 
+// controlName returns the name of the control of a field, which must not be another member of the form
+func controlName(fieldName string) string {
+	if _, ok := _formMembers[fieldName]; ok {
+		return fieldName + "_"
+	}
+	return fieldName
+}
+
 // methodName returns the name of a method, which must be neither reserved nor another member
 func methodName(name string) string {
 	return checkName(name, _reserved, _methodMembers)
diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index bf91824..7ad23e0 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -406,7 +406,7 @@ func (b *Builder) printToString(dst *build.Writer, expr ast.Expr, empty bool, di
 // printSaved writes the value that the text of a control stands for. No text stands for null
 func (b *Builder) printSaved(dst *build.Writer, field *ast.Field) {
 	if build.IsNil(field.Type) {
-		dst.Code("\"\" == val ? null : ")
+		dst.Code("\"\" == (val ?? \"\") ? null : ")
 	}
 	b.printFormString(dst, "val", "!", field.Type, false)
 }
@@ -528,6 +528,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 	err := build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
 		form := b.getUI(field.Tags)
 		fieldName := fieldName(field.Name.Name)
+		control := controlName(fieldName)
 		if nil == form {
 			return nil
 		}
@@ -544,9 +545,9 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			return err
 		}
 		if "text" == form.form {
-			dst.Code("\tfinal TextFormBuild " + fieldName + " = TextFormBuild();\n\n")
+			dst.Code("\tfinal TextFormBuild " + control + " = TextFormBuild();\n\n")
 			if isArray {
-				setValue.Code("\t\t" + fieldName + ".initialValue = info." + fieldName)
+				setValue.Code("\t\t" + control + ".initialValue = info." + fieldName)
 				if isNil {
 					setValue.Code("?")
 				}
@@ -554,7 +555,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 				b.printToString(setValue, field.Type.(*ast.ArrayType).VType, false, form.digit, form.format, "??\"\"")
 				setValue.Code(").join(\",\");\n")
 				if !form.onlyRead {
-					setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = (val?.isEmpty ?? true) ? ")
+					setValue.Code("\t\t" + control + ".onSaved = (val) => info." + fieldName + " = (val?.isEmpty ?? true) ? ")
 					if isNil {
 						setValue.Code("null")
 					} else {
@@ -569,67 +570,67 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 					setValue.Code(").toList();\n")
 				}
 			} else {
-				setValue.Code("\t\t" + fieldName + ".initialValue = info." + fieldName)
+				setValue.Code("\t\t" + control + ".initialValue = info." + fieldName)
 				b.printToString(setValue, field.Type, false, form.digit, form.format, "??\"\"")
 				setValue.Code(";\n")
 				if !form.onlyRead {
-					setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = ")
+					setValue.Code("\t\t" + control + ".onSaved = (val) => info." + fieldName + " = ")
 					b.printSaved(setValue, field)
 					setValue.Code(";\n")
 				}
 			}
 
-			setValue.Code("\t\t" + fieldName + ".readOnly = readOnly || " + onlyRead + ";\n")
-			setValue.Code("\t\t" + fieldName + ".widthSizes = sizes;\n")
-			setValue.Code("\t\t" + fieldName + ".maxLines = " + strconv.Itoa(form.maxLine) + ";\n")
-			setValue.Code("\t\t" + fieldName + ".padding = padding;\n")
+			setValue.Code("\t\t" + control + ".readOnly = readOnly || " + onlyRead + ";\n")
+			setValue.Code("\t\t" + control + ".widthSizes = sizes;\n")
+			setValue.Code("\t\t" + control + ".maxLines = " + strconv.Itoa(form.maxLine) + ";\n")
+			setValue.Code("\t\t" + control + ".padding = padding;\n")
 			if nil != verify {
 				b.getPackage(dst, typ.Name, "verify")
-				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, " + verifyText(field) + ");\n")
+				setValue.Code("\t\t" + control + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, " + verifyText(field) + ");\n")
 			}
-			setValue.Code("\t\t" + fieldName + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
+			setValue.Code("\t\t" + control + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
 
-			fields.Code("\t\t\t" + fieldName + ".build(context),\n")
+			fields.Code("\t\t\t" + control + ".build(context),\n")
 			lang.Add(fieldName, field.Tags)
 		} else if "click" == form.form {
 			dst.Code("\tfinal ClickFormBuild<")
 			b.printType(dst, field.Type, false)
-			dst.Code("> " + fieldName + " = ClickFormBuild();\n\n")
+			dst.Code("> " + control + " = ClickFormBuild();\n\n")
 
-			setValue.Code("\t\t" + fieldName + ".initialValue = info." + fieldName + ";\n")
+			setValue.Code("\t\t" + control + ".initialValue = info." + fieldName + ";\n")
 			if !form.onlyRead {
-				setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = val")
+				setValue.Code("\t\t" + control + ".onSaved = (val) => info." + fieldName + " = val")
 				if !build.IsNil(field.Type) {
 					setValue.Code("!")
 				}
 				setValue.Code(";\n")
 			}
-			setValue.Code("\t\t" + fieldName + ".readOnly = readOnly || " + onlyRead + ";\n")
-			setValue.Code("\t\t" + fieldName + ".widthSizes = sizes;\n")
-			setValue.Code("\t\t" + fieldName + ".padding = padding;\n")
+			setValue.Code("\t\t" + control + ".readOnly = readOnly || " + onlyRead + ";\n")
+			setValue.Code("\t\t" + control + ".widthSizes = sizes;\n")
+			setValue.Code("\t\t" + control + ".padding = padding;\n")
 			if nil != verify {
 				b.getPackage(dst, typ.Name, "verify")
-				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, " + verifyValue(field) + ");\n")
+				setValue.Code("\t\t" + control + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, " + verifyValue(field) + ");\n")
 			}
-			setValue.Code("\t\t" + fieldName + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
+			setValue.Code("\t\t" + control + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
 
-			fields.Code("\t\t\t" + fieldName + ".build(context),\n")
+			fields.Code("\t\t\t" + control + ".build(context),\n")
 			lang.Add(fieldName, field.Tags)
 		} else if "file" == form.form {
-			dst.Code("\tfinal FileFormBuild " + fieldName + " = FileFormBuild();\n\n")
-			setValue.Code("\t\t" + fieldName + ".initialValue = info." + fieldName)
+			dst.Code("\tfinal FileFormBuild " + control + " = FileFormBuild();\n\n")
+			setValue.Code("\t\t" + control + ".initialValue = info." + fieldName)
 			b.printToString(setValue, field.Type, false, form.digit, form.format, "??\"\"")
 			setValue.Code(";\n")
 			if !form.onlyRead {
-				setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = ")
+				setValue.Code("\t\t" + control + ".onSaved = (val) => info." + fieldName + " = ")
 				b.printSaved(setValue, field)
 				setValue.Code(";\n")
 			}
-			setValue.Code("\t\t" + fieldName + ".readOnly = readOnly || " + onlyRead + ";\n")
-			setValue.Code("\t\t" + fieldName + ".widthSizes = sizes;\n")
-			setValue.Code("\t\t" + fieldName + ".padding = padding;\n")
+			setValue.Code("\t\t" + control + ".readOnly = readOnly || " + onlyRead + ";\n")
+			setValue.Code("\t\t" + control + ".widthSizes = sizes;\n")
+			setValue.Code("\t\t" + control + ".padding = padding;\n")
 			if 0 < len(form.extensions) {
-				setValue.Code("\t\t" + fieldName + ".extensions = <String>[")
+				setValue.Code("\t\t" + control + ".extensions = <String>[")
 				for i, extension := range form.extensions {
 					if 0 < i {
 						setValue.Code(", ")
@@ -640,54 +641,54 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			}
 			if nil != verify {
 				b.getPackage(dst, typ.Name, "verify")
-				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, " + verifyText(field) + ");\n")
+				setValue.Code("\t\t" + control + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, " + verifyText(field) + ");\n")
 			}
-			setValue.Code("\t\t" + fieldName + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
+			setValue.Code("\t\t" + control + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
 
-			fields.Code("\t\t\t" + fieldName + ".build(context),\n")
+			fields.Code("\t\t\t" + control + ".build(context),\n")
 			lang.Add(fieldName, field.Tags)
 		} else if "image" == form.form {
-			dst.Code("\tfinal ImageFormBuild " + fieldName + " =  ImageFormBuild();\n\n")
+			dst.Code("\tfinal ImageFormBuild " + control + " =  ImageFormBuild();\n\n")
 
 			if isArray {
 				if build.IsNil(field.Type) {
-					setValue.Code("\t\t" + fieldName + ".initialValue = info." + fieldName + "?.map((e) => ImageFormImage(e))?.toList() ?? [];\n")
+					setValue.Code("\t\t" + control + ".initialValue = info." + fieldName + "?.map((e) => ImageFormImage(e))?.toList() ?? [];\n")
 					if !form.onlyRead {
-						setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = val!.map((e) => e.url).toList();\n")
+						setValue.Code("\t\t" + control + ".onSaved = (val) => info." + fieldName + " = val!.map((e) => e.url).toList();\n")
 					}
 				} else {
-					setValue.Code("\t\t" + fieldName + ".initialValue = info." + fieldName + ".map((e) => ImageFormImage(e)).toList();\n")
+					setValue.Code("\t\t" + control + ".initialValue = info." + fieldName + ".map((e) => ImageFormImage(e)).toList();\n")
 					if !form.onlyRead {
-						setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = val!.map((e) => e.url).toList();\n")
+						setValue.Code("\t\t" + control + ".onSaved = (val) => info." + fieldName + " = val!.map((e) => e.url).toList();\n")
 					}
 				}
 			} else {
 				if build.IsNil(field.Type) {
-					setValue.Code("\t\t" + fieldName + ".initialValue = [if (info." + fieldName + "?.startsWith(\"http\") ?? false) ImageFormImage(info." + fieldName + "!)];\n")
+					setValue.Code("\t\t" + control + ".initialValue = [if (info." + fieldName + "?.startsWith(\"http\") ?? false) ImageFormImage(info." + fieldName + "!)];\n")
 					if !form.onlyRead {
-						setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = ((val?.isEmpty ?? true) ? null : val!.first.url);\n")
+						setValue.Code("\t\t" + control + ".onSaved = (val) => info." + fieldName + " = ((val?.isEmpty ?? true) ? null : val!.first.url);\n")
 					}
 				} else {
-					setValue.Code("\t\t" + fieldName + ".initialValue = [ImageFormImage(info." + fieldName + ")];\n")
+					setValue.Code("\t\t" + control + ".initialValue = [ImageFormImage(info." + fieldName + ")];\n")
 					if !form.onlyRead {
-						setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = val!.first.url;\n")
+						setValue.Code("\t\t" + control + ".onSaved = (val) => info." + fieldName + " = val!.first.url;\n")
 					}
 				}
 			}
 
-			setValue.Code("\t\t" + fieldName + ".readOnly = readOnly || " + onlyRead + ";\n")
-			setValue.Code("\t\t" + fieldName + ".maxCount = " + strconv.Itoa(form.maxCount) + ";\n")
-			setValue.Code("\t\t" + fieldName + ".widthSizes = sizes;\n")
-			setValue.Code("\t\t" + fieldName + ".padding = padding;\n")
+			setValue.Code("\t\t" + control + ".readOnly = readOnly || " + onlyRead + ";\n")
+			setValue.Code("\t\t" + control + ".maxCount = " + strconv.Itoa(form.maxCount) + ";\n")
+			setValue.Code("\t\t" + control + ".widthSizes = sizes;\n")
+			setValue.Code("\t\t" + control + ".padding = padding;\n")
 			if form.clip {
-				setValue.Code("\t\t" + fieldName + ".clip = true;\n")
+				setValue.Code("\t\t" + control + ".clip = true;\n")
 			} else {
-				setValue.Code("\t\t" + fieldName + ".clip = false;\n")
+				setValue.Code("\t\t" + control + ".clip = false;\n")
 			}
-			setValue.Code("\t\t" + fieldName + ".outWidth = " + strconv.FormatFloat(form.width, 'G', -1, 64) + ";\n")
-			setValue.Code("\t\t" + fieldName + ".outHeight = " + strconv.FormatFloat(form.height, 'G', -1, 64) + ";\n")
+			setValue.Code("\t\t" + control + ".outWidth = " + strconv.FormatFloat(form.width, 'G', -1, 64) + ";\n")
+			setValue.Code("\t\t" + control + ".outHeight = " + strconv.FormatFloat(form.height, 'G', -1, 64) + ";\n")
 			if 0 < len(form.extensions) {
-				setValue.Code("\t\t" + fieldName + ".extensions = <String>[")
+				setValue.Code("\t\t" + control + ".extensions = <String>[")
 				for i, extension := range form.extensions {
 					if 0 < i {
 						setValue.Code(", ")
@@ -698,67 +699,67 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			}
 			if nil != verify {
 				b.getPackage(dst, typ.Name, "verify")
-				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, (val?.isEmpty ?? true) ? null : val!.first.url);\n")
+				setValue.Code("\t\t" + control + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, (val?.isEmpty ?? true) ? null : val!.first.url);\n")
 			}
-			setValue.Code("\t\t" + fieldName + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
-			fields.Code("\t\t\t" + fieldName + ".build(context),\n")
+			setValue.Code("\t\t" + control + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
+			fields.Code("\t\t\t" + control + ".build(context),\n")
 			lang.Add(fieldName, field.Tags)
 
 		} else if "menu" == form.form {
 			dst.Code("\tfinal MenuFormBuild<")
 			b.printType(dst, field.Type, false)
-			dst.Code("> " + fieldName + " = MenuFormBuild();\n\n")
-			setValue.Code("\t\t" + fieldName + ".value = info." + fieldName + ";\n")
+			dst.Code("> " + control + " = MenuFormBuild();\n\n")
+			setValue.Code("\t\t" + control + ".value = info." + fieldName + ";\n")
 			if !form.onlyRead {
-				setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = val")
+				setValue.Code("\t\t" + control + ".onSaved = (val) => info." + fieldName + " = val")
 				if !build.IsNil(field.Type) {
 					setValue.Code("!")
 				}
 				setValue.Code(";\n")
 			}
-			setValue.Code("\t\t" + fieldName + ".readOnly = readOnly || " + onlyRead + ";\n")
-			setValue.Code("\t\t" + fieldName + ".widthSizes = sizes;\n")
-			setValue.Code("\t\t" + fieldName + ".padding = padding;\n")
-			setValue.Code("\t\t" + fieldName + ".toNull = true;\n")
-			setValue.Code("\t\t" + fieldName + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n")
+			setValue.Code("\t\t" + control + ".readOnly = readOnly || " + onlyRead + ";\n")
+			setValue.Code("\t\t" + control + ".widthSizes = sizes;\n")
+			setValue.Code("\t\t" + control + ".padding = padding;\n")
+			setValue.Code("\t\t" + control + ".toNull = true;\n")
+			setValue.Code("\t\t" + control + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n")
 			if nil != verify {
 				b.getPackage(dst, typ.Name, "verify")
-				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, " + verifyValue(field) + ");\n")
+				setValue.Code("\t\t" + control + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, " + verifyValue(field) + ");\n")
 			}
-			setValue.Code("\t\t" + fieldName + ".items = [\n")
+			setValue.Code("\t\t" + control + ".items = [\n")
 			b.printMenuItem(setValue, field.Type, false)
 			setValue.Code("\t\t];\n\n")
 
-			fields.Code("\t\t\t" + fieldName + ".build(context),\n")
+			fields.Code("\t\t\t" + control + ".build(context),\n")
 			lang.Add(fieldName, field.Tags)
 		} else if "date" == form.form {
-			dst.Code("\tfinal DatetimeFormBuild " + fieldName + " =  DatetimeFormBuild();\n\n")
-			setValue.Code("\t\t" + fieldName + ".initialValue = info." + fieldName)
+			dst.Code("\tfinal DatetimeFormBuild " + control + " =  DatetimeFormBuild();\n\n")
+			setValue.Code("\t\t" + control + ".initialValue = info." + fieldName)
 			b.printToString(setValue, field.Type, false, form.digit, form.format, "??\"\"")
 			setValue.Code(";\n")
 			if !form.onlyRead {
-				setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = ")
+				setValue.Code("\t\t" + control + ".onSaved = (val) => info." + fieldName + " = ")
 				b.printSaved(setValue, field)
 				setValue.Code(";\n")
 			}
-			setValue.Code("\t\t" + fieldName + ".readOnly = readOnly || " + onlyRead + ";\n")
-			setValue.Code("\t\t" + fieldName + ".widthSizes = sizes;\n")
-			setValue.Code("\t\t" + fieldName + ".padding = padding;\n")
+			setValue.Code("\t\t" + control + ".readOnly = readOnly || " + onlyRead + ";\n")
+			setValue.Code("\t\t" + control + ".widthSizes = sizes;\n")
+			setValue.Code("\t\t" + control + ".padding = padding;\n")
 			if nil != verify {
 				b.getPackage(dst, typ.Name, "verify")
-				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, " + verifyText(field) + ");\n")
+				setValue.Code("\t\t" + control + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, " + verifyText(field) + ");\n")
 			}
-			setValue.Code("\t\t" + fieldName + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
+			setValue.Code("\t\t" + control + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
 
-			fields.Code("\t\t\t" + fieldName + ".build(context),\n")
+			fields.Code("\t\t\t" + control + ".build(context),\n")
 			lang.Add(fieldName, field.Tags)
 		} else if "switch" == form.form {
-			dst.Code("\tfinal SwitchFormBuild " + fieldName + " =  SwitchFormBuild();\n\n")
-			setValue.Code("\t\t" + fieldName + ".initialValue = info." + fieldName)
+			dst.Code("\tfinal SwitchFormBuild " + control + " =  SwitchFormBuild();\n\n")
+			setValue.Code("\t\t" + control + ".initialValue = info." + fieldName)
 			//b.printToString(setValue, field.Type, false, form.digit, form.format, "??\"\"")
 			setValue.Code(";\n")
 			if !form.onlyRead {
-				setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = ")
+				setValue.Code("\t\t" + control + ".onSaved = (val) => info." + fieldName + " = ")
 				if !build.IsNil(field.Type) {
 					setValue.Code("val ?? false ;\n")
 				} else {
@@ -766,16 +767,16 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 				}
 
 			}
-			setValue.Code("\t\t" + fieldName + ".readOnly = readOnly || " + onlyRead + ";\n")
-			setValue.Code("\t\t" + fieldName + ".widthSizes = sizes;\n")
-			setValue.Code("\t\t" + fieldName + ".padding = padding;\n")
+			setValue.Code("\t\t" + control + ".readOnly = readOnly || " + onlyRead + ";\n")
+			setValue.Code("\t\t" + control + ".widthSizes = sizes;\n")
+			setValue.Code("\t\t" + control + ".padding = padding;\n")
 			if nil != verify {
 				b.getPackage(dst, typ.Name, "verify")
-				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, " + verifyValue(field) + ");\n")
+				setValue.Code("\t\t" + control + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(field.Name.Name) + "(context, " + verifyValue(field) + ");\n")
 			}
-			setValue.Code("\t\t" + fieldName + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
+			setValue.Code("\t\t" + control + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
 
-			fields.Code("\t\t\t" + fieldName + ".build(context),\n")
+			fields.Code("\t\t\t" + control + ".build(context),\n")
 			lang.Add(fieldName, field.Tags)
 		}
 
-- 
2.43.0


From e7774df71caeae90787687325ad8dd84ba9ad143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:53 +0000
Subject: [PATCH 101/103] fix: the comment of an enum was taken as a directive
 of TypeScript

---
 pkg/typescript/enum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/typescript/enum.go b/pkg/typescript/enum.go
index d15def5..f7e506a 100644
--- a/pkg/typescript/enum.go
+++ b/pkg/typescript/enum.go
@@ -12,7 +12,7 @@ func (b *Builder) printEnumCode(dst *build.Writer, typ *ast.EnumType) {
 func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	enumName := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + build.DocText(typ.Doc, "///"))
+		dst.Code("// " + build.DocText(typ.Doc, "// "))
 	}
 	dst.Code("export class " + enumName)
 	dst.Code("{\n")
-- 
2.43.0


From 2c02f63bebdb0481028031ad78fa1fa72cc73c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:55 +0000
Subject: [PATCH 102/103] fix: the comment of a field was taken as a directive
 of Go

---
 pkg/golang/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/golang/data.go b/pkg/golang/data.go
index 1e1c2cc..3310fbf 100644
--- a/pkg/golang/data.go
+++ b/pkg/golang/data.go
@@ -65,7 +65,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 		dst.Code(build.StringFillRight(field.name, ' ', nameLen+1))
 		dst.Code(build.StringFillRight(field.typ, ' ', typLen+1))
 		dst.Code(build.StringFillRight(field.tag, ' ', tagLen+1))
-		dst.Code("//").Code(strings.Trim(strings.ReplaceAll(field.comment, "\n", " "), " ")).Code("\n")
+		dst.Code(strings.TrimRight("// "+strings.Trim(strings.ReplaceAll(field.comment, "\n", " "), " "), " ")).Code("\n")
 	}
 	dst.Code("}\n\n")
 
-- 
2.43.0


From d8a5f70645b4e45cfdae84881c782a4d1bc41426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:49 +0000
Subject: [PATCH 103/103] fix: database operations on a table that does not
 exist were left out without an error

---
 pkg/golang/database.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 261ccb2..b22a5fd 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -82,11 +82,11 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 	if 0 < len(dbs[0].Table) {
 		table := b.build.GetDataType(b.getFile(typ.Name), dbs[0].Table)
 		if nil == table {
-			return nil
+			return build.NewError(fType.Name.Pos(), "Not find db table: "+fDbs[0].Table)
 		}
 		data, ok := table.Decl.(*ast.TypeSpec).Type.(*ast.DataType)
 		if !ok {
-			return nil
+			return build.NewError(fType.Name.Pos(), "Not find db table: "+fDbs[0].Table)
 		}
 		typ = data
 		dbs, fields, key, err = b.getDBField(typ)
-- 
2.43.0

