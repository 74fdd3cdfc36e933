package dart

// The tree of a library.

type typeX struct {
	name string // "" for a function type
	args []*typeX
	null bool
	fn   *funcSig
	line int
}

type funcSig struct {
	ret    *typeX
	params []*param
}

type param struct {
	name     string
	typ      *typeX
	this     bool
	super    bool
	required bool
	named    bool
	cov      bool // covariant
	optional bool // positional in brackets
	def      expr
	rt       *rtype
	line     int
}

type directive struct {
	uri    string
	export bool
	prefix string
	show   map[string]bool
	hide   map[string]bool
	line   int
}

type unit struct {
	file  string
	dirs  []*directive
	decls []any // *classDecl, *funcDecl, *varDecl
}

type classDecl struct {
	name     string
	abstract bool
	tparams  []string
	super    *typeX
	with     []*typeX
	ifaces   []*typeX
	members  []any // *funcDecl, *varDecl
	line     int
	lib      *library
	c        *class
}

type funcDecl struct {
	name     string
	ret      *typeX
	tparams  []string
	params   []*param
	body     stmt // nil: abstract
	arrow    expr
	static   bool
	getter   bool
	setter   bool
	operator bool
	ctor     bool // generative constructor, name is "" or the name after the dot
	factory  bool
	konst    bool
	async    bool
	override bool
	external bool
	inits    []initializer
	redirect *call // ": this(...)"
	superArg *call
	line     int
	lib      *library
	owner    *class
	sig      *rsig
}

type initializer struct {
	name string
	e    expr
}

type varDecl struct {
	name   string
	typ    *typeX
	rt     *rtype // declared or inferred
	init   expr
	static bool
	final  bool
	konst  bool
	late   bool
	line   int

	override bool
	lib      *library
	owner    *class
	done     bool
	busy     bool
	val      any
}

type expr interface{}
type stmt interface{}

type (
	lit struct {
		v     any
		isInt bool
		dbl   bool // an integer literal where a double is wanted
		line  int
	}
	str struct {
		parts []any // string or expr
		line  int
	}
	id struct {
		name string
		line int
	}
	this   struct{ line int }
	superE struct{ line int }
	paren  struct{ e expr }
	member struct {
		x    expr
		name string
		na   bool
		line int
	}
	index struct {
		x, i expr
		na   bool
		line int
	}
	call struct {
		fn    expr
		targs []*typeX
		args  []arg
		konst bool
		bound []*rtype // the type arguments, written or inferred
		line  int
	}
	arg struct {
		name string
		e    expr
	}
	unary struct {
		op   string
		x    expr
		line int
	}
	postfix struct {
		op   string
		x    expr
		line int
	}
	binary struct {
		op   string
		l, r expr
		line int
	}
	cond   struct{ c, a, b expr }
	assign struct {
		op   string
		l, r expr
		line int
	}
	isE struct {
		x    expr
		t    *typeX
		rt   *rtype
		not  bool
		line int
	}
	asE struct {
		x    expr
		t    *typeX
		rt   *rtype
		line int
	}
	bang struct {
		x    expr
		line int
	}
	funcE struct {
		f *funcDecl
	}
	listE struct {
		t     *typeX
		elems []elem
		rt    *rtype // of the elements
		line  int
	}
	mapE struct {
		typed  bool
		k, v   *typeX // v nil and typed: a set
		elems  []elem
		line   int
		isSet  bool
		rk, rv *rtype
	}
	elem struct {
		kind   string // "", "spread", "if", "for"
		key    expr
		val    expr
		null   bool
		cond   expr
		then   *elem
		els    *elem
		name   string
		typ    *typeX
		in     expr
		isPair bool
	}
	cascade struct {
		x   expr
		ops []expr // chains that start at a cascadeTarget
		na  bool
		put bool // the targets are put in
	}
	cascadeTarget struct{}
	await         struct{ x expr }
	throwE        struct {
		x    expr
		line int
	}
	typeE struct { // a type with arguments used as an expression: List<int>.filled(...)
		t    *typeX
		rt   *rtype
		line int
	}
)

type (
	block struct{ list []stmt }
	varS  struct{ v *varDecl }
	funcS struct{ f *funcDecl }
	exprS struct{ e expr }
	ifS   struct {
		c         expr
		then, els stmt
	}
	forS struct {
		init stmt
		c    expr
		post []expr
		body stmt
	}
	forInS struct {
		typ  *typeX
		name string
		decl bool
		in   expr
		body stmt
		line int
	}
	whileS struct {
		c    expr
		body stmt
		do   bool
	}
	switchS struct {
		x     expr
		cases []switchCase
	}
	switchCase struct {
		vals []expr
		def  bool
		body []stmt
		line int
	}
	returnS struct {
		e    expr
		line int
	}
	breakS    struct{}
	continueS struct{}
	tryS      struct {
		body    stmt
		catches []catchC
		finally stmt
	}
	catchC struct {
		on   *typeX
		name string
		st   string
		body stmt
	}
	rethrowS struct{}
	emptyS   struct{}
	assertS  struct{ e expr }
)
