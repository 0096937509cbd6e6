package main

// The contract language: parser.

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type Expr struct {
	op   string // num id call field index slice un bin cond lambda all
	s    string
	n    uint64
	a    []*Expr
	src  string
	args []string
}

type Clause struct {
	tags  []string
	label string
	e     *Expr
	src   string
	kase  *Case
	when  string // io clauses: read, write
	dep   bool   // only assumed/proved as support
}

type Case struct {
	name string
	cond *Expr // nil: otherwise
	cls  []*Clause
}

type Contract struct {
	Name     string
	kind     string // func iface callback
	params   []string
	results  []string
	lets     []*Clause
	requires []*Clause
	obliges  []*Clause
	defines  []*Clause
	ticks    []string
	always   *Case
	cases    []*Case
	modifies []*Expr
	frame    []string
	hasFrame bool
	kinds    map[string][]string // nopanic, locks, pool, guard ... -> tags
	locks    []*Expr
	takes    []*Expr // locks that may be taken, any number of times
	holds    []*Expr
	io       []*Clause
	alias    map[string][]string
	unfold   map[string]bool // callees whose body is used here instead of their contract
	inline   bool
	assume   bool // trusted: never verified
	loops    []*Clause
	file     string
	line     int
	noframe  bool
	sets     []*Clause // ghost initialisation
	ext      string
	maxlen   map[string]int
	entry    []*Clause

	forkAlias map[string]bool
	panics    []*Clause
	iohavoc   bool
	caches    bool
}

func (c *Contract) kindTags(kind string) []string {
	if t, ok := c.kinds[kind]; ok {
		return t
	}
	return nil
}

type Macro struct {
	name string
	args []string
	e    *Expr
}

type Fold struct {
	name   string
	w      int
	acc, x string
	e      *Expr
}

type TypeSpec struct {
	name string
	invs []*Clause
	sets []*Clause // path = global
}

type Spec struct {
	cons   map[string]*Contract
	order  []string
	macros map[string]*Macro
	folds  map[string]*Fold
	types  map[string]*TypeSpec
	guards map[string]*GuardDecl
	uses   map[string]string
	deps   map[string][]string
	ghosts map[string]string
}

// ---- lexer / Pratt parser

type lexer struct {
	toks []string
	pos  int
	src  string
}

var tokRe = regexp.MustCompile(`^(0x[0-9a-fA-F]+|[0-9]+|\$?[A-Za-z_][A-Za-z_0-9]*|==>|<==>|=~|=>|==|!=|<=|>=|<<|>>|&&|\|\||&\^|\.\.|[-+*/%&|^~!<>()\[\].,:?=])`)

func lex(s string) (*lexer, error) {
	l := &lexer{src: s}
	for {
		s = strings.TrimLeft(s, " \t\n")
		if s == "" {
			return l, nil
		}
		if s[0] == '#' {
			return l, nil
		}
		m := tokRe.FindString(s)
		if m == "" {
			return nil, fmt.Errorf("cannot read %q", s)
		}
		l.toks = append(l.toks, m)
		s = s[len(m):]
	}
}

func (l *lexer) peek() string {
	if l.pos < len(l.toks) {
		return l.toks[l.pos]
	}
	return ""
}
func (l *lexer) next() string { t := l.peek(); l.pos++; return t }
func (l *lexer) want(t string) {
	if g := l.next(); g != t {
		panic(fmt.Errorf("expected %q, got %q in %q", t, g, l.src))
	}
}

var prec = map[string]int{"<==>": 1, "==>": 2, "?": 3, "||": 4, "&&": 5, "==": 6, "!=": 6, "=~": 6, "<": 6, "<=": 6, ">": 6, ">=": 6,
	"|": 7, "^": 7, "&": 8, "&^": 8, "<<": 9, ">>": 9, "+": 10, "-": 10, "*": 11, "/": 11, "%": 11}

func (l *lexer) expr(min int) *Expr {
	left := l.unary()
	for {
		t := l.peek()
		p, ok := prec[t]
		if !ok || p < min {
			return left
		}
		l.next()
		switch t {
		case "?":
			a := l.expr(3)
			l.want(":")
			b := l.expr(3)
			left = &Expr{op: "cond", a: []*Expr{left, a, b}}
		case "==>":
			left = &Expr{op: "bin", s: t, a: []*Expr{left, l.expr(p)}}
		default:
			left = &Expr{op: "bin", s: t, a: []*Expr{left, l.expr(p + 1)}}
		}
	}
}

func (l *lexer) unary() *Expr {
	switch t := l.peek(); t {
	case "!", "-", "~":
		l.next()
		return &Expr{op: "un", s: t, a: []*Expr{l.unary()}}
	}
	return l.postfix(l.primary())
}

func isIdent(t string) bool {
	return t != "" && (t[0] == '_' || t[0] == '$' || t[0] >= 'a' && t[0] <= 'z' || t[0] >= 'A' && t[0] <= 'Z')
}

func (l *lexer) primary() *Expr {
	t := l.next()
	switch {
	case t == "(":
		e := l.expr(0)
		l.want(")")
		return e
	case t == "all", t == "some":
		v := l.next()
		l.want("in")
		lo := l.expr(6)
		l.want("..")
		hi := l.expr(6)
		l.want(":")
		return &Expr{op: t, s: v, a: []*Expr{lo, hi, l.expr(0)}}
	case isIdent(t):
		if l.peek() == "=>" {
			l.next()
			return &Expr{op: "lambda", s: t, a: []*Expr{l.expr(0)}}
		}
		return &Expr{op: "id", s: t}
	case t != "" && t[0] >= '0' && t[0] <= '9':
		n, err := strconv.ParseUint(t, 0, 64)
		if err != nil {
			panic(err)
		}
		return &Expr{op: "num", n: n}
	}
	panic(fmt.Errorf("unexpected %q in %q", t, l.src))
}

func (l *lexer) postfix(e *Expr) *Expr {
	for {
		switch l.peek() {
		case ".":
			l.next()
			e = &Expr{op: "field", s: l.next(), a: []*Expr{e}}
		case "(":
			l.next()
			c := &Expr{op: "call", s: e.s, a: nil}
			if e.op != "id" {
				panic(fmt.Errorf("call of non-identifier in %q", l.src))
			}
			for l.peek() != ")" {
				c.a = append(c.a, l.expr(0))
				if l.peek() == "," {
					l.next()
				}
			}
			l.next()
			e = c
		case "[":
			l.next()
			if l.peek() == "]" {
				l.next()
				e = &Expr{op: "elems", a: []*Expr{e}}
				continue
			}
			var lo, hi *Expr
			if l.peek() != ":" {
				lo = l.expr(4)
			}
			if l.peek() == ":" {
				l.next()
				if l.peek() != "]" {
					hi = l.expr(4)
				}
				l.want("]")
				e = &Expr{op: "slice", a: []*Expr{e, lo, hi}}
				continue
			}
			l.want("]")
			e = &Expr{op: "index", a: []*Expr{e, lo}}
		default:
			return e
		}
	}
}

func parseExpr(s string) (e *Expr, err error) {
	defer func() {
		if r := recover(); r != nil {
			if er, ok := r.(error); ok {
				err = er
				return
			}
			panic(r)
		}
	}()
	l, err := lex(s)
	if err != nil {
		return nil, err
	}
	e = l.expr(0)
	if l.pos < len(l.toks) {
		return nil, fmt.Errorf("trailing %q in %q", l.peek(), s)
	}
	e.src = strings.TrimSpace(s)
	return e, nil
}

var (
	headRe  = regexp.MustCompile(`^(func|iface|callback|extern|trusted)\s+(\S+?)\(([^()]*)\)\s*(?:\(([^()]*)\))?\s*$`)
	headRe2 = regexp.MustCompile(`^(func|iface|callback|trusted)\s+(\([^()]*\)\.\w+)\(([^()]*)\)\s*(?:\(([^()]*)\))?\s*$`)
	macRe   = regexp.MustCompile(`^spec\s+(\w+)\(([^()]*)\)\s*=\s*(.*)$`)
	foldRe  = regexp.MustCompile(`^fold\s+(\w+):(\d+)\((\w+),\s*(\w+)\)\s*=\s*(.*)$`)
	tagRe   = regexp.MustCompile(`^\[([A-Za-z0-9, ]*)\]\s*`)
	labRe   = regexp.MustCompile(`^([a-zA-Z][a-zA-Z0-9 _/'-]*):\s+`)
)

func splitList(s string) []string {
	var out []string
	for _, f := range strings.FieldsFunc(s, func(r rune) bool { return r == ',' || r == ' ' || r == ';' }) {
		out = append(out, f)
	}
	return out
}

func LoadSpec(dir string) (*Spec, error) {
	theMacros = map[string]*Macro{}
	sp := &Spec{cons: map[string]*Contract{}, macros: theMacros, folds: map[string]*Fold{}, types: map[string]*TypeSpec{},
		guards: map[string]*GuardDecl{}, deps: map[string][]string{}, ghosts: map[string]string{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := sp.parse(filepath.Base(f), string(b)); err != nil {
			return nil, err
		}
	}
	return sp, nil
}

func (sp *Spec) parse(file, text string) error {
	lines := strings.Split(text, "\n")
	var con *Contract
	var ts *TypeSpec
	var kase *Case
	for i := 0; i < len(lines); i++ {
		ln := i + 1
		raw := lines[i]
		line := strings.TrimRight(raw, " \t")
		for strings.HasSuffix(line, "\\") && i+1 < len(lines) {
			i++
			line = strings.TrimSuffix(line, "\\") + " " + strings.TrimSpace(lines[i])
		}
		if k := strings.Index(line, "#"); k >= 0 {
			line = strings.TrimRight(line[:k], " \t")
		}
		t := strings.TrimSpace(line)
		if t == "" {
			continue
		}
		bad := func(err error) error { return fmt.Errorf("%s:%d: %v", file, ln, err) }
		if line[0] != ' ' && line[0] != '\t' {
			con, ts, kase = nil, nil, nil
			if m := macRe.FindStringSubmatch(t); m != nil {
				e, err := parseExpr(m[3])
				if err != nil {
					return bad(err)
				}
				sp.macros[m[1]] = &Macro{name: m[1], args: splitList(m[2]), e: e}
				continue
			}
			if m := foldRe.FindStringSubmatch(t); m != nil {
				e, err := parseExpr(m[5])
				if err != nil {
					return bad(err)
				}
				w, _ := strconv.Atoi(m[2])
				sp.folds[m[1]] = &Fold{name: m[1], w: w, acc: m[3], x: m[4], e: e}
				continue
			}
			if strings.HasPrefix(t, "ghost ") {
				f := strings.Fields(t)
				sp.ghosts[f[1]] = f[2]
				continue
			}
			if strings.HasPrefix(t, "type ") {
				ts = &TypeSpec{name: strings.TrimSpace(t[5:])}
				sp.types[ts.name] = ts
				continue
			}
			m := headRe2.FindStringSubmatch(t)
			if m == nil {
				m = headRe.FindStringSubmatch(t)
			}
			if m == nil {
				return bad(fmt.Errorf("unknown declaration %q", t))
			}
			con = &Contract{Name: m[2], kind: m[1], params: splitList(m[3]), results: splitList(m[4]), always: &Case{name: "always"}, kinds: map[string][]string{},
				alias: map[string][]string{}, forkAlias: map[string]bool{}, unfold: map[string]bool{}, file: file, line: ln, maxlen: map[string]int{}}
			if m[1] == "trusted" {
				con.kind, con.assume = "func", true
			}
			if sp.cons[con.Name] != nil {
				return bad(fmt.Errorf("duplicate contract %s", con.Name))
			}
			sp.cons[con.Name] = con
			sp.order = append(sp.order, con.Name)
			kase = con.always
			continue
		}
		word, rest := t, ""
		if k := strings.IndexAny(t, " \t"); k >= 0 {
			word, rest = t[:k], strings.TrimSpace(t[k:])
		}
		tags := func() []string {
			if m := tagRe.FindStringSubmatch(rest); m != nil {
				rest = strings.TrimSpace(rest[len(m[0]):])
				return splitList(m[1])
			}
			return nil
		}
		if ts != nil {
			switch word {
			case "inv":
				e, err := parseExpr(rest)
				if err != nil {
					return bad(err)
				}
				ts.invs = append(ts.invs, &Clause{e: e, src: rest})
			case "set":
				p := strings.SplitN(rest, "=", 2)
				e, err := parseExpr(p[0])
				if err != nil {
					return bad(err)
				}
				ts.sets = append(ts.sets, &Clause{e: e, label: strings.TrimSpace(p[1])})
			case "guard", "guardelems":
				p := strings.SplitN(rest, ":", 2)
				g := sp.guards[ts.name]
				if g == nil {
					g = &GuardDecl{fields: map[string]string{}, atomics: map[string]bool{}, elems: map[string]string{}}
					sp.guards[ts.name] = g
				}
				g.lock = strings.TrimSpace(p[0])
				for _, f := range splitList(p[1]) {
					if word == "guard" {
						g.fields[f] = g.lock
					} else {
						g.elems[f] = g.lock
					}
				}
			case "atomic":
				g := sp.guards[ts.name]
				if g == nil {
					g = &GuardDecl{fields: map[string]string{}, atomics: map[string]bool{}, elems: map[string]string{}}
					sp.guards[ts.name] = g
				}
				for _, f := range splitList(rest) {
					g.atomics[f] = true
				}
			default:
				return bad(fmt.Errorf("unknown type clause %q", word))
			}
			continue
		}
		if con == nil {
			return bad(fmt.Errorf("clause outside a contract"))
		}
		mk := func(tg []string, s string) (*Clause, error) {
			c := &Clause{tags: tg}
			if m := labRe.FindStringSubmatch(s); m != nil && !strings.HasPrefix(s, "all ") {
				c.label = m[1]
				s = s[len(m[0]):]
			}
			e, err := parseExpr(s)
			if err != nil {
				return nil, bad(err)
			}
			c.e, c.src = e, strings.TrimSpace(s)
			return c, nil
		}
		switch word {
		case "let":
			p := strings.SplitN(rest, "=", 2)
			e, err := parseExpr(p[1])
			if err != nil {
				return bad(err)
			}
			con.lets = append(con.lets, &Clause{label: strings.TrimSpace(p[0]), e: e})
		case "requires":
			c, err := mk(tags(), rest)
			if err != nil {
				return err
			}
			con.requires = append(con.requires, c)
		case "obliges": // checked where the function is called, of no use inside
			c, err := mk(tags(), rest)
			if err != nil {
				return err
			}
			con.obliges = append(con.obliges, c)
		case "define": // what an uninterpreted function means, for this function's proof
			c, err := mk(tags(), rest)
			if err != nil {
				return err
			}
			con.defines = append(con.defines, c)
		case "tick": // a ghost that counts the calls
			con.ticks = append(con.ticks, strings.TrimPrefix(rest, "g."))
		case "case":
			p := strings.SplitN(rest, ":", 2)
			if len(p) != 2 {
				return bad(fmt.Errorf("case needs a condition"))
			}
			kase = &Case{name: strings.TrimSpace(p[0])}
			if c := strings.TrimSpace(p[1]); c != "otherwise" {
				e, err := parseExpr(c)
				if err != nil {
					return bad(err)
				}
				kase.cond = e
			}
			con.cases = append(con.cases, kase)
		case "modifies":
			for _, s := range strings.Split(rest, ",") {
				e, err := parseExpr(s)
				if err != nil {
					return bad(err)
				}
				if e.op == "id" && e.s == "io" {
					con.iohavoc = true
					continue
				}
				if e.op == "id" && e.s == "caches" {
					con.caches = true
					continue
				}
				con.modifies = append(con.modifies, e)
			}
		case "frame":
			con.hasFrame = true
			con.frame = tags()
		case "nopanic", "pool", "interfere", "delegate", "guard", "atomic", "panicfree", "typeinv":
			con.kinds[word] = tags()
		case "locks":
			con.kinds["locks"] = tags()
			if rest != "" {
				e, err := parseExpr(rest)
				if err != nil {
					return bad(err)
				}
				con.locks = append(con.locks, e)
			}
		case "takes":
			e, err := parseExpr(rest)
			if err != nil {
				return bad(err)
			}
			con.takes = append(con.takes, e)
		case "holds":
			e, err := parseExpr(rest)
			if err != nil {
				return bad(err)
			}
			con.holds = append(con.holds, e)
		case "io":
			tg := tags()
			k := strings.IndexAny(rest, " ")
			c, err := mk(tg, strings.TrimSpace(rest[k:]))
			if err != nil {
				return err
			}
			c.when = rest[:k]
			con.io = append(con.io, c)
		case "mayalias":
			p := strings.SplitN(rest, ":", 2)
			con.alias[strings.TrimSpace(p[0])] = splitList(p[1])
		case "forkalias":
			p := strings.SplitN(rest, ":", 2)
			con.alias[strings.TrimSpace(p[0])] = splitList(p[1])
			con.forkAlias[strings.TrimSpace(p[0])] = true
		case "maypanic":
			if con.kinds["maypanic"] == nil {
				con.kinds["maypanic"] = []string{}
			}
			if rest != "" {
				c, err := mk(nil, rest)
				if err != nil {
					return err
				}
				con.panics = append(con.panics, c)
			}
		case "inline":
			con.inline = true
		case "unfold":
			for _, f := range splitList(rest) {
				con.unfold[f] = true
			}
		case "loop":
			c, err := mk(nil, rest)
			if err != nil {
				return err
			}
			con.loops = append(con.loops, c)
		case "entry":
			c, err := mk(nil, rest)
			if err != nil {
				return err
			}
			con.entry = append(con.entry, c)
		default:
			s := t
			rest = t
			tg := tags()
			if tg != nil || s != rest {
				s = rest
			}
			c, err := mk(tg, s)
			if err != nil {
				return err
			}
			c.kase = kase
			kase.cls = append(kase.cls, c)
		}
	}
	return nil
}
