package main

// Verification of one function against its contract.

import (
	"fmt"
	"go/types"
	"os"
	rdebug "runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FnResult struct {
	Name   string
	Source string
	Obs    []*Oblig
	Used   []string // contracts relied upon
	Inl    []string
	Trust  []string
	Notes  []string
	Err    string // outside the verifier's reach
	Approx []string
	Wall   time.Duration
	Solver time.Duration
	Calls  int
	Simp   int
	Tags   []string
	By     map[string]int
}

func (p *Prog) newExec(con *Contract, fn *ssa.Function, opt *Options) *Exec {
	c := NewCtx()
	x := &Exec{p: p, c: c, con: con, fn: fn, ob: map[string]*Oblig{}, cache: map[string]Result{}, notes: map[string]bool{}, used: map[string]bool{},
		trust: map[string]bool{}, inl: map[string]bool{}, symSeq: map[string]int{}, lookup: map[string]int{}, loops: map[string]string{}, arrs: map[int]*Arr{},
		approx: map[string]bool{}, poolSeen: map[int]bool{}}
	x.box = boxes{vals: map[int]Value{}, fn: map[*ssa.Function]*Term{}, fnOf: map[int]*ssa.Function{}, ext: map[string]*Term{}}
	x.sol = NewSolver(opt.Solver, opt.TimeoutMs)
	x.sol.cross = opt.Cross
	if opt.Alt != "" {
		x.alt = NewSolver(opt.Alt, opt.TimeoutMs)
	}
	if opt.Budget > 0 {
		x.dead = time.Now().Add(opt.Budget)
		if !opt.Deadline.IsZero() && opt.Deadline.Before(x.dead) {
			x.dead = opt.Deadline
		}
	}
	return x
}

type Options struct {
	Solver    string
	Alt       string
	TimeoutMs int
	Budget    time.Duration
	Deadline  time.Time
	Verbose   bool
	Cross     bool
}

// baseState: package state after initialisation, with mutable variables arbitrary.
func (x *Exec) baseState() *State {
	st := &State{c: x.c, heap: map[int]*Obj{}, ghost: map[string]Value{}, refs: map[int]int{}, globs: map[*ssa.Global]int{}}
	st.ghost["clock"] = x.c.Fresh("clock0", 56).Zext(64)
	initf := x.p.pkg.Func("init")
	x.initing = true
	x.probe++
	done := st
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					x.note("package initialisation only partly interpreted: %s", u.msg)
					done = nil
					return
				}
				panic(r)
			}
		}()
		outs := x.run(initf, nil, nil, st.clone())
		for _, o := range outs {
			if !o.pan {
				done = o.st
			}
		}
	}()
	x.initing = false
	x.probe--
	x.inl = map[string]bool{}
	if done == nil {
		done = st
	}
	// every package variable exists from the start
	var gn []string
	for n, m := range x.p.pkg.Members {
		if _, ok := m.(*ssa.Global); ok && n != "init$guard" {
			gn = append(gn, n)
		}
	}
	sort.Strings(gn)
	for _, n := range gn {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupported); !ok {
						panic(r)
					}
				}
			}()
			x.global(done, x.p.pkg.Members[n].(*ssa.Global))
		}()
	}
	// keep what never changes, forget the rest
	for g, id := range done.globs {
		o := *done.heap[id]
		o.fresh = false
		if x.p.gmut[g] {
			et := g.Type().Underlying().(*types.Pointer).Elem()
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(unsupported); !ok {
							panic(r)
						}
					}
				}()
				o.val = done.symbolic(et, g.Name(), true)
			}()
		}
		done.heap[id] = &o
	}
	for id, o := range done.heap {
		if o.fresh {
			n := *o
			n.fresh = false
			done.heap[id] = &n
		}
	}
	return done
}

func (x *Exec) initGhosts(st *State) {
	var names []string
	for n := range x.p.spec.ghosts {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch x.p.spec.ghosts[n] {
		case "int":
			st.ghost[n] = x.c.Fresh("g."+n, 64)
		case "nat":
			st.ghost[n] = x.c.Len("g." + n)
		case "bool":
			st.ghost[n] = x.c.Fresh("g."+n, 0)
		case "bytes":
			st.ghost[n] = &BufV{arr: x.c.ABase("g."+n, 8), len: x.c.Len("g." + n + ".len")}
		case "words":
			st.ghost[n] = &BufV{arr: x.c.ABase("g."+n, 16), len: x.c.Len("g." + n + ".len")}
		case "err":
			st.ghost[n] = &IfaceV{id: x.c.Fresh("g."+n, 64)}
		case "time":
			st.ghost[n] = x.c.Fresh("g."+n, 56).Zext(64)
		default:
			unsup("ghost kind %s", x.p.spec.ghosts[n])
		}
	}
	st.ghost["atomops"] = x.c.Len("g.atomops")
	st.ghost["lastn"] = x.c.Len("g.lastn")
	st.ghost["lastio"] = x.c.Fresh("g.lastio", 56).Zext(64)
	if p, ok := st.ghost["inpos"].(*Term); ok {
		if b, ok := st.ghost["in"].(*BufV); ok {
			st.assume(p.Ule(b.len))
		}
	}
}

// typeSpecs visits every object (and embedded struct) with a type specification.
func (x *Exec) typeSpecs(st *State, id int, f func(ts *TypeSpec, p *PtrV)) {
	o := st.heap[id]
	if o == nil || o.val == nil {
		return
	}
	var rec func(t types.Type, v Value, path []Step)
	rec = func(t types.Type, v Value, path []Step) {
		sv, ok := v.(*StructV)
		if !ok {
			return
		}
		stt, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() == x.p.tpkg {
			if ts := x.p.spec.types[n.Obj().Name()]; ts != nil {
				f(ts, &PtrV{obj: id, path: path, et: t})
			}
		}
		for i := 0; i < stt.NumFields() && i < len(sv.f); i++ {
			rec(stt.Field(i).Type(), sv.f[i], appendStep(path, Step{field: i}))
		}
	}
	rec(o.typ, o.val, nil)
}

func (x *Exec) selfCtx(st *State, p *PtrV) *SpecCtx {
	sc := &SpecCtx{x: x, st: st, pre: st, post: st, env: map[string]SV{}, lets: map[string]*Expr{}, con: x.con}
	sc.env["self"] = SV{v: p, gt: types.NewPointer(p.et)}
	return sc
}

// applyTypeInv assumes the invariants of an object that comes from outside.
func (x *Exec) applyTypeInv(st *State, id int) {
	x.typeSpecs(st, id, func(ts *TypeSpec, p *PtrV) {
		sc := x.selfCtx(st, p)
		for _, s := range ts.sets {
			// set field = global
			g, ok := x.p.pkg.Members[s.label].(*ssa.Global)
			if !ok {
				x.note("type %s: no variable %s", ts.name, s.label)
				continue
			}
			loc := &Expr{op: "field", s: s.e.s, a: []*Expr{{op: "id", s: "self"}}}
			lp, _ := sc.place(loc)
			gp := x.global(st, g).(*PtrV)
			x.storeRaw(st, lp, x.load(st, gp))
		}
		for _, iv := range ts.invs {
			x.assumeExpr(sc, st, iv.e)
		}
		if gd := x.p.guards[typeName(p.et)]; gd != nil {
			stt := p.et.Underlying().(*types.Struct)
			lockIdx := map[string]int{}
			for j := 0; j < stt.NumFields(); j++ {
				lockIdx[stt.Field(j).Name()] = j
			}
			sv := getPath(x, st, st.heap[id].val, p.path).(*StructV)
			for j := 0; j < stt.NumFields(); j++ {
				if lf, ok := gd.elems[stt.Field(j).Name()]; ok {
					if s, ok := sv.f[j].(*SliceV); ok && s.obj > 0 {
						if li, ok := lockIdx[lf]; ok {
							o := *st.heap[s.obj]
							o.guard = &Guard{obj: id, path: appendStep(p.path, Step{field: li}), name: lf}
							o.name = stt.Field(j).Name()
							st.heap[s.obj] = &o
						}
					}
				}
			}
		}
	})
}

func (x *Exec) allTypeInvs(st *State) {
	var ids []int
	for id := range st.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		x.applyTypeInv(st, id)
	}
}

func (p *Prog) Verify(con *Contract, opt *Options) (res *FnResult) {
	res = &FnResult{Name: con.Name}
	t0 := time.Now()
	fn := p.find(con.Name)
	if fn == nil {
		res.Err = "no such function in the current tree"
		return res
	}
	x := p.newExec(con, fn, opt)
	res.Source = x.pos(fn.Pos())
	defer func() {
		if r := recover(); r != nil {
			switch u := r.(type) {
			case unsupported:
				res.Err = u.msg
			case abortUnroll:
				res.Err = "loop could not be summarised"
			default:
				res.Err = fmt.Sprintf("internal error: %v", r)
				if debug {
					fmt.Fprintf(os.Stderr, "%s: %v\n%s\n", con.Name, r, rdebug.Stack())
				}
			}
		}
		x.sol.Close()
		res.Solver = x.sol.Time
		res.Calls = x.sol.Calls
		res.By = x.sol.By
		if x.alt != nil {
			x.alt.Close()
			res.Solver += x.alt.Time
			res.Calls += x.alt.Calls
		}
		res.Obs = x.obList
		res.Used = keys(x.used)
		res.Inl = keys(x.inl)
		res.Trust = keys(x.trust)
		res.Notes = keys(x.notes)
		res.Wall = time.Since(t0)
		res.Simp = x.simp
		res.Approx = keys(x.approx)
	}()
	x.verify()
	return res
}

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (x *Exec) verify() {
	c := x.c
	con, fn := x.con, x.fn
	st := x.baseState()
	x.initGhosts(st)
	var args []Value
	for i, p := range fn.Params {
		name := p.Name()
		if i < len(con.params) {
			name = con.params[i]
		}
		args = append(args, st.symbolic(p.Type(), name, true))
	}
	x.allTypeInvs(st)
	x.args = args
	x.stack = nil
	// entry state
	sc := x.specCtx(con, fn.Signature, nil, args, st)
	x.spec = sc
	for _, r := range con.requires {
		x.assumeExpr(sc, st, r.e)
	}
	for _, r := range con.defines {
		x.assumeExpr(sc, st, r.e)
	}
	for _, h := range con.holds {
		p, _ := sc.place(h)
		x.storeRaw(st, p, &LockV{w: 1})
	}
	if !x.feasible(st, c.Fresh("any", 0)) {
		unsup("the precondition is unsatisfiable")
	}
	pre := st.clone()
	x.pre = pre
	sc.pre, sc.st = pre, pre
	outs := x.run(fn, args, nil, st)
	caseSeen := map[string]bool{}
	for _, o := range outs {
		x.exit(pre, args, o, caseSeen)
	}
	for _, k := range con.cases {
		if k.name != "" && !caseSeen[k.name] {
			// the case may be covered by panics or impossible
			s2 := pre.clone()
			if k.cond != nil {
				sc2 := x.specCtx(con, fn.Signature, nil, args, pre)
				s2.assume(sc2.boolv(k.cond))
			}
			if len(outs) > 0 {
				x.note("case %q is not reached by any execution that returns", k.name)
			}
		}
	}
	if len(outs) == 0 {
		unsup("no execution returns: the obligations would hold vacuously")
	}
}

func (x *Exec) exit(pre *State, args []Value, o Outcome, caseSeen map[string]bool) {
	c := x.c
	con, fn := x.con, x.fn
	st := o.st
	for _, a := range st.approx {
		x.approx[a] = true
	}
	if o.pan {
		tags := con.kindTags("nopanic")
		if con.kinds["maypanic"] != nil {
			tags = con.kinds["maypanic"]
			for _, cl := range con.panics {
				sc := x.specCtx(con, fn.Signature, nil, args, pre)
				sc.post = st
				sc.skol = true
				x.prove(st, sc.boolv(cl.e), "panic", cl.src, cl.tags)
			}
			return
		}
		ob := x.obl("nopanic", o.desc, tags)
		ob.Paths++
		if x.feasible(st, c.Fresh("any", 0)) {
			as := x.query(st)
			x.check(as, x.modelTerms(as))
			x.fail(st, ob, x.describe(st), "failed")
		}
		return
	}
	if !x.feasible(st, c.Fresh("any", 0)) {
		return
	}
	vals := resultVals(fn.Signature, o.val)
	mk := func(st *State) *SpecCtx {
		sc := x.specCtx(con, fn.Signature, nil, args, pre)
		sc.skol = true
		sc.bindResults(fn.Signature, vals, st)
		return sc
	}
	clause := func(st *State, k *Case, cl *Clause) {
		lab := cl.src
		if cl.label != "" {
			lab = cl.label + ": " + lab
		}
		if k.name != "always" && k.name != "" {
			lab = "case " + k.name + ": " + lab
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(unsupported); ok {
						ob := x.obl("post", lab, cl.tags)
						ob.Paths++
						x.lastM = nil
						x.failUnk(st, ob, "cannot be evaluated: "+u.msg)
						return
					}
					panic(r)
				}
			}()
			x.proveExpr(mk(st), st, cl.e, lab, cl.tags)
		}()
	}
	for _, cl := range con.always.cls {
		clause(st, con.always, cl)
	}
	neg := c.True
	for _, k := range con.cases {
		sc := mk(st)
		cond := c.True
		if k.cond != nil {
			cond = sc.boolv(k.cond)
		}
		full := neg.And(cond)
		neg = neg.And(cond.Not())
		if full.IsFalse() || !x.feasible(st, full) {
			continue
		}
		caseSeen[k.name] = true
		s2 := st
		if !full.IsTrue() {
			s2 = st.clone()
			s2.assume(full)
		}
		for _, cl := range k.cls {
			clause(s2, k, cl)
		}
	}
	x.exitFrame(pre, args, st, mk(st))
	x.exitInvs(pre, st, vals)
	x.exitLocks(pre, args, st)
}

// proveExpr splits conjunctions so that each conjunct is one query.
func (x *Exec) proveExpr(sc *SpecCtx, st *State, e *Expr, lab string, tags []string) {
	x.proveExprK(sc, st, e, "post", lab, tags)
}

func (x *Exec) proveExprK(sc *SpecCtx, st *State, e *Expr, kind, lab string, tags []string) {
	if e.op == "some" {
		// there is a witness: the claim that none exists leads to a contradiction
		s2 := st.clone()
		x.assumeExpr(sc, s2, &Expr{op: "all", s: e.s, a: []*Expr{e.a[0], e.a[1], {op: "un", s: "!", a: []*Expr{e.a[2]}}}, src: e.src})
		x.prove(s2, x.c.False, kind, lab, tags)
		return
	}
	if e.op == "bin" && e.s == "&&" {
		x.proveExprK(sc, st, e.a[0], kind, lab, tags)
		x.proveExprK(sc, st, e.a[1], kind, lab, tags)
		return
	}
	if e.op == "bin" && e.s == "==>" {
		if hasQuant(e.a[0]) {
			s2 := st.clone()
			x.assumeExpr(sc, s2, e.a[0])
			x.proveExprK(sc, s2, e.a[1], kind, lab, tags)
			return
		}
		a := sc.boolv(e.a[0])
		if a.IsFalse() {
			x.prove(st, x.c.True, kind, lab, tags)
			return
		}
		s2 := st.clone()
		s2.assume(a)
		if !x.feasible(s2, x.c.Fresh("any", 0)) {
			x.prove(st, x.c.True, kind, lab, tags)
			return
		}
		x.proveExprK(sc, s2, e.a[1], kind, lab, tags)
		return
	}
	x.prove(st, sc.boolv(e), kind, lab, tags)
}

func (x *Exec) failUnk(st *State, ob *Oblig, detail string) {
	// only matters if the path can happen
	if !x.feasible(st, x.c.Fresh("any", 0)) {
		return
	}
	x.fail(st, ob, detail, "unknown")
}

// ---- frame

type region struct {
	obj    int
	path   []Step
	off, n *Term // element range (nil: everything below path)
}

func (x *Exec) modRegions(sc *SpecCtx) (regs []region, ghosts map[string]bool) {
	ghosts = map[string]bool{"clock": true, "dlogs": true, "elogs": true, "logto": true, "logfmt": true, "lastn": true, "lastio": true, "atomops": true, "wgadd": true, "wgdone": true, "live": true, "sawdone": true, "cclosed": true, "started": true, "dialok": true}
	pre := sc.pre
	for _, m := range x.con.modifies {
		if m.op == "field" && m.a[0].op == "id" && m.a[0].s == "g" {
			ghosts[m.s] = true
			continue
		}
		if m.op == "elems" {
			v := sc.eval(m.a[0])
			switch u := v.v.(type) {
			case *SliceV:
				if u.obj != 0 {
					regs = append(regs, region{u.obj, u.path, u.off, u.cap})
				}
			case *MapRef:
				if u.obj != 0 {
					regs = append(regs, region{obj: u.obj})
				}
			case *SyncMapV:
				p, _ := sc.place(m.a[0])
				p = x.resolve(pre, p)
				regs = append(regs, region{obj: p.obj, path: p.path})
			}
			continue
		}
		p, _ := sc.place(m)
		if p.obj == -1 {
			p = x.resolve(pre, p)
		}
		regs = append(regs, region{obj: p.obj, path: p.path})
	}
	if x.con.iohavoc {
		for _, g := range []string{"inpos", "out", "rdl", "wdl", "dials", "dialto", "fails"} {
			ghosts[g] = true
		}
	}
	return
}

func pathPrefix(p, q []Step) bool { // p is a prefix of q
	if len(p) > len(q) {
		return false
	}
	for i := range p {
		if p[i].field != q[i].field || p[i].field < 0 && p[i].idx != q[i].idx {
			return false
		}
	}
	return true
}

func (x *Exec) exitFrame(pre *State, args []Value, st *State, sc0 *SpecCtx) {
	c := x.c
	if x.con.noframe {
		return
	}
	sc := sc0.clone()
	sc.st = pre
	regs, ghosts := x.modRegions(sc)
	tags := x.con.frame
	if !x.con.hasFrame {
		tags = []string{"dep"}
	}
	lab := "nothing outside the modifies clause changes"
	x.count2("frame", lab, tags)
	chk := func(g *Term, what string) {
		x.prove(st, g, "frame", lab+" ("+what+")", tags)
	}
	var cmp func(what string, obj int, path []Step, a, b Value)
	cmp = func(what string, obj int, path []Step, a, b Value) {
		if a == b {
			return
		}
		var elems []region
		for _, r := range regs {
			if r.obj != obj {
				continue
			}
			if pathPrefix(r.path, path) {
				if r.off == nil {
					return
				}
				if len(r.path) == len(path) {
					elems = append(elems, r)
				}
			}
		}
		switch av := a.(type) {
		case *Term:
			if bv, ok := b.(*Term); ok {
				chk(av.Eq(bv), what)
				return
			}
		case *StructV:
			if bv, ok := b.(*StructV); ok {
				var stt *types.Struct
				if t := x.typeAt(pre.heap[obj].typ, path); t != nil {
					stt, _ = t.Underlying().(*types.Struct)
				}
				for i := range av.f {
					n := what
					if stt != nil && i < stt.NumFields() {
						n += "." + stt.Field(i).Name()
					}
					cmp(n, obj, appendStep(path, Step{field: i}), av.f[i], bv.f[i])
				}
				return
			}
		case *ArrV:
			if bv, ok := b.(*ArrV); ok {
				if av.arr == bv.arr {
					return
				}
				i := c.Fresh("sk_fr", 40).Zext(64)
				g := av.arr.Sel(i).Eq(bv.arr.Sel(i))
				for _, r := range elems {
					g = g.Or(r.off.Ule(i).And(i.Sub(r.off).Ult(r.n)))
				}
				chk(g, "elements of "+what)
				return
			}
		case *VArr:
			if bv, ok := b.(*VArr); ok {
				for i := range av.e {
					cmp(what, obj, appendStep(path, Step{field: -1, idx: c.I(int64(i))}), av.e[i], bv.e[i])
				}
				return
			}
		case *SliceV:
			if bv, ok := b.(*SliceV); ok && av.obj == bv.obj {
				chk(c.And(av.off.Eq(bv.off), av.len.Eq(bv.len), av.isnil.Eq(bv.isnil)), what)
				return
			}
		case *LockV:
			return // locks have their own obligations
		case *MapV:
			if bv, ok := b.(*MapV); ok {
				k := c.Fresh("sk_key", 8).Zext(64)
				chk(c.And(av.dom.Sel(k).Eq(bv.dom.Sel(k)), av.val.Sel(k).Eq(bv.val.Sel(k))), "map "+what)
				return
			}
		case *SyncMapV:
			if bv, ok := b.(*SyncMapV); ok {
				k := c.Fresh("sk_key", 8).Zext(64)
				chk(c.And(av.dom.Sel(k).Eq(bv.dom.Sel(k)), av.val.Sel(k).Eq(bv.val.Sel(k))), "map "+what)
				return
			}
		case *BufV:
			if bv, ok := b.(*BufV); ok {
				i := c.Fresh("sk_fr", 40).Zext(64)
				chk(c.And(av.len.Eq(bv.len), i.Ult(av.len).Implies(av.arr.Sel(i).Eq(bv.arr.Sel(i)))), what)
				return
			}
		case *OpaqueV:
			return
		case *PtrV, *IfaceV, *FuncV, *StrV, *MapRef:
			chk(x.equal(st, a, b), what)
			return
		case *ChanV:
			return
		}
		chk(c.False, what)
	}
	var ids []int
	for id := range pre.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		a, b := pre.heap[id], st.heap[id]
		if b == nil || a.val == b.val || strings.HasPrefix(a.name, "init:") {
			continue
		}
		if x.con.caches && strings.HasPrefix(a.name, "global ") {
			continue
		}
		cmp(a.name, id, nil, a.val, b.val)
	}
	// objects first seen behind references
	for id, b := range st.heap {
		if pre.heap[id] == nil && b.mat {
			// compare with a fresh materialisation of the same reference
			want := x.matVal(st.clone(), b.typ, b.ref, typeName(b.typ))
			if sv, ok := want.(*StructV); ok {
				_ = sv
			}
		}
	}
	var gs []string
	for g := range pre.ghost {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		if ghosts[g] || pre.ghost[g] == st.ghost[g] {
			continue
		}
		switch a := pre.ghost[g].(type) {
		case *Term:
			chk(a.Eq(st.ghost[g].(*Term)), "ghost "+g)
		case *BufV:
			b := st.ghost[g].(*BufV)
			i := c.Fresh("sk_fr", 40).Zext(64)
			chk(c.And(a.len.Eq(b.len), i.Ult(a.len).Implies(a.arr.Sel(i).Eq(b.arr.Sel(i)))), "ghost "+g)
		case *IfaceV:
			chk(x.equal(st, a, st.ghost[g]), "ghost "+g)
		}
	}
}

func (x *Exec) typeAt(t types.Type, path []Step) types.Type {
	for _, s := range path {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if s.field < 0 || s.field >= u.NumFields() {
				return nil
			}
			t = u.Field(s.field).Type()
		case *types.Array:
			t = u.Elem()
		default:
			return nil
		}
	}
	return t
}

func (x *Exec) count2(kind, label string, tags []string) {
	if x.probe > 0 {
		return
	}
	o := x.obl(kind, label, tags)
	o.Paths++
	x.simp++
}

// exitInvs: invariants of every object touched, and of objects allocated here and returned.
func (x *Exec) exitInvs(pre, st *State, vals []Value) {
	var ids []int
	for id, o := range st.heap {
		if p := pre.heap[id]; p != nil && p.val == o.val {
			continue
		}
		if o.dead != "" {
			continue
		}
		ids = append(ids, id)
	}
	sort.Ints(ids)
	reach := map[int]bool{}
	var mark func(v Value)
	mark = func(v Value) {
		switch v := v.(type) {
		case *PtrV:
			if v.obj > 0 && !reach[v.obj] {
				reach[v.obj] = true
				if o := st.heap[v.obj]; o != nil {
					mark(o.val)
				}
			}
		case *StructV:
			for _, f := range v.f {
				mark(f)
			}
		case *IfaceV:
			if v.con != nil {
				mark(v.val)
			}
		case *TupleV:
			for _, f := range v.vs {
				mark(f)
			}
		}
	}
	for _, v := range vals {
		mark(v)
	}
	for _, id := range ids {
		if pre.heap[id] == nil && !reach[id] && !x.inReg(st, id) {
			continue
		}
		x.typeSpecs(st, id, func(ts *TypeSpec, p *PtrV) {
			sc := x.selfCtx(st, p)
			sc.skol = true
			for _, iv := range ts.invs {
				x.prove(st, sc.boolv(iv.e), "typeinv", "invariant of "+ts.name+" kept: "+iv.src, append([]string{"dep"}, x.con.kindTags("typeinv")...))
			}
			for _, s := range ts.sets {
				g, ok := x.p.pkg.Members[s.label].(*ssa.Global)
				if !ok {
					continue
				}
				loc := &Expr{op: "field", s: s.e.s, a: []*Expr{{op: "id", s: "self"}}}
				v := sc.eval(loc)
				gv := x.load(st, x.global(st, g).(*PtrV))
				x.prove(st, x.equal(st, v.v, gv), "typeinv", "invariant of "+ts.name+" kept: "+s.e.s+" is "+s.label, append([]string{"dep"}, x.con.kindTags("typeinv")...))
			}
		})
	}
}

func (x *Exec) inReg(st *State, id int) bool { return false }

func (x *Exec) exitLocks(pre *State, args []Value, st *State) {
	con := x.con
	tags := con.kindTags("locks")
	sc := x.specCtx(con, x.fn.Signature, nil, args, pre)
	type lk struct {
		obj  int
		path string
	}
	want := map[lk]bool{}
	key := func(p *PtrV) lk { return lk{p.obj, fmt.Sprint(fields(p.path))} }
	for _, l := range con.locks {
		p, _ := sc.place(l)
		want[key(x.resolve(pre, p))] = true
	}
	many := map[lk]bool{}
	for _, l := range con.takes {
		p, _ := sc.place(l)
		many[key(x.resolve(pre, p))] = true
	}
	held := map[lk]bool{}
	for _, l := range con.holds {
		p, _ := sc.place(l)
		held[key(x.resolve(pre, p))] = true
	}
	var visit func(id int, v Value, pv Value, path []Step)
	visit = func(id int, v, pv Value, path []Step) {
		switch lv := v.(type) {
		case *LockV:
			k := key(&PtrV{obj: id, path: path})
			n := st.heap[id].name
			if held[k] {
				x.proveFlag(st, lv.w == 1, "locks", "the caller's lock is still held on return ("+n+")", "locks")
				return
			}
			old := 0
			if p, ok := pv.(*LockV); ok {
				old = p.acq
			}
			x.proveFlag(st, lv.w == 0 && lv.r == 0, "locks", "every lock is released on return ("+n+")", "locks")
			if many[k] {
			} else if want[k] {
				x.proveFlag(st, lv.acq-old <= 1, "locks", "one critical section ("+n+")", "locks")
			} else if len(tags) > 0 || lv.acq > old {
				x.proveFlag(st, lv.acq == old, "locks", "no lock outside the locks clause is taken ("+n+")", "locks")
			}
		case *StructV:
			ps, _ := pv.(*StructV)
			for i, f := range lv.f {
				var pf Value
				if ps != nil && i < len(ps.f) {
					pf = ps.f[i]
				}
				visit(id, f, pf, appendStep(path, Step{field: i}))
			}
		}
	}
	var ids []int
	for id := range st.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := st.heap[id]
		var pv Value
		if p := pre.heap[id]; p != nil {
			pv = p.val
		} else if !o.mat {
			continue
		}
		visit(id, o.val, pv, nil)
	}
}

func fields(p []Step) []int {
	var r []int
	for _, s := range p {
		r = append(r, s.field)
	}
	return r
}
