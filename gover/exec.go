package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Oblig struct {
	Fn     string `json:"function"`
	Label  string `json:"label"`
	Kind   string `json:"kind"`
	Tags   []string
	Paths  int
	Failed int
	Status string // proved, failed, unknown
	Detail string
	Model  map[string]string
	Approx []string
	How    string
	Time   time.Duration
}

type Exec struct {
	deep    bool
	instGen int    // generations of instances of quantified facts (0: one)
	dump    string // debugging: write the next queries here
	p       *Prog
	c       *Ctx
	con     *Contract
	fn      *ssa.Function
	sol     *Solver
	alt     *Solver
	box     boxes
	probe   int
	// while looking for loop invariants, appends are taken to fit; checked again afterwards
	optim, optUsed bool
	depth          int
	stack          []*ssa.Function
	ob             map[string]*Oblig
	obList         []*Oblig
	cache          map[string]Result
	pre            *State // entry state
	args           []Value
	steps          int
	notes          map[string]bool
	used           map[string]bool // contracts used
	trust          map[string]bool // externals used
	inl            map[string]bool // functions inlined
	symSeq         map[string]int
	seq            int
	loopN          int
	spec           *SpecCtx
	simp           int
	lookup         map[string]int
	want           func(tags []string) bool
	lastM          map[string]string
	lastS          string
	loops          map[string]string
	now0           *Term
	dead           time.Time
	vac            bool

	arrs     map[int]*Arr
	ufAxioms func(st *State, as []*Term) []*Term
	initing  bool
	inLoop   int
	poolSeen map[int]bool
	approx   map[string]bool
	rlog     map[string]bool
	long     bool
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	st     *State
	defers []*deferred
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	unroll map[*Loop]int
	free   []Value
}

type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
	pos  token.Pos
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Value, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.st = f.st.clone()
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	if f.unroll != nil {
		n.unroll = map[*Loop]int{}
		for k, v := range f.unroll {
			n.unroll[k] = v
		}
	}
	return &n
}

type Outcome struct {
	st   *State
	pan  bool
	val  Value // return value (TupleV if several) or panic value
	desc string
}

type edge struct {
	fr *Frame // fr.prev = source block
	to *ssa.BasicBlock
}

type work struct {
	fr    *Frame
	idx   int
	phis  bool // evaluate phis on entry
	start bool
}

type explo struct {
	region *Loop
	backs  []*Frame
	exits  []edge
	outs   []Outcome
	todo   []work
	constL *Loop // loop being unrolled: a symbolic exit condition aborts
	early  bool  // unless it is an early exit
	live   int
}

type abortUnroll struct{}

func (x *Exec) note(f string, a ...interface{}) { x.notes[fmt.Sprintf(f, a...)] = true }

var slowQ = func() time.Duration {
	d, _ := time.ParseDuration(os.Getenv("GOVER_SLOW"))
	if d == 0 {
		d = 2 * time.Second
	}
	return d
}()

var debug = os.Getenv("GOVER_DEBUG") != ""

// ---- solver interface

func (x *Exec) check(asserts []*Term, want []string) Result {
	for _, a := range asserts {
		if a.IsFalse() {
			return Unsat
		}
	}
	if !x.dead.IsZero() && time.Now().After(x.dead) {
		unsup("verification time budget for %s exhausted", x.fn.Name())
	}
	var sb strings.Builder
	for _, a := range asserts {
		fmt.Fprintf(&sb, "%d,", a.id)
	}
	key := sb.String()
	if want == nil && x.dump == "" {
		if r, ok := x.cache[key]; ok {
			return r
		}
	}
	script, _ := Script(asserts)
	if x.dump != "" {
		os.WriteFile(x.dump+".smt2", []byte("(set-logic QF_UFBV)\n"+script+"(check-sat)\n(get-model)\n"), 0644)
	}
	t0 := time.Now()
	r, m, s := x.sol.Check(script, want, x.long)
	if debug && time.Since(t0) > slowQ {
		fmt.Fprintf(os.Stderr, "slow query %v %v (%d bytes) %s\n", time.Since(t0), r, len(script), x.con.Name)
		os.WriteFile(fmt.Sprintf("/tmp/slow-%s-%d.smt2", strings.Trim(x.fn.Name(), "()*."), x.sol.Calls), []byte("(set-logic QF_UFBV)\n"+script+"(check-sat)\n"), 0644)
	}
	x.lastM, x.lastS = m, s
	if r != Unknown || x.long {
		x.cache[key] = r
	}
	return r
}

// hyps returns the hypotheses relevant for a query containing the given terms.
func (x *Exec) query(st *State, extra ...*Term) []*Term {
	as := append([]*Term(nil), st.pc...)
	as = append(as, extra...)
	return x.withAxioms(st, as)
}

func (x *Exec) feasible(st *State, cond *Term) bool {
	if cond.IsTrue() {
		return true
	}
	if cond.IsFalse() {
		return false
	}
	for _, p := range st.pc {
		if p == cond {
			return true
		}
		if p.Not() == cond {
			return false
		}
	}
	as := x.query(st, cond)
	if x.check(as, nil) == Unsat {
		return false
	}
	if !x.deep {
		return true
	}
	if more := x.deepQuery(st, cond); len(more) > len(as) {
		return x.check(more, nil) != Unsat
	}
	return true
}

// mayGo: like feasible, for deciding which way execution can go; a path that
// is followed in vain does no harm, so not every fact is put to use.
func (x *Exec) mayGo(st *State, cond *Term) bool {
	if len(st.quants) == 0 || cond.IsTrue() || cond.IsFalse() {
		return x.feasible(st, cond)
	}
	for _, p := range st.pc {
		if p == cond {
			return true
		}
		if p.Not() == cond {
			return false
		}
	}
	return x.check(slicePC(st.pc, cond), nil) != Unsat
}

// slicePC keeps the facts connected with cond by shared variables.
func slicePC(pc []*Term, cond *Term) []*Term {
	vars := func(t *Term) map[*Term]bool {
		vs := map[*Term]bool{}
		t.walk(map[*Term]bool{}, func(u *Term) {
			if u.op == OVar {
				vs[u] = true
			}
		})
		return vs
	}
	in := vars(cond)
	pv := make([]map[*Term]bool, len(pc))
	for i, p := range pc {
		pv[i] = vars(p)
	}
	use := make([]bool, len(pc))
	for ch := true; ch; {
		ch = false
		for i := range pc {
			if use[i] {
				continue
			}
			hit := len(pv[i]) == 0
			for v := range pv[i] {
				hit = hit || in[v]
			}
			if hit {
				use[i], ch = true, true
				for v := range pv[i] {
					in[v] = true
				}
			}
		}
	}
	var out []*Term
	for i, p := range pc {
		if use[i] {
			out = append(out, p)
		}
	}
	return append(out, cond)
}

func (x *Exec) deepQuery(st *State, extra ...*Term) []*Term {
	x.instGen = 2
	defer func() { x.instGen = 0 }()
	return x.query(st, extra...)
}

// valid: does st imply goal?
func (x *Exec) valid(st *State, goal *Term) bool {
	x.deep = true
	defer func() { x.deep = false }()
	for _, g := range splitGoal(goal) {
		if x.feasible(st, g.Not()) {
			return false
		}
	}
	return true
}

func (x *Exec) obl(kind, label string, tags []string) *Oblig {
	k := kind + "|" + label
	if o, ok := x.ob[k]; ok {
		return o
	}
	o := &Oblig{Fn: x.con.Name, Label: label, Kind: kind, Tags: tags, Status: "proved"}
	x.ob[k] = o
	x.obList = append(x.obList, o)
	return o
}

func (x *Exec) fail(st *State, o *Oblig, detail string, status string) {
	o.Failed++
	if o.Status != "failed" {
		o.Status = status
		o.Detail = detail
		o.Approx = append([]string(nil), st.approx...)
		o.Model = x.lastM
	}
}

// prove records an obligation.
func (x *Exec) prove(st *State, goal *Term, kind, label string, tags []string) bool {
	if x.probe > 0 {
		return true
	}
	if x.want != nil && !x.want(tags) {
		return true
	}
	o := x.obl(kind, label, tags)
	o.Paths++
	if goal.IsTrue() {
		x.simp++
		return true
	}
	t0 := time.Now()
	defer func() { o.Time += time.Since(t0) }()
	if x.quickSat(st, goal) {
		return true
	}
	for _, g := range splitGoal(goal) {
		as := x.query(st, g.Not())
		x.long = true
		r := x.check(as, nil)
		if r != Unsat {
			if more := x.deepQuery(st, g.Not()); len(more) > len(as) {
				as = more
				r = x.check(as, nil)
			}
		}
		x.long = false
		switch r {
		case Unsat:
			continue
		case Sat:
			x.check(as, x.modelTerms(as))
			x.fail(st, o, x.describe(st), "failed")
			if a := x.partial(st, g); a != "" && len(o.Approx) == 0 {
				o.Approx = []string{a}
			}
		default:
			x.fail(st, o, "solver gave no answer ("+strings.TrimSpace(x.lastS)+")", "unknown")
		}
		return false
	}
	return true
}

// partial: what the answer to a query about goal leaves open. A fold (CRC,
// sum) and a predicate with rules are known to the solver only as far as their
// equations were instantiated, so a model need not be a counterexample.
func (x *Exec) partial(st *State, goal *Term) string {
	what := ""
	seen := map[*Term]bool{}
	look := func(t *Term) {
		t.walk(seen, func(t *Term) {
			if t.op == OApp && strings.HasPrefix(t.name, "fold:") {
				what = "the " + strings.Split(t.name, ":")[1] + " of a sequence is known only as far as its definition was unfolded"
			} else if t.op == OApp && strings.HasPrefix(t.name, "uf:") && x.ufAxioms != nil {
				what = "a predicate is known only by instances of its rules"
			}
		})
	}
	for _, t := range slicePC(st.pc, goal.Not()) {
		look(t)
	}
	return what
}

func (x *Exec) quickSat(st *State, goal *Term) bool {
	for _, p := range st.pc {
		if p == goal {
			return true
		}
	}
	return false
}

// splitGoal turns a conjunction, also below an implication, into separate goals.
func splitGoal(g *Term) []*Term {
	if g.op == OAnd {
		var out []*Term
		for _, a := range g.args {
			out = append(out, splitGoal(a)...)
		}
		return out
	}
	if g.op == OOr {
		for i, a := range g.args {
			var parts []*Term
			if a.op == OAnd {
				parts = a.args
			} else if a.op == ONot && a.args[0].op == OOr {
				for _, b := range a.args[0].args {
					parts = append(parts, b.Not())
				}
			}
			if len(parts) < 4 {
				continue
			}
			var out []*Term
			for _, p := range parts {
				r := p
				for j, b := range g.args {
					if j != i {
						r = r.Or(b)
					}
				}
				out = append(out, r)
			}
			return out
		}
	}
	return []*Term{g}
}

func (x *Exec) modelTerms(as []*Term) []string {
	var out []string
	_, vars := Script(as)
	for _, v := range vars {
		if len(out) < 60 {
			out = append(out, q(v.name))
		}
	}
	return out
}

func (x *Exec) describe(st *State) string {
	s := strings.Join(st.trace, " ; ")
	if len(s) > 600 {
		s = "…" + s[len(s)-600:]
	}
	return "path: " + s
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := x.p.fset.Position(p)
	f := ps.Filename
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// ---- function execution

func (x *Exec) run(fn *ssa.Function, args []Value, free []Value, st *State) []Outcome {
	for _, f := range x.stack {
		if f == fn && len(x.stack) > 0 {
			n := 0
			for _, g := range x.stack {
				if g == fn {
					n++
				}
			}
			if n > 0 {
				unsup("recursion through %s", fn.Name())
			}
		}
	}
	if len(x.stack) > 24 {
		unsup("call depth")
	}
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", fn)
	}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, st: st, free: free}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = free[i]
	}
	e := &explo{}
	fr.blk = fn.Blocks[0]
	e.todo = append(e.todo, work{fr: fr})
	x.explore(e)
	return e.outs
}

func (x *Exec) explore(e *explo) {
	for len(e.todo) > 0 {
		w := e.todo[len(e.todo)-1]
		e.todo = e.todo[:len(e.todo)-1]
		x.block(e, w)
	}
}

func (x *Exec) goTo(e *explo, fr *Frame, to *ssa.BasicBlock) {
	from := fr.blk
	li := x.p.loopsOf(fr.fn)
	if e.region != nil {
		if to == e.region.header && e.region.blocks[from] {
			fr.prev = from
			e.backs = append(e.backs, fr)
			return
		}
		if !e.region.blocks[to] {
			fr.prev = from
			e.exits = append(e.exits, edge{fr, to})
			return
		}
	}
	if l := li.head[to]; l != nil {
		if _, un := fr.unroll[l]; un && l.blocks[from] {
			fr.unroll[l]++
			if fr.unroll[l] > 3000 {
				panic(abortUnroll{})
			}
			fr.prev = from
			fr.blk = to
			e.todo = append(e.todo, work{fr: fr, phis: true})
			return
		}
		if !l.blocks[from] {
			x.loop(e, l, fr, from)
			return
		}
	}
	fr.prev = from
	fr.blk = to
	e.todo = append(e.todo, work{fr: fr, phis: true})
}

func (x *Exec) evalPhis(fr *Frame) {
	b := fr.blk
	pi := -1
	for i, p := range b.Preds {
		if p == fr.prev {
			pi = i
		}
	}
	var vs []Value
	var ph []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vs = append(vs, x.eval(fr, p.Edges[pi]))
		ph = append(ph, p)
	}
	for i, p := range ph {
		fr.env[p] = vs[i]
	}
}

func (x *Exec) block(e *explo, w work) {
	fr := w.fr
	if w.phis {
		x.evalPhis(fr)
	}
	b := fr.blk
	i := w.idx
	for ; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > 400000 {
			unsup("step budget exhausted")
		}
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			x.branch(e, fr, in)
			return
		case *ssa.Jump:
			x.goTo(e, fr, b.Succs[0])
			return
		case *ssa.Return:
			var v Value
			if len(in.Results) == 1 {
				v = x.eval(fr, in.Results[0])
			} else {
				tv := &TupleV{}
				for _, r := range in.Results {
					tv.vs = append(tv.vs, x.eval(fr, r))
				}
				v = tv
			}
			e.outs = append(e.outs, Outcome{st: fr.st, val: v})
			return
		case *ssa.Panic:
			x.raise(e, fr, x.eval(fr, in.X), "explicit panic at "+x.pos(in.Pos()))
			return
		case *ssa.RunDefers:
			outs := x.runDefers(fr.st, fr.defers, nil)
			fr.defers = nil
			if len(outs) == 1 && !outs[0].pan {
				fr.st = outs[0].st
				continue
			}
			for _, o := range outs {
				f2 := fr.clone()
				f2.st = o.st
				if o.pan {
					e.outs = append(e.outs, o)
					continue
				}
				e.todo = append(e.todo, work{fr: f2, idx: i + 1})
			}
			return
		case *ssa.Call:
			outs := x.callInstr(e, fr, in.Common(), in.Pos())
			if len(outs) == 0 {
				return
			}
			if len(outs) == 1 {
				fr.st = outs[0].st
				fr.env[in] = outs[0].val
				continue
			}
			for _, o := range outs {
				f2 := fr.clone()
				f2.st = o.st
				f2.env[in] = o.val
				e.todo = append(e.todo, work{fr: f2, idx: i + 1})
			}
			return
		case *ssa.TypeAssert:
			outs := x.typeAssert(e, fr, in)
			if len(outs) == 0 {
				return
			}
			if len(outs) == 1 {
				fr.st = outs[0].st
				fr.env[in] = outs[0].val
				continue
			}
			for _, o := range outs {
				f2 := fr.clone()
				f2.st = o.st
				f2.env[in] = o.val
				e.todo = append(e.todo, work{fr: f2, idx: i + 1})
			}
			return
		case *ssa.Select:
			n := len(in.States)
			lo := 0
			if !in.Blocking {
				lo = -1
			}
			for k := lo; k < n; k++ {
				f2 := fr
				if k < n-1 {
					f2 = fr.clone()
				}
				tv := &TupleV{vs: []Value{x.c.I(int64(k)), x.c.Fresh("recvOK", 0)}}
				for _, s := range in.States {
					if s.Dir == types.RecvOnly {
						tv.vs = append(tv.vs, f2.st.symbolic(s.Chan.Type().Underlying().(*types.Chan).Elem(), "recv", false))
					}
				}
				f2.env[in] = tv
				if k < 0 {
					x.setGhost(f2.st, "live", 1)
				} else if ch, ok := x.eval(fr, in.States[k].Chan).(*ChanV); ok && ch.n == "done" {
					x.setGhost(f2.st, "sawdone", 1)
				}
				e.todo = append(e.todo, work{fr: f2, idx: i + 1})
			}
			return
		case *ssa.Go:
			follow := false
			for _, cl := range x.con.io {
				if cl.when == "go" || cl.when == "goend" {
					follow = true
				}
			}
			if !follow {
				x.note("go statement at %s not followed", x.pos(in.Pos()))
				fr.st.approx = append(fr.st.approx, "goroutine")
				continue
			}
			var gf Value
			if !in.Call.IsInvoke() {
				if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
					gf = x.eval(fr, in.Call.Value)
				}
			} else {
				gf = x.eval(fr, in.Call.Value)
			}
			var gargs []Value
			for _, a := range in.Call.Args {
				gargs = append(gargs, x.eval(fr, a))
			}
			x.spawn(fr.st, gf, in.Common(), gargs, in.Pos(), false)
			continue
		case *ssa.Defer:
			d := &deferred{call: in.Common(), pos: in.Pos()}
			if !in.Call.IsInvoke() {
				if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
					d.fn = x.eval(fr, in.Call.Value)
				}
			} else {
				d.fn = x.eval(fr, in.Call.Value)
			}
			for _, a := range in.Call.Args {
				d.args = append(d.args, x.eval(fr, a))
			}
			fr.defers = append(fr.defers, d)
			continue
		}
		if !x.step(e, fr, in) {
			return
		}
	}
}

func (x *Exec) branch(e *explo, fr *Frame, in *ssa.If) {
	c := x.eval(fr, in.Cond).(*Term)
	b := fr.blk
	if c.IsConst() {
		if c.val == 1 {
			x.goTo(e, fr, b.Succs[0])
		} else {
			x.goTo(e, fr, b.Succs[1])
		}
		return
	}
	if e.constL != nil && e.constL.blocks[b] && (!e.constL.blocks[b.Succs[0]] || !e.constL.blocks[b.Succs[1]]) && (!e.early || b == e.constL.header) {
		panic(abortUnroll{})
	}
	t := x.mayGo(fr.st, c)
	f := x.mayGo(fr.st, c.Not())
	ps := x.pos(in.Cond.Pos())
	if ps == "" {
		ps = x.pos(in.Pos())
	}
	switch {
	case t && f:
		if e.constL != nil {
			e.live++
			if e.live > 64 {
				panic(abortUnroll{})
			}
		}
		f2 := fr.clone()
		f2.st.assume(c.Not())
		f2.st.trace = append(f2.st.trace, ps+" F")
		fr.st.assume(c)
		fr.st.trace = append(fr.st.trace, ps+" T")
		x.goTo(e, f2, b.Succs[1])
		x.goTo(e, fr, b.Succs[0])
	case t:
		fr.st.assume(c)
		x.goTo(e, fr, b.Succs[0])
	case f:
		fr.st.assume(c.Not())
		x.goTo(e, fr, b.Succs[1])
	}
}

// must: the operation panics unless ok. Returns false if no execution continues normally.
func (x *Exec) must(e *explo, fr *Frame, ok *Term, desc string, pos token.Pos) bool {
	label := desc + " at " + x.pos(pos)
	if ok.IsTrue() {
		x.count(fr.st, "nopanic", label)
		return true
	}
	if !x.feasible(fr.st, ok.Not()) {
		x.count(fr.st, "nopanic", label)
		fr.st.assume(ok)
		return true
	}
	f2 := fr.clone()
	f2.st.assume(ok.Not())
	x.raise(e, f2, &OpaqueV{n: "runtime error"}, label)
	if !x.feasible(fr.st, ok) {
		return false
	}
	fr.st.assume(ok)
	return true
}

func (x *Exec) count(st *State, kind, label string) {
	if x.probe > 0 {
		return
	}
	tags := x.con.kindTags(kind)
	if x.want != nil && !x.want(tags) {
		return
	}
	o := x.obl(kind, label, tags)
	o.Paths++
	x.simp++
}

func (x *Exec) raise(e *explo, fr *Frame, v Value, desc string) {
	if len(fr.defers) == 0 {
		e.outs = append(e.outs, Outcome{st: fr.st, pan: true, val: v, desc: desc})
		return
	}
	ds := fr.defers
	fr.defers = nil
	outs := x.runDefers(fr.st, ds, &panicRec{val: v, desc: desc})
	for _, o := range outs {
		if o.pan {
			e.outs = append(e.outs, o)
			continue
		}
		if fr.fn.Recover == nil {
			res := fr.fn.Signature.Results()
			var rv Value
			if res.Len() == 1 {
				rv = o.st.zero(res.At(0).Type())
			} else {
				rv = o.st.zero(res)
			}
			e.outs = append(e.outs, Outcome{st: o.st, val: rv})
			continue
		}
		f2 := fr.clone()
		f2.st = o.st
		f2.blk = fr.fn.Recover
		f2.prev = nil
		e2 := &explo{}
		e2.todo = append(e2.todo, work{fr: f2})
		x.explore(e2)
		e.outs = append(e.outs, e2.outs...)
	}
}

// runDefers runs deferred calls last to first. pr: the panic in flight, or nil.
func (x *Exec) runDefers(st *State, ds []*deferred, pr *panicRec) []Outcome {
	saved := st.pan
	type item struct {
		st *State
		n  int
		pr *panicRec
	}
	work := []item{{st, len(ds), pr}}
	var outs []Outcome
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if it.n == 0 {
			it.st.pan = saved
			if it.pr != nil {
				outs = append(outs, Outcome{st: it.st, pan: true, val: it.pr.val, desc: it.pr.desc})
			} else {
				outs = append(outs, Outcome{st: it.st})
			}
			continue
		}
		d := ds[it.n-1]
		if it.pr != nil {
			p := *it.pr
			it.st.pan = &p
		} else {
			it.st.pan = nil
		}
		for _, o := range x.callValue(it.st, d.call, d.fn, d.args, d.pos) {
			ni := item{o.st, it.n - 1, it.pr}
			if o.pan {
				ni.pr = &panicRec{val: o.val, desc: o.desc}
			} else if it.pr != nil && o.st.pan != nil && o.st.pan.recovered {
				ni.pr = nil
			}
			work = append(work, ni)
		}
	}
	return outs
}

// ---- expression evaluation

func (x *Exec) eval(fr *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(fr.st, v)
	case *ssa.Global:
		return x.global(fr.st, v)
	case *ssa.Function:
		return &FuncV{fn: v, t: v.Type(), id: x.funcID(v)}
	case *ssa.Builtin:
		return v
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	unsup("value %s not available", v.Name())
	return nil
}

func (x *Exec) constVal(st *State, k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return st.zero(t)
	}
	if w, _, ok := scalar(t); ok {
		if w == 0 {
			return x.c.Bool(constant.BoolVal(k.Value))
		}
		v := constant.ToInt(k.Value)
		if i, ok := constant.Int64Val(v); ok {
			return x.c.BV(w, uint64(i))
		}
		if u, ok := constant.Uint64Val(v); ok {
			return x.c.BV(w, u)
		}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return strLit(x.c, constant.StringVal(k.Value))
	}
	return &OpaqueV{t: t, n: "const"}
}

func (x *Exec) global(st *State, g *ssa.Global) Value {
	et := g.Type().Underlying().(*types.Pointer).Elem()
	if o, ok := st.globs[g]; ok {
		return &PtrV{obj: o, et: et}
	}
	var v Value
	inRepo := g.Pkg == x.p.pkg
	if inRepo {
		if iv, ok := x.p.initGlobal(x, st, g); ok {
			v = iv
		} else {
			v = st.symbolic(et, g.Name(), true)
		}
	} else {
		// exported error variables and similar constants of dependencies
		if _, isI := et.Underlying().(*types.Interface); isI {
			v = &IfaceV{id: x.c.I(x.p.extID(g.String()))}
		} else {
			v = st.symbolic(et, g.Name(), false)
		}
	}
	o := st.newObj(et, v, "global "+g.Name(), false)
	st.globs[g] = o.id
	if x.pre != nil && x.pre != st {
		// the global existed before the call: make it part of the entry state
		if _, ok := x.pre.globs[g]; !ok {
			x.pre.globs[g] = o.id
			x.pre.heap[o.id] = o
			x.pre.refs[o.ref.id] = o.id
			x.adoptPre(st, v)
		}
	}
	return &PtrV{obj: o.id, et: et}
}

// adoptPre copies objects reachable from v into the entry state.
func (x *Exec) adoptPre(st *State, v Value) {
	switch v := v.(type) {
	case *PtrV:
		if v.obj > 0 && x.pre.heap[v.obj] == nil {
			x.pre.heap[v.obj] = st.heap[v.obj]
			x.pre.refs[st.heap[v.obj].ref.id] = v.obj
			x.adoptPre(st, st.heap[v.obj].val)
		}
	case *SliceV:
		if v.obj > 0 && x.pre.heap[v.obj] == nil {
			x.pre.heap[v.obj] = st.heap[v.obj]
			x.pre.refs[st.heap[v.obj].ref.id] = v.obj
		}
	case *StructV:
		for _, f := range v.f {
			x.adoptPre(st, f)
		}
	case *MapRef:
		if v.obj > 0 && x.pre.heap[v.obj] == nil {
			x.pre.heap[v.obj] = st.heap[v.obj]
		}
	}
}

func tterm(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		unsup("expected a scalar, got %T", v)
	}
	return t
}

func ext64(t *Term, typ types.Type) *Term {
	_, s, _ := scalar(typ)
	if t.w == 64 {
		return t
	}
	if s {
		return t.Sext(64)
	}
	return t.Zext(64)
}

func (x *Exec) step(e *explo, fr *Frame, in ssa.Instruction) bool {
	st := fr.st
	c := x.c
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		o := st.newObj(t, st.zero(t), in.Comment, true)
		fr.env[in] = &PtrV{obj: o.id, et: t}
	case *ssa.BinOp:
		return x.binop(e, fr, in)
	case *ssa.UnOp:
		return x.unop(e, fr, in)
	case *ssa.ChangeType:
		v := x.eval(fr, in.X)
		if f, ok := v.(*FuncV); ok {
			f2 := *f
			f2.t = in.Type()
			v = &f2
		}
		fr.env[in] = v
	case *ssa.ChangeInterface:
		fr.env[in] = x.eval(fr, in.X)
	case *ssa.MakeInterface:
		fr.env[in] = &IfaceV{con: in.X.Type(), val: x.eval(fr, in.X)}
	case *ssa.Convert:
		fr.env[in] = x.convert(st, x.eval(fr, in.X), in.X.Type(), in.Type())
	case *ssa.MakeClosure:
		f := &FuncV{fn: in.Fn.(*ssa.Function), t: in.Type()}
		for _, b := range in.Bindings {
			f.binds = append(f.binds, x.eval(fr, b))
		}
		fr.env[in] = f
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		if _, _, ok := scalar(mt.Key()); !ok {
			unsup("map key type")
		}
		vw, _ := elemWidth(mt.Elem())
		o := st.newObj(in.Type(), &MapV{dom: c.AConst(c.BV(1, 0)), val: c.AConst(c.BV(vw, 0)), kt: mt.Key(), vt: mt.Elem()}, "map", true)
		fr.env[in] = &MapRef{obj: o.id}
	case *ssa.MakeChan:
		fr.env[in] = &ChanV{"chan"}
	case *ssa.MakeSlice:
		et := in.Type().Underlying().(*types.Slice).Elem()
		ln := ext64(tterm(x.eval(fr, in.Len)), in.Len.Type())
		cp := ext64(tterm(x.eval(fr, in.Cap)), in.Cap.Type())
		if !x.must(e, fr, c.And(c.I(0).Sle(ln), ln.Slt(c.I(1<<41)), ln.Sle(cp), cp.Slt(c.I(1<<42))), "makeslice: len/cap out of range", in.Pos()) {
			return false
		}
		fr.env[in] = x.makeSlice(st, et, ln, cp, "make")
	case *ssa.Slice:
		return x.sliceOp(e, fr, in)
	case *ssa.FieldAddr:
		p := x.eval(fr, in.X).(*PtrV)
		if p = x.notNil(e, fr, p, in.Pos()); p == nil {
			return false
		}
		et := in.Type().Underlying().(*types.Pointer).Elem()
		fr.env[in] = &PtrV{obj: p.obj, path: appendStep(p.path, Step{field: in.Field}), et: et}
	case *ssa.Field:
		v := x.eval(fr, in.X)
		sv, ok := v.(*StructV)
		if !ok {
			unsup("field of %T", v)
		}
		fr.env[in] = sv.f[in.Field]
	case *ssa.IndexAddr:
		idx := ext64(tterm(x.eval(fr, in.Index)), in.Index.Type())
		et := in.Type().Underlying().(*types.Pointer).Elem()
		switch b := x.eval(fr, in.X).(type) {
		case *SliceV:
			if !x.must(e, fr, idx.Ult(b.len), "index out of range", in.Pos()) {
				return false
			}
			fr.env[in] = &PtrV{obj: b.obj, path: appendStep(b.path, Step{field: -1, idx: b.off.Add(idx)}), et: et}
		case *PtrV:
			n := b.et.Underlying().(*types.Array).Len()
			if b = x.notNil(e, fr, b, in.Pos()); b == nil {
				return false
			}
			if !x.must(e, fr, idx.Ult(c.I(n)), "index out of range", in.Pos()) {
				return false
			}
			fr.env[in] = &PtrV{obj: b.obj, path: appendStep(b.path, Step{field: -1, idx: idx}), et: et}
		default:
			unsup("IndexAddr on %T", b)
		}
	case *ssa.Index:
		idx := ext64(tterm(x.eval(fr, in.Index)), in.Index.Type())
		switch b := x.eval(fr, in.X).(type) {
		case *ArrV:
			if !x.must(e, fr, idx.Ult(c.I(b.n)), "index out of range", in.Pos()) {
				return false
			}
			fr.env[in] = x.decode(st, b.arr.Sel(idx), b.et)
		case *StrV:
			if !x.must(e, fr, idx.Ult(b.len), "index out of range", in.Pos()) {
				return false
			}
			fr.env[in] = b.arr.Sel(b.off.Add(idx))
		case *VArr:
			if !idx.IsConst() {
				unsup("symbolic index into composite array")
			}
			fr.env[in] = b.e[idx.val]
		default:
			unsup("Index on %T", b)
		}
	case *ssa.Lookup:
		return x.mapLookup(e, fr, in)
	case *ssa.MapUpdate:
		m := x.eval(fr, in.Map).(*MapRef)
		if m.obj == 0 {
			x.raise(e, fr, &OpaqueV{n: "nil map"}, "assignment to entry in nil map at "+x.pos(in.Pos()))
			return false
		}
		mv := st.heap[m.obj].val.(*MapV)
		k := ext64(tterm(x.eval(fr, in.Key)), in.Key.Type())
		v := x.encode(st, x.eval(fr, in.Value))
		st.setVal(m.obj, &MapV{dom: mv.dom.Store(k, c.BV(1, 1)), val: mv.val.Store(k, v), kt: mv.kt, vt: mv.vt})
	case *ssa.Extract:
		tv, ok := x.eval(fr, in.Tuple).(*TupleV)
		if !ok {
			unsup("extract from non-tuple")
		}
		fr.env[in] = tv.vs[in.Index]
	case *ssa.Store:
		p := x.eval(fr, in.Addr).(*PtrV)
		if p = x.notNil(e, fr, p, in.Pos()); p == nil {
			return false
		}
		if g := rootGlobal(in.Addr); g != nil {
			x.sharedGlobal(st, g, "written", in.Pos())
		}
		x.access(st, p, true, in.Pos())
		x.store(st, p, x.eval(fr, in.Val))
	case *ssa.Send:
		unsup("channel send")
	case *ssa.Range:
		unsup("range over map or string")
	case *ssa.SliceToArrayPointer:
		unsup("slice to array pointer")
	default:
		unsup("instruction %T", in)
	}
	return true
}

func appendStep(p []Step, s Step) []Step {
	n := make([]Step, len(p)+1)
	copy(n, p)
	n[len(p)] = s
	return n
}

func (x *Exec) notNil(e *explo, fr *Frame, p *PtrV, pos token.Pos) *PtrV {
	if p.obj == 0 {
		x.raise(e, fr, &OpaqueV{n: "nil dereference"}, "nil pointer dereference at "+x.pos(pos))
		return nil
	}
	if p.obj == -1 {
		if !x.must(e, fr, p.ref.Ne(x.c.I(0)), "nil pointer dereference", pos) {
			return nil
		}
		return x.resolve(fr.st, p)
	}
	return p
}

func (x *Exec) makeSlice(st *State, et types.Type, ln, cp *Term, name string) *SliceV {
	c := x.c
	w, sc := elemWidth(et)
	var v Value
	if !sc {
		switch et.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Signature:
			v = &ArrV{arr: c.AConst(c.BV(64, 0)), n: -1, et: et}
		default:
			if !cp.IsConst() || cp.val > 4096 {
				unsup("make of []%s", et)
			}
			va := &VArr{}
			for i := uint64(0); i < cp.val; i++ {
				va.e = append(va.e, st.zero(et))
			}
			v = va
		}
	} else {
		v = &ArrV{arr: c.AConst(c.BV(w, 0)), n: -1, et: et}
	}
	o := st.newObj(types.NewArray(et, -1), v, name, true)
	return &SliceV{obj: o.id, off: c.I(0), len: ln, cap: cp, isnil: c.False, et: et}
}

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	c := x.c
	fw, fs, fok := scalar(from)
	tw, _, tok := scalar(to)
	if fok && tok {
		t := tterm(v)
		_ = fw
		return t.Resize(tw, fs)
	}
	switch v := v.(type) {
	case *SliceV:
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if v.obj == 0 {
				return strLit(c, "")
			}
			av := x.sliceArr(st, v)
			x.accessObj(st, v.obj, false, token.NoPos)
			return &StrV{arr: av.arr, off: v.off, len: v.len, id: c.Fresh("str", 64)}
		}
	case *StrV:
		if s, ok := to.Underlying().(*types.Slice); ok {
			o := st.newObj(types.NewArray(s.Elem(), -1), &ArrV{arr: c.AConst(c.BV(8, 0)).CopyIn(c.I(0), v.len, func(j *Term) *Term { return v.arr.Sel(v.off.Add(j)) }), n: -1, et: s.Elem()}, "bytes", true)
			return &SliceV{obj: o.id, off: c.I(0), len: v.len, cap: v.len, isnil: c.False, et: s.Elem()}
		}
		return v
	case *OpaqueV:
		if tok {
			return c.Fresh("conv", tw)
		}
		return &OpaqueV{t: to, n: v.n}
	case *Term:
		return &OpaqueV{t: to, n: "conv"}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

// sliceArr returns the backing array value of a slice.
func (x *Exec) sliceArr(st *State, s *SliceV) *ArrV {
	if s.obj == 0 {
		w, _ := elemWidth(s.et)
		return &ArrV{arr: x.c.AConst(x.c.BV(w, 0)), n: 0, et: s.et}
	}
	v := getPath(x, st, st.heap[s.obj].val, s.path)
	av, ok := v.(*ArrV)
	if !ok {
		unsup("slice of %T", v)
	}
	return av
}

func (x *Exec) setSliceArr(st *State, s *SliceV, a *Arr) {
	o := st.heap[s.obj]
	av := x.sliceArr(st, s)
	st.setVal(o.id, setPath(x, st, o.val, s.path, &ArrV{arr: a, n: av.n, et: av.et}))
}

func (x *Exec) sliceOp(e *explo, fr *Frame, in *ssa.Slice) bool {
	st := fr.st
	c := x.c
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return ext64(tterm(x.eval(fr, v)), v.Type())
	}
	lo, hi, mx := get(in.Low), get(in.High), get(in.Max)
	if lo == nil {
		lo = c.I(0)
	}
	switch b := x.eval(fr, in.X).(type) {
	case *SliceV:
		if hi == nil {
			hi = b.len
		}
		cp := b.cap
		m := cp
		if mx != nil {
			m = mx
		}
		ok := c.And(lo.Ule(hi), hi.Ule(m), m.Ule(cp))
		if !x.must(e, fr, ok, "slice bounds out of range", in.Pos()) {
			return false
		}
		fr.env[in] = &SliceV{obj: b.obj, path: b.path, off: b.off.Add(lo), len: hi.Sub(lo), cap: m.Sub(lo), isnil: b.isnil, et: b.et}
	case *PtrV: // array
		if b = x.notNil(e, fr, b, in.Pos()); b == nil {
			return false
		}
		at := b.et.Underlying().(*types.Array)
		n := c.I(at.Len())
		if hi == nil {
			hi = n
		}
		m := n
		if mx != nil {
			m = mx
		}
		if !x.must(e, fr, c.And(lo.Ule(hi), hi.Ule(m), m.Ule(n)), "slice bounds out of range", in.Pos()) {
			return false
		}
		fr.env[in] = &SliceV{obj: b.obj, path: b.path, off: lo, len: hi.Sub(lo), cap: m.Sub(lo), isnil: c.False, et: at.Elem()}
	case *StrV:
		if hi == nil {
			hi = b.len
		}
		if !x.must(e, fr, c.And(lo.Ule(hi), hi.Ule(b.len)), "slice bounds out of range", in.Pos()) {
			return false
		}
		fr.env[in] = &StrV{arr: b.arr, off: b.off.Add(lo), len: hi.Sub(lo), id: c.Fresh("substr", 64)}
	default:
		unsup("slice of %T", b)
	}
	_ = st
	return true
}

func (x *Exec) mapLookup(e *explo, fr *Frame, in *ssa.Lookup) bool {
	st := fr.st
	c := x.c
	if s, ok := x.eval(fr, in.X).(*StrV); ok {
		idx := ext64(tterm(x.eval(fr, in.Index)), in.Index.Type())
		if !x.must(e, fr, idx.Ult(s.len), "index out of range", in.Pos()) {
			return false
		}
		fr.env[in] = s.arr.Sel(s.off.Add(idx))
		return true
	}
	m, ok := x.eval(fr, in.X).(*MapRef)
	if !ok {
		unsup("lookup in %T", x.eval(fr, in.X))
	}
	mt := in.X.Type().Underlying().(*types.Map)
	k := ext64(tterm(x.eval(fr, in.Index)), in.Index.Type())
	var has *Term
	var v Value
	if m.obj == 0 {
		has = c.False
		v = st.zero(mt.Elem())
	} else {
		mv := st.heap[m.obj].val.(*MapV)
		has = mv.dom.Sel(k).Eq(c.BV(1, 1))
		raw := mv.val.Sel(k)
		w, _ := elemWidth(mt.Elem())
		raw = c.Ite(has, raw, c.BV(w, 0))
		v = x.decode(st, raw, mt.Elem())
	}
	if in.CommaOk {
		fr.env[in] = &TupleV{vs: []Value{v, has}}
	} else {
		fr.env[in] = v
	}
	return true
}

func (x *Exec) unop(e *explo, fr *Frame, in *ssa.UnOp) bool {
	v := x.eval(fr, in.X)
	switch in.Op {
	case token.MUL:
		p, ok := v.(*PtrV)
		if !ok {
			unsup("load through %T", v)
		}
		if g := rootGlobal(in.X); g != nil {
			x.sharedGlobal(fr.st, g, "read", in.Pos())
		}
		if p = x.notNil(e, fr, p, in.Pos()); p == nil {
			return false
		}
		x.access(fr.st, p, false, in.Pos())
		fr.env[in] = x.load(fr.st, p)
	case token.NOT:
		fr.env[in] = tterm(v).Not()
	case token.SUB:
		fr.env[in] = tterm(v).Neg()
	case token.XOR:
		fr.env[in] = tterm(v).BNot()
	case token.ARROW:
		unsup("channel receive")
	default:
		unsup("unary %s", in.Op)
	}
	return true
}

func (x *Exec) binop(e *explo, fr *Frame, in *ssa.BinOp) bool {
	a, b := x.eval(fr, in.X), x.eval(fr, in.Y)
	c := x.c
	switch in.Op {
	case token.EQL, token.NEQ:
		r := x.equal(fr.st, a, b)
		if in.Op == token.NEQ {
			r = r.Not()
		}
		fr.env[in] = r
		return true
	}
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		if sa, ok := a.(*StrV); ok && in.Op == token.ADD {
			sb := b.(*StrV)
			if sa.lit != nil && sb.lit != nil {
				fr.env[in] = strLit(c, *sa.lit+*sb.lit)
			} else {
				n := sa.len.Add(sb.len)
				arr := c.AConst(c.BV(8, 0)).CopyIn(c.I(0), sa.len, func(j *Term) *Term { return sa.arr.Sel(sa.off.Add(j)) }).
					CopyIn(sa.len, sb.len, func(j *Term) *Term { return sb.arr.Sel(sb.off.Add(j)) })
				fr.env[in] = &StrV{arr: arr, off: c.I(0), len: n, id: c.App("strcat", 64, sa.id, sb.id)}
			}
			return true
		}
		unsup("binary %s on %T", in.Op, a)
	}
	_, signed, _ := scalar(in.X.Type())
	switch in.Op {
	case token.ADD:
		fr.env[in] = ta.Add(tb)
	case token.SUB:
		fr.env[in] = ta.Sub(tb)
	case token.MUL:
		fr.env[in] = ta.Mul(tb)
	case token.QUO, token.REM:
		if !x.must(e, fr, tb.Ne(c.BV(tb.w, 0)), "division by zero", in.Pos()) {
			return false
		}
		switch {
		case in.Op == token.QUO && signed:
			fr.env[in] = ta.Sdiv(tb)
		case in.Op == token.QUO:
			fr.env[in] = ta.Udiv(tb)
		case signed:
			fr.env[in] = ta.Srem(tb)
		default:
			fr.env[in] = ta.Urem(tb)
		}
	case token.AND:
		fr.env[in] = ta.BAnd(tb)
	case token.OR:
		fr.env[in] = ta.BOr(tb)
	case token.XOR:
		fr.env[in] = ta.BXor(tb)
	case token.AND_NOT:
		fr.env[in] = ta.BAnd(tb.BNot())
	case token.SHL, token.SHR:
		_, ysig, _ := scalar(in.Y.Type())
		if ysig && !tb.IsConst() {
			if !x.must(e, fr, c.BV(tb.w, 0).Sle(tb), "negative shift amount", in.Pos()) {
				return false
			}
		}
		// bring the shift amount to the operand width, saturating
		var amt *Term
		w := ta.w
		if tb.w > w {
			over := tb.Ult(c.BV(tb.w, uint64(w))).Not()
			amt = c.Ite(over, c.BV(w, minu(uint64(w), mask(w))), tb.Extract(w-1, 0))
		} else {
			amt = tb.Zext(w)
		}
		switch {
		case in.Op == token.SHL:
			fr.env[in] = ta.Shl(amt)
		case signed:
			fr.env[in] = ta.Ashr(amt)
		default:
			fr.env[in] = ta.Lshr(amt)
		}
	case token.LSS:
		fr.env[in] = lt(ta, tb, signed)
	case token.GTR:
		fr.env[in] = lt(tb, ta, signed)
	case token.LEQ:
		fr.env[in] = lt(tb, ta, signed).Not()
	case token.GEQ:
		fr.env[in] = lt(ta, tb, signed).Not()
	default:
		unsup("binary %s", in.Op)
	}
	return true
}

func lt(a, b *Term, signed bool) *Term {
	if signed {
		return a.Slt(b)
	}
	return a.Ult(b)
}

func (x *Exec) equal(st *State, a, b Value) *Term {
	c := x.c
	switch a := a.(type) {
	case *Term:
		return a.Eq(tterm(b))
	case *SliceV:
		bs, ok := b.(*SliceV)
		if !ok {
			unsup("slice comparison")
		}
		if bs.obj == 0 && bs.isnil.IsTrue() {
			return a.isnil
		}
		if a.obj == 0 && a.isnil.IsTrue() {
			return bs.isnil
		}
		unsup("slice comparison")
	case *PtrV:
		pb, ok := b.(*PtrV)
		if !ok {
			unsup("pointer comparison")
		}
		if a.obj >= 0 && pb.obj >= 0 {
			if a.obj != pb.obj {
				oa, ob := st.heap[a.obj], st.heap[pb.obj]
				if a.obj == 0 || pb.obj == 0 {
					return c.False
				}
				if (oa.mat || ob.mat) && len(a.path) == 0 && len(pb.path) == 0 {
					return oa.ref.Eq(ob.ref)
				}
				return c.False
			}
			if len(a.path) != len(pb.path) {
				return c.False
			}
			r := c.True
			for i := range a.path {
				if a.path[i].field != pb.path[i].field {
					return c.False
				}
				if a.path[i].idx != nil {
					r = r.And(a.path[i].idx.Eq(pb.path[i].idx))
				}
			}
			return r
		}
		return x.encode(st, a).Eq(x.encode(st, pb))
	case *IfaceV:
		bi, ok := b.(*IfaceV)
		if !ok {
			unsup("interface comparison")
		}
		if a.con == nil && bi.con == nil {
			return a.id.Eq(bi.id)
		}
		if a.con != nil && bi.con != nil {
			if !types.Identical(a.con, bi.con) {
				return c.False
			}
			return x.equal(st, a.val, bi.val)
		}
		if a.con == nil {
			a, bi = bi, a
		}
		// concrete against symbolic: nil and values made elsewhere differ from a value made here
		if bi.id.IsConst() {
			return c.False
		}
		if _, ok := a.con.Underlying().(*types.Pointer); ok {
			if p := a.val.(*PtrV); p.obj > 0 && st.heap[p.obj].fresh {
				return c.False
			}
		}
		return x.encode(st, a).Eq(bi.id)
	case *FuncV:
		fb := b.(*FuncV)
		return x.encode(st, a).Eq(x.encode(st, fb))
	case *StrV:
		sb, ok := b.(*StrV)
		if !ok {
			unsup("string comparison")
		}
		if a.lit != nil && sb.lit != nil {
			return c.Bool(*a.lit == *sb.lit)
		}
		if sb.lit == nil && a.lit == nil {
			if a.id == sb.id {
				return c.True
			}
			unsup("comparison of two symbolic strings")
		}
		if a.lit != nil {
			a, sb = sb, a
		}
		r := a.len.Eq(sb.len)
		for i := 0; i < len(*sb.lit); i++ {
			r = r.And(a.arr.Sel(a.off.AddC(int64(i))).Eq(c.BV(8, uint64((*sb.lit)[i]))))
		}
		return r
	case *MapRef:
		mb := b.(*MapRef)
		return c.Bool(a.obj == mb.obj)
	case *StructV:
		sb := b.(*StructV)
		r := c.True
		for i := range a.f {
			r = r.And(x.equal(st, a.f[i], sb.f[i]))
		}
		return r
	case *ChanV:
		return c.Bool(false)
	}
	unsup("comparison of %T", a)
	return nil
}

// ---- access checks (locking discipline, released buffers)

func (x *Exec) access(st *State, p *PtrV, write bool, pos token.Pos) {
	if p.obj <= 0 {
		return
	}
	if len(p.path) > 0 {
		x.guardField(st, p, write, pos)
	}
	x.accessObj(st, p.obj, write, pos)
}

// sharedGlobal: a package variable that is set after the package's initialisation is shared by
// all goroutines: it is used inside sync.Once.Do, or after it, or under a lock.
func (x *Exec) sharedGlobal(st *State, g *ssa.Global, how string, pos token.Pos) {
	if x.probe > 0 || x.initing || g.Pkg != x.p.pkg || !x.p.gmut[g] {
		return
	}
	switch g.Type().Underlying().(*types.Pointer).Elem().String() {
	case "sync.Once", "sync.Mutex", "sync.RWMutex":
		return
	}
	x.proveFlag(st, st.inOnce > 0 || st.synced, "shared", fmt.Sprintf("package variable %s, set when first needed, is %s only within or after sync.Once.Do or under a lock", g.Name(), how), "nopanic")
}

func (x *Exec) accessObj(st *State, obj int, write bool, pos token.Pos) {
	o := st.heap[obj]
	if o == nil {
		return
	}
	dead := o.dead
	for _, a := range o.alias {
		if ao := st.heap[a]; ao != nil && ao.dead != "" {
			dead = ao.dead
		}
	}
	if dead != "" && x.probe == 0 {
		x.proveFlag(st, false, "use-after-release", fmt.Sprintf("no use of %s after it was given back (%s)", o.name, dead), "pool")
	}
	if o.guard != nil {
		x.needLock(st, o.guard, write, o.name, pos)
	}
}

func (x *Exec) proveFlag(st *State, ok bool, kind, label, tagKind string) {
	if x.probe > 0 {
		return
	}
	tags := x.con.kindTags(tagKind)
	if x.want != nil && !x.want(tags) {
		return
	}
	o := x.obl(kind, label, tags)
	o.Paths++
	x.simp++
	if !ok {
		// a path that cannot happen does not matter
		x.deep = true
		can := x.feasible(st, x.c.True.And(x.c.Var("!any", 0)))
		x.deep = false
		if !can {
			return
		}
		x.lastM = nil
		x.fail(st, o, x.describe(st), "failed")
	}
}

func (x *Exec) lockAt(st *State, g *Guard) *LockV {
	o := st.heap[g.obj]
	if o == nil {
		return nil
	}
	lv, ok := getPath(x, st, o.val, g.path).(*LockV)
	if !ok {
		return nil
	}
	return lv
}

func (x *Exec) needLock(st *State, g *Guard, write bool, what string, pos token.Pos) {
	if x.probe > 0 {
		return
	}
	lv := x.lockAt(st, g)
	if lv == nil {
		return
	}
	ok := lv.w > 0 || (!write && lv.r > 0)
	mode := "read"
	if write {
		mode = "write"
	}
	x.proveFlag(st, ok, "guard", fmt.Sprintf("%s of %s only while %s is held", mode, what, g.name), "guard")
}

// guardField: fields declared as protected by a lock of the same struct.
func (x *Exec) guardField(st *State, p *PtrV, write bool, pos token.Pos) {
	o := st.heap[p.obj]
	if o == nil || o.fresh {
		return
	}
	t := o.typ
	for i, s := range p.path {
		if s.field < 0 {
			return
		}
		stt, ok := t.Underlying().(*types.Struct)
		if !ok || s.field >= stt.NumFields() {
			return
		}
		if gd := x.p.guards[typeName(t)]; gd != nil {
			fn := stt.Field(s.field).Name()
			if lockf, ok := gd.fields[fn]; ok {
				for j := 0; j < stt.NumFields(); j++ {
					if stt.Field(j).Name() == lockf {
						x.needLock(st, &Guard{obj: o.id, path: appendStep(p.path[:i], Step{field: j}), name: lockf}, write, fn, pos)
					}
				}
			}
			if gd.atomics[fn] {
				x.proveFlag(st, false, "atomic", fn+" is only accessed atomically", "atomic")
			}
		}
		t = stt.Field(s.field).Type()
	}
}
