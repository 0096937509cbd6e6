package main

// Loops: concrete unrolling when the number of iterations does not depend on
// inputs, otherwise one arbitrary iteration from a state described by
// inferred and supplied invariants (all of them checked: they hold on entry
// and every back edge re-establishes them).

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) loop(e *explo, l *Loop, fr *Frame, from *ssa.BasicBlock) {
	if x.unrollLoop(e, l, fr, from, false) || counted(l) && x.unrollLoop(e, l, fr, from, true) {
		return
	}
	x.summarise(e, l, fr, from)
}

// leaves: the loop can be left from inside its body.
func leaves(l *Loop) bool {
	for b := range l.blocks {
		if b == l.header {
			continue
		}
		for _, s := range b.Succs {
			if !l.blocks[s] {
				return true
			}
		}
	}
	return false
}

// counted: the loop counts a variable up to a bound that it does not change.
func counted(l *Loop) bool {
	in := l.header.Instrs
	br, ok := in[len(in)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return false
	}
	outside := func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		return !ok || !l.blocks[i.Block()]
	}
	step := func(v ssa.Value) bool {
		add, ok := v.(*ssa.BinOp)
		if !ok || add.Op != token.ADD {
			return false
		}
		k, ok := add.Y.(*ssa.Const)
		_, phi := add.X.(*ssa.Phi)
		return ok && phi && k.Int64() > 0
	}
	idx := false
	if p, ok := cmp.X.(*ssa.Phi); ok && p.Block() == l.header {
		idx = true
		for i, v := range p.Edges {
			if l.blocks[l.header.Preds[i]] && !step(v) {
				idx = false
			}
		}
	} else if step(cmp.X) {
		idx = true
	}
	if call, ok := cmp.Y.(*ssa.Call); ok && call.Block() == l.header {
		b, ok := call.Call.Value.(*ssa.Builtin)
		return idx && ok && b.Name() == "len" && outside(call.Call.Args[0])
	}
	return idx && outside(cmp.Y)
}

// unrollLoop runs a loop whose exit conditions are all concrete; with early,
// one that runs a concrete number of times unless it is left early.
func (x *Exec) unrollLoop(e *explo, l *Loop, fr0 *Frame, from *ssa.BasicBlock, early bool) (ok bool) {
	nstack := len(x.stack)
	var exits []edge
	var outs []Outcome
	inLoop, probe := x.inLoop, x.probe
	// a first pass without recording decides whether the loop is concrete
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(abortUnroll); is {
				x.stack = x.stack[:nstack]
				x.inLoop, x.probe = inLoop, probe
				ok = false
				return
			}
			panic(r)
		}
	}()
	fr := fr0.clone()
	fr.prev = from
	fr.blk = l.header
	cur := []*Frame{fr}
	for round := 0; len(cur) > 0; round++ {
		if round > 3000 || early && round > 16 {
			panic(abortUnroll{})
		}
		var next []*Frame
		for _, f := range cur {
			e2 := &explo{region: l, constL: l, early: early}
			f.blk = l.header
			e2.todo = append(e2.todo, work{fr: f, phis: true})
			if round == 0 {
				x.probe++
			}
			x.explore(e2)
			if len(e2.exits) > 0 && len(e2.backs) > 0 && !early {
				panic(abortUnroll{}) // the number of iterations is not decided
			}
			if round == 0 {
				x.probe--
				// it did not abort: run the first round again, recording
				f2 := fr0.clone()
				f2.prev, f2.blk = from, l.header
				e2 = &explo{region: l, constL: l, early: early}
				e2.todo = append(e2.todo, work{fr: f2, phis: true})
				x.explore(e2)
			}
			next = append(next, e2.backs...)
			exits = append(exits, e2.exits...)
			outs = append(outs, e2.outs...)
		}
		if len(next) > 64 {
			panic(abortUnroll{})
		}
		cur = next
	}
	e.outs = append(e.outs, outs...)
	for _, ed := range exits {
		ed.fr.blk = ed.fr.prev
		x.goTo(e, ed.fr, ed.to)
	}
	return true
}

// ---- summarisation

type leafKind int

const (
	lTerm leafKind = iota
	lArr
	lOther
)

type leaf struct {
	key  string
	kind leafKind
	t    *Term
	a    *Arr
	v    Value
}

type pin struct {
	term func(k *Term) *Term
	arr  func(k *Term) *Arr
	how  string
}

type loopCtx struct {
	x    *Exec
	l    *Loop
	from *ssa.BasicBlock
	base *Frame // state on entry, header phis evaluated
	phis []*ssa.Phi
	ghK  []string
	objs []int

	mod    map[string]bool // leaves that change
	pins   map[string]*pin
	nopin  map[string]bool
	cands  []*cand
	guard  []func(k *Term) *Term
	k      *Term
	kraw   *Term
	mark   int
	amark  int
	hav    map[string]string
	where  string
	bconds []*Term
	svals  map[string]ssa.Value // slices named by $s metavariables
	cover  map[string]bool      // leaves described by a supplied invariant
}

type cand struct {
	e    *Expr
	meta map[string]string // metavariable -> leaf key
	src  string
	dead bool
	// the rest of the memory the described slice lies in may change, too
	noframe bool
}

// active drops candidates that describe the same sequence as an earlier live one.
func (lc *loopCtx) active() []*cand {
	var out []*cand
	seen := map[string]bool{}
	for _, cd := range lc.cands {
		if cd.dead {
			continue
		}
		if cd.e.op == "bin" && cd.e.s == "=~" {
			k := cd.e.a[0].str()
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		out = append(out, cd)
	}
	return out
}

// leaves decomposes the header phis, the heap and the ghosts into scalar parts.
func (lc *loopCtx) leaves(fr *Frame) (map[string]leaf, []string) {
	m := map[string]leaf{}
	var order []string
	add := func(l leaf) { m[l.key] = l; order = append(order, l.key) }
	var dec func(key string, v Value)
	dec = func(key string, v Value) {
		switch v := v.(type) {
		case *Term:
			add(leaf{key: key, kind: lTerm, t: v})
		case *SliceV:
			id := fmt.Sprintf("%d/%v", v.obj, fields(v.path))
			add(leaf{key: key + "#obj", kind: lOther, v: id})
			add(leaf{key: key + "#off", kind: lTerm, t: v.off})
			add(leaf{key: key + "#len", kind: lTerm, t: v.len})
			add(leaf{key: key + "#cap", kind: lTerm, t: v.cap})
			add(leaf{key: key + "#nil", kind: lTerm, t: v.isnil})
		case *ArrV:
			add(leaf{key: key + "#arr", kind: lArr, a: v.arr})
		case *StructV:
			for i, f := range v.f {
				dec(key+"."+strconv.Itoa(i), f)
			}
		case *VArr:
			for i, f := range v.e {
				dec(key+"."+strconv.Itoa(i), f)
			}
		case *TupleV:
			for i, f := range v.vs {
				dec(key+"."+strconv.Itoa(i), f)
			}
		case *BufV:
			add(leaf{key: key + "#len", kind: lTerm, t: v.len})
			add(leaf{key: key + "#arr", kind: lArr, a: v.arr})
		case *MapV:
			add(leaf{key: key + "#dom", kind: lArr, a: v.dom})
			add(leaf{key: key + "#val", kind: lArr, a: v.val})
		case *SyncMapV:
			add(leaf{key: key + "#dom", kind: lArr, a: v.dom})
			add(leaf{key: key + "#val", kind: lArr, a: v.val})
		case *LockV:
			add(leaf{key: key, kind: lOther, v: fmt.Sprintf("lock %d %d", v.w, v.r)})
			add(leaf{key: key + "#acq", kind: lOther, v: v.acq})
		case *PtrV:
			add(leaf{key: key, kind: lOther, v: ptrKey(v)})
		default:
			add(leaf{key: key, kind: lOther, v: v})
		}
	}
	for i, p := range lc.phis {
		dec("p"+strconv.Itoa(i), fr.env[p])
	}
	for _, id := range lc.objs {
		o := fr.st.heap[id]
		if o == nil {
			continue
		}
		dec("h"+strconv.Itoa(id), o.val)
		add(leaf{key: "flag" + strconv.Itoa(id), kind: lOther, v: fmt.Sprint(o.dead, o.gone, o.alias)})
	}
	for _, g := range lc.ghK {
		dec("g"+g, fr.st.ghost[g])
	}
	return m, order
}

func ptrKey(v *PtrV) string {
	s := fmt.Sprint(v.obj, fields(v.path))
	if v.obj == -1 {
		s += fmt.Sprint(v.ref.id)
	}
	for _, p := range v.path {
		if p.idx != nil {
			s += fmt.Sprint("[", p.idx.id, "]")
		}
	}
	return s
}

// build makes a header state: modified leaves are pinned to functions of k or fresh.
func (lc *loopCtx) build(k *Term) *Frame {
	x := lc.x
	c := x.c
	fr := lc.base.clone()
	st := fr.st
	tm := func(key string, t *Term) *Term {
		if !lc.mod[key] {
			return t
		}
		if p := lc.pins[key]; p != nil && p.term != nil {
			return p.term(k)
		}
		nm := "loop." + lc.name(key)
		if strings.HasSuffix(key, "#len") || strings.HasSuffix(key, "#off") {
			return c.Len(nm)
		}
		return c.Fresh(nm, t.w)
	}
	ar := func(key string, a *Arr) *Arr {
		if !lc.mod[key] {
			return a
		}
		if p := lc.pins[key]; p != nil && p.arr != nil {
			return p.arr(k)
		}
		return c.ABase("loop."+lc.name(key), a.w)
	}
	var mk func(key string, v Value) Value
	mk = func(key string, v Value) Value {
		switch v := v.(type) {
		case *Term:
			return tm(key, v)
		case *SliceV:
			if lc.mod[key+"#obj"] {
				unsup("loop at %s: a slice variable refers to different memory in different iterations", lc.where)
			}
			if !lc.mod[key+"#off"] && !lc.mod[key+"#len"] && !lc.mod[key+"#cap"] && !lc.mod[key+"#nil"] {
				return v
			}
			n := &SliceV{obj: v.obj, path: v.path, et: v.et, off: tm(key+"#off", v.off), len: tm(key+"#len", v.len), isnil: tm(key+"#nil", v.isnil)}
			n.cap = v.cap
			if lc.mod[key+"#cap"] {
				if p := lc.pins[key+"#cap"]; p != nil {
					n.cap = p.term(k)
				} else {
					n.cap = n.len.Add(c.Len("loop.xcap"))
				}
			}
			st.assume(n.isnil.Implies(n.len.Eq(c.I(0))))
			return n
		case *ArrV:
			return &ArrV{arr: ar(key+"#arr", v.arr), n: v.n, et: v.et}
		case *StructV:
			n := &StructV{}
			ch := false
			for i, f := range v.f {
				g := mk(key+"."+strconv.Itoa(i), f)
				ch = ch || g != f
				n.f = append(n.f, g)
			}
			if !ch {
				return v
			}
			return n
		case *VArr:
			n := &VArr{}
			for i, f := range v.e {
				n.e = append(n.e, mk(key+"."+strconv.Itoa(i), f))
			}
			return n
		case *TupleV:
			n := &TupleV{}
			for i, f := range v.vs {
				n.vs = append(n.vs, mk(key+"."+strconv.Itoa(i), f))
			}
			return n
		case *BufV:
			if !lc.mod[key+"#len"] && !lc.mod[key+"#arr"] {
				return v
			}
			return &BufV{len: tm(key+"#len", v.len), arr: ar(key+"#arr", v.arr)}
		case *MapV:
			if !lc.mod[key+"#dom"] && !lc.mod[key+"#val"] {
				return v
			}
			return &MapV{dom: ar(key+"#dom", v.dom), val: ar(key+"#val", v.val), kt: v.kt, vt: v.vt, obj: v.obj}
		case *SyncMapV:
			if !lc.mod[key+"#dom"] && !lc.mod[key+"#val"] {
				return v
			}
			return &SyncMapV{dom: ar(key+"#dom", v.dom), val: ar(key+"#val", v.val), ops: v.ops}
		case *LockV:
			if lc.mod[key] {
				unsup("loop at %s: a lock is not in the same state at the end of each iteration", lc.where)
			}
			if lc.mod[key+"#acq"] {
				n := *v
				n.amb = true
				n.acq = v.acq + 2
				return &n
			}
			return v
		case *PtrV:
			if lc.mod[key] {
				unsup("loop at %s: a pointer changes between iterations", lc.where)
			}
			return v
		case *IfaceV:
			if lc.mod[key] {
				return &IfaceV{id: c.Fresh("loop."+lc.name(key), 64)}
			}
			return v
		case *FuncV:
			if lc.mod[key] {
				t := v.t
				if v.fn != nil {
					t = v.fn.Signature
				}
				return &FuncV{id: c.Fresh("loop."+lc.name(key), 64), t: t}
			}
			return v
		case *StrV:
			if lc.mod[key] {
				return &StrV{arr: c.ABase("loop.str", 8), off: c.I(0), len: c.Len("loop.strlen"), id: c.Fresh("loop.strid", 64)}
			}
			return v
		default:
			if lc.mod[key] {
				unsup("loop at %s: a value of kind %T changes between iterations", lc.where, v)
			}
			return v
		}
	}
	for i, p := range lc.phis {
		fr.env[p] = mk("p"+strconv.Itoa(i), fr.env[p])
	}
	for _, id := range lc.objs {
		o := st.heap[id]
		if lc.mod["flag"+strconv.Itoa(id)] {
			unsup("loop at %s: memory is released or shared inside the loop", lc.where)
		}
		nv := mk("h"+strconv.Itoa(id), o.val)
		if nv != o.val {
			st.setVal(id, nv)
		}
	}
	for _, g := range lc.ghK {
		st.ghost[g] = mk("g"+g, st.ghost[g])
	}
	if p, ok := st.ghost["inpos"].(*Term); ok && lc.mod["ginpos"] {
		if b, ok := st.ghost["in"].(*BufV); ok {
			p0 := lc.base.st.ghost["inpos"].(*Term)
			st.assume(p.Ule(b.len))
			st.assume(p0.Ule(p))
		}
	}
	if p, ok := st.ghost["clock"].(*Term); ok && lc.mod["gclock"] {
		st.assume(p.Ult(c.I(1 << 58)))
		st.assume(lc.base.st.ghost["clock"].(*Term).Ule(p))
	}
	// facts of the previous iteration
	prev := k.AddC(-1)
	for _, g := range lc.guard {
		st.assume(c.Or(k.Eq(c.I(0)), g(prev)))
	}
	return fr
}

func (lc *loopCtx) name(key string) string {
	if strings.HasPrefix(key, "p") {
		s := key[1:]
		if i := strings.IndexAny(s, ".#"); i >= 0 {
			s = s[:i]
		}
		n, _ := strconv.Atoi(s)
		if n < len(lc.phis) && lc.phis[n].Comment != "" {
			return lc.phis[n].Comment
		}
	}
	return key
}

// mentions: the term depends on something introduced after the loop head state was built.
func (lc *loopCtx) closed(t *Term) bool {
	ok := true
	seen := map[*Term]bool{}
	t.walk(seen, func(u *Term) {
		if !ok {
			return
		}
		switch u.op {
		case OVar:
			if u.id > lc.mark && u != lc.kraw {
				ok = false
			}
		case OApp:
			if strings.HasPrefix(u.name, "fold:") {
				p := strings.Split(u.name, ":")
				id, _ := strconv.Atoi(p[2])
				if id > lc.amark {
					ok = false
				}
			} else if id, is := lc.x.c.baseID[u.name]; is && id > lc.amark {
				ok = false
			} else if !is && strings.HasPrefix(u.name, "uf!") {
				ok = false
			}
		}
	})
	return ok
}

// atK substitutes the iteration counter.
func (lc *loopCtx) atK(t, k *Term) *Term {
	if k == lc.k {
		return t
	}
	return lc.x.c.Subst(t, map[*Term]*Term{lc.k: k, lc.kraw: k.Extract(39, 0)})
}

func (lc *loopCtx) runBody(fr *Frame) *explo {
	e := &explo{region: lc.l}
	fr.blk = lc.l.header
	e.todo = append(e.todo, work{fr: fr})
	lc.x.explore(e)
	return e
}

// backPhis evaluates the header phis along a back edge, in a copy.
func (lc *loopCtx) backState(fr *Frame) *Frame {
	f := fr.clone()
	f.blk = lc.l.header
	lc.x.evalPhis(f)
	return f
}

func (x *Exec) summarise(e *explo, l *Loop, fr *Frame, from *ssa.BasicBlock) {
	c := x.c
	fr.prev = from
	fr.blk = l.header
	x.evalPhis(fr)
	lc := &loopCtx{x: x, l: l, from: from, base: fr, mod: map[string]bool{}, pins: map[string]*pin{}, nopin: map[string]bool{}, hav: map[string]string{}}
	for _, in := range l.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			lc.phis = append(lc.phis, p)
		}
	}
	lc.where = x.loopPos(l)
	x.nilSlices(lc, fr)
	for g := range fr.st.ghost {
		lc.ghK = append(lc.ghK, g)
	}
	sort.Strings(lc.ghK)
	for id, o := range fr.st.heap {
		if o.val != nil {
			lc.objs = append(lc.objs, id)
		}
	}
	sort.Ints(lc.objs)
	lc.kraw = c.Fresh("k", 40)
	lc.k = lc.kraw.Zext(64)
	ndef := len(fr.defers)

	init, order := lc.leaves(fr)
	x.inLoop++
	defer func() { x.inLoop-- }()

	probe := func() (hd *Frame, backs []*Frame) {
		lc.mark = c.Fresh("!mark", 1).id
		lc.amark = c.arrN
		hd = lc.build(lc.k)
		x.applyCands(lc, hd)
		x.probe++
		e2 := lc.runBody(hd.clone())
		x.probe--
		for _, b := range e2.backs {
			if len(b.defers) != ndef {
				unsup("defer inside a loop")
			}
			if !x.feasible(b.st, c.Fresh("any", 0)) {
				continue
			}
			backs = append(backs, lc.backState(b))
		}
		return
	}

	same := func(a, b leaf) bool {
		switch a.kind {
		case lTerm:
			return a.t == b.t
		case lArr:
			return a.a == b.a
		}
		if sa, ok := a.v.(string); ok {
			sb, ok2 := b.v.(string)
			return ok2 && sa == sb
		}
		if ia, ok := a.v.(int); ok {
			ib, ok2 := b.v.(int)
			return ok2 && ia == ib
		}
		if ia, ok := a.v.(*IfaceV); ok {
			if ib, ok := b.v.(*IfaceV); ok && ia.con == nil && ib.con == nil {
				return ia.id == ib.id
			}
		}
		return a.v == b.v
	}

	candsMade := false
	outer := x.optim
	x.optim = true
	defer func() { x.optim = outer }()
	for round := 0; ; round++ {
		if round > 24 {
			unsup("loop at %s: no stable description", lc.where)
		}
		hd, backs := probe()
		hl, _ := lc.leaves(hd)
		changed := false
		bl := make([]map[string]leaf, len(backs))
		for i, b := range backs {
			bl[i], _ = lc.leaves(b)
			for _, key := range order {
				if !lc.mod[key] {
					y, ok := bl[i][key]
					if !ok || !same(hl[key], y) {
						lc.mod[key] = true
						changed = true
					}
				}
			}
		}
		if changed {
			continue
		}
		if len(backs) == 0 {
			if x.optim && !outer {
				x.optim = false
				continue
			}
			break
		}
		lc.backConds(hd, backs)
		// check the pins, look for new ones
		k1 := lc.k.AddC(1)
		for _, key := range order {
			if !lc.mod[key] {
				continue
			}
			h := hl[key]
			if p := lc.pins[key]; p != nil {
				for i, b := range backs {
					var goal *Term
					if h.kind == lTerm {
						goal = bl[i][key].t.Eq(p.term(k1))
					} else {
						j := c.Fresh("sk_loop", 40).Zext(64)
						goal = bl[i][key].a.Sel(j).Eq(p.arr(k1).Sel(j))
					}
					if !x.valid(b.st, goal) {
						delete(lc.pins, key)
						lc.nopin[key] = true
						changed = true
						break
					}
				}
				continue
			}
			if lc.nopin[key] {
				continue
			}
			if p := lc.findPin(key, init[key], h, bl); p != nil {
				lc.pins[key] = p
				changed = true
			}
		}
		// guard facts
		if gs := lc.findGuards(hd, backs); len(gs) != len(lc.guard) {
			lc.guard = gs
			changed = true
		} else {
			lc.guard = gs
		}
		if changed {
			continue
		}
		if !candsMade {
			candsMade = true
			lc.makeCands(hd, init)
			if len(lc.cands) > 0 {
				continue
			}
		}
		// Houdini: drop candidates that are not preserved
		for _, cd := range lc.active() {
			for _, b := range backs {
				if !lc.restKept(cd, b) {
					cd.noframe = true
					changed = true
				}
				if !lc.holds(cd, b, k1) {
					if os.Getenv("GOVER_LOOP") != "" {
						x.dump = "/tmp/np"
						lc.holds(cd, b, k1)
						x.dump = ""
						fmt.Fprintf(os.Stderr, "%s: loop %s: not preserved: %s %v\n", x.con.Name, lc.where, cd.src, cd.meta)
					}
					cd.dead = true
					changed = true
					break
				}
			}
		}
		if !changed {
			if x.optim && !outer {
				x.optim = false
				if x.optUsed {
					x.optUsed = false
					continue
				}
			}
			break
		}
	}
	x.optim = outer
	// the real iteration
	lc.mark = c.Fresh("!mark", 1).id
	lc.amark = c.arrN
	hd := lc.build(lc.k)
	x.applyCands(lc, hd)
	for _, key := range order {
		if lc.mod[key] && lc.pins[key] == nil && !lc.cover[key] && !strings.HasSuffix(key, "#cap") && !strings.HasSuffix(key, "#acq") && key != "gclock" {
			hd.st.approx = append(hd.st.approx, fmt.Sprintf("loop at %s: %s is only constrained by the loop invariants", lc.where, lc.name(key)))
		}
	}
	if leaves(l) {
		hd.st.approx = append(hd.st.approx, fmt.Sprintf("loop at %s: why it was not left earlier is known only by the loop invariants", lc.where))
	}
	nc := 0
	nc = len(lc.active())
	var pn []string
	for _, key := range order {
		if p := lc.pins[key]; p != nil {
			pn = append(pn, lc.name(key)+": "+p.how)
		}
	}
	x.note("loop at %s: invariants inferred [%s], %d supplied invariants hold", lc.where, strings.Join(pn, "; "), nc)
	if os.Getenv("GOVER_LOOP") != "" && x.probe == 0 {
		fmt.Fprintf(os.Stderr, "%s: loop %s: pins [%s], %d cands, %d guards, mod %v\n", x.con.Name, lc.where, strings.Join(pn, "; "), nc, len(lc.guard), keys(lc.mod))
	}
	hd.st.trace = append(hd.st.trace, "loop "+lc.where)
	e2 := lc.runBody(hd)
	e.outs = append(e.outs, e2.outs...)
	for _, ed := range e2.exits {
		ed.fr.blk = ed.fr.prev
		x.goTo(e, ed.fr, ed.to)
	}
}

func (x *Exec) loopPos(l *Loop) string {
	for b := range l.blocks {
		_ = b
	}
	for _, in := range l.header.Instrs {
		if s := x.pos(in.Pos()); s != "" {
			return s
		}
	}
	best := ""
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if s := x.pos(in.Pos()); s != "" && (best == "" || s < best) {
				best = s
			}
		}
	}
	return best
}

// nilSlices: a slice variable that starts out nil and is appended to gets memory of its own.
func (x *Exec) nilSlices(lc *loopCtx, fr *Frame) {
	c := x.c
	for _, p := range lc.phis {
		s, ok := fr.env[p].(*SliceV)
		if !ok || s.obj != 0 {
			continue
		}
		w, sc := elemWidth(s.et)
		if !sc {
			continue
		}
		o := fr.st.newObj(types.NewArray(s.et, -1), &ArrV{arr: c.AConst(c.BV(w, 0)), n: -1, et: s.et}, "append", true)
		fr.env[p] = &SliceV{obj: o.id, off: c.I(0), len: c.I(0), cap: c.I(0), isnil: c.True, et: s.et}
	}
}

// merge picks the value of the back edge taken, where its condition depends on k only.
func (lc *loopCtx) merge(vals []*Term) *Term {
	c := lc.x.c
	r := vals[len(vals)-1]
	for i := len(vals) - 2; i >= 0; i-- {
		if vals[i] == r {
			continue
		}
		if lc.bconds == nil || lc.bconds[i] == nil {
			return nil
		}
		r = c.Ite(lc.bconds[i], vals[i], r)
	}
	return r
}

// backConds describes which back edge is taken, by conditions that depend on k only (nil if unknown).
func (lc *loopCtx) backConds(hd *Frame, backs []*Frame) {
	c := lc.x.c
	lc.bconds = make([]*Term, len(backs))
	n0 := map[*Term]int{}
	for _, p := range hd.st.pc {
		n0[p] = len(backs) + 1
	}
	for _, b := range backs {
		seen := map[*Term]bool{}
		for _, p := range b.st.pc {
			if !seen[p] {
				seen[p] = true
				n0[p]++
			}
		}
	}
	for i, b := range backs {
		var cs []*Term
		for _, p := range b.st.pc {
			if n0[p] < len(backs) && lc.closed(p) {
				cs = append(cs, p)
			}
		}
		if len(cs) > 0 {
			lc.bconds[i] = c.And(cs...)
		}
	}
}

func (lc *loopCtx) findPin(key string, init, h leaf, bl []map[string]leaf) *pin {
	c := lc.x.c
	switch h.kind {
	case lTerm:
		if h.t.w == 0 {
			// constant after the first iteration
			var vs []*Term
			for _, b := range bl {
				vs = append(vs, b[key].t)
			}
			v := lc.merge(vs)
			if v != nil && lc.closed(v) {
				i0 := init.t
				return &pin{how: "last value", term: func(k *Term) *Term {
					return c.Ite(k.Eq(c.I(0)), i0, lc.atK(v, k.AddC(-1)))
				}}
			}
			return nil
		}
		var d *Term
		aff := true
		for _, b := range bl {
			dd := b[key].t.Sub(h.t)
			if d != nil && d != dd {
				aff = false
			}
			d = dd
		}
		if aff && d != nil && d.IsConst() {
			i0, w, cv := init.t, h.t.w, d.val
			return &pin{how: fmt.Sprintf("initial value + %d·k", sext64(cv, w)), term: func(k *Term) *Term {
				return i0.Add(k.Resize(w, false).MulC(cv))
			}}
		}
		if aff && d != nil && lc.closed(d) && !mentionsK(lc, d) {
			// constant but symbolic step
			i0, w := init.t, h.t.w
			return &pin{how: "initial value + step·k", term: func(k *Term) *Term {
				return i0.Add(k.Resize(w, false).Mul(d))
			}}
		}
		var vs []*Term
		for _, b := range bl {
			vs = append(vs, b[key].t)
		}
		v := lc.merge(vs)
		if v != nil && lc.closed(v) {
			i0 := init.t
			return &pin{how: "last value", term: func(k *Term) *Term {
				return c.Ite(k.Eq(c.I(0)), i0, lc.atK(v, k.AddC(-1)))
			}}
		}
	case lArr:
		return lc.arrPin(key, init.a, h.a, bl)
	}
	return nil
}

func mentionsK(lc *loopCtx, t *Term) bool {
	f := false
	t.walk(map[*Term]bool{}, func(u *Term) {
		if u == lc.kraw {
			f = true
		}
	})
	return f
}

type stepStore struct {
	b, v *Term
	d    uint64
}

// arrPin: every iteration stores values that depend only on k at positions base + S·k + d.
func (lc *loopCtx) arrPin(key string, a0, h *Arr, bl []map[string]leaf) *pin {
	c := lc.x.c
	var sts []stepStore
	var vals [][]*Term
	var S uint64
	var base *Term
	for n, b := range bl {
		var cur []stepStore
		a := b[key].a
		for a != h {
			if a.k != AStore {
				return nil
			}
			if !lc.closed(a.idx) || !lc.closed(a.v) {
				return nil
			}
			i0 := lc.atK(a.idx, c.I(0))
			s := lc.atK(a.idx, c.I(1)).Sub(i0)
			if !s.IsConst() || s.val == 0 || s.val > 4096 {
				return nil
			}
			if S != 0 && S != s.val {
				return nil
			}
			S = s.val
			if a.idx != i0.Add(lc.k.MulC(S)) {
				return nil
			}
			// later stores come first
			dup := false
			for _, q := range cur {
				if q.b == i0 {
					dup = true
				}
			}
			if !dup {
				cur = append(cur, stepStore{b: i0, v: a.v})
			}
			a = a.base
		}
		if n == 0 {
			sts = cur
			for _, s := range cur {
				vals = append(vals, []*Term{s.v})
			}
			continue
		}
		if len(cur) != len(sts) {
			return nil
		}
		for i := range sts {
			for _, s := range cur {
				if s.b == sts[i].b {
					vals[i] = append(vals[i], s.v)
				}
			}
			if len(vals[i]) != n+1 {
				return nil
			}
		}
	}
	for i := range sts {
		if sts[i].v = lc.merge(vals[i]); sts[i].v == nil {
			return nil
		}
	}
	if len(sts) == 0 {
		return nil
	}
	for _, s := range sts {
		if base == nil {
			base = s.b
			continue
		}
		d := s.b.Sub(base)
		if !d.IsConst() {
			return nil
		}
		if int64(d.val) < 0 {
			base = s.b
		}
	}
	for i := range sts {
		d := sts[i].b.Sub(base)
		if !d.IsConst() || d.val >= S {
			return nil
		}
		sts[i].d = d.val
	}
	mk := func(k *Term) *Arr {
		return a0.Comp(func(i *Term) *Term {
			t := i.Sub(base)
			q := t.Udiv(c.I(int64(S)))
			r := t.Sub(q.MulC(S))
			in := c.False
			for _, s := range sts {
				in = in.Or(r.Eq(c.I(int64(s.d))))
			}
			return c.And(base.Ule(i), q.Ult(k), in)
		}, func(i *Term) *Term {
			t := i.Sub(base)
			q := t.Udiv(c.I(int64(S)))
			r := t.Sub(q.MulC(S))
			v := lc.atK(sts[0].v, q)
			for _, s := range sts[1:] {
				v = c.Ite(r.Eq(c.I(int64(s.d))), lc.atK(s.v, q), v)
			}
			return v
		})
	}
	return &pin{how: fmt.Sprintf("stores at stride %d", S), arr: mk}
}

// findGuards: conditions that hold on every back edge and mention only k.
func (lc *loopCtx) findGuards(hd *Frame, backs []*Frame) []func(k *Term) *Term {
	n0 := map[*Term]bool{}
	for _, p := range hd.st.pc {
		n0[p] = true
	}
	var common []*Term
	for i, b := range backs {
		if i == 0 {
			for _, p := range b.st.pc {
				if !n0[p] && lc.closed(p) && mentionsK(lc, p) {
					common = append(common, p)
				}
			}
			continue
		}
		has := map[*Term]bool{}
		for _, p := range b.st.pc {
			has[p] = true
		}
		var nc []*Term
		for _, p := range common {
			if has[p] {
				nc = append(nc, p)
			}
		}
		common = nc
	}
	var out []func(k *Term) *Term
	for _, p := range common {
		p := p
		out = append(out, func(k *Term) *Term { return lc.atK(p, k) })
	}
	return out
}

// ---- supplied invariants

var metaRe = regexp.MustCompile(`^\$[a-z]+[0-9]*[a-z]?$`)

func metaVars(e *Expr, m map[string]bool) {
	if e == nil {
		return
	}
	if e.op == "id" && strings.HasPrefix(e.s, "$") && e.s != "$k" {
		m[e.s] = true
	}
	for _, a := range e.a {
		metaVars(a, m)
	}
}

// keyObj: the object a heap leaf belongs to.
func (lc *loopCtx) keyObj(fr *Frame, key string) *Obj {
	s := key[1:]
	if i := strings.IndexAny(s, ".#"); i >= 0 {
		s = s[:i]
	}
	id, _ := strconv.Atoi(s)
	return fr.st.heap[id]
}

// metaWidth: $w16x ranges over modified 16-bit scalars, $a16x over modified arrays of them
// allocated by this call.
func metaWidth(s string) int {
	s = strings.TrimLeft(s, "$was")
	s = strings.TrimRight(s, "abcdefghijklmnopqrstuvwxyz")
	n, _ := strconv.Atoi(s)
	return n
}

func (lc *loopCtx) makeCands(hd *Frame, init map[string]leaf) {
	x := lc.x
	if len(x.con.loops) == 0 {
		return
	}
	hl, order := lc.leaves(hd)
	byW, byA := map[int][]string{}, map[int][]string{}
	for _, key := range order {
		if lc.mod[key] && hl[key].kind == lTerm && (key[0] == 'p' || key[0] == 'h') {
			if key[0] == 'h' {
				if o := lc.keyObj(hd, key); o == nil || !o.fresh {
					continue
				}
			}
			byW[hl[key].t.w] = append(byW[hl[key].t.w], key)
		}
		if lc.mod[key] && hl[key].kind == lArr && key[0] == 'h' {
			if o := lc.keyObj(hd, key); o != nil && o.fresh {
				byA[hl[key].a.w] = append(byA[hl[key].a.w], key)
			}
		}
	}
	// $s8 ranges over the slices the loop uses but does not reassign
	byS := map[int][]string{}
	lc.svals = map[string]ssa.Value{}
	for _, b := range lc.l.header.Parent().Blocks {
		if !lc.l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				sv, ok := hd.env[*op].(*SliceV)
				if !ok || sv.obj == 0 || *op == nil {
					continue
				}
				if p, isPhi := (*op).(*ssa.Phi); isPhi && p.Block() == lc.l.header {
					continue
				}
				w, sc := elemWidth(sv.et)
				key := "s" + (*op).Name()
				if !sc || lc.svals[key] != nil {
					continue
				}
				lc.svals[key] = *op
				byS[w] = append(byS[w], key)
			}
		}
	}
	for _, cl := range x.con.loops {
		mv := map[string]bool{}
		metaVars(cl.e, mv)
		names := keys(mv)
		var rec func(i int, m map[string]string)
		rec = func(i int, m map[string]string) {
			if len(lc.cands) > 200 {
				return
			}
			if i == len(names) {
				mm := map[string]string{}
				for k, v := range m {
					mm[k] = v
				}
				cd := &cand{e: cl.e, meta: mm, src: cl.src}
				seen := map[string]bool{}
				for _, v := range mm {
					if seen[v] {
						return
					}
					seen[v] = true
				}
				if lc.holds(cd, lc.base, x.c.I(0)) {
					lc.cands = append(lc.cands, cd)
				} else if os.Getenv("GOVER_LOOP") != "" {
					fmt.Fprintf(os.Stderr, "%s: loop %s: not initially: %s %v\n", x.con.Name, lc.where, cd.src, mm)
				}
				return
			}
			by := byW
			if strings.HasPrefix(names[i], "$a") {
				by = byA
			} else if strings.HasPrefix(names[i], "$s") {
				by = byS
			}
			for _, key := range by[metaWidth(names[i])] {
				m[names[i]] = key
				rec(i+1, m)
			}
		}
		rec(0, map[string]string{})
	}
}

func (lc *loopCtx) ctx(cd *cand, fr *Frame, k *Term) *SpecCtx {
	x := lc.x
	sc := x.specCtx(x.con, x.fn.Signature, nil, x.args, x.pre)
	sc.post = fr.st
	sc.env["$k"] = SV{t: k}
	lv, _ := lc.leaves(fr)
	for m, key := range cd.meta {
		if sv := lc.svals[key]; sv != nil {
			n := *sc
			n.st = fr.st
			v := n.toSV(fr.env[sv], sv.Type())
			v.post = true
			sc.env[m] = v
			continue
		}
		if lv[key].kind == lArr {
			a := lv[key].a
			sc.env[m] = SV{s: &SeqV{arr: a, off: x.c.I(0), len: x.c.I(1 << 40), w: a.w}}
			continue
		}
		t := lv[key].t
		if t.w > 0 && t.w < 64 {
			t = t.Zext(64)
		}
		sc.env[m] = SV{t: t}
	}
	return sc
}

func (lc *loopCtx) holds(cd *cand, fr *Frame, k *Term) (ok bool) {
	x := lc.x
	defer func() {
		if r := recover(); r != nil {
			if u, is := r.(unsupported); is {
				if os.Getenv("GOVER_LOOP") != "" {
					fmt.Fprintf(os.Stderr, "%s: loop %s: %s: %s\n", x.con.Name, lc.where, cd.src, u.msg)
				}
				ok = false
				return
			}
			panic(r)
		}
	}()
	sc := lc.ctx(cd, fr, k)
	sc.skol = true
	return x.validExpr(sc, fr.st, cd.e)
}

func (x *Exec) validExpr(sc *SpecCtx, st *State, e *Expr) bool {
	if e.op == "bin" && e.s == "&&" {
		return x.validExpr(sc, st, e.a[0]) && x.validExpr(sc, st, e.a[1])
	}
	return x.valid(st, sc.boolv(e))
}

// covers notes the leaves that a supplied equation determines.
func (lc *loopCtx) covers(sc *SpecCtx, cd *cand, fr *Frame) {
	e := cd.e
	for e.op == "bin" && e.s == "==>" {
		e = e.a[1]
	}
	if e.op != "bin" || (e.s != "==" && e.s != "=~") {
		return
	}
	defer func() { recover() }()
	for _, side := range e.a {
		if side.op == "id" {
			if key, ok := cd.meta[side.s]; ok {
				lc.cover[key] = true
			}
			continue
		}
		if side.op != "call" || side.s != "new" {
			continue
		}
		v := sc.eval(side)
		lv, order := lc.leaves(fr)
		for _, key := range order {
			l := lv[key]
			if v.t != nil && l.kind == lTerm && (l.t == v.t || l.t.w > 0 && l.t.w < 64 && l.t.Zext(64) == v.t) {
				lc.cover[key] = true
			}
			if v.s != nil && l.kind == lArr && l.a == v.s.arr {
				lc.cover[key] = true
			}
			if v.s != nil && l.kind == lTerm && l.t == v.s.len {
				lc.cover[key] = true
			}
			if v.m != nil && l.kind == lArr && (l.a == v.m.dom || l.a == v.m.val) {
				lc.cover[key] = true
			}
		}
	}
}

func (x *Exec) applyCands(lc *loopCtx, fr *Frame) {
	lc.cover = map[string]bool{}
	for _, cd := range lc.active() {
		lc.covers(lc.ctx(cd, fr, lc.k), cd, fr)
	}
	for _, cd := range lc.active() {
		sc := lc.ctx(cd, fr, lc.k)
		if !x.defLoop(lc, sc, fr, cd) {
			x.assumeExpr(sc, fr.st, cd.e)
		}
	}
}

// restKept: at the back edge, memory around the described slice is as it was before the loop.
func (lc *loopCtx) restKept(cd *cand, fr *Frame) (ok bool) {
	x := lc.x
	e := cd.e
	if cd.noframe || e.op != "bin" || e.s != "=~" || e.a[0].op != "call" || e.a[0].s != "new" {
		return true
	}
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsupported); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	l := lc.ctx(cd, fr, lc.k).eval(e.a[0])
	sl, is := l.v.(*SliceV)
	if !is || sl.obj == 0 || len(sl.path) > 0 {
		return true
	}
	b, f := lc.base.st.heap[sl.obj], fr.st.heap[sl.obj]
	if b == nil || f == nil {
		return false
	}
	ba, ok1 := b.val.(*ArrV)
	fa, ok2 := f.val.(*ArrV)
	if !ok1 || !ok2 {
		return false
	}
	i := x.c.Fresh("sk_rest", 64)
	in := sl.off.Ule(i).And(i.Sub(sl.off).Ult(sl.len))
	return x.valid(fr.st, in.Or(fa.arr.Sel(i).Eq(ba.arr.Sel(i))))
}

// defLoop turns  new(seq) =~ rhs  into a definition of the loop-head contents.
func (x *Exec) defLoop(lc *loopCtx, sc *SpecCtx, fr *Frame, cd *cand) bool {
	e := cd.e
	if e.op != "bin" || e.s != "=~" || e.a[0].op != "call" || e.a[0].s != "new" {
		return false
	}
	l := sc.eval(e.a[0])
	sl, ok := l.v.(*SliceV)
	if !ok || sl.obj == 0 || len(sl.path) > 0 || l.s == nil || l.s.arr == nil || l.s.arr.k != ABase || !strings.HasPrefix(l.s.arr.name, "loop.") {
		return false
	}
	if strings.Contains(e.a[1].str(), "new") {
		return false
	}
	q := sc.seqv(e.a[1])
	if q.arr.w != l.s.arr.w {
		return false
	}
	old := l.s.arr
	fr.st.assume(sl.len.Eq(q.len))
	off, n := sl.off, sl.len
	if b := lc.base.st.heap[sl.obj]; b != nil && !cd.noframe {
		if av, ok := b.val.(*ArrV); ok {
			old = av.arr
		}
	}
	arr := old.overlay(off, n, q)
	av := x.sliceArr(fr.st, sl)
	fr.st.setVal(sl.obj, &ArrV{arr: arr, n: av.n, et: av.et})
	return true
}
