package main

// Calls: builtins, interface and function values, contracts, inlining.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func ok1(st *State, v Value) []Outcome { return []Outcome{{st: st, val: v}} }

func (x *Exec) callInstr(e *explo, fr *Frame, cc *ssa.CallCommon, pos token.Pos) []Outcome {
	var fv Value
	if _, isB := cc.Value.(*ssa.Builtin); !isB {
		fv = x.eval(fr, cc.Value)
	}
	args := make([]Value, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = x.eval(fr, a)
	}
	var outs []Outcome
	for _, o := range x.callValue(fr.st, cc, fv, args, pos) {
		if !o.pan {
			outs = append(outs, o)
			continue
		}
		f2 := fr.clone()
		f2.st = o.st
		x.raise(e, f2, o.val, o.desc)
	}
	return outs
}

func (x *Exec) callValue(st *State, cc *ssa.CallCommon, fv Value, args []Value, pos token.Pos) []Outcome {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return x.builtin(st, b, cc, args, pos)
	}
	if cc.IsInvoke() {
		iv, ok := fv.(*IfaceV)
		if !ok {
			unsup("method call on %T", fv)
		}
		return x.invoke(st, iv, cc.Value.Type(), cc.Method, args, pos)
	}
	f, ok := fv.(*FuncV)
	if !ok {
		unsup("call of %T", fv)
	}
	return x.callFunc(st, f, args, pos)
}

func (x *Exec) nilPanic(st *State, what string, pos token.Pos) Outcome {
	return Outcome{st: st, pan: true, val: &OpaqueV{n: "runtime error"}, desc: what + " at " + x.pos(pos)}
}

// split tests a runtime condition: panic outcomes are appended to outs, and
// the returned state (nil if impossible) continues under ok.
func (x *Exec) split(st *State, ok *Term, desc string, pos token.Pos, outs *[]Outcome) *State {
	label := desc + " at " + x.pos(pos)
	if ok.IsTrue() || !x.feasible(st, ok.Not()) {
		x.count(st, "nopanic", label)
		st.assume(ok)
		return st
	}
	s2 := st.clone()
	s2.assume(ok.Not())
	*outs = append(*outs, Outcome{st: s2, pan: true, val: &OpaqueV{n: "runtime error"}, desc: label})
	if !x.feasible(st, ok) {
		return nil
	}
	st.assume(ok)
	return st
}

func (x *Exec) callFunc(st *State, f *FuncV, args []Value, pos token.Pos) []Outcome {
	if f.fn != nil {
		return x.callStatic(st, f.fn, args, f.binds, pos)
	}
	var outs []Outcome
	st = x.split(st, f.id.Ne(x.c.I(0)), "call of nil function", pos, &outs)
	if st == nil {
		return outs
	}
	if n, ok := f.t.(*types.Named); ok {
		if con := x.p.spec.cons[n.Obj().Name()]; con != nil && con.kind == "callback" {
			return append(outs, x.applyContract(st, con, n.Underlying().(*types.Signature), f, args, pos)...)
		}
	}
	unsup("call of an unknown function of type %s", f.t)
	return nil
}

func (x *Exec) invoke(st *State, iv *IfaceV, it types.Type, m *types.Func, args []Value, pos token.Pos) []Outcome {
	if iv.con != nil {
		fn := x.p.method(iv.con, m)
		if fn == nil {
			if o := x.ifaceNative(st, iv, it, m, args, pos); o != nil {
				return o
			}
			unsup("method %s of %s", m.Name(), iv.con)
		}
		return x.callStatic(st, fn, append([]Value{iv.val}, args...), nil, pos)
	}
	var outs []Outcome
	st = x.split(st, iv.id.Ne(x.c.I(0)), "nil pointer dereference", pos, &outs)
	if st == nil {
		return outs
	}
	if n, ok := it.(*types.Named); ok {
		// the interface that declares the method may be embedded
		for _, nm := range []string{n.Obj().Name() + "." + m.Name(), "*." + m.Name()} {
			if con := x.p.spec.cons[nm]; con != nil && con.kind == "iface" && (n.Obj().Pkg() == x.p.tpkg) {
				return append(outs, x.applyContract(st, con, m.Type().(*types.Signature), iv, args, pos)...)
			}
		}
	}
	if o := x.ifaceNative(st, iv, it, m, args, pos); o != nil {
		return append(outs, o...)
	}
	unsup("method %s of an unknown %s", m.Name(), it)
	return nil
}

func (p *Prog) method(t types.Type, m *types.Func) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	sel := p.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

func (x *Exec) contractOf(fn *ssa.Function) *Contract {
	if x.initing || !x.p.inRepo(fn) || fn.Synthetic != "" {
		return nil
	}
	n := shortName(fn)
	if c := x.p.spec.cons[n]; c != nil {
		return c
	}
	if strings.HasPrefix(n, "(*") {
		return x.p.spec.cons["("+n[2:]]
	}
	if strings.HasPrefix(n, "(") {
		return x.p.spec.cons["(*"+n[1:]]
	}
	return nil
}

func (x *Exec) callStatic(st *State, fn *ssa.Function, args []Value, binds []Value, pos token.Pos) []Outcome {
	name := fn.String()
	if nat, ok := natives[name]; ok && !x.p.inRepo(fn) || ok && fn.Synthetic == "" && fn.Pkg != x.p.pkg {
		x.trust[name] = true
		return nat(x, st, fn, args, pos)
	}
	if x.p.inRepo(fn) {
		if con := x.contractOf(fn); con != nil && !con.inline && !x.con.unfold[shortName(fn)] && len(binds) == 0 && con.kind == "func" {
			return x.applyContract(st, con, fn.Signature, nil, args, pos)
		}
		if len(fn.Blocks) > 0 {
			x.inl[shortName(fn)] = true
			return mergeOuts(x, x.run(fn, args, binds, st))
		}
	}
	if fn.Name() == "init" && fn.Signature.Recv() == nil {
		return ok1(st, &TupleV{})
	}
	if o := x.genericNative(st, fn, args, pos); o != nil {
		x.trust[name] = true
		return o
	}
	unsup("external function %s", name)
	return nil
}

// ---- builtins

func (x *Exec) builtin(st *State, b *ssa.Builtin, cc *ssa.CallCommon, args []Value, pos token.Pos) []Outcome {
	c := x.c
	switch b.Name() {
	case "close":
		x.note("that the channel closed at %s was not closed before is assumed", x.pos(pos))
		return ok1(st, &TupleV{})
	case "len", "cap":
		switch v := args[0].(type) {
		case *SliceV:
			if b.Name() == "cap" {
				return ok1(st, v.cap)
			}
			return ok1(st, v.len)
		case *StrV:
			return ok1(st, v.len)
		case *ArrV:
			return ok1(st, c.I(v.n))
		case *VArr:
			return ok1(st, c.I(int64(len(v.e))))
		case *PtrV:
			return ok1(st, c.I(v.et.Underlying().(*types.Array).Len()))
		}
		unsup("%s of %T", b.Name(), args[0])
	case "append":
		return x.appendOp(st, args[0].(*SliceV), args[1], pos)
	case "copy":
		d := args[0].(*SliceV)
		n, src := x.seqArg(st, args[1], pos)
		m := c.Ite(d.len.Ule(n), d.len, n)
		if x.valid(st, n.Ule(d.len)) {
			m = n
		} else if x.valid(st, d.len.Ule(n)) {
			m = d.len
		}
		if d.obj != 0 && !(m.IsConst() && m.val == 0) {
			x.accessObj(st, d.obj, true, pos)
			x.writeSlice(st, d, x.sliceArr(st, d).arr.CopyIn(d.off, m, src))
		}
		return ok1(st, m)
	case "recover":
		if st.pan == nil || st.pan.recovered {
			return ok1(st, &IfaceV{id: c.I(0)})
		}
		v := st.pan.val
		p := *st.pan
		p.recovered = true
		st.pan = &p
		if iv, ok := v.(*IfaceV); ok {
			return ok1(st, iv)
		}
		id := c.Fresh("recovered", 64)
		st.assume(id.Ne(c.I(0)))
		return ok1(st, &IfaceV{id: id})
	case "delete":
		m := args[0].(*MapRef)
		if m.obj != 0 {
			mv := st.heap[m.obj].val.(*MapV)
			k := ext64(tterm(args[1]), mv.kt)
			st.setVal(m.obj, &MapV{dom: mv.dom.Store(k, c.BV(1, 0)), val: mv.val, kt: mv.kt, vt: mv.vt})
		}
		return ok1(st, nil)
	case "print", "println":
		return ok1(st, nil)
	case "min", "max":
		r := tterm(args[0])
		_, sg, _ := scalar(cc.Args[0].Type())
		for _, a := range args[1:] {
			t := tterm(a)
			l := lt(t, r, sg)
			if b.Name() == "max" {
				l = lt(r, t, sg)
			}
			r = c.Ite(l, t, r)
		}
		return ok1(st, r)
	case "ssa:wrapnilchk":
		p := args[0].(*PtrV)
		var outs []Outcome
		if p.obj == 0 {
			return []Outcome{x.nilPanic(st, "nil pointer dereference", pos)}
		}
		if p.obj == -1 {
			if st = x.split(st, p.ref.Ne(c.I(0)), "nil pointer dereference", pos, &outs); st == nil {
				return outs
			}
		}
		return append(outs, Outcome{st: st, val: p})
	}
	unsup("builtin %s", b.Name())
	return nil
}

// seqArg: length and reader of a slice or string argument (in the present state).
func (x *Exec) seqArg(st *State, v Value, pos token.Pos) (*Term, func(j *Term) *Term) {
	switch v := v.(type) {
	case *SliceV:
		if v.obj == 0 {
			w, _ := elemWidth(v.et)
			return x.c.I(0), func(*Term) *Term { return x.c.BV(w, 0) }
		}
		x.accessObj(st, v.obj, false, pos)
		arr, off := x.sliceArr(st, v).arr, v.off
		return v.len, func(j *Term) *Term { return arr.Sel(off.Add(j)) }
	case *StrV:
		return v.len, func(j *Term) *Term { return v.arr.Sel(v.off.Add(j)) }
	}
	unsup("sequence %T", v)
	return nil, nil
}

// writeSlice stores new backing contents.
func (x *Exec) writeSlice(st *State, s *SliceV, a *Arr) {
	x.aliasWrite(st, s.obj)
	x.setSliceArr(st, s, a)
}

// aliasWrite: memory that a contract allows to be shared must not be written while both views are in use.
func (x *Exec) aliasWrite(st *State, obj int) {
	o := st.heap[obj]
	if len(o.alias) > 0 {
		unsup("write to memory a result may share (%s)", o.name)
	}
	for _, q := range st.heap {
		for _, a := range q.alias {
			if a == obj && !q.gone {
				unsup("write to memory shared with %s", q.name)
			}
		}
	}
}

func (x *Exec) appendOp(st *State, s *SliceV, more Value, pos token.Pos) []Outcome {
	c := x.c
	n, src := x.seqArg(st, more, pos)
	if n.IsConst() && n.val == 0 {
		return ok1(st, s)
	}
	if _, sc := elemWidth(s.et); !sc {
		if s.obj != 0 {
			if _, ok := st.heap[s.obj].val.(*ArrV); !ok {
				unsup("append to []%s", s.et)
			}
		} else if _, isS := s.et.Underlying().(*types.Struct); isS {
			unsup("append to []%s", s.et)
		}
	}
	nl := s.len.Add(n)
	fits := nl.Ule(s.cap)
	if s.obj == 0 {
		fits = c.False
	}
	inPlace := func(st *State, cp *Term) Outcome {
		x.accessObj(st, s.obj, true, pos)
		x.writeSlice(st, s, x.sliceArr(st, s).arr.CopyIn(s.off.Add(s.len), n, src))
		return Outcome{st: st, val: &SliceV{obj: s.obj, path: s.path, off: s.off, len: nl, cap: cp, isnil: c.False, et: s.et}}
	}
	grow := func(st *State) Outcome {
		w, _ := elemWidth(s.et)
		arr := c.AConst(c.BV(w, 0))
		if s.obj != 0 {
			x.accessObj(st, s.obj, false, pos)
			old := x.sliceArr(st, s).arr
			if s.off.IsConst() && s.off.val == 0 {
				arr = old
			} else {
				arr = arr.CopyIn(c.I(0), s.len, func(j *Term) *Term { return old.Sel(s.off.Add(j)) })
			}
		}
		arr = arr.CopyIn(s.len, n, src)
		o := st.newObj(types.NewArray(s.et, -1), &ArrV{arr: arr, n: -1, et: s.et}, "append", true)
		return Outcome{st: st, val: &SliceV{obj: o.id, off: c.I(0), len: nl, cap: nl.Add(c.Len("growcap")), isnil: c.False, et: s.et}}
	}
	if fits.IsTrue() || (!fits.IsFalse() && x.valid(st, fits)) {
		st.assume(fits)
		return []Outcome{inPlace(st, s.cap)}
	}
	if fits.IsFalse() || !x.feasible(st, fits) {
		st.assume(fits.Not())
		if x.inLoop > 0 && s.obj != 0 && st.heap[s.obj].fresh {
			return []Outcome{inPlace(st, nl.Add(c.Len("growcap")))}
		}
		if n.IsConst() || s.obj != 0 {
			return []Outcome{grow(st)}
		}
		// appending nothing to a nil slice leaves it nil
		s2 := st.clone()
		s2.assume(n.Eq(c.I(0)))
		st.assume(n.Ne(c.I(0)))
		outs := []Outcome{grow(st)}
		if x.feasible(s2, c.True) && !s2.inconsistent() {
			outs = append(outs, Outcome{st: s2, val: s})
		}
		return outs
	}
	if x.optim {
		x.optUsed = true
		st.assume(fits)
		return []Outcome{inPlace(st, s.cap)}
	}
	if x.inLoop > 0 && st.heap[s.obj].fresh {
		x.note("append in a loop to a slice allocated by the same call: growth is modelled as extension in place")
		cp := s.cap.Add(c.Len("growcap"))
		st.assume(nl.Ule(cp))
		return []Outcome{inPlace(st, cp)}
	}
	s2 := st.clone()
	st.assume(fits)
	s2.assume(fits.Not())
	return []Outcome{inPlace(st, s.cap), grow(s2)}
}

// ---- type assertions

func (x *Exec) typeAssert(e *explo, fr *Frame, in *ssa.TypeAssert) []Outcome {
	st := fr.st
	c := x.c
	iv, ok := x.eval(fr, in.X).(*IfaceV)
	if !ok {
		unsup("type assertion on %T", x.eval(fr, in.X))
	}
	T := in.AssertedType
	_, toI := T.Underlying().(*types.Interface)
	res := func(st *State, v Value, ok bool) Outcome {
		if in.CommaOk {
			return Outcome{st: st, val: &TupleV{vs: []Value{v, c.Bool(ok)}}}
		}
		return Outcome{st: st, val: v}
	}
	var cond *Term
	var v Value
	if iv.con != nil {
		var is bool
		if toI {
			is = types.Implements(iv.con, T.Underlying().(*types.Interface))
			v = iv
		} else {
			is = types.Identical(iv.con, T)
			v = iv.val
		}
		cond = c.Bool(is)
	} else if iv.id.IsConst() && iv.id.val == 0 {
		cond = c.False
	} else if toI {
		cond = iv.id.Ne(c.I(0)).And(c.App("impl:"+typeName(T), 0, iv.id))
		if types.Identical(T, types.Universe.Lookup("error").Type()) && types.Implements(in.X.Type(), T.Underlying().(*types.Interface)) {
			cond = iv.id.Ne(c.I(0))
		}
		v = iv
	} else {
		cond = iv.id.Ne(c.I(0)).And(c.App("dyntype:"+typeName(T), 0, iv.id))
		if p, ok := T.Underlying().(*types.Pointer); ok {
			v = x.decode(st, c.App("dynptr", 64, iv.id), T)
			_ = p
		} else if w, _, ok := scalar(T); ok {
			v = c.App("dynval:"+typeName(T), w, iv.id)
		} else {
			unsup("type assertion to %s", T)
		}
	}
	t, f := x.mayGo(st, cond), x.mayGo(st, cond.Not())
	var outs []Outcome
	if f {
		s2 := st
		if t {
			s2 = st.clone()
		}
		s2.assume(cond.Not())
		if in.CommaOk {
			outs = append(outs, res(s2, s2.zero(T), false))
		} else {
			f2 := fr.clone()
			f2.st = s2
			x.raise(e, f2, &OpaqueV{n: "runtime error"}, "type assertion fails at "+x.pos(in.Pos()))
		}
	}
	if t {
		st.assume(cond)
		outs = append(outs, res(st, v, true))
	}
	return outs
}

// ---- contracts at call sites

func (x *Exec) specCtx(con *Contract, sig *types.Signature, recv Value, args []Value, pre *State) *SpecCtx {
	sc := &SpecCtx{x: x, st: pre, pre: pre, env: map[string]SV{}, con: con, lets: map[string]*Expr{}}
	ps := con.params
	i := 0
	bind := func(t types.Type, v Value) {
		if i < len(ps) {
			sc.env[ps[i]] = sc.toSV(v, t)
		}
		i++
	}
	if con.kind == "func" {
		k := 0
		if sig.Recv() != nil {
			bind(sig.Recv().Type(), args[0])
			k = 1
		}
		for j := 0; j < sig.Params().Len() && k < len(args); j++ {
			bind(sig.Params().At(j).Type(), args[k])
			k++
		}
	} else {
		for j := 0; j < sig.Params().Len(); j++ {
			bind(sig.Params().At(j).Type(), args[j])
		}
		if recv != nil {
			sc.env["self"] = SV{v: recv}
		}
	}
	if len(ps) != i {
		unsup("contract %s names %d parameters, the code has %d", con.Name, len(ps), i)
	}
	for _, l := range con.lets {
		sc.lets[l.label] = l.e
	}
	return sc
}

func (sc *SpecCtx) bindResults(sig *types.Signature, vals []Value, post *State) {
	sc.post = post
	if len(sc.con.results) != sig.Results().Len() {
		unsup("contract %s names %d results, the code has %d", sc.con.Name, len(sc.con.results), sig.Results().Len())
	}
	for i, r := range sc.con.results {
		n := *sc
		n.st = post
		v := n.toSV(vals[i], sig.Results().At(i).Type())
		v.post = true
		sc.env[r] = v
	}
}

func resultVals(sig *types.Signature, v Value) []Value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return []Value{v}
	}
	return v.(*TupleV).vs
}

func (x *Exec) applyContract(st *State, con *Contract, sig *types.Signature, recv Value, args []Value, pos token.Pos) []Outcome {
	c := x.c
	x.used[con.Name] = true
	where := con.Name + " called at " + x.pos(pos)
	var outs []Outcome
	// a nil receiver or argument pointer is met by the callee's requires
	pre := st.clone()
	sc := x.specCtx(con, sig, recv, args, pre)
	sc.skol = true
	for _, r := range con.requires {
		g := sc.boolv(r.e)
		if x.probe == 0 && !x.prove(st, g, "requires", where+" requires "+r.src, []string{"dep"}) {
			x.note("precondition of %s assumed after failing", con.Name)
		}
		x.assumeExpr(sc, st, r.e)
	}
	for _, r := range con.obliges {
		if x.probe > 0 || x.want != nil && !x.want(r.tags) {
			continue
		}
		x.proveExprK(sc, st, r.e, "obliges", where+" obliges "+r.src, r.tags)
	}
	for _, g := range con.ticks {
		if t, ok := st.ghost[g].(*Term); ok {
			st.ghost[g] = t.AddC(1)
		}
	}
	for _, l := range con.holds {
		lv := x.lockOf(sc, l)
		x.proveFlag(st, lv != nil && lv.w > 0, "locks", where+": "+l.src+" is held", "locks")
	}
	for _, l := range append(append([]*Expr(nil), con.locks...), con.takes...) {
		p, _ := sc.place(l)
		p = x.resolve(st, p)
		lv, ok := getPath(x, st, st.heap[p.obj].val, p.path).(*LockV)
		if !ok {
			unsup("%s is not a lock", l.src)
		}
		x.proveFlag(st, lv.w == 0 && lv.r == 0, "locks", where+": "+l.src+" is free (else the call never returns)", "locks")
		n := *lv
		n.acq++
		st.setVal(p.obj, setPath(x, st, st.heap[p.obj].val, p.path, &n))
	}
	neg := c.True
	cases := con.cases
	if len(cases) == 0 {
		cases = []*Case{{name: ""}}
	}
	type pend struct {
		k  *Case
		st *State
	}
	var ps []pend
	for _, k := range cases {
		cond := c.True
		if k.cond != nil {
			cond = sc.boolv(k.cond)
		}
		full := neg.And(cond)
		neg = neg.And(cond.Not())
		if full.IsFalse() || !x.feasible(st, full) {
			continue
		}
		s2 := st.clone()
		s2.assume(full)
		ps = append(ps, pend{k, s2})
	}
	for _, p := range ps {
		if con.kinds["maypanic"] != nil {
			s3 := p.st.clone()
			x.havocMods(sc, s3, con)
			if len(ps) > 0 {
				for _, cl := range con.panics {
					n := *sc
					n.post = s3
					x.applyClause(&n, s3, cl.e, nil, nil)
				}
			}
			outs = append(outs, Outcome{st: s3, pan: true, val: &OpaqueV{n: "panic of the callback"}, desc: "callback panics"})
		}
		outs = append(outs, x.applyCase(sc, p.st, con, sig, p.k, args)...)
	}
	return outs
}

func (x *Exec) havocMods(sc *SpecCtx, st *State, con *Contract) {
	for _, m := range con.modifies {
		x.havocPlace(sc, st, m)
	}
	if con.iohavoc {
		x.ioHavoc(st)
	}
}

func (x *Exec) applyCase(sc0 *SpecCtx, st *State, con *Contract, sig *types.Signature, k *Case, args []Value) []Outcome {
	c := x.c
	x.havocMods(sc0, st, con)
	// results
	type alt struct {
		st *State
		vs []Value
	}
	alts := []alt{{st: st}}
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		rn := fmt.Sprintf("r%d", i)
		if i < len(con.results) {
			rn = con.results[i]
		}
		var next []alt
		for _, a := range alts {
			if sl, isS := t.Underlying().(*types.Slice); isS && con.forkAlias[rn] {
				for _, pn := range con.alias[rn] {
					s2 := a.st.clone()
					e, err := parseExpr(pn)
					if err != nil {
						unsup("alias %s", pn)
					}
					ps, ok := sc0.eval(e).v.(*SliceV)
					if !ok || ps.obj == 0 {
						continue
					}
					off, ln := c.Len("aoff"), c.Len("alen")
					s2.assume(off.Add(ln).Ule(ps.cap))
					next = append(next, alt{s2, append(a.vs[:len(a.vs):len(a.vs)], &SliceV{obj: ps.obj, path: ps.path, off: ps.off.Add(off), len: ln, cap: ps.cap.Sub(off), isnil: c.False, et: sl.Elem()})})
				}
			}
			v := a.st.symbolic(t, con.Name+"."+rn, true)
			x.freshen(a.st, v)
			if sv, ok := v.(*SliceV); ok && !con.forkAlias[rn] {
				for _, pn := range con.alias[rn] {
					e, err := parseExpr(pn)
					if err != nil {
						unsup("alias %s", pn)
					}
					if ps, ok := sc0.eval(e).v.(*SliceV); ok && ps.obj != 0 {
						o := *a.st.heap[sv.obj]
						o.alias = append(o.alias[:len(o.alias):len(o.alias)], ps.obj)
						a.st.heap[sv.obj] = &o
					}
				}
			}
			next = append(next, alt{a.st, append(a.vs[:len(a.vs):len(a.vs)], v)})
		}
		alts = next
	}
	var outs []Outcome
	for _, a := range alts {
		sc := sc0.clone()
		sc.skol = false
		sc.post = a.st
		vs := append([]Value(nil), a.vs...)
		idx := map[string]int{}
		for i, r := range con.results {
			idx[r] = i
		}
		sc.bindResults(sig, vs, a.st)
		set := func(i int, v Value) {
			vs[i] = v
			sc.bindResults(sig, vs, a.st)
		}
		var cls []*Clause
		cls = append(cls, con.always.cls...)
		cls = append(cls, k.cls...)
		var rest []*Clause
		for _, cl := range cls {
			if !x.defClause(sc, a.st, cl.e, idx, vs, sig, set) {
				rest = append(rest, cl)
			}
		}
		for _, cl := range rest {
			x.assumeExpr(sc, a.st, cl.e)
		}
		if a.st.inconsistent() {
			continue
		}
		var v Value
		switch len(vs) {
		case 0:
			v = &TupleV{}
		case 1:
			v = vs[0]
		default:
			v = &TupleV{vs: vs}
		}
		outs = append(outs, Outcome{st: a.st, val: v})
	}
	return outs
}

// freshen marks everything reachable in a new value as allocated during the call.
func (x *Exec) freshen(st *State, v Value) {
	mark := func(id int) bool {
		if o := st.heap[id]; o != nil && !o.fresh {
			n := *o
			n.fresh = true
			st.heap[id] = &n
			return true
		}
		return false
	}
	switch v := v.(type) {
	case *SliceV:
		if v.obj > 0 {
			mark(v.obj)
		}
	case *PtrV:
		if v.obj > 0 && mark(v.obj) {
			x.freshen(st, st.heap[v.obj].val)
		}
	case *StructV:
		for _, f := range v.f {
			x.freshen(st, f)
		}
	}
}

// applyClause: definitional or assumed, for clauses without results.
func (x *Exec) applyClause(sc *SpecCtx, st *State, e *Expr, idx map[string]int, vs []Value) {
	if !x.defClause(sc, st, e, idx, vs, nil, nil) {
		x.assumeExpr(sc, st, e)
	}
}

// defClause recognises clauses that determine a result or a modified location
// and installs the value instead of assuming an equation.
func (x *Exec) defClause(sc *SpecCtx, st *State, e *Expr, idx map[string]int, vs []Value, sig *types.Signature, set func(int, Value)) bool {
	c := x.c
	if e.op == "bin" && e.s == "&&" {
		a := x.defClause(sc, st, e.a[0], idx, vs, sig, set)
		if !a {
			x.assumeExpr(sc, st, e.a[0])
		}
		if !x.defClause(sc, st, e.a[1], idx, vs, sig, set) {
			x.assumeExpr(sc, st, e.a[1])
		}
		return true
	}
	if e.op == "call" && e.s == "isnil" && len(e.a) == 1 {
		return x.defClause(sc, st, &Expr{op: "bin", s: "==", a: []*Expr{e.a[0], {op: "id", s: "nil"}}}, idx, vs, sig, set)
	}
	if e.op == "call" && e.s == "exc" && len(e.a) == 2 && e.a[0].op == "id" {
		if i, ok := idx[e.a[0].s]; ok {
			code := sc.intv(e.a[1]).Extract(7, 0)
			set(i, x.newExc(st, code))
			return true
		}
		return false
	}
	if e.op != "bin" || (e.s != "=~" && e.s != "==") {
		return false
	}
	l, r := e.a[0], e.a[1]
	if l.op == "id" {
		i, ok := idx[l.s]
		if !ok {
			return false
		}
		if e.s == "=~" {
			sl, isS := vs[i].(*SliceV)
			if !isS {
				return false
			}
			q := sc.seqv(r)
			if sl.obj == 0 {
				return false
			}
			arr := q.arr
			if !(q.off.IsConst() && q.off.val == 0) {
				arr = arr.shift(q.off)
			}
			av := x.sliceArr(st, sl)
			if arr.w != av.arr.w {
				unsup("element widths in %s", e.src)
			}
			st.setVal(sl.obj, &ArrV{arr: arr, n: av.n, et: av.et})
			xc := c.Len("xcap")
			set(i, &SliceV{obj: sl.obj, off: c.I(0), len: q.len, cap: q.len.Add(xc), isnil: sl.isnil, et: sl.et})
			st.assume(sl.isnil.Implies(q.len.Eq(c.I(0))))
			return true
		}
		if r.op == "id" && r.s == "nil" {
			t := sig.Results().At(i).Type()
			set(i, st.zero(t))
			return true
		}
		rv := sc.eval(r)
		switch v := vs[i].(type) {
		case *Term:
			if rv.t != nil && rv.t.w >= v.w {
				if v.w == 0 || v.w == rv.t.w {
					set(i, rv.t)
				} else {
					// the value must fit the result type
					t := rv.t.Extract(v.w-1, 0)
					_, sg, _ := scalar(sig.Results().At(i).Type())
					st.assume(t.Resize(64, sg).Eq(rv.t))
					set(i, t)
				}
				return true
			}
		case *PtrV, *IfaceV, *FuncV, *MapRef, *SliceV, *StrV:
			if rv.v != nil {
				set(i, rv.v)
				return true
			}
		}
		return false
	}
	if l.op == "call" && l.s == "new" {
		loc := l.a[0]
		if loc.op == "field" && loc.a[0].op == "id" && loc.a[0].s == "g" {
			cur := st.ghost[loc.s]
			rv := sc.eval(r)
			if e.s == "=~" {
				q := sc.seqv(r)
				arr := q.arr
				if !(q.off.IsConst() && q.off.val == 0) {
					arr = arr.shift(q.off)
				}
				st.ghost[loc.s] = &BufV{arr: arr, len: q.len}
				return true
			}
			switch cur.(type) {
			case *Term:
				if rv.t != nil {
					st.ghost[loc.s] = rv.t
					return true
				}
			default:
				if rv.t != nil {
					st.ghost[loc.s] = rv.t
					return true
				}
				if rv.v != nil {
					st.ghost[loc.s] = rv.v
					return true
				}
			}
			return false
		}
		n := *sc
		n.st = st
		if e.s == "=~" {
			cv := n.eval(loc)
			if cv.m != nil {
				rv := sc.eval(r)
				if rv.m == nil {
					return false
				}
				switch mv := cv.v.(type) {
				case *MapRef:
					o := st.heap[mv.obj].val.(*MapV)
					st.setVal(mv.obj, &MapV{dom: rv.m.dom, val: rv.m.val, kt: o.kt, vt: o.vt})
					return true
				case *SyncMapV:
					p, _ := n.place(loc)
					x.storeRaw(st, p, &SyncMapV{dom: rv.m.dom, val: rv.m.val})
					return true
				}
				return false
			}
			sl, ok := cv.v.(*SliceV)
			if !ok || sl.obj == 0 {
				return false
			}
			q := sc.seqv(r)
			old := x.sliceArr(st, sl)
			pre := sc.pre
			base := old.arr
			if po := pre.heap[sl.obj]; po != nil {
				base = x.sliceArr(pre, sl).arr // elements outside the slice keep their value
			}
			st.assume(q.len.Eq(sl.len))
			arr := base.overlay(sl.off, sl.len, q)
			x.setSliceArr(st, sl, arr)
			return true
		}
		p, t := n.place(loc)
		rv := sc.eval(r)
		if r.op == "id" && r.s == "nil" {
			x.storeRaw(st, p, st.zero(t))
			return true
		}
		if w, _, ok := scalar(t); ok && rv.t != nil {
			v := rv.t
			if w != 0 && w < 64 {
				v = v.Extract(w-1, 0)
			}
			x.storeRaw(st, p, v)
			return true
		}
		if rv.v != nil {
			x.storeRaw(st, p, rv.v)
			return true
		}
	}
	return false
}

func (x *Exec) storeRaw(st *State, p *PtrV, v Value) {
	p = x.resolve(st, p)
	st.setVal(p.obj, setPath(x, st, st.heap[p.obj].val, p.path, v))
}

// assumeExpr adds a clause as a fact (quantified facts become instantiable).
func (x *Exec) assumeExpr(sc *SpecCtx, st *State, e *Expr) {
	c := x.c
	sc2 := sc.clone()
	sc2.skol = false
	switch {
	case e.op == "bin" && e.s == "&&":
		x.assumeExpr(sc, st, e.a[0])
		x.assumeExpr(sc, st, e.a[1])
		return
	case e.op == "all":
		lo, hi := sc2.intv(e.a[0]), sc2.intv(e.a[1])
		f := func(i *Term) *Term {
			n := sc2.clone()
			n.env[e.s] = SV{t: i}
			return n.boolv(e.a[2])
		}
		st.quants = append(st.quants, &Quant{name: e.src, lo: lo, hi: hi, f: f})
		// it is also useful where an array it speaks about is read at variable + offset
		v := c.Fresh("trigger", 64)
		offs := map[*Term]bool{}
		f(v).walk(map[*Term]bool{}, func(t *Term) {
			if t.op != OApp || len(t.args) != 1 || t.args[0].w != 64 {
				return
			}
			d := t.args[0].Sub(v)
			if d.IsConst() && d.val == 0 || offs[d] || len(offs) > 3 {
				return
			}
			dep := false
			d.walk(map[*Term]bool{}, func(u *Term) { dep = dep || u == v })
			if !dep {
				offs[d] = true
				st.quants = append(st.quants, &Quant{name: e.src, lo: lo, hi: hi, off: d, f: f})
			}
		})
		return
	case e.op == "some":
		w := c.Fresh("wit_"+e.s, 40).Zext(64)
		n := sc2.clone()
		n.env[e.s] = SV{t: w}
		st.assume(c.And(sc2.intv(e.a[0]).Sle(w), w.Slt(sc2.intv(e.a[1]))))
		x.assumeExpr(n, st, e.a[2])
		return
	case e.op == "call" && x.p.spec.macros[e.s] != nil && hasQuant(x.p.spec.macros[e.s].e):
		m := x.p.spec.macros[e.s]
		n := sc2.clone()
		if len(m.args) != len(e.a) {
			sc.fail("%s takes %d arguments", m.name, len(m.args))
		}
		for i, a := range e.a {
			n.env[m.args[i]] = sc2.evalArg(a)
		}
		x.assumeExpr(n, st, m.e)
		return
	case e.op == "bin" && e.s == "==>":
		if hasQuant(e.a[0]) && posQuant(e.a[0]) {
			// (all i: P(i)) ==> Q gives P(w) ==> Q for some witness w
			sc2.skol = true
		}
		a := sc2.boolv(e.a[0])
		sc2.skol = false
		if a.IsFalse() {
			return
		}
		if a.IsTrue() {
			x.assumeExpr(sc, st, e.a[1])
			return
		}
		if hasQuant(e.a[1]) {
			n := len(st.quants)
			s2 := st.clone()
			s2.pc = nil
			x.assumeExpr(sc, s2, e.a[1])
			for _, q := range s2.quants[n:] {
				f := q.f
				st.quants = append(st.quants, &Quant{name: q.name, lo: q.lo, hi: q.hi, off: q.off, f: func(i *Term) *Term { return a.Implies(f(i)) }})
			}
			st.assume(a.Implies(c.And(s2.pc...)))
			return
		}
		st.assume(a.Implies(sc2.boolv(e.a[1])))
		return
	case e.op == "bin" && e.s == "=~":
		a, b := sc2.eval(e.a[0]), sc2.eval(e.a[1])
		if a.s != nil && b.s != nil && a.s.arr != nil && b.s.arr != nil {
			st.assume(a.s.len.Eq(b.s.len))
			as, bs := a.s, b.s
			off := as.off
			if off.IsConst() && off.val == 0 {
				off = nil
			}
			st.quants = append(st.quants, &Quant{name: e.src, lo: c.I(0), hi: as.len, off: off, f: func(i *Term) *Term { return as.at64(i).Eq(bs.at64(i)) }})
			if bs.off != as.off && !bs.off.IsConst() {
				st.quants = append(st.quants, &Quant{name: e.src, lo: c.I(0), hi: as.len, off: bs.off, f: func(i *Term) *Term { return as.at64(i).Eq(bs.at64(i)) }})
			}
			return
		}
		if a.m != nil && b.m != nil {
			am, bm := a.m, b.m
			st.quants = append(st.quants, &Quant{name: e.src, lo: c.I(0), hi: c.I(1 << 40), f: func(i *Term) *Term {
				w := maxInt(am.val.w, bm.val.w)
				return c.And(am.dom.Sel(i).Eq(bm.dom.Sel(i)), am.dom.Sel(i).Eq(c.BV(1, 1)).Implies(am.val.Sel(i).Zext(w).Eq(bm.val.Sel(i).Zext(w))))
			}})
			return
		}
	}
	st.assume(sc2.boolv(e))
}

// posQuant: every quantifier occurs positively.
func posQuant(e *Expr) bool {
	if !hasQuant(e) {
		return true
	}
	switch {
	case e.op == "bin" && (e.s == "&&" || e.s == "||"):
		return posQuant(e.a[0]) && posQuant(e.a[1])
	case e.op == "all":
		return !hasQuant(e.a[2])
	case e.op == "bin" && e.s == "=~":
		return !hasQuant(e.a[0]) && !hasQuant(e.a[1])
	}
	return false
}

var theMacros map[string]*Macro

func hasQuant(e *Expr) bool {
	if e == nil {
		return false
	}
	if e.op == "all" || e.op == "some" || e.op == "bin" && e.s == "=~" {
		return true
	}
	if e.op == "call" && theMacros[e.s] != nil && hasQuant(theMacros[e.s].e) {
		return true
	}
	for _, a := range e.a {
		if hasQuant(a) {
			return true
		}
	}
	return false
}

// havocPlace forgets the value of a location a contract may modify.
func (x *Exec) havocPlace(sc *SpecCtx, st *State, m *Expr) {
	c := x.c
	if m.op == "field" && m.a[0].op == "id" && m.a[0].s == "g" {
		switch v := st.ghost[m.s].(type) {
		case *Term:
			st.ghost[m.s] = c.Fresh("g."+m.s, v.w)
		case *BufV:
			st.ghost[m.s] = &BufV{arr: c.ABase("g."+m.s, v.arr.w), len: c.Len("g." + m.s)}
		case *IfaceV:
			st.ghost[m.s] = &IfaceV{id: c.Fresh("g."+m.s, 64)}
		default:
			unsup("ghost %s", m.s)
		}
		return
	}
	if m.op == "elems" {
		v := sc.eval(m.a[0])
		switch u := v.v.(type) {
		case *SliceV:
			if u.obj == 0 {
				return
			}
			if st.heap[u.obj] == nil {
				unsup("modifies %s", m.src)
			}
			x.aliasWrite(st, u.obj)
			av := x.sliceArr(st, u)
			nb := c.ABase("havoc", av.arr.w)
			arr := av.arr.Comp(func(i *Term) *Term { return u.off.Ule(i).And(i.Sub(u.off).Ult(u.cap)) }, nb.Sel)
			x.setSliceArr(st, u, arr)
		case *MapRef:
			if u.obj == 0 {
				return
			}
			o := st.heap[u.obj].val.(*MapV)
			st.setVal(u.obj, &MapV{dom: c.ABase("dom", 1), val: c.ABase("val", o.val.w), kt: o.kt, vt: o.vt})
		case *SyncMapV:
			n := *sc
			n.st = st
			p, _ := n.place(m.a[0])
			x.storeRaw(st, p, &SyncMapV{dom: c.ABase("dom", 1), val: c.ABase("val", 64)})
		default:
			unsup("modifies %s", m.src)
		}
		return
	}
	if m.op == "call" && m.s == "tables" {
		return
	}
	n := *sc
	n.st = st
	p, t := n.place(m)
	x.storeRaw(st, p, st.symbolic(t, "mod", true))
}

func (x *Exec) lockOf(sc *SpecCtx, e *Expr) *LockV {
	p, _ := sc.place(e)
	p = x.resolve(sc.st, p)
	lv, _ := getPath(x, sc.st, sc.st.heap[p.obj].val, p.path).(*LockV)
	return lv
}
