package main

// Evaluation of contract expressions over symbolic states.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type SeqV struct {
	arr      *Arr
	off, len *Term
	w        int
	signed   bool
	sl       *SliceV
}

type SV struct {
	t  *Term // int (64) or bool (0)
	s  *SeqV
	m  *MapV
	v  Value
	gt types.Type
	ni bool // nil literal

	post bool // a result: read in the final state
}

type SpecCtx struct {
	x      *Exec
	st     *State // current state
	pre    *State
	post   *State
	env    map[string]SV
	skol   bool // `all` may be skolemised here (proving)
	con    *Contract
	depthM int
	lets   map[string]*Expr
}

func (sc *SpecCtx) clone() *SpecCtx {
	n := *sc
	n.env = make(map[string]SV, len(sc.env)+2)
	for k, v := range sc.env {
		n.env[k] = v
	}
	return &n
}

func (q *SeqV) at(i *Term) *Term {
	return q.arr.Sel(q.off.Add(i))
}
func (q *SeqV) at64(i *Term) *Term {
	r := q.at(i)
	if q.signed {
		return r.Sext(64)
	}
	return r.Zext(64)
}

func (sc *SpecCtx) toSV(v Value, t types.Type) SV {
	x := sc.x
	if tm, ok := v.(*Term); ok {
		if tm.w == 0 {
			return SV{t: tm, v: v, gt: t}
		}
		return SV{t: ext64(tm, t), v: v, gt: t}
	}
	switch u := v.(type) {
	case *SliceV:
		if _, isS := elemWidth(u.et); isS || u.obj == 0 {
			w, _ := elemWidth(u.et)
			_, sg, _ := scalar(u.et)
			if u.obj != 0 && sc.st.heap[u.obj] == nil {
				// allocated later than the state looked at
				if sc.post != nil && sc.post.heap[u.obj] != nil {
					return SV{s: &SeqV{arr: x.sliceArr(sc.post, u).arr, off: u.off, len: u.len, w: w, signed: sg, sl: u}, v: v, gt: t}
				}
				unsup("slice not present in this state")
			}
			return SV{s: &SeqV{arr: x.sliceArr(sc.st, u).arr, off: u.off, len: u.len, w: w, signed: sg, sl: u}, v: v, gt: t}
		}
		return SV{v: v, gt: t, s: &SeqV{len: u.len, off: u.off, sl: u, w: 64}}
	case *ArrV:
		w, _ := elemWidth(u.et)
		_, sg, _ := scalar(u.et)
		return SV{s: &SeqV{arr: u.arr, off: x.c.I(0), len: x.c.I(u.n), w: w, signed: sg}, v: v, gt: t}
	case *StrV:
		return SV{s: &SeqV{arr: u.arr, off: u.off, len: u.len, w: 8}, v: v, gt: t}
	case *BufV:
		return SV{s: &SeqV{arr: u.arr, off: x.c.I(0), len: u.len, w: 8}, v: v, gt: t}
	case *MapRef:
		if u.obj == 0 {
			return SV{m: &MapV{dom: x.c.AConst(x.c.BV(1, 0)), val: x.c.AConst(x.c.BV(64, 0))}, v: v, gt: t}
		}
		o := sc.st.heap[u.obj]
		if o == nil && sc.post != nil {
			o = sc.post.heap[u.obj]
		}
		return SV{m: o.val.(*MapV), v: v, gt: t}
	case *SyncMapV:
		var vt types.Type
		if n := x.p.typeNamed("NodeRegister"); n != nil {
			vt = types.NewPointer(n)
		}
		return SV{m: &MapV{dom: u.dom, val: u.val, vt: vt}, v: v, gt: t}
	}
	return SV{v: v, gt: t}
}

// ghostSV reads ghost state.
func (x *Exec) ghostSV(sc *SpecCtx, name string) SV {
	v, ok := sc.st.ghost[name]
	if !ok {
		sc.fail("no ghost %s", name)
	}
	switch u := v.(type) {
	case *Term:
		return SV{t: u}
	case *BufV:
		return SV{s: &SeqV{arr: u.arr, off: x.c.I(0), len: u.len, w: u.arr.w}, v: v}
	case *IfaceV:
		return SV{v: v, gt: types.Universe.Lookup("error").Type()}
	}
	return SV{v: v}
}

func (sc *SpecCtx) fail(f string, a ...interface{}) { unsup("contract: "+f, a...) }

func (sc *SpecCtx) intv(e *Expr) *Term {
	r := sc.eval(e)
	if r.t == nil || r.t.w != 64 {
		sc.fail("integer expected: %s", e.str())
	}
	return r.t
}
func (sc *SpecCtx) boolv(e *Expr) *Term {
	r := sc.eval(e)
	if r.t == nil || r.t.w != 0 {
		sc.fail("condition expected: %s", e.str())
	}
	return r.t
}
func (sc *SpecCtx) seqv(e *Expr) *SeqV {
	r := sc.eval(e)
	if r.s == nil || r.s.arr == nil {
		if r.ni {
			return &SeqV{arr: sc.x.c.AConst(sc.x.c.BV(8, 0)), off: sc.x.c.I(0), len: sc.x.c.I(0), w: 8}
		}
		sc.fail("sequence expected: %s", e.str())
	}
	return r.s
}

func (e *Expr) str() string {
	if e == nil {
		return ""
	}
	var as []string
	for _, a := range e.a {
		as = append(as, a.str())
	}
	switch e.op {
	case "id":
		return e.s
	case "num":
		return fmt.Sprint(e.n)
	case "field":
		return as[0] + "." + e.s
	case "bin":
		return "(" + as[0] + " " + e.s + " " + as[1] + ")"
	}
	return e.op + ":" + e.s + "(" + strings.Join(as, ", ") + ")"
}

func (sc *SpecCtx) fieldOf(b SV, name string) SV {
	x := sc.x
	if b.gt == nil {
		sc.fail("no field %s", name)
	}
	obj, idx, _ := types.LookupFieldOrMethod(b.gt, true, x.p.tpkg, name)
	if _, ok := obj.(*types.Var); !ok {
		sc.fail("no field %s in %s", name, b.gt)
	}
	v, t := b.v, b.gt
	for _, i := range idx {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			pv := v.(*PtrV)
			if pv.obj == 0 {
				sc.fail("field %s of nil", name)
			}
			st := sc.st
			if pv.obj > 0 && st.heap[pv.obj] == nil && sc.post != nil {
				st = sc.post
			}
			v = x.load(st, pv)
			t = p.Elem()
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			sc.fail("no struct at %s", name)
		}
		sv, ok := v.(*StructV)
		if !ok {
			sc.fail("field %s of %T", name, v)
		}
		v = sv.f[i]
		t = s.Field(i).Type()
	}
	return sc.toSV(v, t)
}

// place resolves an expression to a memory location in the current state.
func (sc *SpecCtx) place(e *Expr) (*PtrV, types.Type) {
	x := sc.x
	switch e.op {
	case "id":
		b := sc.eval(e)
		if p, ok := b.gt.Underlying().(*types.Pointer); ok {
			return b.v.(*PtrV), p.Elem()
		}
	case "field":
		var p *PtrV
		var t types.Type
		inner := sc.eval(e.a[0])
		if inner.gt != nil {
			if pt, ok := inner.gt.Underlying().(*types.Pointer); ok {
				p, t = inner.v.(*PtrV), pt.Elem()
			}
		}
		if p == nil {
			p, t = sc.place(e.a[0])
		}
		obj, idx, _ := types.LookupFieldOrMethod(t, true, x.p.tpkg, e.s)
		if _, ok := obj.(*types.Var); !ok {
			sc.fail("no field %s in %s", e.s, t)
		}
		for k, i := range idx {
			if k > 0 {
				if pt, ok := t.Underlying().(*types.Pointer); ok {
					p = x.load(sc.st, p).(*PtrV)
					t = pt.Elem()
				}
			}
			p = &PtrV{obj: p.obj, path: appendStep(p.path, Step{field: i}), ref: p.ref}
			t = t.Underlying().(*types.Struct).Field(i).Type()
		}
		p.et = t
		return p, t
	}
	sc.fail("not a location: %s", e.str())
	return nil, nil
}

func (sc *SpecCtx) eval(e *Expr) SV {
	x := sc.x
	c := x.c
	I := func(t *Term) SV { return SV{t: t} }
	switch e.op {
	case "num":
		return I(c.BV(64, e.n))
	case "id":
		if v, ok := sc.env[e.s]; ok {
			// slices and maps are re-read in the current state
			if v.gt != nil && v.v != nil {
				switch v.v.(type) {
				case *SliceV, *MapRef:
					if v.post && sc.post != nil {
						n := *sc
						n.st = sc.post
						r := n.toSV(v.v, v.gt)
						r.post = true
						return r
					}
					return sc.toSV(v.v, v.gt)
				}
			}
			return v
		}
		if l, ok := sc.lets[e.s]; ok {
			n := sc.clone()
			if sc.pre != nil {
				n.st = sc.pre
			}
			v := n.eval(l)
			sc.env[e.s] = v
			return v
		}
		switch e.s {
		case "nil":
			return SV{ni: true}
		case "true":
			return I(c.True)
		case "false":
			return I(c.False)
		}
		if g, ok := x.p.pkg.Members[e.s].(*ssa.Global); ok {
			p := x.global(sc.st, g).(*PtrV)
			return sc.toSV(x.load(sc.st, p), p.et)
		}
		sc.fail("unknown name %s", e.s)
	case "field":
		if e.a[0].op == "id" && e.a[0].s == "g" {
			return x.ghostSV(sc, e.s)
		}
		return sc.fieldOf(sc.eval(e.a[0]), e.s)
	case "un":
		switch e.s {
		case "!":
			if hasQuant(e.a[0]) {
				sc.fail("quantifier under negation: %s", e.str())
			}
			return I(sc.boolv(e.a[0]).Not())
		case "-":
			return I(sc.intv(e.a[0]).Neg())
		case "~":
			return I(sc.intv(e.a[0]).BNot())
		}
	case "cond":
		if hasQuant(e.a[0]) {
			sc.fail("quantifier in a condition: %s", e.str())
		}
		cd := sc.boolv(e.a[0])
		a, b := sc.eval(e.a[1]), sc.eval(e.a[2])
		if a.t != nil && b.t != nil {
			return I(c.Ite(cd, a.t, b.t))
		}
		if a.s != nil && b.s != nil {
			as, bs := a.s, b.s
			return SV{s: &SeqV{arr: c.AConst(c.BV(as.w, 0)).Comp(func(*Term) *Term { return c.True }, func(i *Term) *Term { return c.Ite(cd, as.at(i), bs.at(i)) }), off: c.I(0), len: c.Ite(cd, as.len, bs.len), w: as.w}}
		}
		if a.m != nil && b.m != nil {
			return SV{m: &MapV{dom: a.m.dom.Ite(cd, b.m.dom), val: a.m.val.Ite(cd, b.m.val), kt: a.m.kt, vt: a.m.vt}}
		}
		sc.fail("branches of %s", e.str())
	case "bin":
		return sc.binary(e)
	case "index":
		b := sc.eval(e.a[0])
		if b.m != nil {
			k := sc.intv(e.a[1])
			w := b.m.val.w
			if b.m.vt != nil {
				if _, _, ok := scalar(b.m.vt); !ok {
					return sc.toSV(sc.x.decode(sc.cur(), b.m.val.Sel(k), b.m.vt), b.m.vt)
				}
			}
			return SV{t: b.m.val.Sel(k).Zext(maxInt(w, 64)), gt: b.m.vt}
		}
		if b.s == nil || b.s.arr == nil {
			sc.fail("index into %s", e.a[0].str())
		}
		return I(b.s.at64(sc.intv(e.a[1])))
	case "slice":
		b := sc.eval(e.a[0])
		if b.s == nil {
			sc.fail("slice of %s", e.a[0].str())
		}
		lo, hi := c.I(0), b.s.len
		if e.a[1] != nil {
			lo = sc.intv(e.a[1])
		}
		if e.a[2] != nil {
			hi = sc.intv(e.a[2])
		}
		n := &SeqV{arr: b.s.arr, off: b.s.off.Add(lo), len: hi.Sub(lo), w: b.s.w, signed: b.s.signed}
		if b.s.sl != nil {
			s2 := *b.s.sl
			s2.off, s2.len, s2.cap = s2.off.Add(lo), hi.Sub(lo), s2.cap.Sub(lo)
			n.sl = &s2
			return SV{s: n, v: &s2, gt: b.gt}
		}
		return SV{s: n}
	case "all":
		if !sc.skol {
			sc.fail("quantifier not allowed here")
		}
		i := c.Fresh("sk_"+e.s, 64)
		n := sc.clone()
		n.env[e.s] = I(i)
		lo, hi := sc.intv(e.a[0]), sc.intv(e.a[1])
		return I(c.And(lo.Sle(i), i.Slt(hi)).Implies(n.boolv(e.a[2])))
	case "call":
		return sc.call(e)
	}
	sc.fail("cannot evaluate %s", e.str())
	return SV{}
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (sc *SpecCtx) binary(e *Expr) SV {
	c := sc.x.c
	I := func(t *Term) SV { return SV{t: t} }
	switch e.s {
	case "==>":
		if hasQuant(e.a[0]) {
			sc.fail("quantifier in a nested antecedent: %s", e.str())
		}
		a := sc.boolv(e.a[0])
		if a.IsFalse() {
			return I(c.True)
		}
		return I(a.Implies(sc.boolv(e.a[1])))
	case "<==>":
		if hasQuant(e) {
			sc.fail("quantifier under <==>")
		}
		return I(sc.boolv(e.a[0]).Eq(sc.boolv(e.a[1])))
	case "&&":
		a := sc.boolv(e.a[0])
		if a.IsFalse() {
			return I(a)
		}
		return I(a.And(sc.boolv(e.a[1])))
	case "||":
		a := sc.boolv(e.a[0])
		if a.IsTrue() {
			return I(a)
		}
		return I(a.Or(sc.boolv(e.a[1])))
	case "==", "!=":
		r := sc.equal(sc.eval(e.a[0]), sc.eval(e.a[1]), e)
		if e.s == "!=" {
			r = r.Not()
		}
		return I(r)
	case "=~":
		if !sc.skol {
			sc.fail("sequence equality not allowed here: %s", e.str())
		}
		a, b := sc.eval(e.a[0]), sc.eval(e.a[1])
		return I(sc.seqEq(a, b, e))
	}
	a, b := sc.intv(e.a[0]), sc.intv(e.a[1])
	switch e.s {
	case "<":
		return I(a.Slt(b))
	case "<=":
		return I(a.Sle(b))
	case ">":
		return I(b.Slt(a))
	case ">=":
		return I(b.Sle(a))
	case "+":
		return I(a.Add(b))
	case "-":
		return I(a.Sub(b))
	case "*":
		return I(a.Mul(b))
	case "/":
		return I(a.Sdiv(b))
	case "%":
		return I(a.Srem(b))
	case "&":
		return I(a.BAnd(b))
	case "|":
		return I(a.BOr(b))
	case "^":
		return I(a.BXor(b))
	case "&^":
		return I(a.BAnd(b.BNot()))
	case "<<":
		return I(a.Shl(b))
	case ">>":
		return I(a.Lshr(b))
	}
	sc.fail("operator %s", e.s)
	return SV{}
}

func (sc *SpecCtx) equal(a, b SV, e *Expr) *Term {
	c := sc.x.c
	if b.ni {
		a, b = b, a
	}
	if a.ni {
		switch v := b.v.(type) {
		case *SliceV:
			return v.isnil
		case *PtrV:
			if v.obj == -1 {
				return v.ref.Eq(c.I(0))
			}
			return c.Bool(v.obj == 0)
		case *IfaceV:
			if v.con != nil {
				return c.False
			}
			return v.id.Eq(c.I(0))
		case *FuncV:
			if v.fn != nil {
				return c.False
			}
			return v.id.Eq(c.I(0))
		case *MapRef:
			return c.Bool(v.obj == 0)
		}
		sc.fail("comparison with nil: %s", e.str())
	}
	if a.t != nil && b.t != nil {
		if a.t.w != b.t.w {
			sc.fail("comparison of bool and int: %s", e.str())
		}
		return a.t.Eq(b.t)
	}
	if a.t != nil && a.t.w == 64 && b.v != nil {
		return a.t.Eq(sc.x.encode(sc.cur(), b.v))
	}
	if b.t != nil && b.t.w == 64 && a.v != nil {
		return b.t.Eq(sc.x.encode(sc.cur(), a.v))
	}
	if a.v != nil && b.v != nil {
		return sc.x.equal(sc.cur(), a.v, b.v)
	}
	sc.fail("comparison %s", e.str())
	return nil
}

func (sc *SpecCtx) cur() *State {
	if sc.post != nil {
		return sc.post
	}
	return sc.st
}

// seqEq: pointwise equality, skolemised.
func (sc *SpecCtx) seqEq(a, b SV, e *Expr) *Term {
	c := sc.x.c
	if a.m != nil && b.m != nil {
		i := c.Fresh("sk_key", 8).Zext(64)
		da, db := a.m.dom.Sel(i), b.m.dom.Sel(i)
		va, vb := a.m.val.Sel(i), b.m.val.Sel(i)
		w := maxInt(va.w, vb.w)
		return c.And(da.Eq(db), da.Eq(c.BV(1, 1)).Implies(va.Zext(w).Eq(vb.Zext(w))))
	}
	nilSeq := func(v SV) SV {
		if v.ni {
			return SV{s: &SeqV{arr: c.AConst(c.BV(8, 0)), off: c.I(0), len: c.I(0), w: 8}}
		}
		return v
	}
	a, b = nilSeq(a), nilSeq(b)
	if a.s == nil || b.s == nil || a.s.arr == nil || b.s.arr == nil {
		sc.fail("sequence equality %s", e.str())
	}
	if a.s.len.IsConst() && b.s.len.IsConst() {
		if a.s.len != b.s.len {
			return c.False
		}
		if n := a.s.len.val; n <= 16 {
			var cs []*Term
			for j := uint64(0); j < n; j++ {
				cs = append(cs, a.s.at64(c.I(int64(j))).Eq(b.s.at64(c.I(int64(j)))))
			}
			return c.And(cs...)
		}
	}
	if a.s.arr == b.s.arr && a.s.off == b.s.off {
		return a.s.len.Eq(b.s.len)
	}
	i := c.Fresh("sk_i", 40).Zext(64)
	if a.s.w == 8 && b.s.w == 8 && (a.s.arr.bitty(0) || b.s.arr.bitty(0)) {
		var cs []*Term
		for k := 0; k < 8; k++ {
			cs = append(cs, a.s.arr.bitAt(a.s.off.Add(i), k).Eq(b.s.arr.bitAt(b.s.off.Add(i), k)))
		}
		return c.And(a.s.len.Eq(b.s.len), i.Ult(a.s.len).Implies(c.And(cs...)))
	}
	return c.And(a.s.len.Eq(b.s.len), i.Ult(a.s.len).Implies(a.s.at64(i).Eq(b.s.at64(i))))
}

func (c *Ctx) fun(w int, n *Term, f func(i *Term) *Term) *SeqV {
	arr := c.AConst(c.BV(w, 0)).Comp(func(*Term) *Term { return c.True }, func(i *Term) *Term { return f(i).Extract(w-1, 0) })
	return &SeqV{arr: arr, off: c.I(0), len: n, w: w}
}

func bitOf(s *SeqV, p *Term) *Term { // 1-bit
	c := s.arr.c
	if s.arr.bitf != nil && s.arr.k == AComp && s.off.IsConst() && s.off.val == 0 && s.arr.cond(p.Lshr(c.I(3))).IsTrue() {
		return s.arr.bitf(p)
	}
	by := s.at(p.Lshr(c.I(3)))
	sh := p.Extract(2, 0).Zext(8)
	return by.Lshr(sh).Extract(0, 0)
}

// bitfun is a byte sequence given by its bits.
func (c *Ctx) bitfun(n *Term, f func(p *Term) *Term) *SeqV {
	return c.bitfun2(n, f, func(j *Term, b int) *Term { return f(j.MulC(8).AddC(int64(b))) })
}

func (c *Ctx) bitfun2(n *Term, f func(p *Term) *Term, g func(j *Term, b int) *Term) *SeqV {
	s := c.fun(8, n, func(j *Term) *Term { return pack8(c, func(b int) *Term { return g(j, b) }) })
	s.arr.bitf = f
	s.arr.bitg = g
	return s
}

func pack8(c *Ctx, f func(b int) *Term) *Term {
	r := f(7)
	for b := 6; b >= 0; b-- {
		r = r.Concat(f(b))
	}
	return r
}

func (sc *SpecCtx) lambda(e *Expr) func(i *Term) *Term {
	if e.op != "lambda" {
		sc.fail("function expected: %s", e.str())
	}
	n := sc.clone()
	memo := map[*Term]*Term{}
	return func(i *Term) *Term {
		if r, ok := memo[i]; ok {
			return r
		}
		n2 := n.clone()
		n2.env[e.s] = SV{t: i}
		r := n2.intv(e.a[0])
		memo[i] = r
		return r
	}
}

func (sc *SpecCtx) call(e *Expr) SV {
	x := sc.x
	c := x.c
	I := func(t *Term) SV { return SV{t: t} }
	switch e.s {
	case "len":
		r := sc.eval(e.a[0])
		if r.s == nil {
			if r.ni {
				return I(c.I(0))
			}
			sc.fail("len of %s", e.a[0].str())
		}
		return I(r.s.len)
	case "cap":
		r := sc.eval(e.a[0])
		if sl, ok := r.v.(*SliceV); ok {
			return I(sl.cap)
		}
		sc.fail("cap")
	case "new", "old":
		n := sc.clone()
		if e.s == "new" {
			n.st = sc.post
		} else {
			n.st = sc.pre
		}
		if n.st == nil {
			sc.fail("%s() not available here", e.s)
		}
		return n.eval(e.a[0])
	case "isnil":
		return I(sc.equal(SV{ni: true}, sc.eval(e.a[0]), e))
	case "fresh":
		// allocated during the call (or empty)
		r := sc.eval(e.a[0])
		switch v := r.v.(type) {
		case *SliceV:
			if v.obj == 0 {
				return I(c.True)
			}
			if sc.pre.heap[v.obj] == nil {
				return I(c.True)
			}
			return I(c.False)
		case *PtrV:
			return I(c.Bool(v.obj > 0 && sc.pre.heap[v.obj] == nil))
		}
		sc.fail("fresh of %T", r.v)
	case "disjoint":
		// no shared element
		a, ok1 := sc.eval(e.a[0]).v.(*SliceV)
		b, ok2 := sc.eval(e.a[1]).v.(*SliceV)
		if !ok1 || !ok2 {
			sc.fail("disjoint")
		}
		if a.obj == 0 || b.obj == 0 || a.obj != b.obj {
			return I(c.True)
		}
		return I(c.Or(a.len.Eq(c.I(0)), b.len.Eq(c.I(0)), a.off.Add(a.len).Ule(b.off), b.off.Add(b.len).Ule(a.off)))
	case "exc": // err is an ExceptionError (with the given code)
		err := sc.eval(e.a[0])
		is, code := x.excOf(sc.cur(), err.v)
		if len(e.a) == 1 {
			return I(is)
		}
		return I(is.And(code.Zext(64).Eq(sc.intv(e.a[1]))))
	case "exccode":
		err := sc.eval(e.a[0])
		_, code := x.excOf(sc.cur(), err.v)
		return I(code.Zext(64))
	case "bytes":
		var ts []*Term
		for _, a := range e.a {
			ts = append(ts, sc.intv(a).Extract(7, 0))
		}
		arr := c.AConst(c.BV(8, 0))
		for i, t := range ts {
			arr = arr.Store(c.I(int64(i)), t)
		}
		return SV{s: &SeqV{arr: arr, off: c.I(0), len: c.I(int64(len(ts))), w: 8}}
	case "cat":
		var r *SeqV
		for _, a := range e.a {
			s := sc.seqv(a)
			if r == nil {
				r = &SeqV{arr: c.AConst(c.BV(s.w, 0)).CopyIn(c.I(0), s.len, s.at), off: c.I(0), len: s.len, w: s.w}
				continue
			}
			r = &SeqV{arr: r.arr.CopyIn(r.len, s.len, s.at), off: c.I(0), len: r.len.Add(s.len), w: s.w}
		}
		return SV{s: r}
	case "be16":
		v := sc.intv(e.a[0])
		arr := c.AConst(c.BV(8, 0)).Store(c.I(0), v.Extract(15, 8)).Store(c.I(1), v.Extract(7, 0))
		return SV{s: &SeqV{arr: arr, off: c.I(0), len: c.I(2), w: 8}}
	case "u16": // big-endian at index
		s, i := sc.seqv(e.a[0]), sc.intv(e.a[1])
		return I(s.at(i).Concat(s.at(i.AddC(1))).Zext(64))
	case "u16le":
		s, i := sc.seqv(e.a[0]), sc.intv(e.a[1])
		return I(s.at(i.AddC(1)).Concat(s.at(i)).Zext(64))
	case "words": // big-endian words of a byte sequence
		s := sc.seqv(e.a[0])
		return SV{s: c.fun(16, s.len.Udiv(c.I(2)), func(i *Term) *Term {
			j := i.MulC(2)
			return s.at(j).Concat(s.at(j.AddC(1)))
		})}
	case "bebytes": // big-endian bytes of a word sequence
		s := sc.seqv(e.a[0])
		return SV{s: c.fun(8, s.len.MulC(2), func(i *Term) *Term {
			w := s.at(i.Lshr(c.I(1)))
			return c.Ite(i.Extract(0, 0).Eq(c.BV(1, 0)), w.Extract(15, 8), w.Extract(7, 0))
		})}
	case "mk8", "mk16":
		f := sc.lambda(e.a[1])
		w := 8
		if e.s == "mk16" {
			w = 16
		}
		return SV{s: c.fun(w, sc.intv(e.a[0]), f)}
	case "bit":
		return I(bitOf(sc.seqv(e.a[0]), sc.intv(e.a[1])).Zext(64))
	case "getbits": // getbits(s, start, n): n bits from start, packed low bit first
		s, start, n := sc.seqv(e.a[0]), sc.intv(e.a[1]), sc.intv(e.a[2])
		return SV{s: c.bitfun(n.AddC(7).Lshr(c.I(3)), func(p *Term) *Term {
			return c.Ite(p.Ult(n), bitOf(s, start.Add(p)), c.BV(1, 0))
		})}
	case "setbits": // setbits(s, start, n, val)
		s, start, n, val := sc.seqv(e.a[0]), sc.intv(e.a[1]), sc.intv(e.a[2]), sc.seqv(e.a[3])
		return SV{s: c.bitfun2(s.len, func(p *Term) *Term {
			in := start.Ule(p).And(p.Sub(start).Ult(n))
			return c.Ite(in, bitOf(val, p.Sub(start)), bitOf(s, p))
		}, func(j *Term, b int) *Term {
			p := j.MulC(8).AddC(int64(b))
			in := start.Ule(p).And(p.Sub(start).Ult(n))
			return c.Ite(in, bitOf(val, p.Sub(start)), s.arr.bitAt(s.off.Add(j), b))
		})}
	case "upd": // upd(s, lo, vals)
		s, lo, v := sc.seqv(e.a[0]), sc.intv(e.a[1]), sc.seqv(e.a[2])
		return SV{s: &SeqV{arr: s.arr.CopyIn(s.off.Add(lo), v.len, v.at), off: s.off, len: s.len, w: s.w, signed: s.signed}}
	case "rep": // rep(n, v): n bytes v
		n, v := sc.intv(e.a[0]), sc.intv(e.a[1]).Extract(7, 0)
		return SV{s: &SeqV{arr: c.AConst(v), off: c.I(0), len: n, w: 8}}
	case "rep16":
		n, v := sc.intv(e.a[0]), sc.intv(e.a[1]).Extract(15, 0)
		return SV{s: &SeqV{arr: c.AConst(v), off: c.I(0), len: n, w: 16}}
	case "min", "max":
		a, b := sc.intv(e.a[0]), sc.intv(e.a[1])
		lt := a.Slt(b)
		if e.s == "max" {
			lt = b.Slt(a)
		}
		return I(c.Ite(lt, a, b))
	case "trunc16":
		return I(sc.intv(e.a[0]).Extract(15, 0).Zext(64))
	case "trunc8":
		return I(sc.intv(e.a[0]).Extract(7, 0).Zext(64))
	case "int8":
		return I(sc.intv(e.a[0]).Extract(7, 0).Sext(64))
	case "has":
		m := sc.eval(e.a[0])
		if m.m == nil {
			sc.fail("has: not a map")
		}
		return I(m.m.dom.Sel(sc.intv(e.a[1])).Eq(c.BV(1, 1)))
	case "put", "del":
		m := sc.eval(e.a[0])
		if m.m == nil {
			sc.fail("put: not a map")
		}
		k := sc.intv(e.a[1])
		n := *m.m
		if e.s == "del" {
			n.dom = n.dom.Store(k, c.BV(1, 0))
			return SV{m: &n, gt: m.gt}
		}
		r := sc.eval(e.a[2])
		var vt *Term
		if r.v != nil {
			vt = x.encodeIn(sc.cur(), m, r.v)
		} else {
			vt = r.t
		}
		n.dom = n.dom.Store(k, c.BV(1, 1))
		n.val = n.val.Store(k, vt.Extract(n.val.w-1, 0))
		return SV{m: &n, gt: m.gt}
	case "emptymap":
		return SV{m: &MapV{dom: c.AConst(c.BV(1, 0)), val: c.AConst(c.BV(64, 0))}}
	case "func": // identity of a named function
		f := x.p.find(e.a[0].s)
		if f == nil {
			sc.fail("no function %s", e.a[0].s)
		}
		return I(x.funcID(f))
	case "same": // the very same memory
		a, ok1 := sc.eval(e.a[0]).v.(*SliceV)
		b, ok2 := sc.eval(e.a[1]).v.(*SliceV)
		if !ok1 || !ok2 {
			sc.fail("same")
		}
		if a.obj != b.obj {
			return I(c.And(a.len.Eq(c.I(0)), b.len.Eq(c.I(0))))
		}
		return I(c.And(a.off.Eq(b.off), a.len.Eq(b.len)))
	case "noshare": // slice shares no memory with anything that existed before, except the listed values
		r := sc.eval(e.a[0])
		v, ok := r.v.(*SliceV)
		if !ok {
			sc.fail("noshare")
		}
		if v.obj == 0 {
			return I(c.True)
		}
		o := sc.cur().heap[v.obj]
		bad := func(id int) bool {
			if sc.pre.heap[id] == nil {
				return false
			}
			for _, a := range e.a[1:] {
				if s, ok := sc.eval(a).v.(*SliceV); ok && s.obj == id {
					return false
				}
			}
			return true
		}
		if bad(v.obj) || o.dead != "" {
			return I(v.len.Eq(c.I(0)))
		}
		for _, al := range o.alias {
			if ao := sc.cur().heap[al]; bad(al) || ao != nil && ao.dead != "" {
				return I(v.len.Eq(c.I(0)))
			}
		}
		return I(c.True)
	case "released":
		r := sc.eval(e.a[0])
		if lv, ok := r.v.(*LockV); ok {
			return I(c.Bool(lv.w == 0 && lv.r == 0))
		}
		sc.fail("released")
	case "held":
		r := sc.eval(e.a[0])
		if lv, ok := r.v.(*LockV); ok {
			return I(c.Bool(lv.w > 0))
		}
		sc.fail("held")
	case "deref":
		r := sc.eval(e.a[0])
		p, ok := r.v.(*PtrV)
		if !ok {
			sc.fail("deref")
		}
		return sc.toSV(x.load(sc.st, p), r.gt.Underlying().(*types.Pointer).Elem())
	case "dyn": // dyn(iface, T): value of concrete type T inside an interface
		r := sc.eval(e.a[0])
		iv, ok := r.v.(*IfaceV)
		if !ok || iv.con == nil {
			sc.fail("dynamic type not known")
		}
		return sc.toSV(iv.val, iv.con)
	case "isdyn":
		r := sc.eval(e.a[0])
		iv, ok := r.v.(*IfaceV)
		if !ok {
			sc.fail("isdyn")
		}
		if iv.con == nil {
			return I(c.False)
		}
		t := iv.con
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return I(c.Bool(n.Obj().Name() == e.a[1].s))
		}
		return I(c.False)
	case "uf": // uninterpreted predicate
		var as []*Term
		for _, a := range e.a[1:] {
			as = append(as, sc.intv(a))
		}
		return I(c.App("uf:"+e.a[0].s, 0, as...))
	}
	if e.s == "ufn" {
		var as []*Term
		for _, a := range e.a[1:] {
			as = append(as, sc.intv(a))
		}
		return I(c.App("uf:"+e.a[0].s, 64, as...))
	}
	if f, ok := x.p.spec.folds[e.s]; ok {
		init := sc.intv(e.a[0]).Extract(f.w-1, 0)
		s := sc.seqv(e.a[1])
		return I(x.foldTerm(f, init, s).Zext(64))
	}
	if m, ok := x.p.spec.macros[e.s]; ok {
		if len(m.args) != len(e.a) {
			sc.fail("%s takes %d arguments", m.name, len(m.args))
		}
		if sc.depthM > 30 {
			sc.fail("macro recursion")
		}
		n := sc.clone()
		n.depthM++
		for i, a := range e.a {
			n.env[m.args[i]] = sc.evalArg(a)
		}
		return n.eval(m.e)
	}
	sc.fail("unknown function %s", e.s)
	return SV{}
}

func (sc *SpecCtx) evalArg(e *Expr) SV { return sc.eval(e) }

// ---- folds

func (x *Exec) foldStep(f *Fold, acc, el *Term) *Term {
	sc := &SpecCtx{x: x, env: map[string]SV{f.acc: {t: acc.Zext(64)}, f.x: {t: el.Zext(64)}}}
	return sc.intv(f.e).Extract(f.w-1, 0)
}

func (x *Exec) foldTerm(f *Fold, init *Term, s *SeqV) *Term {
	if s.len.IsConst() && s.len.val <= 40 {
		r := init
		for i := uint64(0); i < s.len.val; i++ {
			r = x.foldStep(f, r, s.at(x.c.I(int64(i))))
		}
		return r
	}
	x.arrs[s.arr.id] = s.arr
	return x.c.App(fmt.Sprintf("fold:%s:%d", f.name, s.arr.id), f.w, init, s.off, s.len)
}

func (x *Exec) foldApp(f *Fold, arr *Arr, init, off, n *Term) *Term {
	return x.foldTerm(f, init, &SeqV{arr: arr, off: off, len: n, w: arr.w})
}

// points: where a fact about the elements of some arrays is of use, given
// that the arrays at are read at index i: where a read of the body meets i.
func (q *Quant) points(c *Ctx, at map[string]bool, i *Term) []*Term {
	if !q.seen {
		q.seen = true
		p := c.Fresh("trig", 64)
		q.f(p).walk(map[*Term]bool{}, func(t *Term) {
			if t.op == OApp && len(t.args) == 1 && t.args[0].w == 64 && mentions(t.args[0], p) {
				d := t.args[0].Sub(p)
				if mentions(d, p) {
					d = nil
				}
				for _, o := range q.trig {
					if o.name == t.name && o.shift == d {
						return
					}
				}
				q.trig = append(q.trig, trigger{t.name, d})
			}
		})
		// a rule about an uninterpreted function serves where it is applied
		var ufs []trigger
		for _, t := range q.trig {
			if strings.HasPrefix(t.name, "uf:") && t.shift != nil && t.shift.IsConst() && t.shift.val == 0 {
				ufs = append(ufs, t)
			}
		}
		if ufs != nil {
			q.trig = ufs[:1]
		}
	}
	direct := i
	if q.off != nil {
		direct = i.Sub(q.off)
	}
	if len(q.trig) == 0 {
		return []*Term{direct}
	}
	var out []*Term
	for _, t := range q.trig {
		if at[t.name] {
			j := direct
			if t.shift != nil {
				j = i.Sub(t.shift)
			}
			dup := false
			for _, o := range out {
				dup = dup || o == j
			}
			if !dup {
				out = append(out, j)
			}
		}
	}
	return out
}

func mentions(t, p *Term) bool {
	found := false
	t.walk(map[*Term]bool{}, func(t *Term) {
		if t == p {
			found = true
		}
	})
	return found
}

// withAxioms adds the defining equations of the folds that occur, and
// instances of the quantified facts of the state.
func (x *Exec) withAxioms(st *State, as []*Term) []*Term {
	c := x.c
	type fa struct {
		t *Term
		f *Fold
		a *Arr
	}
	seen := map[*Term]bool{}
	var apps []fa
	has := map[*Term]bool{}
	idx := map[*Term]bool{}
	var idxs []*Term
	names := map[*Term]map[string]bool{} // arrays read at an index
	depth := map[*Term]int{}
	curGen := 0
	gen := map[*Term]int{} // instances between the query and an index
	collect := func(t *Term, d int) {
		t.walk(seen, func(t *Term) {
			if t.op != OApp {
				return
			}
			if strings.HasPrefix(t.name, "fold:") {
				p := strings.Split(t.name, ":")
				var id int
				fmt.Sscan(p[2], &id)
				if !has[t] {
					has[t] = true
					depth[t] = d
					apps = append(apps, fa{t, x.p.spec.folds[p[1]], x.arrs[id]})
				}
			} else if len(t.args) == 1 && t.args[0].w == 64 {
				if !idx[t.args[0]] {
					gen[t.args[0]] = curGen
					idx[t.args[0]] = true
					idxs = append(idxs, t.args[0])
					names[t.args[0]] = map[string]bool{}
				}
				names[t.args[0]][t.name] = true
			}
		})
	}
	for i := len(as) - 1; i >= 0; i-- { // the goal comes last and matters most
		collect(as[i], 0)
	}
	out := as
	add := func(t *Term, d int) {
		if t.IsTrue() {
			return
		}
		out = append(out, t)
		collect(t, d)
	}
	added := map[*Term]bool{}
	inst := func(from, to int) {
		for i := from; i < len(idxs) && i < to; i++ {
			if gen[idxs[i]] > 0 && gen[idxs[i]] >= x.instGen {
				continue
			}
			for _, q := range st.quants {
				for _, j := range q.points(c, names[idxs[i]], idxs[i]) {
					t := c.And(q.lo.Sle(j), j.Slt(q.hi)).Implies(q.f(j))
					if !added[t] {
						added[t] = true
						curGen = gen[idxs[i]] + 1
						add(t, 1)
						curGen = 0
					}
				}
			}
		}
	}
	inst(0, 60)
	nIdx := len(idxs)
	done := map[[2]*Term]bool{}
	for i := 0; i < len(apps); i++ {
		a := apps[i]
		d := depth[a.t]
		init, off, n := a.t.args[0], a.t.args[1], a.t.args[2]
		add(n.Eq(c.I(0)).Implies(a.t.Eq(init)), d+1)
		// unfold
		unf := false
		if n.op == OLin && int64(n.val) > 0 && n.val <= 8 {
			unf = true
		} else {
			// another application of the same fold one shorter
			for _, b := range apps {
				if b.f == a.f && b.t != a.t && n.AddC(-1) == b.t.args[2] {
					unf = true
				}
			}
		}
		if unf && d < 6 {
			m := n.AddC(-1)
			back := x.foldStep(a.f, x.foldApp(a.f, a.a, init, off, m), a.a.Sel(off.Add(m)))
			add(n.Ne(c.I(0)).Implies(a.t.Eq(back)), d+1)
			front := x.foldApp(a.f, a.a, x.foldStep(a.f, init, a.a.Sel(off)), off.AddC(1), m)
			add(n.Ne(c.I(0)).Implies(a.t.Eq(front)), d+1)
		}
		for j := 0; j < i; j++ {
			b := apps[j]
			if b.f == a.f && init != b.t.args[0] && d < 2 && depth[b.t] < 2 {
				// started at different points of a sequence, perhaps
				for _, e := range []fa{a, b} {
					if i0, o0, n0 := e.t.args[0], e.t.args[1], e.t.args[2]; !done[[2]*Term{e.t, e.t}] {
						done[[2]*Term{e.t, e.t}] = true
						front := x.foldApp(e.f, e.a, x.foldStep(e.f, i0, e.a.Sel(o0)), o0.AddC(1), n0.AddC(-1))
						add(n0.Ne(c.I(0)).Implies(e.t.Eq(front)), depth[e.t]+1)
					}
				}
			}
			if b.f != a.f || (b.a == a.a && off == b.t.args[1]) {
				continue
			}
			k := [2]*Term{a.t, b.t}
			if done[k] || n.Eq(b.t.args[2]).IsFalse() {
				continue
			}
			done[k] = true
			w := c.Fresh("wit", 40).Zext(64)
			ne := w.Ult(n).And(a.a.Sel(off.Add(w)).Ne(b.a.Sel(b.t.args[1].Add(w))))
			add(c.Or(a.t.Eq(b.t), init.Ne(b.t.args[0]), n.Ne(b.t.args[2]), ne), d+1)
		}
		if len(apps) > 60 {
			break
		}
	}
	if len(idxs) > nIdx {
		inst(nIdx, nIdx+40) // the witnesses
	}
	// uninterpreted predicates with declared introduction rules
	if x.ufAxioms != nil {
		out = append(out, x.ufAxioms(st, out)...)
	}
	return out
}

// ---- exceptions

func (x *Exec) excType() types.Type { return x.p.typeNamed("ExceptionError") }

func (x *Exec) excOf(st *State, v Value) (is, code *Term) {
	c := x.c
	et := x.excType()
	if et == nil {
		unsup("no ExceptionError type")
	}
	iv, ok := v.(*IfaceV)
	if !ok {
		unsup("exception test on %T", v)
	}
	pt := types.NewPointer(et)
	if iv.con != nil {
		if !types.Identical(iv.con, pt) {
			return c.False, c.BV(8, 0)
		}
		p := iv.val.(*PtrV)
		if p.obj == 0 {
			return c.False, c.BV(8, 0)
		}
		sv := x.load(st, p).(*StructV)
		return c.True, sv.f[0].(*Term)
	}
	ref := c.App("dynptr", 64, iv.id)
	is = c.And(iv.id.Ne(c.I(0)), c.App("dyntype:"+typeName(pt), 0, iv.id), ref.Ne(c.I(0)))
	return is, c.App("mem:"+typeName(et)+"."+et.Underlying().(*types.Struct).Field(0).Name(), 8, ref)
}

func (x *Exec) newExc(st *State, code *Term) *IfaceV {
	et := x.excType()
	o := st.newObj(et, &StructV{f: []Value{code}}, "exception", true)
	return &IfaceV{con: types.NewPointer(et), val: &PtrV{obj: o.id, et: et}}
}

// encodeIn: map values stored in sync.Map are interfaces; encode the reference they hold.
func (x *Exec) encodeIn(st *State, m SV, v Value) *Term {
	if iv, ok := v.(*IfaceV); ok && iv.con != nil {
		return x.encode(st, iv.val)
	}
	return x.encode(st, v)
}
