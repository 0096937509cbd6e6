package main

// Hash-consed bit-vector/boolean terms with an aggressive simplifier.
// Width 0 is Bool; widths 1..64 are bit vectors. All arithmetic is exact
// machine arithmetic modulo 2^w.

import (
	"fmt"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OApp // uninterpreted function; name, args
	ONot
	OAnd
	OOr
	OEq
	OIte
	OLin // sum coef_i*arg_i + val (mod 2^w)
	OMul
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLshr
	OAshr
	OUdiv
	OUrem
	OSdiv
	OSrem
	OUlt
	OUle
	OSlt
	OSle
	OZext
	OSext
	OExtract // val=lo, width = w
	OConcat
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OMul: "bvmul", OBAnd: "bvand", OBOr: "bvor",
	OBXor: "bvxor", OBNot: "bvnot", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv",
	OSrem: "bvsrem", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat"}

type Term struct {
	c          *Ctx
	id         int
	op         Op
	w          int
	args       []*Term
	coefs      []uint64
	val        uint64
	name       string
	umin, umax uint64
}

type Ctx struct {
	tab    map[string]*Term
	next   int
	True   *Term
	False  *Term
	fresh  map[string]int
	arrN   int
	baseID map[string]int
	nid    int
	apps   map[string][]*Term // all UF applications by name
	rng    map[string]uint64  // umax of variables
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, fresh: map[string]int{}, apps: map[string][]*Term{}}
	c.False = c.mk(&Term{op: OConst, w: 0, val: 0})
	c.True = c.mk(&Term{op: OConst, w: 0, val: 1})
	return c
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (c *Ctx) mk(t *Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%d|%d|%s", t.op, t.w, t.val, t.name)
	for i, a := range t.args {
		if a.c != c && a.c != nil {
			panic("term from another context")
		}
		fmt.Fprintf(&sb, ",%d", a.id)
		if t.coefs != nil {
			fmt.Fprintf(&sb, "*%d", t.coefs[i])
		}
	}
	k := sb.String()
	if o, ok := c.tab[k]; ok {
		return o
	}
	c.next++
	t.id = c.next
	t.c = c
	t.setRange()
	c.tab[k] = t
	if t.op == OApp {
		c.apps[t.name] = append(c.apps[t.name], t)
	}
	return t
}

func (t *Term) setRange() {
	if t.w == 0 {
		return
	}
	m := mask(t.w)
	t.umin, t.umax = 0, m
	switch t.op {
	case OConst:
		t.umin, t.umax = t.val, t.val
	case OZext:
		t.umin, t.umax = t.args[0].umin, t.args[0].umax
	case OSext:
		a := t.args[0]
		if a.umax < (uint64(1) << uint(a.w-1)) {
			t.umin, t.umax = a.umin, a.umax
		}
	case OExtract:
		a := t.args[0]
		if t.val == 0 {
			if a.umax <= m {
				t.umin, t.umax = a.umin, a.umax
			}
		} else {
			hi := a.umax >> t.val
			if hi <= m {
				t.umax = hi
			}
		}
	case OIte:
		a, b := t.args[1], t.args[2]
		t.umin, t.umax = minu(a.umin, b.umin), maxu(a.umax, b.umax)
	case OBAnd:
		t.umax = m
		for _, a := range t.args {
			t.umax = minu(t.umax, a.umax)
		}
	case OBOr, OBXor:
		var x uint64
		for _, a := range t.args {
			x |= a.umax
		}
		t.umax = minu(fillOnes(x), m)
		if t.op == OBOr {
			for _, a := range t.args {
				t.umin = maxu(t.umin, a.umin)
			}
		}
	case OLshr:
		a, b := t.args[0], t.args[1]
		if b.op == OConst {
			if b.val < 64 {
				t.umax = a.umax >> b.val
				t.umin = a.umin >> b.val
			} else {
				t.umax = 0
			}
		} else {
			t.umax = a.umax
		}
	case OShl:
		a, b := t.args[0], t.args[1]
		if b.op == OConst && b.val < 64 && a.umax <= (m>>b.val) {
			t.umax = a.umax << b.val
			t.umin = a.umin << b.val
		} else if b.umax < 64 && a.umax <= (m>>b.umax) {
			t.umax = a.umax << b.umax
		}
	case OUdiv:
		a, b := t.args[0], t.args[1]
		if b.umin > 0 {
			t.umax = a.umax / b.umin
			t.umin = a.umin / b.umax
		}
	case OUrem:
		a, b := t.args[0], t.args[1]
		if b.umin > 0 {
			t.umax = minu(a.umax, b.umax-1)
		}
	case OMul:
		a, b := t.args[0], t.args[1]
		if hi, ok := mulOK(a.umax, b.umax, m); ok {
			t.umax = hi
			t.umin = a.umin * b.umin
		}
	case OLin:
		// only when all coefs are "small positive" and no wrap
		lo, hi := t.val, t.val
		ok := true
		for i, a := range t.args {
			x, o := mulOK(t.coefs[i], a.umax, m)
			if !o || hi > m-x {
				ok = false
				break
			}
			hi += x
			lo += t.coefs[i] * a.umin
		}
		if ok {
			t.umin, t.umax = lo, hi
			return
		}
		// signed interpretation: coefs taken as signed; result range known if it lies in [0,m] without wrap
		slo, shi := int64(0), int64(0)
		half := uint64(1) << uint(t.w-1)
		tos := func(v uint64) (int64, bool) {
			if v >= half {
				v = v - half - half
				if t.w < 64 {
					v = v | ^m
				}
			}
			s := int64(v)
			return s, s > -(1<<46) && s < (1<<46)
		}
		s, o := tos(t.val)
		if !o {
			return
		}
		slo, shi = s, s
		for i, a := range t.args {
			cf, o := tos(t.coefs[i])
			if !o || a.umax > 1<<46 {
				return
			}
			if cf > 1<<14 || cf < -(1<<14) {
				return
			}
			x, y := cf*int64(a.umin), cf*int64(a.umax)
			if x > y {
				x, y = y, x
			}
			slo += x
			shi += y
		}
		if slo >= 0 && uint64(shi) <= m {
			t.umin, t.umax = uint64(slo), uint64(shi)
		}
	case OConcat:
		a, b := t.args[0], t.args[1]
		t.umax = a.umax<<uint(b.w) | b.umax
		t.umin = a.umin<<uint(b.w) | b.umin
	case OVar, OApp:
	}
}

func fillOnes(x uint64) uint64 {
	x |= x >> 1
	x |= x >> 2
	x |= x >> 4
	x |= x >> 8
	x |= x >> 16
	x |= x >> 32
	return x
}
func minu(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}
func maxu(a, b uint64) uint64 {
	if a > b {
		return a
	}
	return b
}
func mulOK(a, b, m uint64) (uint64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	if a > m/b {
		return 0, false
	}
	return a * b, true
}

func (c *Ctx) BV(w int, v uint64) *Term { return c.mk(&Term{op: OConst, w: w, val: v & mask(w)}) }
func (c *Ctx) I(v int64) *Term          { return c.BV(64, uint64(v)) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) Var(name string, w int) *Term { return c.mk(&Term{op: OVar, w: w, name: name}) }
func (c *Ctx) Fresh(name string, w int) *Term {
	c.fresh[name]++
	return c.Var(fmt.Sprintf("%s!%d", name, c.fresh[name]), w)
}

// Len returns a fresh non-negative "length-like" 64-bit value below 2^40.
func (c *Ctx) Len(name string) *Term { return c.Fresh(name, 40).Zext(64) }

func (c *Ctx) App(name string, w int, args ...*Term) *Term {
	return c.mk(&Term{op: OApp, w: w, name: name, args: args})
}

func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) IsTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) IsFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }

func sext64(v uint64, w int) int64 {
	if w < 64 && v>>(uint(w)-1)&1 == 1 {
		v |= ^mask(w)
	}
	return int64(v)
}

// ---- booleans

func (t *Term) Not() *Term {
	c := t.c
	switch t.op {
	case OConst:
		return c.Bool(t.val == 0)
	case ONot:
		return t.args[0]
	case OUlt:
		return t.args[1].Ule(t.args[0])
	case OUle:
		return t.args[1].Ult(t.args[0])
	case OSlt:
		return t.args[1].Sle(t.args[0])
	case OSle:
		return t.args[1].Slt(t.args[0])
	}
	return c.mk(&Term{op: ONot, w: 0, args: []*Term{t}})
}

func (c *Ctx) And(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.IsTrue() {
			return true
		}
		if t.IsFalse() {
			return false
		}
		if t.op == OAnd {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		if seen[t.Not().id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return c.False
		}
	}
	if len(out) == 0 {
		return c.True
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(&Term{op: OAnd, w: 0, args: out})
}

func (c *Ctx) Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.IsFalse() {
			return true
		}
		if t.IsTrue() {
			return false
		}
		if t.op == OOr {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		if seen[t.Not().id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return c.True
		}
	}
	if len(out) == 0 {
		return c.False
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(&Term{op: OOr, w: 0, args: out})
}

func (t *Term) And(o *Term) *Term     { return t.c.And(t, o) }
func (t *Term) Or(o *Term) *Term      { return t.c.Or(t, o) }
func (t *Term) Implies(o *Term) *Term { return t.c.Or(t.Not(), o) }

func (t *Term) Eq(o *Term) *Term {
	c := t.c
	if t == o {
		return c.True
	}
	if t.w != o.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d: %s = %s", t.w, o.w, t, o))
	}
	if t.op == OConst && o.op == OConst {
		return c.Bool(t.val == o.val)
	}
	if t.w == 0 {
		if t.op == OConst {
			t, o = o, t
		}
		if o.IsTrue() {
			return t
		}
		if o.IsFalse() {
			return t.Not()
		}
		if t.Not() == o {
			return c.False
		}
	} else {
		if t.umax < o.umin || o.umax < t.umin {
			return c.False
		}
		if o.op == OConst {
			t, o = o, t
		}
		if t.op == OConst {
			switch o.op {
			case OZext:
				return o.args[0].Eq(c.BV(o.args[0].w, t.val))
			case OSext:
				a := o.args[0]
				if sext64(t.val, t.w) == sext64(t.val&mask(a.w), a.w) {
					return a.Eq(c.BV(a.w, t.val))
				}
				return c.False
			case OIte:
				if o.args[1].IsConst() || o.args[2].IsConst() {
					return c.Ite(o.args[0], o.args[1].Eq(t), o.args[2].Eq(t))
				}
			case OConcat:
				a, b := o.args[0], o.args[1]
				return c.And(a.Eq(c.BV(a.w, t.val>>uint(b.w))), b.Eq(c.BV(b.w, t.val)))
			case OBXor, OBOr:
				if o.op == OBOr && t.val == 0 {
					var cs []*Term
					for _, a := range o.args {
						cs = append(cs, a.Eq(t))
					}
					return c.And(cs...)
				}
			}
		} else {
			if t.op == OZext && o.op == OZext && t.args[0].w == o.args[0].w {
				return t.args[0].Eq(o.args[0])
			}
			if t.op == OZext && o.op == OZext {
				a, b := t.args[0], o.args[0]
				if a.w < b.w {
					return a.Zext(b.w).Eq(b)
				}
				return a.Eq(b.Zext(a.w))
			}
		}
		if t.op == OLin || o.op == OLin {
			d := t.Sub(o)
			if d.op == OConst {
				return c.Bool(d.val == 0)
			}
			// normalise  x + c == y + d
			if d.op == OLin {
				// pick a unit-coefficient term to isolate for a canonical form
				var pos, neg []*Term
				cst := d.val
				ok := true
				for i, a := range d.args {
					switch d.coefs[i] {
					case 1:
						pos = append(pos, a)
					case mask(t.w):
						neg = append(neg, a)
					default:
						ok = false
					}
				}
				_ = cst
				if ok && len(pos)+len(neg) == 1 {
					if len(pos) == 1 {
						return pos[0].eqRaw(c.BV(t.w, -d.val))
					}
					return neg[0].eqRaw(c.BV(t.w, d.val))
				}
				if ok && len(pos) == 1 && len(neg) == 1 && d.val == 0 {
					return pos[0].Eq(neg[0])
				}
			}
		}
	}
	return t.eqRaw(o)
}

func (t *Term) eqRaw(o *Term) *Term {
	if t == o {
		return t.c.True
	}
	if t.IsConst() && o.IsConst() {
		return t.c.Bool(t.val == o.val)
	}
	if t.op == OConst && (o.op == OZext || o.op == OSext) || o.op == OConst && (t.op == OZext || t.op == OSext) {
		if t.umax < o.umin || o.umax < t.umin {
			return t.c.False
		}
		if t.op == OConst {
			return o.args[0].eqRaw2(t)
		}
		return t.args[0].eqRaw2(o)
	}
	if t.id > o.id {
		t, o = o, t
	}
	return t.c.mk(&Term{op: OEq, w: 0, args: []*Term{t, o}})
}

// inner == const narrowed (const range already checked for zext)
func (t *Term) eqRaw2(k *Term) *Term {
	return t.Eq(t.c.BV(t.w, k.val))
}

func (t *Term) Ne(o *Term) *Term { return t.Eq(o).Not() }

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.IsTrue() || a == b {
		return a
	}
	if cond.IsFalse() {
		return b
	}
	if a.w != b.w {
		panic("ite width")
	}
	if a.w == 0 {
		if a.IsTrue() {
			return c.Or(cond, b)
		}
		if a.IsFalse() {
			return c.And(cond.Not(), b)
		}
		if b.IsTrue() {
			return c.Or(cond.Not(), a)
		}
		if b.IsFalse() {
			return c.And(cond, a)
		}
	}
	if cond.op == ONot {
		return c.Ite(cond.args[0], b, a)
	}
	if b.op == OIte && b.args[0] == cond {
		return c.Ite(cond, a, b.args[2])
	}
	if a.op == OIte && a.args[0] == cond {
		return c.Ite(cond, a.args[1], b)
	}
	return c.mk(&Term{op: OIte, w: a.w, args: []*Term{cond, a, b}})
}

// ---- linear arithmetic

func (c *Ctx) lin(w int, k uint64, ts map[*Term]uint64) *Term {
	m := mask(w)
	k &= m
	var args []*Term
	for t, cf := range ts {
		if cf&m != 0 {
			args = append(args, t)
		}
	}
	if len(args) == 0 {
		return c.BV(w, k)
	}
	sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
	coefs := make([]uint64, len(args))
	for i, a := range args {
		coefs[i] = ts[a] & m
	}
	if len(args) == 1 && k == 0 && coefs[0] == 1 {
		return args[0]
	}
	return c.mk(&Term{op: OLin, w: w, args: args, coefs: coefs, val: k})
}

func (t *Term) addTo(acc map[*Term]uint64, k *uint64, coef uint64) {
	switch t.op {
	case OConst:
		*k += t.val * coef
	case OLin:
		*k += t.val * coef
		for i, a := range t.args {
			acc[a] += t.coefs[i] * coef
		}
	default:
		acc[t] += coef
	}
}

func (t *Term) Add(o *Term) *Term {
	if t.w != o.w {
		panic(fmt.Sprintf("add widths %d %d: %s + %s", t.w, o.w, t, o))
	}
	acc := map[*Term]uint64{}
	var k uint64
	t.addTo(acc, &k, 1)
	o.addTo(acc, &k, 1)
	return t.c.lin(t.w, k, acc)
}
func (t *Term) Sub(o *Term) *Term {
	if t.w != o.w {
		panic("sub widths")
	}
	acc := map[*Term]uint64{}
	var k uint64
	t.addTo(acc, &k, 1)
	o.addTo(acc, &k, ^uint64(0))
	return t.c.lin(t.w, k, acc)
}
func (t *Term) AddC(k int64) *Term { return t.Add(t.c.BV(t.w, uint64(k))) }
func (t *Term) MulC(k uint64) *Term {
	acc := map[*Term]uint64{}
	var v uint64
	t.addTo(acc, &v, k)
	return t.c.lin(t.w, v, acc)
}
func (t *Term) Neg() *Term { return t.c.BV(t.w, 0).Sub(t) }
func (t *Term) Mul(o *Term) *Term {
	if t.op == OConst {
		return o.MulC(t.val)
	}
	if o.op == OConst {
		return t.MulC(o.val)
	}
	if t.id > o.id {
		t, o = o, t
	}
	return t.c.mk(&Term{op: OMul, w: t.w, args: []*Term{t, o}})
}

// ---- bit operations

func (t *Term) nary(op Op, o *Term) *Term {
	c := t.c
	if t.w != o.w {
		panic(fmt.Sprintf("bitop widths %d %d", t.w, o.w))
	}
	m := mask(t.w)
	var k uint64
	if op == OBAnd {
		k = m
	}
	cnt := map[*Term]int{}
	var args []*Term
	add := func(x *Term) {
		xs := []*Term{x}
		if x.op == op {
			xs = x.args
		}
		for _, a := range xs {
			if a.op == OConst {
				switch op {
				case OBAnd:
					k &= a.val
				case OBOr:
					k |= a.val
				case OBXor:
					k ^= a.val
				}
				continue
			}
			if cnt[a] == 0 {
				args = append(args, a)
			}
			cnt[a]++
		}
	}
	add(t)
	add(o)
	if op == OBXor {
		var n []*Term
		for _, a := range args {
			if cnt[a]%2 == 1 {
				n = append(n, a)
			}
		}
		args = n
	}
	if op == OBAnd && k == 0 {
		return c.BV(t.w, 0)
	}
	if op == OBOr && k == m {
		return c.BV(t.w, m)
	}
	// and with low mask
	if op == OBAnd && len(args) == 1 && k != m {
		a := args[0]
		if a.umax <= fillOnes(a.umax)&k && fillOnes(a.umax)&k == fillOnes(a.umax) {
			return a
		}
		if k&(k+1) == 0 { // low ones
			n := 0
			for k>>uint(n)&1 == 1 {
				n++
			}
			return a.Extract(n-1, 0).Zext(t.w)
		}
		if a.op == OZext {
			in := a.args[0]
			if k&mask(in.w) == mask(in.w) {
				return a
			}
			return in.BAnd(c.BV(in.w, k)).Zext(t.w)
		}
	}
	ident := uint64(0)
	if op == OBAnd {
		ident = m
	}
	if len(args) == 0 {
		return c.BV(t.w, k)
	}
	// narrow zexts
	allz := true
	zw := 0
	for _, a := range args {
		if a.op != OZext {
			allz = false
			break
		}
		if a.args[0].w > zw {
			zw = a.args[0].w
		}
	}
	if allz && (op == OBAnd || k <= mask(zw)) && zw < t.w {
		r := c.BV(zw, k)
		for _, a := range args {
			r = r.nary(op, a.args[0].Zext(zw))
		}
		return r.Zext(t.w)
	}
	if k == ident && len(args) == 1 {
		return args[0]
	}
	sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
	if k != ident {
		args = append(args, c.BV(t.w, k))
	}
	return c.mk(&Term{op: op, w: t.w, args: args})
}
func (t *Term) BAnd(o *Term) *Term { return t.nary(OBAnd, o) }
func (t *Term) BOr(o *Term) *Term  { return t.nary(OBOr, o) }
func (t *Term) BXor(o *Term) *Term { return t.nary(OBXor, o) }
func (t *Term) BNot() *Term {
	if t.op == OConst {
		return t.c.BV(t.w, ^t.val)
	}
	if t.op == OBNot {
		return t.args[0]
	}
	return t.c.mk(&Term{op: OBNot, w: t.w, args: []*Term{t}})
}

func (t *Term) Shl(o *Term) *Term {
	c := t.c
	if o.op == OConst {
		if o.val >= uint64(t.w) {
			return c.BV(t.w, 0)
		}
		if o.val == 0 {
			return t
		}
		if t.op == OConst {
			return c.BV(t.w, t.val<<o.val)
		}
		return t.MulC(uint64(1) << o.val)
	}
	if t.op == OConst && t.val == 0 {
		return t
	}
	return c.mk(&Term{op: OShl, w: t.w, args: []*Term{t, o}})
}
func (t *Term) Lshr(o *Term) *Term {
	c := t.c
	if o.op == OConst {
		if o.val >= uint64(t.w) {
			return c.BV(t.w, 0)
		}
		if o.val == 0 {
			return t
		}
		if t.op == OConst {
			return c.BV(t.w, t.val>>o.val)
		}
		return t.Extract(t.w-1, int(o.val)).Zext(t.w)
	}
	if t.op == OConst && t.val == 0 {
		return t
	}
	return c.mk(&Term{op: OLshr, w: t.w, args: []*Term{t, o}})
}
func (t *Term) Ashr(o *Term) *Term {
	c := t.c
	if t.umax < uint64(1)<<uint(t.w-1) {
		if o.op == OConst && o.val >= uint64(t.w) {
			return c.BV(t.w, 0)
		}
		return t.Lshr(o)
	}
	if o.op == OConst {
		v := o.val
		if v >= uint64(t.w) {
			v = uint64(t.w - 1)
		}
		if t.op == OConst {
			return c.BV(t.w, uint64(sext64(t.val, t.w)>>v))
		}
		if v == 0 {
			return t
		}
		return t.Extract(t.w-1, int(v)).Sext(t.w)
	}
	return c.mk(&Term{op: OAshr, w: t.w, args: []*Term{t, o}})
}

func log2(v uint64) int {
	if v == 0 || v&(v-1) != 0 {
		return -1
	}
	n := 0
	for v > 1 {
		v >>= 1
		n++
	}
	return n
}

func (t *Term) Udiv(o *Term) *Term {
	c := t.c
	if o.op == OConst && o.val != 0 {
		if t.op == OConst {
			return c.BV(t.w, t.val/o.val)
		}
		if n := log2(o.val); n >= 0 {
			// (2^n*x + k) / 2^n when no wrap
			if t.op == OLin && n > 0 {
				if q := t.divLin(o.val); q != nil {
					return q
				}
			}
			return t.Lshr(c.BV(t.w, uint64(n)))
		}
		if t.op == OLin {
			if q := t.divLin(o.val); q != nil {
				return q
			}
		}
		if t.umax < o.val {
			return c.BV(t.w, 0)
		}
	}
	return c.mk(&Term{op: OUdiv, w: t.w, args: []*Term{t, o}})
}

// divLin: exact split of sum c_i x_i + k with c_i multiples of d plus remainder provably < d.
func (t *Term) divLin(d uint64) *Term {
	m := mask(t.w)
	// require known no-wrap positive sum
	hi := t.val
	for i, a := range t.args {
		x, ok := mulOK(t.coefs[i], a.umax, m)
		if !ok || hi > m-x {
			return nil
		}
		hi += x
	}
	q := map[*Term]uint64{}
	rem := map[*Term]uint64{}
	any := false
	for i, a := range t.args {
		if t.coefs[i]/d > 0 {
			q[a] = t.coefs[i] / d
			any = true
		}
		if r := t.coefs[i] % d; r > 0 {
			rem[a] = r
		}
	}
	if t.val/d > 0 {
		any = true
	}
	if !any {
		return nil
	}
	r := t.c.lin(t.w, t.val%d, rem)
	if r.umax < d {
		return t.c.lin(t.w, t.val/d, q)
	}
	return t.c.lin(t.w, t.val/d, q).Add(r.Udiv(t.c.BV(t.w, d)))
}

func (t *Term) Urem(o *Term) *Term {
	c := t.c
	if o.op == OConst && o.val != 0 {
		if t.op == OConst {
			return c.BV(t.w, t.val%o.val)
		}
		if o.val == 1 {
			return c.BV(t.w, 0)
		}
		if t.umax < o.val {
			return t
		}
		if n := log2(o.val); n > 0 {
			return t.Extract(n-1, 0).Zext(t.w)
		}
		if t.op == OLin {
			if q := t.divLin(o.val); q != nil {
				return t.Sub(q.MulC(o.val))
			}
		}
	}
	return c.mk(&Term{op: OUrem, w: t.w, args: []*Term{t, o}})
}
func (t *Term) nonneg() bool { return t.umax < uint64(1)<<uint(t.w-1) }
func (t *Term) Sdiv(o *Term) *Term {
	if t.nonneg() && o.nonneg() {
		return t.Udiv(o)
	}
	if t.IsConst() && o.IsConst() && o.val != 0 {
		return t.c.BV(t.w, uint64(sext64(t.val, t.w)/sext64(o.val, t.w)))
	}
	return t.c.mk(&Term{op: OSdiv, w: t.w, args: []*Term{t, o}})
}
func (t *Term) Srem(o *Term) *Term {
	if t.nonneg() && o.nonneg() {
		return t.Urem(o)
	}
	if t.IsConst() && o.IsConst() && o.val != 0 {
		return t.c.BV(t.w, uint64(sext64(t.val, t.w)%sext64(o.val, t.w)))
	}
	return t.c.mk(&Term{op: OSrem, w: t.w, args: []*Term{t, o}})
}

// cancel common parts of two sums when neither can wrap.
func cancelLin(t, o *Term) (*Term, *Term) {
	if t.op != OLin && o.op != OLin {
		return t, o
	}
	m := mask(t.w)
	parts := func(x *Term) (map[*Term]uint64, uint64, bool) {
		acc := map[*Term]uint64{}
		var k uint64
		x.addTo(acc, &k, 1)
		k &= m
		hi := k
		for a, cf := range acc {
			cf &= m
			acc[a] = cf
			v, ok := mulOK(cf, a.umax, m)
			if !ok || hi > m-v {
				return nil, 0, false
			}
			hi += v
		}
		return acc, k, true
	}
	a, ka, ok1 := parts(t)
	b, kb, ok2 := parts(o)
	if !ok1 || !ok2 {
		return t, o
	}
	ch := false
	for x, ca := range a {
		if cb, ok := b[x]; ok {
			mn := minu(ca, cb)
			a[x] -= mn
			b[x] -= mn
			ch = true
		}
	}
	mk := minu(ka, kb)
	if mk > 0 {
		ch = true
	}
	if !ch {
		return t, o
	}
	return t.c.lin(t.w, ka-mk, a), t.c.lin(t.w, kb-mk, b)
}

func (t *Term) Ult(o *Term) *Term {
	c := t.c
	if t == o {
		return c.False
	}
	if t.w != o.w {
		panic("ult width")
	}
	if t.umax < o.umin {
		return c.True
	}
	if t.umin >= o.umax {
		return c.False
	}
	if a, b := cancelLin(t, o); a != t || b != o {
		return a.Ult(b)
	}
	if t.op == OZext && o.op == OZext {
		w := t.args[0].w
		if o.args[0].w > w {
			w = o.args[0].w
		}
		if w < t.w {
			return t.args[0].Zext(w).Ult(o.args[0].Zext(w))
		}
	}
	if t.op == OZext && o.op == OConst {
		return t.args[0].Ult(c.BV(t.args[0].w, o.val)) // in range because umin<o<=..: o.val<=umax
	}
	if o.op == OZext && t.op == OConst {
		return c.BV(o.args[0].w, t.val).Ult(o.args[0])
	}
	if o.op == OConst && o.val == 1 {
		return t.Eq(c.BV(t.w, 0))
	}
	if t.op == OConst && t.val == 0 {
		return o.Ne(t)
	}
	return c.mk(&Term{op: OUlt, w: 0, args: []*Term{t, o}})
}
func (t *Term) Ule(o *Term) *Term {
	c := t.c
	if t == o {
		return c.True
	}
	if t.umax <= o.umin {
		return c.True
	}
	if t.umin > o.umax {
		return c.False
	}
	if a, b := cancelLin(t, o); a != t || b != o {
		return a.Ule(b)
	}
	if t.op == OZext && o.op == OZext {
		w := t.args[0].w
		if o.args[0].w > w {
			w = o.args[0].w
		}
		if w < t.w {
			return t.args[0].Zext(w).Ule(o.args[0].Zext(w))
		}
	}
	if t.op == OZext && o.op == OConst {
		return t.args[0].Ule(c.BV(t.args[0].w, o.val))
	}
	if o.op == OZext && t.op == OConst {
		return c.BV(o.args[0].w, t.val).Ule(o.args[0])
	}
	if o.op == OConst && o.val == 0 {
		return t.Eq(o)
	}
	return c.mk(&Term{op: OUle, w: 0, args: []*Term{t, o}})
}
func (t *Term) Slt(o *Term) *Term {
	c := t.c
	if t == o {
		return c.False
	}
	if t.IsConst() && o.IsConst() {
		return c.Bool(sext64(t.val, t.w) < sext64(o.val, o.w))
	}
	if t.nonneg() && o.nonneg() {
		return t.Ult(o)
	}
	// both in small signed range: move to a canonical form  0 < d
	if a, b := cancelSigned(t, o); a != t || b != o {
		return a.Slt(b)
	}
	return c.mk(&Term{op: OSlt, w: 0, args: []*Term{t, o}})
}

// cancelSigned: for 64-bit values, if t-o fits far from overflow (bounded parts), compare positive and negative parts.
func cancelSigned(t, o *Term) (*Term, *Term) {
	if t.w != 64 || (t.op != OLin && o.op != OLin) {
		return t, o
	}
	// each side must individually not overflow as a signed sum
	chk := func(x *Term) bool {
		acc := map[*Term]uint64{}
		var k uint64
		x.addTo(acc, &k, 1)
		if s := int64(k); s > 1<<50 || s < -(1<<50) {
			return false
		}
		for a, cf := range acc {
			s := int64(cf)
			if s > 1<<12 || s < -(1<<12) || a.umax > 1<<46 {
				return false
			}
		}
		return len(acc) < 16
	}
	if !chk(t) || !chk(o) {
		return t, o
	}
	acc := map[*Term]uint64{}
	var k uint64
	t.addTo(acc, &k, 1)
	o.addTo(acc, &k, ^uint64(0))
	p, n := map[*Term]uint64{}, map[*Term]uint64{}
	for a, cf := range acc {
		if int64(cf) > 0 {
			p[a] = cf
		} else if cf != 0 {
			n[a] = -cf
		}
	}
	var kp, kn uint64
	if int64(k) > 0 {
		kp = k
	} else {
		kn = -k
	}
	return t.c.lin(64, kp, p), t.c.lin(64, kn, n)
}

func (t *Term) Sle(o *Term) *Term {
	c := t.c
	if t == o {
		return c.True
	}
	if t.IsConst() && o.IsConst() {
		return c.Bool(sext64(t.val, t.w) <= sext64(o.val, o.w))
	}
	if t.nonneg() && o.nonneg() {
		return t.Ule(o)
	}
	if a, b := cancelSigned(t, o); a != t || b != o {
		return a.Sle(b)
	}
	return c.mk(&Term{op: OSle, w: 0, args: []*Term{t, o}})
}

// ---- width changes

func (t *Term) Zext(w int) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		panic("zext narrows")
	}
	c := t.c
	switch t.op {
	case OConst:
		return c.BV(w, t.val)
	case OZext:
		return t.args[0].Zext(w)
	case OIte:
		if t.args[1].IsConst() || t.args[2].IsConst() {
			return c.Ite(t.args[0], t.args[1].Zext(w), t.args[2].Zext(w))
		}
	case OLin:
		// distribute when the sum provably does not wrap with positive coefficients
		m := mask(t.w)
		hi := t.val
		ok := true
		for i, a := range t.args {
			v, o := mulOK(t.coefs[i], a.umax, m)
			if !o || hi > m-v {
				ok = false
				break
			}
			hi += v
		}
		if ok {
			acc := map[*Term]uint64{}
			k := t.val
			for i, a := range t.args {
				a.Zext(w).addTo(acc, &k, t.coefs[i])
			}
			return c.lin(w, k, acc)
		}
	case OExtract:
		if t.val == 0 {
			a := t.args[0]
			if a.umax <= mask(t.w) {
				if a.w == w {
					return a
				}
				if a.w > w {
					return a.Extract(w-1, 0)
				}
			}
		}
	}
	return c.mk(&Term{op: OZext, w: w, args: []*Term{t}})
}

func (t *Term) Sext(w int) *Term {
	if w == t.w {
		return t
	}
	c := t.c
	if t.op == OConst {
		return c.BV(w, uint64(sext64(t.val, t.w)))
	}
	if t.nonneg() {
		return t.Zext(w)
	}
	if t.op == OSext {
		return t.args[0].Sext(w)
	}
	return c.mk(&Term{op: OSext, w: w, args: []*Term{t}})
}

func (t *Term) Extract(hi, lo int) *Term {
	w := hi - lo + 1
	c := t.c
	if w == t.w {
		return t
	}
	if w <= 0 || hi >= t.w {
		panic("bad extract")
	}
	switch t.op {
	case OConst:
		return c.BV(w, t.val>>uint(lo))
	case OZext, OSext:
		in := t.args[0]
		if hi < in.w {
			return in.Extract(hi, lo)
		}
		if t.op == OZext {
			if lo >= in.w {
				return c.BV(w, 0)
			}
			return in.Extract(in.w-1, lo).Zext(w)
		}
		if lo == 0 && w > in.w {
			return in.Sext(w)
		}
	case OExtract:
		return t.args[0].Extract(hi+int(t.val), lo+int(t.val))
	case OIte:
		if t.args[1].IsConst() || t.args[2].IsConst() || lo == 0 {
			return c.Ite(t.args[0], t.args[1].Extract(hi, lo), t.args[2].Extract(hi, lo))
		}
	case OLin:
		if lo == 0 {
			acc := map[*Term]uint64{}
			k := t.val
			for i, a := range t.args {
				a.Extract(hi, 0).addTo(acc, &k, t.coefs[i])
			}
			return c.lin(w, k, acc)
		}
		// value 2^lo multiple + small remainder, no wrap
		if q := t.shrLin(lo); q != nil {
			return q.Extract(w-1, 0)
		}
	case OMul:
		if lo == 0 {
			return t.args[0].Extract(hi, 0).Mul(t.args[1].Extract(hi, 0))
		}
	case OBAnd, OBOr, OBXor:
		r := t.args[0].Extract(hi, lo)
		for _, a := range t.args[1:] {
			r = r.nary(t.op, a.Extract(hi, lo))
		}
		return r
	case OBNot:
		return t.args[0].Extract(hi, lo).BNot()
	case OConcat:
		b := t.args[1]
		if hi < b.w {
			return b.Extract(hi, lo)
		}
		if lo >= b.w {
			return t.args[0].Extract(hi-b.w, lo-b.w)
		}
	}
	if t.umax>>uint(lo) == 0 {
		return c.BV(w, 0)
	}
	return c.mk(&Term{op: OExtract, w: w, args: []*Term{t}, val: uint64(lo)})
}

func (t *Term) shrLin(n int) *Term {
	d := uint64(1) << uint(n)
	return t.divLinExact(d)
}
func (t *Term) divLinExact(d uint64) *Term {
	m := mask(t.w)
	hi := t.val
	for i, a := range t.args {
		x, ok := mulOK(t.coefs[i], a.umax, m)
		if !ok || hi > m-x {
			return nil
		}
		hi += x
	}
	q := map[*Term]uint64{}
	rem := map[*Term]uint64{}
	any := false
	for i, a := range t.args {
		if t.coefs[i]/d > 0 {
			q[a] = t.coefs[i] / d
			any = true
		}
		if r := t.coefs[i] % d; r > 0 {
			rem[a] = r
		}
	}
	if t.val/d > 0 {
		any = true
	}
	if !any {
		return nil
	}
	r := t.c.lin(t.w, t.val%d, rem)
	if r.umax < d {
		return t.c.lin(t.w, t.val/d, q)
	}
	return t.c.lin(t.w, t.val/d, q).Add(r.Lshr(t.c.BV(t.w, uint64(log2(d)))))
}

func (t *Term) Concat(o *Term) *Term {
	c := t.c
	if t.w+o.w > 64 {
		panic("concat too wide")
	}
	if t.op == OConst && o.op == OConst {
		return c.BV(t.w+o.w, t.val<<uint(o.w)|o.val)
	}
	if t.op == OConst && t.val == 0 {
		return o.Zext(t.w + o.w)
	}
	if t.op == OExtract && o.op == OExtract && t.args[0] == o.args[0] && int(t.val) == int(o.val)+o.w {
		return t.args[0].Extract(int(t.val)+t.w-1, int(o.val))
	}
	return c.mk(&Term{op: OConcat, w: t.w + o.w, args: []*Term{t, o}})
}

// Trunc/resize
func (t *Term) Resize(w int, signed bool) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return t.Extract(w-1, 0)
	}
	if signed {
		return t.Sext(w)
	}
	return t.Zext(w)
}

// ---- substitution

func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		ch := false
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = rec(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = c.rebuild(t, as)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (c *Ctx) rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case ONot:
		return as[0].Not()
	case OAnd:
		return c.And(as...)
	case OOr:
		return c.Or(as...)
	case OEq:
		return as[0].Eq(as[1])
	case OIte:
		return c.Ite(as[0], as[1], as[2])
	case OLin:
		acc := map[*Term]uint64{}
		k := t.val
		for i, a := range as {
			a.addTo(acc, &k, t.coefs[i])
		}
		return c.lin(t.w, k, acc)
	case OMul:
		return as[0].Mul(as[1])
	case OBAnd, OBOr, OBXor:
		r := as[0]
		for _, a := range as[1:] {
			r = r.nary(t.op, a)
		}
		return r
	case OBNot:
		return as[0].BNot()
	case OShl:
		return as[0].Shl(as[1])
	case OLshr:
		return as[0].Lshr(as[1])
	case OAshr:
		return as[0].Ashr(as[1])
	case OUdiv:
		return as[0].Udiv(as[1])
	case OUrem:
		return as[0].Urem(as[1])
	case OSdiv:
		return as[0].Sdiv(as[1])
	case OSrem:
		return as[0].Srem(as[1])
	case OUlt:
		return as[0].Ult(as[1])
	case OUle:
		return as[0].Ule(as[1])
	case OSlt:
		return as[0].Slt(as[1])
	case OSle:
		return as[0].Sle(as[1])
	case OZext:
		return as[0].Zext(t.w)
	case OSext:
		return as[0].Sext(t.w)
	case OExtract:
		return as[0].Extract(int(t.val)+t.w-1, int(t.val))
	case OConcat:
		return as[0].Concat(as[1])
	case OApp:
		return c.App(t.name, t.w, as...)
	}
	panic("rebuild")
}

// vars collects variables and applications (by pointer) occurring in t.
func (t *Term) walk(seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.args {
		a.walk(seen, f)
	}
	f(t)
}

func (t *Term) String() string {
	return t.str(0)
}
func (t *Term) str(d int) string {
	if d > 7 {
		return "…"
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		if t.w == 64 && int64(t.val) < 0 {
			return fmt.Sprint(int64(t.val))
		}
		return fmt.Sprint(t.val)
	case OVar:
		return t.name
	case OApp:
		var s []string
		for _, a := range t.args {
			s = append(s, a.str(d+1))
		}
		return t.name + "(" + strings.Join(s, ",") + ")"
	case OLin:
		var s []string
		for i, a := range t.args {
			cf := sext64(t.coefs[i], t.w)
			if cf == 1 {
				s = append(s, a.str(d+1))
			} else {
				s = append(s, fmt.Sprintf("%d*%s", cf, a.str(d+1)))
			}
		}
		if t.val != 0 {
			s = append(s, fmt.Sprint(sext64(t.val, t.w)))
		}
		return "(" + strings.Join(s, "+") + ")"
	case OZext:
		return "z" + fmt.Sprint(t.w) + "(" + t.args[0].str(d+1) + ")"
	case OSext:
		return "s" + fmt.Sprint(t.w) + "(" + t.args[0].str(d+1) + ")"
	case OExtract:
		return fmt.Sprintf("%s[%d:%d]", t.args[0].str(d+1), int(t.val)+t.w-1, t.val)
	}
	var s []string
	for _, a := range t.args {
		s = append(s, a.str(d+1))
	}
	return "(" + opNames[t.op] + " " + strings.Join(s, " ") + ")"
}
