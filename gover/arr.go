package main

// Symbolic arrays: total maps from 64-bit indices to elements of width w.
// They are trees; a read is pushed down to the leaves, so queries contain only
// uninterpreted functions and bit vectors.

import "fmt"

type AKind uint8

const (
	ABase AKind = iota // uninterpreted
	AConst
	ATab   // constant table for idx < len(tab), zero beyond
	AStore // base with idx := v
	AComp  // base, but f(i) where cond(i)
	AIte
)

type Arr struct {
	c      *Ctx
	id     int
	w      int
	k      AKind
	name   string
	base   *Arr
	b2     *Arr
	idx, v *Term
	cond   func(i *Term) *Term
	f      func(i *Term) *Term
	tab    []uint64
	memo   map[*Term]*Term
	fcond  *Term
	depth  int
	note   string
	bitg   func(j *Term, b int) *Term
	bitd   bool
	bitf   func(p *Term) *Term // bit p of the sequence of bytes, where f is built from bits
}

func (c *Ctx) arr(a *Arr) *Arr {
	c.arrN++
	a.id = c.arrN
	a.c = c
	a.memo = map[*Term]*Term{}
	return a
}
func (c *Ctx) ABase(name string, w int) *Arr {
	c.fresh["arr:"+name]++
	a := c.arr(&Arr{k: ABase, w: w, name: fmt.Sprintf("%s@%d", name, c.fresh["arr:"+name])})
	if c.baseID == nil {
		c.baseID = map[string]int{}
	}
	c.baseID[a.name] = a.id
	return a
}
func (c *Ctx) AConst(v *Term) *Arr { return c.arr(&Arr{k: AConst, w: v.w, v: v}) }
func (c *Ctx) ATab(w int, tab []uint64) *Arr {
	return c.arr(&Arr{k: ATab, w: w, tab: tab})
}
func (a *Arr) Store(i, v *Term) *Arr {
	if v.w != a.w {
		panic(fmt.Sprintf("store width %d into %d", v.w, a.w))
	}
	if a.k == AStore && a.idx == i {
		return a.base.Store(i, v)
	}
	return a.c.arr(&Arr{k: AStore, w: a.w, base: a, idx: i, v: v})
}

// Comp: cond(i) ? f(i) : base[i]
func (a *Arr) Comp(cond, f func(i *Term) *Term) *Arr {
	return a.c.arr(&Arr{k: AComp, w: a.w, base: a, cond: cond, f: f})
}

// CopyIn: base with [off, off+n) := src(j) for j in 0..n
func (a *Arr) CopyIn(off, n *Term, src func(j *Term) *Term) *Arr {
	if n.IsConst() && n.val == 0 {
		return a
	}
	if n.IsConst() && n.val <= 8 {
		r := a
		for j := uint64(0); j < n.val; j++ {
			r = r.Store(off.AddC(int64(j)), src(a.c.I(int64(j))))
		}
		return r
	}
	return a.Comp(func(i *Term) *Term {
		return off.Ule(i).And(i.Sub(off).Ult(n))
	}, func(i *Term) *Term { return src(i.Sub(off)) })
}

func (a *Arr) Ite(cond *Term, b *Arr) *Arr {
	if cond.IsTrue() || a == b {
		return a
	}
	if cond.IsFalse() {
		return b
	}
	return a.c.arr(&Arr{k: AIte, w: a.w, base: a, b2: b, fcond: cond})
}

// distinct reports whether i and j provably differ (syntactically).
func distinct(i, j *Term) bool {
	d := i.Sub(j)
	if d.IsConst() {
		return d.val != 0
	}
	if i.umax < j.umin || j.umax < i.umin {
		return true
	}
	return d.umin > 0
}

func (a *Arr) Sel(i *Term) *Term {
	if i.w != 64 {
		panic("array index width")
	}
	if r, ok := a.memo[i]; ok {
		return r
	}
	var r *Term
	c := a.c
	switch a.k {
	case ABase:
		r = c.App(a.name, a.w, i)
	case AConst:
		r = a.v
	case ATab:
		if i.IsConst() {
			if i.val < uint64(len(a.tab)) {
				r = c.BV(a.w, a.tab[i.val])
			} else {
				r = c.BV(a.w, 0)
			}
		} else {
			r = a.tabTree(i)
		}
	case AStore:
		if !i.IsConst() && a.idx.IsConst() && a.v.IsConst() {
			if t := a.compact(i); t != nil {
				r = t
				break
			}
		}
		if a.idx == i {
			r = a.v
		} else if distinct(a.idx, i) {
			r = a.base.Sel(i)
		} else {
			r = c.Ite(i.Eq(a.idx), a.v, a.base.Sel(i))
		}
	case AComp:
		cd := a.cond(i)
		if cd.IsTrue() {
			r = a.f(i)
		} else if cd.IsFalse() {
			r = a.base.Sel(i)
		} else {
			r = c.Ite(cd, a.f(i), a.base.Sel(i))
		}
	case AIte:
		r = c.Ite(a.fcond, a.base.Sel(i), a.b2.Sel(i))
	}
	a.memo[i] = r
	return r
}

// tabTree reads a constant table at a symbolic index as a balanced ite tree on index bits.
func (a *Arr) tabTree(i *Term) *Term {
	c := a.c
	n := 0
	for (1 << uint(n)) < len(a.tab) {
		n++
	}
	get := func(k uint64) uint64 {
		if k < uint64(len(a.tab)) {
			return a.tab[k]
		}
		return 0
	}
	var rec func(bit int, pre uint64) *Term
	rec = func(bit int, pre uint64) *Term {
		if bit < 0 {
			return c.BV(a.w, get(pre))
		}
		b := i.Extract(bit, bit).Eq(c.BV(1, 1))
		return c.Ite(b, rec(bit-1, pre|1<<uint(bit)), rec(bit-1, pre))
	}
	r := rec(n-1, 0)
	if i.umax < (uint64(1) << uint(n)) {
		return r
	}
	return c.Ite(i.Ult(c.I(int64(len(a.tab)))), r, c.BV(a.w, 0))
}

// compact reads a chain of constant stores covering 0..n-1 as a table.
func (a *Arr) compact(i *Term) *Term {
	m := map[uint64]uint64{}
	b := a
	for b.k == AStore && b.idx.IsConst() && b.v.IsConst() {
		if _, ok := m[b.idx.val]; !ok {
			m[b.idx.val] = b.v.val
		}
		b = b.base
	}
	if len(m) < 16 {
		return nil
	}
	tab := make([]uint64, len(m))
	for k, v := range m {
		if k >= uint64(len(m)) {
			return nil
		}
		tab[k] = v
	}
	t := &Arr{c: a.c, k: ATab, w: a.w, tab: tab, memo: map[*Term]*Term{}}
	if i.umax < uint64(len(tab)) {
		return t.tabTree(i)
	}
	return a.c.Ite(i.Ult(a.c.I(int64(len(tab)))), t.tabTree(i), b.Sel(i))
}

// bitty reports whether the array has parts that are described bit by bit.
func (a *Arr) bitty(d int) bool {
	if a == nil || d > 12 {
		return false
	}
	if a.bitf != nil || a.bitd {
		return true
	}
	switch a.k {
	case AStore, AComp:
		return a.base.bitty(d + 1)
	case AIte:
		return a.base.bitty(d+1) || a.b2.bitty(d+1)
	}
	return false
}

// bitAt reads bit b of the byte at index j.
func (a *Arr) bitAt(j *Term, b int) *Term {
	c := a.c
	switch a.k {
	case AComp:
		cd := a.cond(j)
		if cd.IsFalse() {
			return a.base.bitAt(j, b)
		}
		var v *Term
		if a.bitg != nil {
			v = a.bitg(j, b)
		} else if a.bitf != nil {
			v = a.bitf(j.MulC(8).AddC(int64(b)))
		} else {
			v = a.f(j).Extract(b, b)
		}
		if cd.IsTrue() {
			return v
		}
		return c.Ite(cd, v, a.base.bitAt(j, b))
	case AStore:
		if a.idx == j {
			return a.v.Extract(b, b)
		}
		if distinct(a.idx, j) {
			return a.base.bitAt(j, b)
		}
		return c.Ite(j.Eq(a.idx), a.v.Extract(b, b), a.base.bitAt(j, b))
	case AIte:
		return c.Ite(a.fcond, a.base.bitAt(j, b), a.b2.bitAt(j, b))
	}
	return a.Sel(j).Extract(b, b)
}

// overlay: base with [off, off+n) := q
func (a *Arr) overlay(off, n *Term, q *SeqV) *Arr {
	r := a.Comp(func(i *Term) *Term { return off.Ule(i).And(i.Sub(off).Ult(n)) }, func(i *Term) *Term { return q.at(i.Sub(off)) })
	if r.w == 8 && q.arr.bitty(0) {
		r.bitg = func(j *Term, b int) *Term { return q.arr.bitAt(q.off.Add(j.Sub(off)), b) }
		r.bitd = true
	}
	return r
}

// shift: element i is a[i+off]
func (a *Arr) shift(off *Term) *Arr {
	r := a.c.AConst(a.c.BV(a.w, 0)).Comp(func(*Term) *Term { return a.c.True }, func(i *Term) *Term { return a.Sel(i.Add(off)) })
	if a.w == 8 && a.bitty(0) {
		r.bitg = func(j *Term, b int) *Term { return a.bitAt(j.Add(off), b) }
		r.bitd = true
	}
	return r
}
