package main

// Paths of an inlined call that end in the same state, but for the values of ghost counters, are
// joined again: their facts become a disjunction, the counters a choice on the branch condition.

func mergeOuts(x *Exec, outs []Outcome) []Outcome {
	for i := 0; i < len(outs); i++ {
		for j := i + 1; j < len(outs); {
			if m, ok := mergeTwo(x, outs[i], outs[j]); ok {
				outs[i] = m
				outs = append(outs[:j:j], outs[j+1:]...)
				j = i + 1
				continue
			}
			j++
		}
	}
	return outs
}

func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *TupleV:
		y, ok := b.(*TupleV)
		if !ok || len(x.vs) != len(y.vs) {
			return false
		}
		for i := range x.vs {
			if !sameVal(x.vs[i], y.vs[i]) {
				return false
			}
		}
		return true
	case *LockV:
		y, ok := b.(*LockV)
		return ok && *x == *y
	}
	return a == b
}

func mergeTwo(x *Exec, oa, ob Outcome) (Outcome, bool) {
	none := Outcome{}
	a, b := oa.st, ob.st
	if oa.pan || ob.pan || a == nil || b == nil || a.pan != nil || b.pan != nil || a.unk != b.unk || a.inOnce != b.inOnce || a.synced != b.synced || a.clock != b.clock || !sameVal(oa.val, ob.val) {
		return none, false
	}
	if len(a.quants) != len(b.quants) {
		return none, false
	}
	for i := range a.quants {
		if a.quants[i] != b.quants[i] {
			return none, false
		}
	}
	n := 0
	for n < len(a.pc) && n < len(b.pc) && a.pc[n] == b.pc[n] {
		n++
	}
	if n >= len(a.pc) || n >= len(b.pc) || a.pc[n].Not() != b.pc[n] {
		return none, false
	}
	cond := a.pc[n]
	for id, o := range a.heap {
		p, ok := b.heap[id]
		if !ok || o == p {
			continue
		}
		if o.dead != p.dead || o.gone != p.gone || o.fresh != p.fresh || o.guard != p.guard || o.pool != p.pool || !sameVal(o.val, p.val) {
			return none, false
		}
	}
	for g, v := range a.ghost {
		w, ok := b.ghost[g]
		if !ok {
			return none, false
		}
		if sameVal(v, w) {
			continue
		}
		t, ok1 := v.(*Term)
		u, ok2 := w.(*Term)
		if !ok1 || !ok2 || t.w != u.w {
			return none, false
		}
	}
	if len(a.ghost) != len(b.ghost) {
		return none, false
	}
	m := a.clone()
	m.pc = append([]*Term(nil), a.pc[:n]...)
	m.assume(x.c.And(a.pc[n:]...).Or(x.c.And(b.pc[n:]...)))
	for g, v := range a.ghost {
		if w := b.ghost[g]; !sameVal(v, w) {
			m.ghost[g] = x.c.Ite(cond, v.(*Term), w.(*Term))
		}
	}
	for id, o := range b.heap {
		if _, ok := m.heap[id]; !ok {
			m.heap[id] = o
		}
	}
	for id, o := range b.refs {
		m.refs[id] = o
	}
	for g, o := range b.globs {
		if p, ok := m.globs[g]; ok && p != o {
			return none, false
		}
		m.globs[g] = o
	}
	for _, s := range b.approx {
		has := false
		for _, t := range m.approx {
			has = has || s == t
		}
		if !has {
			m.approx = append(m.approx, s)
		}
	}
	k := 0
	for k < len(a.trace) && k < len(b.trace) && a.trace[k] == b.trace[k] {
		k++
	}
	m.trace = append([]string(nil), a.trace[:k]...)
	return Outcome{st: m, val: oa.val}, true
}
