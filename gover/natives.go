package main

// Models of the functions of dependencies that the code calls. They are the
// trusted part of the verification and are listed in the evidence.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type native func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome

var natives map[string]native

func (x *Exec) lockPtr(st *State, v Value) (*PtrV, *LockV) {
	p := x.resolve(st, v.(*PtrV))
	lv, ok := getPath(x, st, st.heap[p.obj].val, p.path).(*LockV)
	if !ok {
		unsup("not a lock")
	}
	n := *lv
	return p, &n
}

func (x *Exec) setLock(st *State, p *PtrV, lv *LockV) {
	st.setVal(p.obj, setPath(x, st, st.heap[p.obj].val, p.path, lv))
	st.synced = true
}

// newErr: a new error value, distinct from every other.
func (x *Exec) newErr(st *State) *IfaceV {
	var t types.Type = types.Typ[types.Int]
	if p := x.p.pkgs["errors"]; p != nil {
		if o := p.Scope().Lookup("errorString"); o != nil {
			t = o.Type()
		}
	}
	o := st.newObj(t, &OpaqueV{t: t, n: "error"}, "error", true)
	return &IfaceV{con: types.NewPointer(t), val: &PtrV{obj: o.id, et: t}}
}

// symErr: an unknown error, never nil.
func (x *Exec) symErr(st *State, name string) *IfaceV {
	id := x.c.Fresh(name, 64)
	st.assume(id.Ne(x.c.I(0)))
	// an error made by a dependency is not one of this package's exception errors
	if et := x.excType(); et != nil {
		st.assume(x.c.App("dyntype:"+typeName(types.NewPointer(et)), 0, id).Not())
	}
	return &IfaceV{id: id}
}

// ioErr: the error of a failed I/O operation.
func (x *Exec) ioErr(st *State, name string) *IfaceV {
	st.ghost["fails"] = x.gTerm(st, "fails").AddC(1)
	return x.symErr(st, name)
}

func nilErr(x *Exec) *IfaceV { return &IfaceV{id: x.c.I(0)} }

func (x *Exec) freshStr(name string) *StrV {
	c := x.c
	return &StrV{arr: c.ABase(name, 8), off: c.I(0), len: c.Len(name + ".len"), id: c.Fresh(name+".id", 64)}
}

func (x *Exec) now(st *State) *Term {
	c := x.c
	t := c.Fresh("now", 56).Zext(64)
	cl := st.ghost["clock"].(*Term)
	st.assume(c.I(0).Ult(t))
	st.assume(cl.Ule(t))
	if l, ok := st.ghost["lastio"].(*Term); ok { // the moment the last transfer ended
		st.assume(l.Ule(cl))
	}
	st.ghost["clock"] = t
	return t
}

func (x *Exec) gBuf(st *State, n string) *BufV {
	b, ok := st.ghost[n].(*BufV)
	if !ok {
		unsup("no ghost stream %s", n)
	}
	return b
}

func (x *Exec) gTerm(st *State, n string) *Term {
	b, ok := st.ghost[n].(*Term)
	if !ok {
		unsup("no ghost %s", n)
	}
	return b
}

func (x *Exec) ioHavoc(st *State) {
	c := x.c
	old := x.gTerm(st, "inpos")
	st.ghost["inpos"] = c.Len("g.inpos")
	st.assume(old.Ule(st.ghost["inpos"].(*Term)))
	ob := x.gBuf(st, "out")
	_ = ob
	st.ghost["out"] = &BufV{arr: c.ABase("g.out", 8), len: c.Len("g.outlen")}
	for _, g := range []string{"rdl", "wdl"} {
		st.ghost[g] = c.Fresh("g."+g, 64)
	}
	st.ghost["dialto"] = c.Fresh("g.dialto", 64)
	for _, g := range []string{"dials", "fails"} {
		o := x.gTerm(st, g)
		st.ghost[g] = c.Len("g." + g)
		st.assume(o.Ule(st.ghost[g].(*Term)))
	}
	for _, g := range []string{"lastn"} {
		st.ghost[g] = c.Len("g." + g)
	}
	st.ghost["lastio"] = c.Fresh("g.lastio", 56).Zext(64)
	x.now(st)
}

// ioCheck evaluates the io clauses of the contract being verified.
func (x *Exec) ioCheck(st *State, when string, buf Value, pos token.Pos) {
	if x.probe > 0 || x.spec == nil {
		return
	}
	for _, cl := range x.con.io {
		if cl.when != when && cl.when != "any" && !(cl.when == "xfer" && (when == "read" || when == "write")) {
			continue
		}
		sc := x.spec.clone()
		sc.st = st
		sc.post = st
		sc.skol = true
		if buf != nil {
			sc.env["buf"] = sc.toSV(buf, types.NewSlice(types.Typ[types.Uint8]))
		}
		x.prove(st, sc.boolv(cl.e), "io", when+" at "+x.pos(pos)+": "+cl.src, cl.tags)
	}
}

// ioRead: bytes arrive from the stream into d; n of them.
func (x *Exec) ioRead(st *State, d *SliceV, n *Term, pos token.Pos) {
	c := x.c
	in, p := x.gBuf(st, "in"), x.gTerm(st, "inpos")
	st.assume(p.Add(n).Ule(in.len))
	if d.obj != 0 {
		x.accessObj(st, d.obj, true, pos)
		x.writeSlice(st, d, x.sliceArr(st, d).arr.CopyIn(d.off, n, func(j *Term) *Term { return in.arr.Sel(p.Add(j)) }))
	}
	st.ghost["inpos"] = p.Add(n)
	_ = c
}

func (x *Exec) ioWrite(st *State, d *SliceV, n *Term, pos token.Pos) {
	out := x.gBuf(st, "out")
	ln, src := x.seqArg(st, d, pos)
	_ = ln
	st.ghost["out"] = &BufV{arr: out.arr.CopyIn(out.len, n, src), len: out.len.Add(n)}
}

// readModel: least <= n on success; returns (n, err) outcomes.
func (x *Exec) readModel(st *State, d *SliceV, least *Term, name string, pos token.Pos) []Outcome {
	c := x.c
	if x.probe > 0 && false {
		return nil
	}
	x.ioCheck(st, "read", d, pos)
	var outs []Outcome
	bad := st.clone()
	// success
	n := least
	if least != d.len {
		n = c.Len("nread")
		st.assume(least.Ule(n))
		st.assume(n.Ule(d.len))
	}
	st.ghost["lastio"] = x.now(st)
	x.ioRead(st, d, n, pos)
	st.ghost["lastn"] = n
	if !st.inconsistent() && x.feasible(st, c.True.And(least.Ule(d.len))) {
		st.assume(least.Ule(d.len))
		st.trace = append(st.trace, x.pos(pos)+" read ok")
		outs = append(outs, Outcome{st: st, val: &TupleV{vs: []Value{n, nilErr(x)}}})
	}
	// failure after m < least bytes
	m := c.Len("nread")
	bad.assume(m.Ule(d.len))
	if name != "Read" {
		bad.assume(m.Ult(least))
	}
	e := x.ioErr(bad, "ioerr")
	if name != "Read" {
		eof := c.I(x.p.extID("io.EOF"))
		bad.assume(m.Eq(c.I(0)).Or(e.id.Ne(eof)))
	}
	bad.ghost["lastio"] = x.now(bad)
	x.ioRead(bad, d, m, pos)
	bad.ghost["lastn"] = m
	if x.feasible(bad, c.Fresh("any", 0)) {
		bad.trace = append(bad.trace, x.pos(pos)+" read fails")
		outs = append(outs, Outcome{st: bad, val: &TupleV{vs: []Value{m, e}}})
	}
	return outs
}

// setGhost sets a ghost counter, if the contracts declare it.
func (x *Exec) setGhost(st *State, g string, n int64) {
	if _, ok := st.ghost[g].(*Term); ok {
		st.ghost[g] = x.c.I(n)
	}
}

// bump adds n to a ghost counter, if the contracts declare it.
func (x *Exec) bump(st *State, g string, n *Term) {
	if t, ok := st.ghost[g].(*Term); ok {
		st.ghost[g] = t.Add(n)
	}
}

// spawn follows the body of a new goroutine on a copy of the state: its obligations, and the clauses
// "go" (before it starts) and "goend" (when it ends). The starter goes on as if nothing had happened yet.
func (x *Exec) spawn(st *State, f Value, call *ssa.CallCommon, args []Value, pos token.Pos, counted bool) {
	x.ioCheck(st, "go", nil, pos)
	x.bump(st, "wgadd", x.c.I(-1))
	x.bump(st, "started", x.c.I(1))
	if x.probe > 0 {
		return
	}
	b := st.clone()
	for id, o := range b.heap { // a new goroutine holds no lock
		if v, changed := unlocked(o.val); changed {
			b.setVal(id, v)
		}
	}
	if _, ok := b.ghost["wgdone"].(*Term); ok {
		b.ghost["wgdone"] = x.c.I(0)
	}
	b.trace = append(b.trace, "goroutine started at "+x.pos(pos))
	var outs []Outcome
	if call != nil {
		outs = x.callValue(b, call, f, args, pos)
	} else {
		outs = x.callFunc(b, f.(*FuncV), args, pos)
	}
	for _, o := range outs {
		if counted {
			x.ioCheck(o.st, "done", nil, pos)
			x.bump(o.st, "wgdone", x.c.I(1))
		}
		x.proveFlag(o.st, !o.pan, "nopanic", "the goroutine started at "+x.pos(pos)+" does not panic "+o.desc, "nopanic")
		x.ioCheck(o.st, "goend", nil, pos)
	}
	x.note("the goroutine started at %s is verified by itself; what it shares with its starter is assumed to be protected as the lock obligations say", x.pos(pos))
}

// interfere: in functions that take a lock more than once, the fields it protects may have
// been changed by others whenever it is taken.
func (x *Exec) interfere(st *State, p *PtrV) {
	if !x.con.interfere() || len(p.path) == 0 {
		return
	}
	o := st.heap[p.obj]
	if o.fresh {
		return
	}
	t := o.typ
	for _, s := range p.path[:len(p.path)-1] {
		stt, ok := t.Underlying().(*types.Struct)
		if !ok || s.field < 0 {
			return
		}
		t = stt.Field(s.field).Type()
	}
	stt, ok := t.Underlying().(*types.Struct)
	gd := x.p.guards[typeName(t)]
	if !ok || gd == nil {
		return
	}
	lock := stt.Field(p.path[len(p.path)-1].field).Name()
	for j := 0; j < stt.NumFields(); j++ {
		f := stt.Field(j)
		if gd.fields[f.Name()] != lock {
			continue
		}
		q := &PtrV{obj: p.obj, path: appendStep(p.path[:len(p.path)-1], Step{field: j}), et: f.Type()}
		x.storeRaw(st, q, st.symbolic(f.Type(), "other."+f.Name(), false))
	}
	x.applyTypeInv(st, p.obj)
}

func (x *Exec) isConn(v Value) bool {
	iv, ok := v.(*IfaceV)
	return ok && iv.con == nil
}

// ifaceNative models methods of the connection and error interfaces of dependencies.
func (x *Exec) ifaceNative(st *State, iv *IfaceV, it types.Type, m *types.Func, args []Value, pos token.Pos) []Outcome {
	c := x.c
	name := m.Name()
	full := "(" + typeName(it) + ")." + name
	x.trust["interface method "+full] = true
	switch name {
	case "Read":
		d := args[0].(*SliceV)
		return x.readModel(st, d, c.I(0), "Read", pos)
	case "Write":
		d := args[0].(*SliceV)
		x.ioCheck(st, "write", d, pos)
		bad := st.clone()
		x.ioWrite(st, d, d.len, pos)
		st.ghost["lastio"] = x.now(st)
		st.trace = append(st.trace, x.pos(pos)+" write ok")
		k := c.Len("nwritten")
		bad.assume(k.Ule(d.len))
		x.ioWrite(bad, d, k, pos)
		bad.ghost["lastio"] = x.now(bad)
		bad.trace = append(bad.trace, x.pos(pos)+" write fails")
		return []Outcome{{st: st, val: &TupleV{vs: []Value{d.len, nilErr(x)}}}, {st: bad, val: &TupleV{vs: []Value{k, x.ioErr(bad, "ioerr")}}}}
	case "Accept":
		x.ioCheck(st, "accept", nil, pos)
		bad := st.clone()
		id := c.Fresh("conn", 64)
		st.assume(id.Ne(c.I(0)))
		st.trace = append(st.trace, x.pos(pos)+" accept ok")
		bad.trace = append(bad.trace, x.pos(pos)+" accept fails")
		return []Outcome{{st: st, val: &TupleV{vs: []Value{&IfaceV{id: id}, nilErr(x)}}}, {st: bad, val: &TupleV{vs: []Value{nilErr(x), x.symErr(bad, "accepterr")}}}}
	case "Close":
		if typeName(it) == "net.Listener" {
			x.bump(st, "lclosed", c.I(1))
		} else {
			x.bump(st, "cclosed", c.I(1))
		}
		x.ioCheck(st, "close", nil, pos)
		e := x.c.Fresh("closeerr", 64)
		if et := x.excType(); et != nil {
			st.assume(x.c.App("dyntype:"+typeName(types.NewPointer(et)), 0, e).Not())
		}
		return ok1(st, &IfaceV{id: e})
	case "SetDeadline", "SetReadDeadline", "SetWriteDeadline":
		x.ioCheck(st, "deadline", nil, pos)
		bad := st.clone()
		t := tterm(args[0])
		if name != "SetWriteDeadline" {
			st.ghost["rdl"] = t
		}
		if name != "SetReadDeadline" {
			st.ghost["wdl"] = t
		}
		bad.trace = append(bad.trace, x.pos(pos)+" "+name+" fails")
		return []Outcome{{st: st, val: nilErr(x)}, {st: bad, val: x.ioErr(bad, "dlerr")}}
	case "Error":
		return ok1(st, x.freshStr("errtext"))
	case "String":
		return ok1(st, x.freshStr("text"))
	case "Timeout", "Temporary":
		if iv.con == nil {
			return ok1(st, c.App("neterr."+name, 0, iv.id))
		}
	case "RemoteAddr", "LocalAddr":
		id := c.Fresh("addr", 64)
		st.assume(id.Ne(c.I(0)))
		return ok1(st, &IfaceV{id: id})
	case "Err":
		return ok1(st, &IfaceV{id: c.Fresh("ctxerr", 64)})
	case "Done":
		return ok1(st, &ChanV{"done"})
	case "Printf", "Println", "Print":
		return ok1(st, &TupleV{})
	}
	return nil
}

func (x *Exec) symResult(st *State, fn *ssa.Function) Value {
	rs := fn.Signature.Results()
	one := func(t types.Type) Value {
		if types.Identical(t, types.Universe.Lookup("error").Type()) {
			return &IfaceV{id: x.c.Fresh("exterr", 64)}
		}
		return st.symbolic(t, "ext."+fn.Name(), false)
	}
	switch rs.Len() {
	case 0:
		return &TupleV{}
	case 1:
		return one(rs.At(0).Type())
	}
	tv := &TupleV{}
	for i := 0; i < rs.Len(); i++ {
		tv.vs = append(tv.vs, one(rs.At(i).Type()))
	}
	return tv
}

// genericNative: functions without effect on this package's memory.
func (x *Exec) genericNative(st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
	pk := ""
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pk = fn.Object().Pkg().Path()
	}
	switch pk {
	case "log", "os", "strings", "net/url", "context", "time", "fmt", "errors", "strconv", "math/rand":
		return ok1(st, x.symResult(st, fn))
	}
	return nil
}

func (x *Exec) word(st *State, v Value, n int64, pos token.Pos, outs *[]Outcome) (*State, *SliceV) {
	s := v.(*SliceV)
	st = x.split(st, x.c.I(n).Ule(s.len), "index out of range in encoding/binary", pos, outs)
	if st == nil {
		return nil, nil
	}
	if s.obj != 0 {
		x.accessObj(st, s.obj, false, pos)
	}
	return st, s
}

func getWord(big bool, n int) native {
	return func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
		var outs []Outcome
		st, s := x.word(st, args[len(args)-1], int64(n), pos, &outs)
		if st == nil {
			return outs
		}
		a := x.sliceArr(st, s).arr
		var r *Term
		for i := 0; i < n; i++ {
			b := a.Sel(s.off.AddC(int64(i)))
			if r == nil {
				r = b
			} else if big {
				r = r.Concat(b)
			} else {
				r = b.Concat(r)
			}
		}
		return append(outs, Outcome{st: st, val: r})
	}
}

func putWord(big bool, n int) native {
	return func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
		var outs []Outcome
		st, s := x.word(st, args[len(args)-2], int64(n), pos, &outs)
		if st == nil {
			return outs
		}
		v := tterm(args[len(args)-1])
		x.accessObj(st, s.obj, true, pos)
		a := x.sliceArr(st, s).arr
		for i := 0; i < n; i++ {
			k := i
			if big {
				k = n - 1 - i
			}
			a = a.Store(s.off.AddC(int64(i)), v.Extract(8*k+7, 8*k))
		}
		x.writeSlice(st, s, a)
		return append(outs, Outcome{st: st, val: &TupleV{}})
	}
}

func (x *Exec) bufOf(st *State, v Value) (*PtrV, *BufV) {
	if iv, ok := v.(*IfaceV); ok {
		if iv.con == nil {
			unsup("unknown reader or writer")
		}
		v = iv.val
	}
	p, ok := v.(*PtrV)
	if !ok {
		unsup("not a buffer")
	}
	p = x.resolve(st, p)
	b, ok := getPath(x, st, st.heap[p.obj].val, p.path).(*BufV)
	if !ok {
		unsup("not a bytes.Buffer")
	}
	return p, b
}

func (x *Exec) setBuf(st *State, p *PtrV, b *BufV) {
	st.setVal(p.obj, setPath(x, st, st.heap[p.obj].val, p.path, b))
}

func isBig(v Value) bool {
	iv, ok := v.(*IfaceV)
	if !ok || iv.con == nil {
		unsup("unknown byte order")
	}
	return strings.Contains(typeName(iv.con), "bigEndian")
}

// wordSeq: byte view of n words.
func byteOf(big bool, w *Term, lo *Term) *Term {
	c := w.c
	first, second := w.Extract(15, 8), w.Extract(7, 0)
	if !big {
		first, second = second, first
	}
	return c.Ite(lo.Extract(0, 0).Eq(c.BV(1, 0)), first, second)
}

func init() {
	lockFn := func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
		p, lv := x.lockPtr(st, args[0])
		x.proveFlag(st, lv.w == 0 && lv.r == 0, "locks", "Lock at "+x.pos(pos)+" while the lock is not already held by this call", "locks")
		lv.w = 1
		lv.acq++
		x.setLock(st, p, lv)
		x.interfere(st, p)
		return ok1(st, &TupleV{})
	}
	unlockFn := func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
		p, lv := x.lockPtr(st, args[0])
		x.proveFlag(st, lv.w > 0, "locks", "Unlock at "+x.pos(pos)+" of a held lock", "locks")
		lv.w = 0
		x.setLock(st, p, lv)
		return ok1(st, &TupleV{})
	}
	natives = map[string]native{
		"(*sync.Mutex).Lock":     lockFn,
		"(*sync.Mutex).Unlock":   unlockFn,
		"(*sync.RWMutex).Lock":   lockFn,
		"(*sync.RWMutex).Unlock": unlockFn,
		"(*sync.RWMutex).RLock": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			p, lv := x.lockPtr(st, args[0])
			x.proveFlag(st, lv.w == 0 && lv.r == 0, "locks", "RLock at "+x.pos(pos)+" while the lock is not already held by this call", "locks")
			lv.r++
			lv.acq++
			x.setLock(st, p, lv)
			return ok1(st, &TupleV{})
		},
		"(*sync.RWMutex).RUnlock": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			p, lv := x.lockPtr(st, args[0])
			x.proveFlag(st, lv.r > 0, "locks", "RUnlock at "+x.pos(pos)+" of a read-held lock", "locks")
			if lv.r > 0 {
				lv.r--
			}
			x.setLock(st, p, lv)
			return ok1(st, &TupleV{})
		},
		"(*sync.Once).Do": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			x.note("sync.Once.Do(f) is taken to have the effect of running f")
			f := args[1].(*FuncV)
			st.inOnce++
			outs := x.callFunc(st, f, nil, pos)
			for _, o := range outs {
				if o.st != nil {
					o.st.inOnce--
					o.st.synced = true
				}
			}
			return outs
		},
		"(*sync.WaitGroup).Add": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			x.ioCheck(st, "add", nil, pos)
			x.bump(st, "wgadd", tterm(args[1]))
			return ok1(st, &TupleV{})
		},
		"(*sync.WaitGroup).Done": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			x.ioCheck(st, "done", nil, pos)
			x.bump(st, "wgdone", x.c.I(1))
			return ok1(st, &TupleV{})
		},
		"(*sync.WaitGroup).Wait": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			x.ioCheck(st, "wait", nil, pos)
			x.bump(st, "waits", x.c.I(1))
			return ok1(st, &TupleV{})
		},
		"(*sync.WaitGroup).Go": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			x.ioCheck(st, "add", nil, pos)
			x.bump(st, "wgadd", x.c.I(1))
			x.spawn(st, args[1], nil, nil, pos, true)
			return ok1(st, &TupleV{})
		},
		"crypto/tls.DialWithDialer": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			outs := dial(x, st, fn, args, pos)
			et := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
			for i := range outs {
				tv := outs[i].val.(*TupleV)
				iv := tv.vs[0].(*IfaceV)
				var p *PtrV
				if iv.id.IsConst() {
					p = &PtrV{et: et}
				} else {
					p = &PtrV{obj: -1, ref: iv.id, et: et}
				}
				outs[i].val = &TupleV{vs: []Value{p, tv.vs[1]}}
			}
			return outs
		},
		"time.NewTicker": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			var outs []Outcome
			if st = x.split(st, x.c.I(0).Slt(tterm(args[0])), "non-positive interval for NewTicker", pos, &outs); st == nil {
				return outs
			}
			et := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
			o := st.newObj(et, nil, "ticker", true)
			st.setVal(o.id, st.symbolic(et, "ticker", false))
			return append(outs, Outcome{st: st, val: &PtrV{obj: o.id, et: et}})
		},
		"(*time.Ticker).Stop":  nop,
		"(*time.Ticker).Reset": nop,
		"net.Listen": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			bad := st.clone()
			id := x.c.Fresh("listener", 64)
			st.assume(id.Ne(x.c.I(0)))
			bad.trace = append(bad.trace, "listen fails")
			return []Outcome{{st: st, val: &TupleV{vs: []Value{&IfaceV{id: id}, nilErr(x)}}}, {st: bad, val: &TupleV{vs: []Value{nilErr(x), x.symErr(bad, "listenerr")}}}}
		},
		"context.WithCancel": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			id, f := x.c.Fresh("ctx", 64), x.c.Fresh("cancel", 64)
			st.assume(id.Ne(x.c.I(0)))
			st.assume(f.Ne(x.c.I(0)))
			return ok1(st, &TupleV{vs: []Value{&IfaceV{id: id}, &FuncV{id: f, t: fn.Signature.Results().At(1).Type()}}})
		},
		"(*sync.Pool).Get":       poolGet,
		"(*sync.Pool).Put":       poolPut,

		"(*sync.Map).Load":   smLoad,
		"(*sync.Map).Store":  smStore,
		"(*sync.Map).Delete": smDelete,
		"(*sync.Map).Range":  smRange,

		"sync/atomic.AddUint32":            atomicAdd,
		"sync/atomic.AddUint64":            atomicAdd,
		"sync/atomic.AddInt32":             atomicAdd,
		"(*sync/atomic.Uint32).Add":        atomicAdd,
		"(*sync/atomic.Uint64).Add":        atomicAdd,
		"sync/atomic.LoadUint32":           atomicLoad,
		"sync/atomic.LoadUint64":           atomicLoad,
		"(*sync/atomic.Uint32).Load":       atomicLoad,
		"sync/atomic.StoreUint32":          atomicStore,
		"(*sync/atomic.Uint32).Store":      atomicStore,
		"sync/atomic.CompareAndSwapUint32": atomicCAS,

		"time.Now": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			return ok1(st, x.now(st))
		},
		"(time.Time).Add": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			return ok1(st, tterm(args[0]).Add(tterm(args[1])))
		},
		"(time.Time).IsZero": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			return ok1(st, tterm(args[0]).Eq(x.c.I(0)))
		},
		"(time.Time).Sub": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			return ok1(st, tterm(args[0]).Sub(tterm(args[1])))
		},
		"time.Sleep": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			x.now(st)
			x.setGhost(st, "live", 0)
			return ok1(st, &TupleV{})
		},
		"fmt.Errorf": newErrNative,
		"errors.New": newErrNative,
		"fmt.Sprintf": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			return ok1(st, x.freshStr("sprintf"))
		},
		"strings.Contains": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			a, b := args[0].(*StrV), args[1].(*StrV)
			if a.lit != nil && b.lit != nil {
				return ok1(st, x.c.Bool(strings.Contains(*a.lit, *b.lit)))
			}
			return ok1(st, x.c.Fresh("contains", 0))
		},
		"math/rand.Intn": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			n := tterm(args[0])
			var outs []Outcome
			if st = x.split(st, x.c.I(0).Slt(n), "invalid argument to Intn", pos, &outs); st == nil {
				return outs
			}
			r := x.c.Fresh("rand", 64)
			st.assume(r.Ult(n))
			return append(outs, Outcome{st: st, val: r})
		},
		"io.ReadFull": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			d := args[1].(*SliceV)
			iv := args[0].(*IfaceV)
			if iv.con != nil {
				unsup("ReadFull from %s", iv.con)
			}
			var outs []Outcome
			if x.valid(st, d.len.Eq(x.c.I(0))) {
				return ok1(st, &TupleV{vs: []Value{x.c.I(0), nilErr(x)}})
			}
			if st = x.split(st, iv.id.Ne(x.c.I(0)), "nil pointer dereference", pos, &outs); st == nil {
				return outs
			}
			return append(outs, x.readModel(st, d, d.len, "ReadFull", pos)...)
		},
		"io.ReadAtLeast": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			d := args[1].(*SliceV)
			least := tterm(args[2])
			iv := args[0].(*IfaceV)
			if iv.con != nil {
				unsup("ReadAtLeast from %s", iv.con)
			}
			var outs []Outcome
			if st = x.split(st, iv.id.Ne(x.c.I(0)), "nil pointer dereference", pos, &outs); st == nil {
				return outs
			}
			if !x.valid(st, least.Sle(d.len)) || !x.valid(st, x.c.I(0).Slt(least)) {
				unsup("ReadAtLeast with a short buffer")
			}
			return append(outs, x.readModel(st, d, least, "ReadAtLeast", pos)...)
		},
		"(*net.Dialer).Dial":              dial,
		"net.DialTimeout":                 dial,
		"net.Dial":                        dial,
		"github.com/goburrow/serial.Open": dial,

		"(encoding/binary.bigEndian).Uint16":       getWord(true, 2),
		"(encoding/binary.littleEndian).Uint16":    getWord(false, 2),
		"(encoding/binary.bigEndian).Uint32":       getWord(true, 4),
		"(encoding/binary.littleEndian).Uint32":    getWord(false, 4),
		"(encoding/binary.bigEndian).PutUint16":    putWord(true, 2),
		"(encoding/binary.littleEndian).PutUint16": putWord(false, 2),
		"(encoding/binary.bigEndian).PutUint32":    putWord(true, 4),
		"encoding/binary.Write":                    binWrite,
		"encoding/binary.Read":                     binRead,

		"bytes.NewBuffer": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			s := args[0].(*SliceV)
			n, src := x.seqArg(st, s, pos)
			t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
			// a later write to the slice would be visible through the buffer: the slice must not be written again
			if s.obj != 0 {
				x.note("bytes.NewBuffer copies its argument in the model")
			}
			o := st.newObj(t, &BufV{arr: x.c.AConst(x.c.BV(8, 0)).CopyIn(x.c.I(0), n, src), len: n}, "buffer", true)
			return ok1(st, &PtrV{obj: o.id, et: t})
		},
		"(*bytes.Buffer).Bytes": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			_, b := x.bufOf(st, args[0])
			et := types.Typ[types.Uint8]
			o := st.newObj(types.NewArray(et, -1), &ArrV{arr: b.arr, n: -1, et: et}, "Bytes()", true)
			return ok1(st, &SliceV{obj: o.id, off: x.c.I(0), len: b.len, cap: b.len.Add(x.c.Len("bufcap")), isnil: x.c.Fresh("bufnil", 0).And(b.len.Eq(x.c.I(0))), et: et})
		},
		"(*bytes.Buffer).Len": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			_, b := x.bufOf(st, args[0])
			return ok1(st, b.len)
		},
		"(*bytes.Buffer).Write": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			p, b := x.bufOf(st, args[0])
			n, src := x.seqArg(st, args[1], pos)
			x.setBuf(st, p, &BufV{arr: b.arr.CopyIn(b.len, n, src), len: b.len.Add(n)})
			return ok1(st, &TupleV{vs: []Value{n, nilErr(x)}})
		},
		"(*bytes.Buffer).WriteByte": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			p, b := x.bufOf(st, args[0])
			x.setBuf(st, p, &BufV{arr: b.arr.Store(b.len, tterm(args[1])), len: b.len.AddC(1)})
			return ok1(st, nilErr(x))
		},
		"bytes.Equal": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			na, sa := x.seqArg(st, args[0], pos)
			nb, sb := x.seqArg(st, args[1], pos)
			return ok1(st, x.seqEqualTerm(st, na, sa, nb, sb))
		},
		"encoding/hex.DecodedLen": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			return ok1(st, tterm(args[0]).Sdiv(x.c.I(2)))
		},
		"encoding/hex.Decode": hexDecode,
		"encoding/hex.EncodedLen": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
			return ok1(st, tterm(args[0]).MulC(2))
		},
	}
}

func nop(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
	return ok1(st, &TupleV{})
}

func newErrNative(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
	return ok1(st, x.newErr(st))
}

func dial(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
	c := x.c
	x.ioCheck(st, "dial", nil, pos)
	if b, ok := st.ghost["dials"].(*Term); ok {
		st.ghost["dials"] = b.AddC(1)
	}
	if (fn.Name() == "Dial" && len(args) == 3) || fn.Name() == "DialWithDialer" { // the dialer's timeout
		d := args[0].(*PtrV)
		sv, ok := x.load(st, d).(*StructV)
		if ok {
			if _, ok := st.ghost["dialto"]; ok {
				stt := d.et.Underlying().(*types.Struct)
				for i := 0; i < stt.NumFields(); i++ {
					if stt.Field(i).Name() == "Timeout" {
						st.ghost["dialto"] = sv.f[i]
					}
				}
			}
		}
	}
	if fn.Name() == "DialTimeout" {
		st.ghost["dialto"] = args[2]
	}
	x.setGhost(st, "live", 0)
	bad := st.clone()
	x.bump(st, "dialok", c.I(1))
	id := c.Fresh("conn", 64)
	st.assume(id.Ne(c.I(0)))
	st.ghost["rdl"] = c.I(0)
	st.ghost["wdl"] = c.I(0)
	x.now(st)
	x.now(bad)
	st.trace = append(st.trace, "dial ok")
	bad.trace = append(bad.trace, "dial fails")
	return []Outcome{{st: st, val: &TupleV{vs: []Value{&IfaceV{id: id}, nilErr(x)}}}, {st: bad, val: &TupleV{vs: []Value{nilErr(x), x.ioErr(bad, "dialerr")}}}}
}

// seqEqualTerm: a boolean that is true exactly when the sequences agree.
func (x *Exec) seqEqualTerm(st *State, na *Term, sa func(*Term) *Term, nb *Term, sb func(*Term) *Term) *Term {
	c := x.c
	for _, n := range []*Term{na, nb} {
		if n.IsConst() && n.val <= 64 {
			r := na.Eq(nb)
			for i := uint64(0); i < n.val; i++ {
				r = r.And(sa(c.I(int64(i))).Eq(sb(c.I(int64(i)))))
			}
			return r
		}
	}
	b := c.Fresh("equal", 0)
	w := c.Fresh("diffat", 40).Zext(64)
	// b => all equal ; !b => lengths differ or a witness differs
	st.assume(b.Implies(na.Eq(nb)))
	st.assume(c.Or(b, na.Ne(nb), w.Ult(na).And(sa(w).Ne(sb(w)))))
	st.quants = append(st.quants, &Quant{name: "bytes.Equal", lo: c.I(0), hi: na, f: func(i *Term) *Term { return b.Implies(sa(i).Eq(sb(i))) }})
	return b
}

// ---- atomics

// atomPtr also counts the operations on fields declared atomic (g.atomops).
func (x *Exec) atomPtr(st *State, v Value) *PtrV {
	p := x.resolve(st, v.(*PtrV))
	if n := len(p.path); n > 0 {
		if o := st.heap[p.obj]; o != nil {
			t := x.typeAt(o.typ, p.path[:n-1])
			if nt, ok := t.(*types.Named); ok {
				if gd := x.p.guards[typeName(t)]; gd != nil {
					if s, ok := nt.Underlying().(*types.Struct); ok && p.path[n-1].field >= 0 && gd.atomics[s.Field(p.path[n-1].field).Name()] {
						st.ghost["atomops"] = x.gTerm(st, "atomops").AddC(1)
					}
				}
			}
		}
	}
	return p
}

func atomicAdd(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
	p := x.atomPtr(st, args[0])
	v := tterm(x.load(st, p)).Add(tterm(args[1]))
	x.store(st, p, v)
	return ok1(st, v)
}
func atomicLoad(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
	st.synced = true
	return ok1(st, x.load(st, x.atomPtr(st, args[0])))
}
func atomicStore(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
	x.store(st, x.atomPtr(st, args[0]), args[1])
	return ok1(st, &TupleV{})
}
func atomicCAS(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
	p := x.atomPtr(st, args[0])
	v := tterm(x.load(st, p))
	ok := v.Eq(tterm(args[1]))
	x.store(st, p, x.c.Ite(ok, tterm(args[2]), v))
	return ok1(st, ok)
}

// ---- sync.Pool

func poolGet(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
	c := x.c
	p := x.resolve(st, args[0].(*PtrV))
	sv, ok := x.load(st, p).(*StructV)
	if !ok {
		unsup("pool without a known New function")
	}
	var nf *FuncV
	stt := p.et.Underlying().(*types.Struct)
	for i := 0; i < stt.NumFields(); i++ {
		if stt.Field(i).Name() == "New" {
			nf, _ = sv.f[i].(*FuncV)
		}
	}
	if nf == nil || nf.fn == nil {
		unsup("pool without a known New function")
	}
	outs := x.callFunc(st, nf, nil, pos)
	for _, o := range outs {
		if o.pan {
			continue
		}
		iv, ok := o.val.(*IfaceV)
		if !ok || iv.con == nil {
			unsup("pool element")
		}
		ep, ok := iv.val.(*PtrV)
		if !ok || len(ep.path) > 0 {
			unsup("pool element is not a pointer")
		}
		ob := *o.st.heap[ep.obj]
		if !ob.fresh {
			unsup("pool New returns shared memory")
		}
		ob.pool = &poolInfo{pool: p.obj, bufs: map[int]bufInfo{}}
		ob.name = "pooled frame"
		// a recycled element: contents and lengths are arbitrary
		if es, ok := ob.val.(*StructV); ok {
			n := &StructV{f: append([]Value(nil), es.f...)}
			for i, f := range es.f {
				switch f := f.(type) {
				case *SliceV:
					if f.obj == 0 {
						continue
					}
					bo := *o.st.heap[f.obj]
					av := x.sliceArr(o.st, f)
					bo.val = &ArrV{arr: c.ABase("pooled", av.arr.w), n: -1, et: av.et}
					bo.name = "pooled buffer"
					o.st.heap[f.obj] = &bo
					ln := c.Len("poollen")
					o.st.assume(ln.Ule(f.cap))
					n.f[i] = &SliceV{obj: f.obj, off: f.off, len: ln, cap: f.cap, isnil: c.False, et: f.et}
					ob.pool.bufs[i] = bufInfo{f.obj, f.cap}
				case *Term:
					n.f[i] = c.Fresh("pooled", f.w)
				}
			}
			ob.val = n
		}
		o.st.heap[ep.obj] = &ob
	}
	return outs
}

func poolPut(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
	c := x.c
	p := x.resolve(st, args[0].(*PtrV))
	iv := args[1].(*IfaceV)
	where := " at " + x.pos(pos)
	ep, ok := iv.val.(*PtrV)
	if iv.con == nil || !ok || ep.obj <= 0 || st.heap[ep.obj].pool == nil {
		x.proveFlag(st, false, "pool", "Put of an element obtained from the pool"+where, "pool")
		return ok1(st, &TupleV{})
	}
	o := *st.heap[ep.obj]
	x.proveFlag(st, o.dead == "", "pool", "Put of an element not already given back"+where, "pool")
	x.proveFlag(st, o.pool.pool == p.obj, "pool", "Put into the pool the element came from"+where, "pool")
	if es, ok := o.val.(*StructV); ok {
		for i, b := range o.pool.bufs {
			s, ok := es.f[i].(*SliceV)
			same := ok && s.obj == b.obj && len(s.path) == 0
			x.proveFlag(st, same, "pool", "the element keeps its own buffer"+where, "pool")
			if same && x.probe == 0 {
				x.prove(st, s.off.Eq(c.I(0)).And(b.cap.Ule(s.cap)), "pool", "the element keeps its full capacity"+where, x.con.kindTags("pool"))
			}
			bo := *st.heap[b.obj]
			bo.dead = "put" + where
			st.heap[b.obj] = &bo
		}
	}
	o.dead = "put" + where
	st.heap[ep.obj] = &o
	return ok1(st, &TupleV{})
}

// ---- sync.Map with uint8 keys and *NodeRegister values

func (x *Exec) smKey(st *State, v Value) *Term {
	iv, ok := v.(*IfaceV)
	if !ok || iv.con == nil {
		unsup("sync.Map key")
	}
	b, ok := iv.con.Underlying().(*types.Basic)
	isByte := ok && b.Kind() == types.Uint8
	x.proveFlag(st, isByte, "nopanic", "sync.Map keys are slave ids (uint8)", "nopanic")
	if !isByte {
		unsup("sync.Map key type %s", iv.con)
	}
	return tterm(iv.val).Zext(64)
}

func (x *Exec) smMap(st *State, v Value) (*PtrV, *SyncMapV) {
	p := x.resolve(st, v.(*PtrV))
	m, ok := getPath(x, st, st.heap[p.obj].val, p.path).(*SyncMapV)
	if !ok {
		unsup("sync.Map")
	}
	return p, m
}

func (x *Exec) smSet(st *State, p *PtrV, m *SyncMapV) {
	st.setVal(p.obj, setPath(x, st, st.heap[p.obj].val, p.path, m))
}

func smLoad(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
	c := x.c
	_, m := x.smMap(st, args[0])
	k := x.smKey(st, args[1])
	has := m.dom.Sel(k).Eq(c.BV(1, 1))
	nt := x.p.typeNamed("NodeRegister")
	var outs []Outcome
	if x.feasible(st, has.Not()) {
		s2 := st.clone()
		s2.assume(has.Not())
		outs = append(outs, Outcome{st: s2, val: &TupleV{vs: []Value{&IfaceV{id: c.I(0)}, c.False}}})
	}
	if x.feasible(st, has) {
		st.assume(has)
		ref := m.val.Sel(k)
		st.assume(ref.Ne(c.I(0)))
		outs = append(outs, Outcome{st: st, val: &TupleV{vs: []Value{&IfaceV{con: types.NewPointer(nt), val: x.decode(st, ref, types.NewPointer(nt))}, c.True}}})
	}
	return outs
}

func smStore(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
	c := x.c
	p, m := x.smMap(st, args[0])
	k := x.smKey(st, args[1])
	iv, ok := args[2].(*IfaceV)
	nt := types.NewPointer(x.p.typeNamed("NodeRegister"))
	if !ok || iv.con == nil || !types.Identical(iv.con, nt) {
		x.proveFlag(st, false, "mapinv", "the registry holds nodes only", "nopanic")
		unsup("sync.Map value")
	}
	ref := x.encode(st, iv.val)
	x.prove(st, ref.Ne(c.I(0)), "mapinv", "the registry holds no nil node", x.con.kindTags("nopanic"))
	x.smSet(st, p, &SyncMapV{dom: m.dom.Store(k, c.BV(1, 1)), val: m.val.Store(k, ref)})
	return ok1(st, &TupleV{})
}

func smDelete(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
	p, m := x.smMap(st, args[0])
	k := x.smKey(st, args[1])
	x.smSet(st, p, &SyncMapV{dom: m.dom.Store(k, x.c.BV(1, 0)), val: m.val})
	return ok1(st, &TupleV{})
}

// smRange runs the callback for an arbitrary present key, from an arbitrary
// state of the map. Two shapes are summarised, by induction over the keys
// visited: a callback that goes on and changes nothing (the map stays as it
// is), and one that goes on and removes exactly the key it was called with
// (after Range no key is left: Range visits every key that is present).
func smRange(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
	c := x.c
	p, m := x.smMap(st, args[0])
	f, ok := args[1].(*FuncV)
	if !ok || f.fn == nil {
		unsup("sync.Map.Range of an unknown function")
	}
	kb := c.Fresh("rangekey", 8)
	k := kb.Zext(64)
	dom := c.ABase("rangedom", 1)
	pre := st.clone()
	x.smSet(pre, p, &SyncMapV{dom: dom, val: m.val})
	pre.assume(dom.Sel(k).Eq(c.BV(1, 1)))
	pre.assume(m.dom.Sel(k).Eq(c.BV(1, 1)))
	ref := m.val.Sel(k)
	pre.assume(ref.Ne(c.I(0)))
	nt := types.NewPointer(x.p.typeNamed("NodeRegister"))
	node := x.decode(pre, ref, nt)
	run := pre.clone()
	outs := x.callFunc(run, f, []Value{&IfaceV{con: types.Typ[types.Uint8], val: kb}, &IfaceV{con: nt, val: node}}, pos)
	kind := ""
	for _, o := range outs {
		v, isT := o.val.(*Term)
		if o.pan || !isT || x.feasible(o.st, v.Not()) {
			unsup("a callback of sync.Map.Range that stops or panics")
		}
		_, om := x.smMap(o.st, args[0])
		this := "keeps"
		if d := om.dom; d.k == AStore && d.base == dom && d.idx == k && d.v == c.BV(1, 0) {
			this = "removes"
		} else if om.dom != dom {
			unsup("a callback of sync.Map.Range that changes the map")
		}
		if om.val != m.val || kind != "" && kind != this {
			unsup("a callback of sync.Map.Range that changes the map")
		}
		kind = this
		for id, ob := range pre.heap {
			ob2 := o.st.heap[id]
			if ob2 == ob {
				continue
			}
			if id != p.obj || !sameButFor(ob.val, ob2.val, p.path) {
				unsup("a callback of sync.Map.Range with other effects")
			}
		}
		for g, v := range pre.ghost {
			if o.st.ghost[g] != v {
				unsup("a callback of sync.Map.Range with other effects")
			}
		}
	}
	if kind == "removes" {
		x.smSet(st, p, &SyncMapV{dom: c.AConst(c.BV(1, 0)), val: m.val})
	}
	x.note("sync.Map.Range: its callback, for an arbitrary key, %s that key and has no other effect", kind)
	return ok1(st, &TupleV{})
}

// sameButFor: are two values the same objects, except at the path?
func sameButFor(a, b Value, path []Step) bool {
	if len(path) == 0 {
		return true
	}
	sa, ok := a.(*StructV)
	sb, ok2 := b.(*StructV)
	if !ok || !ok2 || len(sa.f) != len(sb.f) {
		return false
	}
	for i := range sa.f {
		if i == path[0].field {
			if !sameButFor(sa.f[i], sb.f[i], path[1:]) {
				return false
			}
		} else if sa.f[i] != sb.f[i] {
			return false
		}
	}
	return true
}

// ---- encoding/binary streams

func binWrite(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
	c := x.c
	p, b := x.bufOf(st, args[0])
	big := isBig(args[1])
	iv, ok := args[2].(*IfaceV)
	if !ok || iv.con == nil {
		unsup("binary.Write data")
	}
	switch v := iv.val.(type) {
	case *Term:
		switch v.w {
		case 8:
			x.setBuf(st, p, &BufV{arr: b.arr.Store(b.len, v), len: b.len.AddC(1)})
		case 16:
			h, l := v.Extract(15, 8), v.Extract(7, 0)
			if !big {
				h, l = l, h
			}
			x.setBuf(st, p, &BufV{arr: b.arr.Store(b.len, h).Store(b.len.AddC(1), l), len: b.len.AddC(2)})
		default:
			unsup("binary.Write width")
		}
	case *SliceV:
		w, _ := elemWidth(v.et)
		n, src := x.seqArg(st, v, pos)
		if w == 8 {
			x.setBuf(st, p, &BufV{arr: b.arr.CopyIn(b.len, n, src), len: b.len.Add(n)})
		} else if w == 16 {
			x.setBuf(st, p, &BufV{arr: b.arr.CopyIn(b.len, n.MulC(2), func(j *Term) *Term { return byteOf(big, src(j.Lshr(c.I(1))), j) }), len: b.len.Add(n.MulC(2))})
		} else {
			unsup("binary.Write width")
		}
	default:
		unsup("binary.Write of %T", iv.val)
	}
	return ok1(st, nilErr(x))
}

func binRead(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
	c := x.c
	p, b := x.bufOf(st, args[0])
	big := isBig(args[1])
	iv, ok := args[2].(*IfaceV)
	if !ok || iv.con == nil {
		unsup("binary.Read data")
	}
	d, ok := iv.val.(*SliceV)
	if !ok {
		unsup("binary.Read into %T", iv.val)
	}
	w, _ := elemWidth(d.et)
	if w != 16 {
		unsup("binary.Read width")
	}
	need := d.len.MulC(2)
	enough := need.Ule(b.len)
	var outs []Outcome
	if x.feasible(st, enough.Not()) {
		s2 := st.clone()
		s2.assume(enough.Not())
		// partial input: how much was consumed is not modelled
		x.setBuf(s2, p, &BufV{arr: c.ABase("buf", 8), len: c.Len("buflen")})
		outs = append(outs, Outcome{st: s2, val: x.symErr(s2, "readerr")})
	}
	if x.feasible(st, enough) {
		st.assume(enough)
		if d.obj != 0 {
			x.accessObj(st, d.obj, true, pos)
			src := func(i *Term) *Term {
				j := i.MulC(2)
				h, l := b.arr.Sel(j), b.arr.Sel(j.AddC(1))
				if !big {
					h, l = l, h
				}
				return h.Concat(l)
			}
			x.writeSlice(st, d, x.sliceArr(st, d).arr.CopyIn(d.off, d.len, src))
		}
		rest := c.AConst(c.BV(8, 0)).Comp(func(*Term) *Term { return c.True }, func(i *Term) *Term { return b.arr.Sel(i.Add(need)) })
		x.setBuf(st, p, &BufV{arr: rest, len: b.len.Sub(need)})
		outs = append(outs, Outcome{st: st, val: nilErr(x)})
	}
	return outs
}

// ---- hex

func hexVal(b *Term) (ok, v *Term) {
	c := b.c
	k := func(n uint64) *Term { return c.BV(8, n) }
	dig := k('0').Ule(b).And(b.Ule(k('9')))
	up := k('A').Ule(b).And(b.Ule(k('F')))
	lo := k('a').Ule(b).And(b.Ule(k('f')))
	return c.Or(dig, up, lo), c.Ite(dig, b.Sub(k('0')), c.Ite(up, b.Sub(k('A'-10)), b.Sub(k('a'-10))))
}

func hexDecode(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) []Outcome {
	c := x.c
	d := args[0].(*SliceV)
	n, src := x.seqArg(st, args[1], pos)
	half := n.Lshr(c.I(1))
	if !x.valid(st, half.Ule(d.len)) {
		unsup("hex.Decode into a buffer that may be too short")
	}
	if d.obj != 0 && args[1].(*SliceV).obj == d.obj {
		unsup("hex.Decode in place")
	}
	pair := func(i *Term) (*Term, *Term) {
		o1, h := hexVal(src(i.MulC(2)))
		o2, l := hexVal(src(i.MulC(2).AddC(1)))
		return o1.And(o2), h.Shl(c.BV(8, 4)).BOr(l)
	}
	var outs []Outcome
	// failure: odd length or a bad pair at w
	bad := st.clone()
	w := c.Fresh("badhex", 40).Zext(64)
	okw, _ := pair(w)
	odd := n.Extract(0, 0).Eq(c.BV(1, 1))
	bad.assume(c.Or(odd, w.Ult(half).And(okw.Not())))
	if d.obj != 0 {
		nb := c.ABase("hexpart", 8)
		x.writeSlice(bad, d, x.sliceArr(bad, d).arr.CopyIn(d.off, d.len, nb.Sel))
	}
	if x.feasible(bad, c.Fresh("any", 0)) {
		m := c.Len("nhex")
		bad.assume(m.Ule(half))
		bad.trace = append(bad.trace, "hex.Decode fails")
		outs = append(outs, Outcome{st: bad, val: &TupleV{vs: []Value{m, x.symErr(bad, "hexerr")}}})
	}
	st.assume(odd.Not())
	if x.feasible(st, c.Fresh("any", 0)) {
		st.quants = append(st.quants, &Quant{name: "hex ok", lo: c.I(0), hi: half, f: func(i *Term) *Term { o, _ := pair(i); return o }})
		// the same fact, indexed by the characters read
		off := args[1].(*SliceV).off
		st.quants = append(st.quants, &Quant{name: "hex ok chars", lo: c.I(0), hi: n, off: off, f: func(i *Term) *Term { o, _ := hexVal(src(i)); return o }})
		if d.obj != 0 {
			x.accessObj(st, d.obj, true, pos)
			x.writeSlice(st, d, x.sliceArr(st, d).arr.CopyIn(d.off, half, func(i *Term) *Term { _, v := pair(i); return v }))
		}
		outs = append(outs, Outcome{st: st, val: &TupleV{vs: []Value{half, nilErr(x)}}})
	}
	return outs
}

var _ = fmt.Sprint

func (c *Contract) interfere() bool {
	_, ok := c.kinds["interfere"]
	return ok
}

func unlocked(v Value) (Value, bool) {
	switch a := v.(type) {
	case *LockV:
		if a.w != 0 || a.r != 0 {
			return &LockV{}, true
		}
	case *StructV:
		var n *StructV
		for i, f := range a.f {
			if u, ok := unlocked(f); ok {
				if n == nil {
					n = &StructV{f: append([]Value(nil), a.f...)}
				}
				n.f[i] = u
			}
		}
		if n != nil {
			return n, true
		}
	}
	return v, false
}
