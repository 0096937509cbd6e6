package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Step struct {
	field int // >=0 field index; -1 index step
	idx   *Term
}

type SliceV struct {
	obj           int // 0 = nil slice
	path          []Step
	off, len, cap *Term
	isnil         *Term
	et            types.Type
	extra         *Guard
}

type PtrV struct {
	obj  int // 0 nil, -1 unresolved (see ref)
	path []Step
	ref  *Term // identity when unresolved
	et   types.Type
}

type StructV struct{ f []Value }

type IfaceV struct {
	id  *Term      // 0 = nil
	con types.Type // concrete dynamic type if known
	val Value
}

type FuncV struct {
	fn    *ssa.Function
	binds []Value
	id    *Term // for symbolic functions / identity
	t     types.Type
	bname string // bound method on extern
}

type StrV struct {
	lit *string
	arr *Arr
	off *Term
	len *Term
	id  *Term
}

type TupleV struct{ vs []Value }

type ArrV struct {
	arr *Arr
	n   int64
	et  types.Type // element type (encoded as 64-bit ids unless scalar)
}

type VArr struct{ e []Value }

type LockV struct {
	w, r int // write-held, readers held by this activation
	acq  int // acquisitions
	amb  bool
}

type MapV struct {
	dom *Arr // width 1
	val *Arr // width 64 (encoded) or scalar
	kt  types.Type
	vt  types.Type
	obj int
}

// MapRef is a map value: reference to a heap object holding *MapV
type MapRef struct {
	obj int
}

type BufV struct { // bytes.Buffer
	arr *Arr
	len *Term
}

type SyncMapV struct {
	dom *Arr
	val *Arr
	ops int
}

type OpaqueV struct {
	t types.Type
	n string
}

type ChanV struct{ n string }

type Guard struct {
	obj  int
	path []Step
	name string
}

type Obj struct {
	id    int
	typ   types.Type
	val   Value
	name  string
	fresh bool
	guard *Guard
	dead  string
	ref   *Term
	mat   bool  // materialised from a symbolic reference
	alias []int // objects whose memory this one may share
	gone  bool  // no longer reachable by the code
	pool  *poolInfo
}

type poolInfo struct {
	pool int
	bufs map[int]bufInfo // field -> buffer
}

type bufInfo struct {
	obj int
	cap *Term
}

// a read of array name at bound variable + shift (nil: at no fixed distance)
type trigger struct {
	name  string
	shift *Term
}

type Quant struct {
	trig []trigger
	seen bool
	name string
	f    func(i *Term) *Term
	lo   *Term
	hi   *Term
	off  *Term // instances are taken at index - off
}

type State struct {
	c      *Ctx
	heap   map[int]*Obj
	ghost  map[string]Value
	pc     []*Term
	quants []*Quant
	refs   map[int]int // term id -> obj
	globs  map[*ssa.Global]int
	approx []string
	trace  []string
	pan    *panicRec
	clock  *Term
	unk    bool
	inOnce int  // inside sync.Once.Do
	synced bool // after sync.Once.Do, a lock operation or an atomic load
}

type panicRec struct {
	val       Value
	desc      string
	recovered bool
}

func (s *State) clone() *State {
	n := *s
	n.heap = make(map[int]*Obj, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.ghost = make(map[string]Value, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.refs = make(map[int]int, len(s.refs))
	for k, v := range s.refs {
		n.refs[k] = v
	}
	n.globs = make(map[*ssa.Global]int, len(s.globs))
	for k, v := range s.globs {
		n.globs[k] = v
	}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.quants = s.quants[:len(s.quants):len(s.quants)]
	n.approx = s.approx[:len(s.approx):len(s.approx)]
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	if s.pan != nil {
		p := *s.pan
		n.pan = &p
	}
	return &n
}

func (s *State) assume(t *Term) {
	if t.IsTrue() {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	for _, p := range s.pc {
		if p == t {
			return
		}
	}
	s.pc = append(s.pc, t)
}

func (s *State) inconsistent() bool {
	for _, p := range s.pc {
		if p.IsFalse() {
			return true
		}
	}
	return false
}

func (s *State) newObj(t types.Type, v Value, name string, fresh bool) *Obj {
	s.c.nid++
	o := &Obj{id: s.c.nid, typ: t, val: v, name: name, fresh: fresh, ref: s.c.I(int64(0x100000 + s.c.nid))}
	s.heap[o.id] = o
	s.refs[o.ref.id] = o.id
	return o
}

func (s *State) setVal(id int, v Value) {
	o := *s.heap[id]
	o.val = v
	s.heap[id] = &o
}

// ---- type helpers

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

// scalar returns (width, signed, ok) for types represented as a Term.
func scalar(t types.Type) (int, bool, bool) {
	switch typeName(t) {
	case "time.Time":
		return 64, false, true
	case "sync/atomic.Uint32":
		return 32, false, true
	case "sync/atomic.Uint64":
		return 64, false, true
	case "sync/atomic.Int32":
		return 32, true, true
	case "sync/atomic.Int64":
		return 64, true, true
	case "sync/atomic.Bool":
		return 0, false, true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return 0, false, true
		case types.Int8:
			return 8, true, true
		case types.Uint8:
			return 8, false, true
		case types.Int16:
			return 16, true, true
		case types.Uint16:
			return 16, false, true
		case types.Int32, types.UntypedRune:
			return 32, true, true
		case types.Uint32:
			return 32, false, true
		case types.Int, types.Int64, types.UntypedInt:
			return 64, true, true
		case types.Uint, types.Uint64, types.Uintptr:
			return 64, false, true
		}
	}
	return 0, false, false
}

func elemWidth(t types.Type) (int, bool) { // width of array element, scalar?
	if w, _, ok := scalar(t); ok {
		if w == 0 {
			return 1, true
		}
		return w, true
	}
	return 64, false
}

func isLock(t types.Type) bool {
	n := typeName(t)
	return n == "sync.Mutex" || n == "sync.RWMutex"
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// zero value
func (s *State) zero(t types.Type) Value {
	c := s.c
	if w, _, ok := scalar(t); ok {
		return c.BV2(w, 0)
	}
	switch typeName(t) {
	case "sync.Mutex", "sync.RWMutex":
		return &LockV{}
	case "bytes.Buffer":
		return &BufV{arr: c.AConst(c.BV(8, 0)), len: c.I(0)}
	case "sync.Map":
		return &SyncMapV{dom: c.AConst(c.BV(1, 0)), val: c.AConst(c.BV(64, 0))}
	case "sync.WaitGroup", "sync.Once", "net.Dialer", "log.Logger", "crypto/tls.Config", "net/url.URL", "time.Ticker", "time.Location", "bytes.Reader", "strings.Builder":
		if _, ok := t.Underlying().(*types.Struct); ok && typeName(t) != "net.Dialer" {
			return &OpaqueV{t: t, n: "zero"}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return strLit(c, "")
		}
		if u.Kind() == types.UntypedNil {
			return &PtrV{}
		}
		return &OpaqueV{t: t, n: "zero"}
	case *types.Pointer:
		return &PtrV{et: u.Elem()}
	case *types.Slice:
		z := c.I(0)
		return &SliceV{off: z, len: z, cap: z, isnil: c.True, et: u.Elem()}
	case *types.Interface:
		return &IfaceV{id: c.I(0)}
	case *types.Signature:
		return &FuncV{id: c.I(0), t: t}
	case *types.Map:
		return &MapRef{}
	case *types.Chan:
		return &ChanV{"nil"}
	case *types.Struct:
		sv := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			sv.f = append(sv.f, s.zero(u.Field(i).Type()))
		}
		return sv
	case *types.Array:
		if w, ok := elemWidth(u.Elem()); ok {
			return &ArrV{arr: c.AConst(c.BV(w, 0)), n: u.Len(), et: u.Elem()}
		}
		if u.Len() > 4096 {
			unsup("large array of %s", u.Elem())
		}
		va := &VArr{}
		for i := int64(0); i < u.Len(); i++ {
			va.e = append(va.e, s.zero(u.Elem()))
		}
		return va
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.vs = append(tv.vs, s.zero(u.At(i).Type()))
		}
		return tv
	}
	unsup("zero of %s", t)
	return nil
}

func (c *Ctx) BV2(w int, v uint64) *Term {
	if w == 0 {
		return c.Bool(v != 0)
	}
	return c.BV(w, v)
}

func strLit(c *Ctx, s string) *StrV {
	tab := make([]uint64, len(s))
	for i := range tab {
		tab[i] = uint64(s[i])
	}
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return &StrV{lit: &s, arr: c.ATab(8, tab), off: c.I(0), len: c.I(int64(len(s))), id: c.BV(64, h|1)}
}

// mayBeNil: pointers to these types are not assumed to be set.
var mayBeNil = map[string]bool{"net/url.URL": true, "crypto/tls.Config": true}

// openStruct: structures of other packages whose exported fields the code reads.
var openStruct = map[string]bool{
	"github.com/goburrow/serial.Config":      true,
	"github.com/goburrow/serial.RS485Config": true,
	"net/url.URL":                            true,
	"time.Ticker":                            true,
}

// fresh symbolic value of a type. external: value comes from outside (param): pointers get own objects.
func (s *State) symbolic(t types.Type, name string, deep bool) Value {
	c := s.c
	if w, _, ok := scalar(t); ok {
		if w == 0 {
			return c.Fresh(name, 0)
		}
		return c.Fresh(name, w)
	}
	switch typeName(t) {
	case "sync.Mutex", "sync.RWMutex":
		return &LockV{}
	case "bytes.Buffer":
		return &BufV{arr: c.ABase(name, 8), len: c.Len(name + ".len")}
	case "sync.Map":
		return &SyncMapV{dom: c.ABase(name+".dom", 1), val: c.ABase(name+".val", 64)}
	case "net.Dialer":
	default:
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			if _, isS := t.Underlying().(*types.Struct); isS && !strings.HasSuffix(n.Obj().Pkg().Path(), "go-modbus") && !openStruct[typeName(t)] {
				return &OpaqueV{t: t, n: name}
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return &StrV{arr: c.ABase(name, 8), off: c.I(0), len: c.Len(name + ".len"), id: c.Fresh(name+".id", 64)}
		}
		return &OpaqueV{t: t, n: name}
	case *types.Pointer:
		if !deep || mayBeNil[typeName(u.Elem())] {
			return &PtrV{obj: -1, ref: c.Fresh(name+".ref", 64), et: u.Elem()}
		}
		o := s.newObj(u.Elem(), nil, name, false)
		s.setVal(o.id, s.symbolic(u.Elem(), name, deep))
		return &PtrV{obj: o.id, et: u.Elem()}
	case *types.Slice:
		w, _ := elemWidth(u.Elem())
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Slice, *types.Array:
			unsup("symbolic slice of %s", u.Elem())
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			unsup("symbolic slice of strings")
		}
		o := s.newObj(types.NewArray(u.Elem(), -1), &ArrV{arr: c.ABase(name, w), n: -1, et: u.Elem()}, name+"[]", false)
		ln := c.Len("len(" + name + ")")
		xc := c.Len("xcap(" + name + ")")
		isnil := c.Fresh(name+".isnil", 0)
		s.assume(isnil.Implies(ln.Eq(c.I(0))))
		s.assume(isnil.Implies(xc.Eq(c.I(0))))
		return &SliceV{obj: o.id, off: c.I(0), len: ln, cap: ln.Add(xc), isnil: isnil, et: u.Elem()}
	case *types.Interface:
		return &IfaceV{id: c.Fresh(name+".iface", 64)}
	case *types.Signature:
		return &FuncV{id: c.Fresh(name+".func", 64), t: t}
	case *types.Map:
		kw, _, ok := scalar(u.Key())
		if !ok || kw > 64 {
			unsup("map key type %s", u.Key())
		}
		o := s.newObj(t, nil, name, false)
		vw, _ := elemWidth(u.Elem())
		s.setVal(o.id, &MapV{dom: c.ABase(name+".dom", 1), val: c.ABase(name+".val", vw), kt: u.Key(), vt: u.Elem()})
		return &MapRef{obj: o.id}
	case *types.Chan:
		return &ChanV{name}
	case *types.Struct:
		sv := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			sv.f = append(sv.f, s.symbolic(u.Field(i).Type(), name+"."+u.Field(i).Name(), deep))
		}
		return sv
	case *types.Array:
		if w, ok := elemWidth(u.Elem()); ok {
			return &ArrV{arr: c.ABase(name, w), n: u.Len(), et: u.Elem()}
		}
		va := &VArr{}
		for i := int64(0); i < u.Len(); i++ {
			va.e = append(va.e, s.symbolic(u.Elem(), fmt.Sprintf("%s[%d]", name, i), deep))
		}
		return va
	}
	unsup("symbolic %s", t)
	return nil
}

// ---- encoding of reference-like values as 64-bit ids

type boxes struct {
	vals map[int]Value // term id -> value
	n    int64
	fn   map[*ssa.Function]*Term
	fnOf map[int]*ssa.Function
	ext  map[string]*Term
}

func (x *Exec) boxID(v Value) *Term {
	x.box.n++
	t := x.c.I(0x40000000 + x.box.n)
	x.box.vals[t.id] = v
	return t
}

func (x *Exec) funcID(fn *ssa.Function) *Term {
	if t, ok := x.box.fn[fn]; ok {
		return t
	}
	t := x.c.I(0x20000000 + int64(len(x.box.fn)) + 1)
	x.box.fn[fn] = t
	x.box.fnOf[t.id] = fn
	return t
}

func (x *Exec) encode(st *State, v Value) *Term {
	switch v := v.(type) {
	case *Term:
		if v.w == 0 {
			return x.c.Ite(v, x.c.BV(1, 1), x.c.BV(1, 0))
		}
		return v
	case *PtrV:
		if v.obj == 0 {
			return x.c.I(0)
		}
		if v.obj == -1 {
			return v.ref
		}
		if len(v.path) == 0 {
			return st.heap[v.obj].ref
		}
		return x.boxID(v)
	case *FuncV:
		if v.fn != nil && len(v.binds) == 0 {
			return x.funcID(v.fn)
		}
		if v.id != nil {
			return v.id
		}
		v2 := *v
		v2.id = x.boxID(v)
		return v2.id
	case *IfaceV:
		if v.con != nil {
			if v.id == nil {
				v.id = x.boxID(v)
			}
			return v.id
		}
		return v.id
	case *StrV:
		return v.id
	}
	return x.boxID(v)
}

func (x *Exec) decode(st *State, t *Term, typ types.Type) Value {
	if w, _, ok := scalar(typ); ok {
		if w == 0 {
			return t.Eq(x.c.BV(1, 1))
		}
		return t
	}
	if v, ok := x.box.vals[t.id]; ok {
		return v
	}
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		if t.IsConst() && t.val == 0 {
			return &PtrV{et: u.Elem()}
		}
		if o, ok := st.refs[t.id]; ok {
			return &PtrV{obj: o, et: u.Elem()}
		}
		return &PtrV{obj: -1, ref: t, et: u.Elem()}
	case *types.Signature:
		if fn, ok := x.box.fnOf[t.id]; ok {
			return &FuncV{fn: fn, id: t, t: typ}
		}
		return &FuncV{id: t, t: typ}
	case *types.Interface:
		return &IfaceV{id: t}
	}
	unsup("decode %s", typ)
	return nil
}

// ---- paths

func getPath(x *Exec, st *State, v Value, path []Step) Value {
	for _, p := range path {
		switch a := v.(type) {
		case *StructV:
			if p.field < 0 || p.field >= len(a.f) {
				unsup("bad field step")
			}
			v = a.f[p.field]
		case *ArrV:
			v = x.decode(st, a.arr.Sel(p.idx), a.et)
		case *VArr:
			if !p.idx.IsConst() || p.idx.val >= uint64(len(a.e)) {
				unsup("symbolic index into array of composite values")
			}
			v = a.e[p.idx.val]
		case *OpaqueV:
			unsup("access into opaque %s", a.t)
		default:
			unsup("path into %T", v)
		}
	}
	return v
}

func setPath(x *Exec, st *State, v Value, path []Step, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	switch a := v.(type) {
	case *StructV:
		n := &StructV{f: append([]Value(nil), a.f...)}
		n.f[p.field] = setPath(x, st, a.f[p.field], path[1:], nv)
		return n
	case *ArrV:
		if len(path) > 1 {
			unsup("nested array store")
		}
		return &ArrV{arr: a.arr.Store(p.idx, x.encode(st, nv)), n: a.n, et: a.et}
	case *VArr:
		if !p.idx.IsConst() || p.idx.val >= uint64(len(a.e)) {
			unsup("symbolic store into array of composite values")
		}
		n := &VArr{e: append([]Value(nil), a.e...)}
		n.e[p.idx.val] = setPath(x, st, a.e[p.idx.val], path[1:], nv)
		return n
	}
	unsup("store path into %T", v)
	return nil
}

func (x *Exec) load(st *State, p *PtrV) Value {
	p = x.resolve(st, p)
	o := st.heap[p.obj]
	if o == nil {
		unsup("load through dangling pointer")
	}
	return getPath(x, st, o.val, p.path)
}

func (x *Exec) store(st *State, p *PtrV, v Value) {
	p = x.resolve(st, p)
	o := st.heap[p.obj]
	if o == nil {
		unsup("store through dangling pointer")
	}
	if o.mat {
		for _, q := range st.heap {
			if q.mat && q.id != o.id && types.Identical(q.typ, o.typ) {
				unsup("store through possibly aliased reference of type %s", o.typ)
			}
		}
	}
	st.setVal(o.id, setPath(x, st, o.val, p.path, v))
}

// resolve turns a symbolic reference into an object (creating it on first use).
func (x *Exec) resolve(st *State, p *PtrV) *PtrV {
	if p.obj == 0 {
		unsup("dereference of nil pointer")
	}
	if p.obj > 0 {
		return p
	}
	if o, ok := st.refs[p.ref.id]; ok {
		return &PtrV{obj: o, path: p.path, et: p.et}
	}
	name := fmt.Sprintf("*ref%d", p.ref.id)
	o := st.newObj(p.et, nil, name, false)
	delete(st.refs, o.ref.id)
	oo := *o
	oo.ref = p.ref
	oo.mat = true
	st.heap[o.id] = &oo
	st.refs[p.ref.id] = o.id
	st.setVal(o.id, x.matVal(st, p.et, p.ref, typeName(p.et)))
	x.applyTypeInv(st, o.id)
	return &PtrV{obj: o.id, path: p.path, et: p.et}
}

// matVal: content of the object behind a symbolic reference, as functions of the reference
// (so that two materialisations of one reference agree).
func (x *Exec) matVal(st *State, t types.Type, ref *Term, nm string) Value {
	if w, _, ok := scalar(t); ok {
		return x.c.App("mem:"+nm, w, ref)
	}
	if st2, ok := t.Underlying().(*types.Struct); ok && !isLock(t) {
		if n, isN := t.(*types.Named); isN && n.Obj().Pkg() != nil && !strings.HasSuffix(n.Obj().Pkg().Path(), "go-modbus") && !openStruct[typeName(t)] {
			return &OpaqueV{t: t, n: nm}
		}
		sv := &StructV{}
		for i := 0; i < st2.NumFields(); i++ {
			sv.f = append(sv.f, x.matVal(st, st2.Field(i).Type(), ref, nm+"."+st2.Field(i).Name()))
		}
		return sv
	}
	return st.symbolic(t, nm, true)
}
