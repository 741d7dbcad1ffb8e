package main

// Flattened values, heap layout, loads and stores.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Fact struct {
	t    *Term
	prev *Fact
	tag  string
}

// Leaf of a flattened value
type Leaf struct {
	path string // suffix
	sort *Sort
	lo   *big.Int
	hi   *big.Int
}

type Val struct {
	T types.Type
	L []*Term
}

var (
	tyByte   = types.Typ[types.Uint8]
	tyInt    = types.Typ[types.Int]
	tyString = types.Typ[types.String]
	tyBool   = types.Typ[types.Bool]
	tyError  = types.Universe.Lookup("error").Type()
)

func isStruct(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

func intRange(b *types.Basic) (lo, hi *big.Int, ok bool) {
	var bits uint
	signed := true
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		bits = 64
	case types.Int8:
		bits = 8
	case types.Int16:
		bits = 16
	case types.Int32, types.UntypedRune:
		bits = 32
	case types.Uint, types.Uint64, types.Uintptr:
		bits, signed = 64, false
	case types.Uint8:
		bits, signed = 8, false
	case types.Uint16:
		bits, signed = 16, false
	case types.Uint32:
		bits, signed = 32, false
	default:
		return nil, nil, false
	}
	if signed {
		h := new(big.Int).Lsh(bi(1), bits-1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, bi(1)), true
	}
	return bi(0), new(big.Int).Sub(new(big.Int).Lsh(bi(1), bits), bi(1)), true
}

var maxLen = new(big.Int).Lsh(bi(1), 47)

// leaves of a value of type t
func (p *Prog) Leaves(t types.Type) []Leaf {
	p.mu.Lock()
	l, ok := p.leafMemo[t]
	p.mu.Unlock()
	if ok {
		return l
	}
	l = p.leaves0(t)
	p.mu.Lock()
	p.leafMemo[t] = l
	p.mu.Unlock()
	return l
}

func (p *Prog) leaves0(t types.Type) []Leaf {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", SBool, nil, nil}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{"", SBlob, nil, nil}}
		case u.Info()&types.IsInteger != 0:
			lo, hi, _ := intRange(u)
			return []Leaf{{"", SInt, lo, hi}}
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return []Leaf{{"", SRef, nil, nil}}
		default: // floats, complex: opaque
			return []Leaf{{"", SInt, nil, nil}}
		}
	case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
		return []Leaf{{"", SRef, nil, nil}}
	case *types.Slice:
		return []Leaf{{".ref", SRef, nil, nil}, {".off", SInt, bi(0), maxLen}, {".len", SInt, bi(0), maxLen}, {".cap", SInt, bi(0), maxLen}}
	case *types.Interface:
		return []Leaf{{".tag", SInt, bi(0), bi(1 << 30)}, {".ref", SRef, nil, nil}}
	case *types.Struct:
		var r []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range p.Leaves(f.Type()) {
				l.path = "." + f.Name() + l.path
				r = append(r, l)
			}
		}
		return r
	case *types.Array:
		var r []Leaf
		for _, l := range p.Leaves(u.Elem()) {
			r = append(r, Leaf{"[]" + l.path, SArr(SInt, l.sort), l.lo, l.hi})
		}
		return r
	case *types.Tuple:
		var r []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range p.Leaves(u.At(i).Type()) {
				l.path = fmt.Sprintf(".%d%s", i, l.path)
				r = append(r, l)
			}
		}
		return r
	case *types.TypeParam:
		return []Leaf{{"", SRef, nil, nil}}
	}
	if t.String() == "iter" || true {
		return []Leaf{{"", SRef, nil, nil}} // ssa range iterator (opaque type)
	}
	panic("leaves " + t.String())
}

// sub-value of struct value
func (p *Prog) fieldRange(st *types.Struct, i int) (int, int) {
	o := 0
	for j := 0; j < i; j++ {
		o += len(p.Leaves(st.Field(j).Type()))
	}
	return o, o + len(p.Leaves(st.Field(i).Type()))
}

func (p *Prog) tupleRange(st *types.Tuple, i int) (int, int) {
	o := 0
	for j := 0; j < i; j++ {
		o += len(p.Leaves(st.At(j).Type()))
	}
	return o, o + len(p.Leaves(st.At(i).Type()))
}

func structKey(t types.Type) string {
	switch x := t.(type) {
	case *types.Named:
		return typeKey(x)
	case *types.Alias:
		return structKey(types.Unalias(x))
	}
	return typeKey(t)
}

// canonical key for element/cell types: underlying for unnamed scalars so that conversions agree
func elemKey(t types.Type) string {
	if isStruct(t) {
		return structKey(t)
	}
	u := t.Underlying()
	switch x := u.(type) {
	case *types.Basic:
		if x.Kind() == types.Uint8 {
			return "uint8"
		}
		return x.Name()
	case *types.Interface:
		return "iface"
	case *types.Pointer:
		return "*" + elemKey(x.Elem())
	case *types.Map:
		return "ref"
	case *types.Signature:
		return "func"
	case *types.Slice:
		return "[]" + elemKey(x.Elem())
	}
	return typeKey(u)
}

// ---------- executor state

type State struct {
	heap   map[string]*Term
	facts  *Fact
	frames []*Frame
	epoch  int
	nalloc int
	dead   bool
	trail  string
}

type Frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]Val
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	pc      int
	defers  []*deferred
	call    *ssa.CallCommon // call that created the frame
	retVal  ssa.Value       // where to put the result in the caller (nil: discard)
	cuts    map[*ssa.BasicBlock]*Cut
	unroll  map[*ssa.BasicBlock]int
	inDefer bool
	onRet   func(*State, []*Term) bool // intercept (spec frames)
	joins   []*joinMark
}

type deferred struct {
	common *ssa.CallCommon
	fn     Val
	args   []Val
}

func (st *State) clone() *State {
	n := &State{heap: make(map[string]*Term, len(st.heap)+8), facts: st.facts, epoch: st.epoch, nalloc: st.nalloc, trail: st.trail}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	for _, f := range st.frames {
		g := &Frame{fn: f.fn, block: f.block, prev: f.prev, pc: f.pc, call: f.call, retVal: f.retVal, inDefer: f.inDefer, onRet: f.onRet}
		g.env = make(map[ssa.Value]Val, len(f.env)+8)
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]*deferred(nil), f.defers...)
		g.cuts = map[*ssa.BasicBlock]*Cut{}
		for k, v := range f.cuts {
			g.cuts[k] = v
		}
		g.unroll = map[*ssa.BasicBlock]int{}
		for k, v := range f.unroll {
			g.unroll[k] = v
		}
		g.joins = append([]*joinMark(nil), f.joins...)
		n.frames = append(n.frames, g)
	}
	return n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (x *Exec) assume(st *State, t *Term) {
	if t == x.tb.True {
		return
	}
	if t == x.tb.False {
		st.dead = true
	}
	if t.op == OAnd {
		for _, a := range t.args {
			x.assume(st, a)
		}
		return
	}
	for f, n := st.facts, 0; f != nil && n < 200; f, n = f.prev, n+1 {
		if f.t == t {
			return
		}
	}
	st.facts = &Fact{t: t, prev: st.facts}
}

// ---------- heap

func (x *Exec) heapSort(key string, s *Sort) *Sort { return s }

func (x *Exec) hget(st *State, key string, s *Sort) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	return x.h0(key, s)
}

func (x *Exec) h0(key string, s *Sort) *Term {
	if t, ok := x.h0s[key]; ok {
		if t.sort != s {
			panic(fmt.Sprintf("heap key %s sort %s vs %s", key, t.sort, s))
		}
		return t
	}
	t := &Term{op: OVar, sort: s, name: "h0:" + key, maxEp: 0}
	if l, ok := x.keyRange[key]; ok {
		t.lo, t.hi = l[0], l[1]
	}
	r := x.tb.mk(t)
	x.h0s[key] = r
	return r
}

// fresh heap map variable for havoc
func (x *Exec) hfresh(st *State, key string, s *Sort) *Term {
	t := &Term{op: OVar, sort: s, name: x.tb.FreshName("h:" + key), maxEp: st.epoch}
	if l, ok := x.keyRange[key]; ok {
		t.lo, t.hi = l[0], l[1]
	}
	return x.tb.mk(t)
}

func (x *Exec) setRange(key string, l Leaf) {
	if l.sort == SInt && (l.lo != nil || l.hi != nil) {
		if _, ok := x.keyRange[key]; !ok {
			x.keyRange[key] = [2]*big.Int{l.lo, l.hi}
		}
	}
	if _, ok := x.keySort[key]; !ok {
		x.keySort[key] = l.sort
	}
}

func (x *Exec) hload(st *State, key string, l Leaf, ref *Term) *Term {
	x.setRange(key, l)
	return x.tb.Select(x.hget(st, key, SArr(SRef, l.sort)), ref)
}

func (x *Exec) hstore(st *State, key string, l Leaf, ref, v *Term) {
	x.setRange(key, l)
	h := x.hget(st, key, SArr(SRef, l.sort))
	x.noteWrite(st, key, l.sort, ref)
	st.heap[key] = x.tb.Store(h, ref, v)
}

func (x *Exec) memLeaf(l Leaf) Leaf { return Leaf{l.path, SArr(SInt, l.sort), l.lo, l.hi} }

func memKey(elem types.Type, l Leaf) string { return "mem:" + elemKey(elem) + l.path }

// memory array of an object with elements of type elem (leaf l)
func (x *Exec) mem(st *State, elem types.Type, l Leaf, ref *Term) *Term {
	return x.hload(st, memKey(elem, l), x.memLeaf2(l), ref)
}

func (x *Exec) memLeaf2(l Leaf) Leaf { return Leaf{l.path, SArr(SInt, l.sort), l.lo, l.hi} }

func (x *Exec) setMem(st *State, elem types.Type, l Leaf, ref, arr *Term) {
	key := memKey(elem, l)
	ml := x.memLeaf2(l)
	if l.sort == SInt && (l.lo != nil || l.hi != nil) {
		if _, ok := x.keyRange[key]; !ok {
			x.keyRange[key] = [2]*big.Int{l.lo, l.hi}
		}
	}
	x.keySort[key] = ml.sort
	h := x.hget(st, key, SArr(SRef, ml.sort))
	x.noteWrite(st, key, ml.sort, ref)
	st.heap[key] = x.tb.Store(h, ref, arr)
}

// bytes memory
var byteLeaf = Leaf{"", SInt, bi(0), bi(255)}

func (x *Exec) bytesMem(st *State, ref *Term) *Term { return x.mem(st, tyByte, byteLeaf, ref) }
func (x *Exec) setBytesMem(st *State, ref, a *Term) { x.setMem(st, tyByte, byteLeaf, ref, a) }

// blob content of a []byte value
func (x *Exec) contentOf(st *State, v Val) *Term {
	return x.tb.App("content", SBlob, x.bytesMem(st, v.L[0]), v.L[1], v.L[2])
}

// fields

func fieldKey(t types.Type, f *types.Var) string { return structKey(t) + "." + f.Name() }

func (x *Exec) loadField(st *State, t types.Type, ref *Term, i int) Val {
	u := t.Underlying().(*types.Struct)
	f := u.Field(i)
	fk := fieldKey(t, f)
	switch fu := f.Type().Underlying().(type) {
	case *types.Struct:
		return x.loadStruct(st, f.Type(), x.tb.Fld(ref, fk))
	case *types.Array:
		return x.loadArray(st, f.Type(), fu, x.tb.Fld(ref, fk))
	}
	v := Val{T: f.Type()}
	for _, l := range x.p.Leaves(f.Type()) {
		v.L = append(v.L, x.hload(st, fk+l.path, l, ref))
	}
	x.typeFacts(st, v, 1)
	return v
}

func (x *Exec) loadStruct(st *State, t types.Type, ref *Term) Val {
	u := t.Underlying().(*types.Struct)
	v := Val{T: t}
	for i := 0; i < u.NumFields(); i++ {
		v.L = append(v.L, x.loadField(st, t, ref, i).L...)
	}
	return v
}

func (x *Exec) loadArray(st *State, t types.Type, u *types.Array, ref *Term) Val {
	v := Val{T: t}
	if isStruct(u.Elem()) {
		// opaque: array of structs as a value
		for _, l := range x.p.Leaves(t) {
			v.L = append(v.L, x.tb.Fresh("arrval", l.sort))
		}
		return v
	}
	for _, l := range x.p.Leaves(u.Elem()) {
		v.L = append(v.L, x.mem(st, u.Elem(), l, ref))
	}
	return v
}

func (x *Exec) storeField(st *State, t types.Type, ref *Term, i int, v []*Term) {
	u := t.Underlying().(*types.Struct)
	f := u.Field(i)
	fk := fieldKey(t, f)
	switch fu := f.Type().Underlying().(type) {
	case *types.Struct:
		x.storeStruct(st, f.Type(), x.tb.Fld(ref, fk), v)
		return
	case *types.Array:
		x.storeArray(st, fu, x.tb.Fld(ref, fk), v)
		return
	}
	for j, l := range x.p.Leaves(f.Type()) {
		x.hstore(st, fk+l.path, l, ref, v[j])
	}
}

func (x *Exec) storeStruct(st *State, t types.Type, ref *Term, v []*Term) {
	u := t.Underlying().(*types.Struct)
	o := 0
	for i := 0; i < u.NumFields(); i++ {
		n := len(x.p.Leaves(u.Field(i).Type()))
		x.storeField(st, t, ref, i, v[o:o+n])
		o += n
	}
}

func (x *Exec) storeArray(st *State, u *types.Array, ref *Term, v []*Term) {
	if isStruct(u.Elem()) {
		// element-wise
		if u.Len() <= 16 {
			ls := x.p.Leaves(u.Elem())
			for i := int64(0); i < u.Len(); i++ {
				var e []*Term
				for j := range ls {
					e = append(e, x.tb.Select(v[j], x.tb.Int(i)))
				}
				x.storeStruct(st, u.Elem(), x.tb.Elm(ref, x.tb.Int(i)), e)
			}
		}
		return
	}
	for j, l := range x.p.Leaves(u.Elem()) {
		x.setMem(st, u.Elem(), l, ref, v[j])
	}
}

// load through a pointer of element type t
func (x *Exec) load(st *State, t types.Type, ref *Term) Val {
	if ref.op == OIte {
		a, b := x.load(st, t, ref.args[1]), x.load(st, t, ref.args[2])
		v := Val{T: t}
		for i := range a.L {
			v.L = append(v.L, x.tb.Ite(ref.args[0], a.L[i], b.L[i]))
		}
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return x.loadStruct(st, t, ref)
	case *types.Array:
		return x.loadArray(st, t, u, ref)
	}
	v := Val{T: t}
	switch ref.op {
	case OElm:
		for _, l := range x.p.Leaves(t) {
			v.L = append(v.L, x.tb.Select(x.mem(st, t, l, ref.args[0]), ref.args[1]))
		}
	case OFld:
		for _, l := range x.p.Leaves(t) {
			v.L = append(v.L, x.hload(st, ref.name+l.path, l, ref.args[0]))
		}
	default:
		for _, l := range x.p.Leaves(t) {
			v.L = append(v.L, x.hload(st, "cell:"+elemKey(t)+l.path, l, ref))
		}
	}
	x.typeFacts(st, v, 1)
	return v
}

func (x *Exec) store(st *State, t types.Type, ref *Term, v []*Term) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		x.storeStruct(st, t, ref, v)
		return
	case *types.Array:
		x.storeArray(st, u, ref, v)
		return
	}
	if ref.op == OIte {
		// conditional store
		old1 := x.load(st, t, ref.args[1])
		old2 := x.load(st, t, ref.args[2])
		var v1, v2 []*Term
		for i := range v {
			v1 = append(v1, x.tb.Ite(ref.args[0], v[i], old1.L[i]))
		}
		x.store(st, t, ref.args[1], v1)
		for i := range v {
			v2 = append(v2, x.tb.Ite(ref.args[0], old2.L[i], v[i]))
		}
		x.store(st, t, ref.args[2], v2)
		return
	}
	switch ref.op {
	case OElm:
		for j, l := range x.p.Leaves(t) {
			a := x.mem(st, t, l, ref.args[0])
			x.setMem(st, t, l, ref.args[0], x.tb.Store(a, ref.args[1], v[j]))
		}
	case OFld:
		for j, l := range x.p.Leaves(t) {
			x.hstore(st, ref.name+l.path, l, ref.args[0], v[j])
		}
	default:
		for j, l := range x.p.Leaves(t) {
			x.hstore(st, "cell:"+elemKey(t)+l.path, l, ref, v[j])
		}
	}
}

// facts every well-typed value satisfies
func (x *Exec) typeFacts(st *State, v Val, depth int) {
	tb := x.tb
	switch u := v.T.Underlying().(type) {
	case *types.Slice:
		ref, off, ln, cp := v.L[0], v.L[1], v.L[2], v.L[3]
		if ln.isInt() && cp.isInt() && off.isInt() {
			return
		}
		x.assume(st, tb.Le(tb.Int(0), off))
		x.assume(st, tb.Le(tb.Int(0), ln))
		x.assume(st, tb.Le(ln, cp))
		x.assume(st, tb.Le(tb.Add(off, cp), tb.Big(maxLen)))
		if !refCtor(ref) {
			x.assume(st, tb.Implies(tb.Eq(ref, tb.Null), tb.Eq(cp, tb.Int(0))))
		}
		x.bornFact(st, ref)
	case *types.Interface:
		if v.L[0].isInt() {
			return
		}
		x.assume(st, tb.Le(tb.Int(0), v.L[0]))
		if v.L[0].op == OVar || v.L[0].op == OSelect {
			x.assume(st, tb.Implies(tb.Eq(v.L[0], tb.Int(0)), tb.Eq(v.L[1], tb.Null)))
		}
		x.bornFact(st, v.L[1])
		if c := x.ifaceTagFact(v); c != nil {
			x.assume(st, c)
		}
	case *types.Pointer:
		x.bornFact(st, v.L[0])
		if depth > 0 && x.isPtrTo(v.T, "bytes.Buffer") && !(v.L[0].op == OBase) {
			x.bufferFacts(st, v.L[0])
		}
	case *types.Map:
		x.bornFact(st, v.L[0])
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 && v.L[0].op != OInt {
			lo, hi, ok := intRange(u)
			if ok && !(v.L[0].lo != nil && v.L[0].lo.Cmp(lo) >= 0 && v.L[0].hi != nil && v.L[0].hi.Cmp(hi) <= 0) {
				x.assume(st, tb.Le(tb.Big(lo), v.L[0]))
				x.assume(st, tb.Le(v.L[0], tb.Big(hi)))
			}
		}
	case *types.Struct:
		o := 0
		for i := 0; i < u.NumFields(); i++ {
			n := len(x.p.Leaves(u.Field(i).Type()))
			x.typeFacts(st, Val{u.Field(i).Type(), v.L[o : o+n]}, 0)
			o += n
		}
	}
}

// for an unexported repo interface the dynamic type is one of the implementers (closed world)
func (x *Exec) ifaceTagFact(v Val) *Term {
	n, ok := v.T.(*types.Named)
	if !ok || !isRepo(n.Obj().Pkg()) || n.Obj().Exported() {
		return nil
	}
	var alts []*Term
	alts = append(alts, x.tb.Eq(v.L[0], x.tb.Int(0)))
	for _, t := range x.p.Implementers(v.T) {
		alts = append(alts, x.tb.Eq(v.L[0], x.tb.Int(int64(x.p.Tag(t)))))
	}
	return x.tb.Or(alts...)
}

func (x *Exec) bornFact(st *State, r *Term) {
	if r.maxEp <= st.epoch {
		return
	}
	if r.op == OIte {
		x.bornFact(st, r.args[1])
		x.bornFact(st, r.args[2])
		return
	}
	x.assume(st, x.tb.Le(x.tb.App("born", SInt, r), x.tb.Int(int64(st.epoch))))
}

func (x *Exec) isPtrTo(t types.Type, name string) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && typeKey(n) == name
}

func (x *Exec) namedIs(t types.Type, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && typeKey(n) == name
}

// 0 <= off <= len(buf): invariant of the library type bytes.Buffer
func (x *Exec) bufferFacts(st *State, ref *Term) {
	T := x.bufferType()
	if T == nil || ref == x.tb.Null {
		return
	}
	k := fmt.Sprintf("bf%d", ref.id)
	_ = k
	buf := x.loadFieldByName(st, T, ref, "buf")
	off := x.loadFieldByName(st, T, ref, "off")
	x.assume(st, x.tb.And(x.tb.Le(x.tb.Int(0), off.L[0]), x.tb.Le(off.L[0], buf.L[2])))
}

func (x *Exec) bufferType() types.Type {
	if p := x.p.pkgBy["bytes"]; p != nil {
		return p.Type("Buffer").Type()
	}
	return nil
}

func fieldIdx(t types.Type, name string) int {
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (x *Exec) loadFieldByName(st *State, t types.Type, ref *Term, name string) Val {
	i := fieldIdx(t, name)
	if i < 0 {
		panic(specErr(fmt.Sprintf("no field %s in %s", name, t)))
	}
	return x.loadField(st, t, ref, i)
}

// ---------- fresh values

func (x *Exec) freshVal(st *State, name string, t types.Type) Val {
	v := Val{T: t}
	for _, l := range x.p.Leaves(t) {
		n := x.tb.FreshName(name + l.path)
		tm := &Term{op: OVar, sort: l.sort, name: n, lo: l.lo, hi: l.hi}
		if l.sort == SRef || (l.sort.k == "Array") {
			tm.maxEp = st.epoch
		}
		v.L = append(v.L, x.tb.mk(tm))
	}
	if _, ok := t.Underlying().(*types.Tuple); ok {
		tt := t.Underlying().(*types.Tuple)
		o := 0
		for i := 0; i < tt.Len(); i++ {
			n := len(x.p.Leaves(tt.At(i).Type()))
			x.typeFacts(st, Val{tt.At(i).Type(), v.L[o : o+n]}, 1)
			o += n
		}
		return v
	}
	x.typeFacts(st, v, 1)
	return v
}

func (x *Exec) zero(t types.Type) Val {
	v := Val{T: t}
	for _, l := range x.p.Leaves(t) {
		v.L = append(v.L, x.zeroSort(l.sort))
	}
	return v
}

func (x *Exec) zeroSort(s *Sort) *Term {
	switch s {
	case SInt:
		return x.tb.Int(0)
	case SBool:
		return x.tb.False
	case SRef:
		return x.tb.Null
	case SBlob:
		return x.tb.StrLit("")
	}
	if s.k == "Array" {
		return x.tb.ConstArr(s, x.zeroSort(s.elt))
	}
	panic("zeroSort " + s.String())
}

func (x *Exec) alloc(st *State) *Term {
	st.nalloc++
	x.allocN++
	return x.tb.Base(st.epoch, x.tb.Int(int64(x.allocN)))
}

func (x *Exec) mkSlice(t types.Type, ref, off, ln, cp *Term) Val {
	return Val{t, []*Term{ref, off, ln, cp}}
}

var tyBytes = types.NewSlice(tyByte)

// fresh []byte with the given blob content
func (x *Exec) bytesFromBlob(st *State, blob *Term) Val {
	r := x.alloc(st)
	ln := x.tb.App("blen", SInt, blob)
	arr := x.tb.App("bytesOf", SArr(SInt, SInt), blob)
	x.setBytesMem(st, r, arr)
	return x.mkSlice(tyBytes, r, x.tb.Int(0), ln, ln)
}

func (x *Exec) nilErr() Val { return Val{tyError, []*Term{x.tb.Int(0), x.tb.Null}} }

func (x *Exec) freshErr(st *State) Val {
	r := x.alloc(st)
	return Val{tyError, []*Term{x.tb.Int(int64(x.errTag())), r}}
}

// tag of errors made by the standard library
func (x *Exec) errTag() int { return 99999 }

func trimPath(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}
