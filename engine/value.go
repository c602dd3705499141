package main

// Runtime values of the symbolic machine.

import (
	"fmt"
	"go/types"
	"sync"
	"unsafe"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is a scalar (N, or T when symbolic) or a reference (R).
//
//	bool, ints, floats: N raw bits (zero-extended), or T
//	string:   R string or *SStr
//	pointer:  R *Obj, N slot index           (nil: R == nil)
//	struct/array: R *Obj, N == AGG
//	slice:    R *Slice (nil: R == nil)
//	map:      R *MapObj
//	func:     R *FuncV
//	iface:    R *Iface
//	tuple:    R []Value
type Value struct {
	T *Term
	N uint64
	R any
}

const AGG = ^uint64(0)

type Obj struct {
	elems []Value
	n     int
	et    types.Type // element type for lazily grown arrays
	agg   bool       // elements are aggregates
	epoch uint32
	name  string
}

type Slice struct {
	arr           *Obj
	off, len, cap int
}

type Byte struct {
	t *Term
	c byte
}

type SStr struct{ b []Byte }

type Iface struct {
	t *RType
	v Value
}

type FuncV struct {
	fn   *ssa.Function
	bind []Value
	nat  func(vm *VM, args []Value) Value
	name string
}

type mapEntry struct {
	key, val Value
	live     bool
}

type MapObj struct {
	entries []mapEntry
	idx     map[any]int // concrete key -> entry
	nsym    int         // live entries with symbolic keys
	live    int
	kt      types.Type
}

type MapIter struct {
	m       *MapObj
	pos     int
	perm    bool
	visited []bool
}

type StrIter struct {
	b   []Byte
	pos int
}

// RType is the canonical identity of a dynamic type.
type RType struct {
	t       types.Type
	id      int
	methods sync.Map // string -> *ssa.Function
	impl    sync.Map // types.Type (interface) -> bool
}

var (
	rtMu  sync.Mutex
	rtMap typeutil.Map
	rtN   int
)

func rtypeOf(t types.Type) *RType {
	rtMu.Lock()
	defer rtMu.Unlock()
	if r := rtMap.At(t); r != nil {
		return r.(*RType)
	}
	rtN++
	r := &RType{t: t, id: rtN}
	rtMap.Set(t, r)
	return r
}

func isAggType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return Value{R: ""}
		}
		return Value{}
	case *types.Struct:
		o := &Obj{elems: make([]Value, u.NumFields()), n: u.NumFields()}
		for i := range o.elems {
			o.elems[i] = zero(u.Field(i).Type())
		}
		return Value{R: o, N: AGG}
	case *types.Array:
		return Value{R: newArr(u.Elem(), int(u.Len())), N: AGG}
	case *types.Tuple:
		vs := make([]Value, u.Len())
		for i := range vs {
			vs[i] = zero(u.At(i).Type())
		}
		return Value{R: vs}
	}
	return Value{}
}

func newArr(et types.Type, n int) *Obj {
	return &Obj{n: n, et: et, agg: isAggType(et)}
}

func newCell(v Value) *Obj { return &Obj{elems: []Value{v}, n: 1} }

func (o *Obj) get(i int) Value {
	if i < len(o.elems) {
		return o.elems[i]
	}
	if o.agg {
		o.grow(i + 1)
		return o.elems[i]
	}
	return zero(o.et)
}

func (o *Obj) grow(n int) {
	if n <= len(o.elems) {
		return
	}
	if cap(o.elems) < n {
		c := 2 * cap(o.elems)
		if c < n {
			c = n
		}
		if c > o.n {
			c = o.n
		}
		ne := make([]Value, len(o.elems), c)
		copy(ne, o.elems)
		o.elems = ne
	}
	z := Value{}
	if !o.agg {
		z = zero(o.et)
	}
	for len(o.elems) < n {
		if o.agg {
			z = zero(o.et)
		}
		o.elems = append(o.elems, z)
	}
}

// copyVal gives an independent copy of aggregates.
func (vm *VM) copyVal(v Value) Value {
	if v.N == AGG {
		if o, ok := v.R.(*Obj); ok {
			return Value{R: vm.copyObj(o), N: AGG}
		}
	}
	return v
}

func (vm *VM) copyObj(o *Obj) *Obj {
	n := &Obj{elems: make([]Value, len(o.elems)), n: o.n, et: o.et, agg: o.agg, epoch: vm.epoch}
	for i, e := range o.elems {
		if e.N == AGG {
			n.elems[i] = vm.copyVal(e)
		} else {
			n.elems[i] = e
		}
	}
	return n
}

// ---- strings ----

func concStr(s string) Value { return Value{R: s} }

func strBytes(v Value) []Byte {
	switch s := v.R.(type) {
	case nil:
		return nil
	case string:
		b := make([]Byte, len(s))
		for i := 0; i < len(s); i++ {
			b[i].c = s[i]
		}
		return b
	case *SStr:
		return s.b
	}
	panic(fmt.Sprintf("not a string: %T", v.R))
}

func strLen(v Value) int {
	switch s := v.R.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("not a string: %T", v.R))
}

func strVal(b []Byte) Value {
	for i := range b {
		if b[i].t != nil {
			return Value{R: &SStr{b}}
		}
	}
	x := make([]byte, len(b))
	for i := range b {
		x[i] = b[i].c
	}
	return Value{R: unsafe.String(unsafe.SliceData(x), len(x))}
}

func byteVal(b Byte) Value {
	if b.t != nil {
		return Value{T: b.t}
	}
	return Value{N: uint64(b.c)}
}

func valByte(v Value) Byte {
	if v.T != nil {
		if v.T.op == OConst {
			return Byte{c: byte(v.T.val)}
		}
		return Byte{t: v.T}
	}
	return Byte{c: byte(v.N)}
}

func (vm *VM) sliceBytes(v Value) []Byte {
	if v.R == nil {
		return nil
	}
	s := v.R.(*Slice)
	b := make([]Byte, s.len)
	for i := range b {
		b[i] = valByte(s.arr.get(s.off + i))
	}
	return b
}

func (vm *VM) bytesSlice(b []Byte) Value {
	o := newArr(types.Typ[types.Byte], len(b))
	o.epoch = vm.epoch
	o.elems = make([]Value, len(b))
	for i := range b {
		o.elems[i] = byteVal(b[i])
	}
	return Value{R: &Slice{o, 0, len(b), len(b)}}
}

// ---- maps ----

type ptrKey struct {
	o *Obj
	i uint64
}
type ifKey struct {
	t int
	k any
}

// mapKey canonicalises a concrete key; ok is false if it has symbolic parts.
func mapKey(v Value, t types.Type) (any, bool) {
	if v.T != nil {
		return nil, false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			switch s := v.R.(type) {
			case nil:
				return "", true
			case string:
				return s, true
			}
			return nil, false
		}
		return v.N, true
	case *types.Pointer:
		if v.R == nil {
			return ptrKey{}, true
		}
		return ptrKey{v.R.(*Obj), v.N}, true
	case *types.Interface:
		if v.R == nil {
			return ifKey{}, true
		}
		i := v.R.(*Iface)
		k, ok := mapKey(i.v, i.t.t)
		return ifKey{i.t.id, k}, ok
	case *types.Struct:
		o := v.R.(*Obj)
		var acc any = "s"
		for i := 0; i < u.NumFields(); i++ {
			k, ok := mapKey(o.elems[i], u.Field(i).Type())
			if !ok {
				return nil, false
			}
			acc = [2]any{acc, k}
		}
		return acc, true
	case *types.Array:
		o := v.R.(*Obj)
		var acc any = "a"
		for i := 0; i < o.n; i++ {
			k, ok := mapKey(o.get(i), u.Elem())
			if !ok {
				return nil, false
			}
			acc = [2]any{acc, k}
		}
		return acc, true
	case *types.Chan, *types.Map:
		return v.R, true
	}
	panic(fmt.Sprintf("map key type %s", t))
}
