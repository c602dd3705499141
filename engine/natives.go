package main

// Functions executed natively: the harness vocabulary (package sym), the leaves of the runtime
// that have no Go body, and a few library leaves whose symbolic result is a direct term.

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strings"
	"sync"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type natFn = func(vm *VM, a []Value) Value

var natives map[string]natFn

const symPkg = "verif/harness/sym."
const modelPkg = "verif/harness/model."

func concString(v Value) string {
	switch s := v.R.(type) {
	case nil:
		return ""
	case string:
		return s
	}
	panic(pathAbort{abInconclusive, "a name given to the machine is symbolic"})
}

func tuple(v ...Value) Value { return Value{R: v} }

func init() {
	natives = map[string]natFn{}
	n := natives
	nop := func(vm *VM, a []Value) Value { return Value{} }
	ident := func(vm *VM, a []Value) Value { return a[0] }

	// ---- harness vocabulary ----
	n[symPkg+"Byte"] = func(vm *VM, a []Value) Value {
		lo, hi := a[1].N, a[2].N
		if lo > hi {
			unsupported("empty range for %s", concString(a[0]))
		}
		if lo == hi {
			return Value{N: lo}
		}
		return tv(vm.ctx.Var(concString(a[0]), 8, lo, hi))
	}
	n[symPkg+"Int"] = func(vm *VM, a []Value) Value {
		lo, hi := int64(a[1].N), int64(a[2].N)
		if lo > hi {
			unsupported("empty range for %s", concString(a[0]))
		}
		if lo == hi {
			return Value{N: uint64(lo)}
		}
		span := uint64(hi) - uint64(lo)
		w := uint8(64)
		for _, k := range []uint8{8, 16, 32} {
			if span <= mask(k) {
				w = k
				break
			}
		}
		v := vm.ctx.Var(concString(a[0]), w, 0, span)
		return tv(vm.ctx.Add(vm.ctx.Zext(v, 64), vm.ctx.Const(uint64(lo), 64)))
	}
	n[symPkg+"Choice"] = func(vm *VM, a []Value) Value {
		k := int(a[1].N)
		if k <= 1 {
			return Value{}
		}
		v := vm.ctx.Var(concString(a[0]), 8, 0, uint64(k-1))
		return Value{N: vm.conc(v)}
	}
	n[symPkg+"Conc"] = func(vm *VM, a []Value) Value {
		if a[0].T == nil {
			return a[0]
		}
		return Value{N: vm.conc(a[0].T)}
	}
	n[symPkg+"Assume"] = func(vm *VM, a []Value) Value {
		vm.assume(vm.term(a[0], 0))
		return Value{}
	}
	n[symPkg+"Assert"] = func(vm *VM, a []Value) Value {
		vm.assert(vm.term(a[0], 0), concString(a[1]))
		return Value{}
	}
	n[symPkg+"Cover"] = func(vm *VM, a []Value) Value {
		s := concString(a[0])
		for _, c := range vm.st.covers {
			if c == s {
				return Value{}
			}
		}
		vm.st.covers = append(vm.st.covers[:len(vm.st.covers):len(vm.st.covers)], s)
		return Value{}
	}
	n[symPkg+"Observe"] = func(vm *VM, a []Value) Value {
		o := vm.st.observes
		vm.st.observes = append(o[:len(o):len(o)], obsRec{concString(a[0]), a[1]})
		return Value{}
	}
	n[symPkg+"Param"] = func(vm *VM, a []Value) Value {
		if v, ok := vm.params[concString(a[0])]; ok {
			return Value{N: uint64(v)}
		}
		return a[1]
	}
	n[symPkg+"MapOrder"] = func(vm *VM, a []Value) Value {
		vm.st.mapOrder, vm.st.permSkip, vm.st.permLeft = 2, int(int64(a[0].N)), int(a[1].N)
		if vm.st.permSkip < 0 {
			vm.st.mapOrder = 1
		}
		return Value{}
	}
	n[symPkg+"MapRanges"] = func(vm *VM, a []Value) Value {
		if vm.st.mapOrder == 0 {
			return Value{}
		}
		return Value{N: uint64(-int64(vm.st.permSkip) - 1)} // after MapOrder(-1, 0)
	}
	n[symPkg+"InVM"] = func(vm *VM, a []Value) Value { return Value{N: 1} }
	n[modelPkg+"Call"] = func(vm *VM, a []Value) Value {
		fv, ok := a[0].R.(*FuncV)
		if !ok {
			unsupported("Call of nil")
		}
		f := vm.top()
		ci := &f.cf.code[f.pc]
		nf := vm.pushFunc(vm.p.compiled(fv.fn), nil, fv.bind, ci.dst)
		nf.boundary = true
		vm.st.runLimit = vm.st.steps + a[1].N
		return Value{R: boundaryMark}
	}
	n[modelPkg+"Exit"] = func(vm *VM, a []Value) Value { panic(exitSignal{int(int64(vm.concVal(a[0]).N))}) }
	n[modelPkg+"Unsupported"] = func(vm *VM, a []Value) Value {
		unsupported("%s at %s", concString(a[0]), vm.where())
		return Value{}
	}
	n[modelPkg+"ResetGlobals"] = func(vm *VM, a []Value) Value {
		vm.resetGlobals()
		return Value{}
	}
	n[modelPkg+"IsSym"] = func(vm *VM, a []Value) Value {
		if a[0].R == nil {
			return Value{}
		}
		return Value{N: b2u(a[0].R.(*Iface).v.T != nil)}
	}
	// Kind classifies a dynamic value: 0 nil, 1 bool, 2 signed, 3 unsigned, 4 float, 5 string,
	// 6 []byte, 7 pointer-like, 8 slice, 9 map, 10 struct/array
	n[modelPkg+"Kind"] = func(vm *VM, a []Value) Value {
		if a[0].R == nil {
			return Value{}
		}
		t := a[0].R.(*Iface).t.t
		k := kindOf(t)
		switch {
		case k.boolk:
			return Value{N: 1}
		case k.float:
			return Value{N: 4}
		case k.w > 0 && k.signed:
			return Value{N: 2}
		case k.w > 0:
			return Value{N: 3}
		case k.str:
			return Value{N: 5}
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if kindOf(u.Elem()).w == 8 && !kindOf(u.Elem()).signed {
				return Value{N: 6}
			}
			return Value{N: 8}
		case *types.Map:
			return Value{N: 9}
		case *types.Struct, *types.Array:
			return Value{N: 10}
		}
		return Value{N: 7}
	}
	n[modelPkg+"TypeName"] = func(vm *VM, a []Value) Value {
		if a[0].R == nil {
			return concStr("<nil>")
		}
		t := a[0].R.(*Iface).t.t
		return concStr(types.TypeString(t, func(p *types.Package) string { return p.Name() }))
	}
	n[modelPkg+"AsInt"] = func(vm *VM, a []Value) Value {
		i := a[0].R.(*Iface)
		k := kindOf(i.t.t)
		if i.v.T == nil {
			if k.signed {
				return Value{N: uint64(sx(i.v.N, k.w))}
			}
			return Value{N: i.v.N}
		}
		if k.signed {
			return tv(vm.ctx.Sext(i.v.T, 64))
		}
		return tv(vm.ctx.Zext(i.v.T, 64))
	}
	n[modelPkg+"AsBool"] = func(vm *VM, a []Value) Value { return a[0].R.(*Iface).v }
	n[modelPkg+"AsFloat"] = func(vm *VM, a []Value) Value {
		i := a[0].R.(*Iface)
		if kindOf(i.t.t).w == 32 {
			return fbits(fval(vm.concVal(i.v), 32), 64)
		}
		return i.v
	}
	n[modelPkg+"AsString"] = func(vm *VM, a []Value) Value { return a[0].R.(*Iface).v }
	n[modelPkg+"AsBytes"] = func(vm *VM, a []Value) Value { return a[0].R.(*Iface).v }
	n[modelPkg+"SliceLen"] = func(vm *VM, a []Value) Value {
		v := a[0].R.(*Iface).v
		if v.R == nil {
			return Value{}
		}
		return Value{N: uint64(v.R.(*Slice).len)}
	}
	n[modelPkg+"SliceElem"] = func(vm *VM, a []Value) Value {
		i := a[0].R.(*Iface)
		s := i.v.R.(*Slice)
		et := i.t.t.Underlying().(*types.Slice).Elem()
		v := vm.copyVal(s.arr.get(s.off + int(a[1].N)))
		if _, ok := et.Underlying().(*types.Interface); ok {
			return v
		}
		return Value{R: &Iface{rtypeOf(et), v}}
	}
	// AssignAs is the step of errors.As: the value is stored if its type fits the target's.
	n[modelPkg+"AssignAs"] = func(vm *VM, a []Value) Value {
		if a[0].R == nil || a[1].R == nil {
			return Value{}
		}
		e, t := a[0].R.(*Iface), a[1].R.(*Iface)
		pt, ok := t.t.t.Underlying().(*types.Pointer)
		if !ok {
			vm.throw("errors: target must be a non-nil pointer")
		}
		p, ok := t.v.R.(*Obj)
		if !ok {
			vm.throw("errors: target must be a non-nil pointer")
		}
		el := pt.Elem()
		if types.IsInterface(el) {
			if !vm.implements(e.t, el) {
				return Value{}
			}
			vm.store(p, int(t.v.N), a[0])
			return Value{N: 1}
		}
		if rtypeOf(el) != e.t {
			return Value{}
		}
		vm.store(p, int(t.v.N), vm.copyVal(e.v))
		return Value{N: 1}
	}
	// Parts gives the fields of a struct, the elements of an array, the keys and values of a
	// map in turn, or what a pointer to one of these points to.
	n[modelPkg+"Parts"] = func(vm *VM, a []Value) Value {
		i := a[0].R.(*Iface)
		var l []Value
		wrap := func(v Value, t types.Type) {
			if _, ok := t.Underlying().(*types.Interface); !ok {
				v = Value{R: &Iface{rtypeOf(t), vm.copyVal(v)}}
			}
			l = append(l, v)
		}
		switch u := i.t.t.Underlying().(type) {
		case *types.Struct:
			for k := 0; k < u.NumFields(); k++ {
				wrap(i.v.R.(*Obj).get(k), u.Field(k).Type())
			}
		case *types.Array:
			for k := 0; k < int(u.Len()); k++ {
				wrap(i.v.R.(*Obj).get(k), u.Elem())
			}
		case *types.Map:
			if m, ok := i.v.R.(*MapObj); ok {
				for _, e := range m.entries {
					if e.live {
						wrap(e.key, u.Key())
						wrap(e.val, u.Elem())
					}
				}
			}
		case *types.Pointer:
			if o, ok := i.v.R.(*Obj); ok {
				wrap(o.get(int(i.v.N)), u.Elem())
			}
		}
		o := newArr(types.NewInterfaceType(nil, nil), len(l))
		o.epoch = vm.epoch
		o.elems = l
		return Value{R: &Slice{o, 0, len(l), len(l)}}
	}
	// Shape: 1 struct, 2 array, 3 map, 4 pointer to a struct, array, slice or map, 0 other.
	n[modelPkg+"Shape"] = func(vm *VM, a []Value) Value {
		if a[0].R == nil {
			return Value{}
		}
		switch u := a[0].R.(*Iface).t.t.Underlying().(type) {
		case *types.Struct:
			return Value{N: 1}
		case *types.Array:
			return Value{N: 2}
		case *types.Map:
			return Value{N: 3}
		case *types.Pointer:
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Array, *types.Slice, *types.Map:
				return Value{N: 4}
			}
		}
		return Value{}
	}
	// PartName is the name of a field, with a mark in front of those that are not exported.
	n[modelPkg+"PartName"] = func(vm *VM, a []Value) Value {
		u, ok := a[0].R.(*Iface).t.t.Underlying().(*types.Struct)
		if !ok {
			return concStr("")
		}
		f := u.Field(int(a[1].N))
		if !f.Exported() {
			return concStr("-" + f.Name())
		}
		return concStr("+" + f.Name())
	}
	n[modelPkg+"IsNilPtr"] = func(vm *VM, a []Value) Value {
		if a[0].R == nil {
			return Value{N: 1}
		}
		i := a[0].R.(*Iface)
		if isPtrLike(i.t.t) {
			return Value{N: b2u(i.v.R == nil)}
		}
		return Value{}
	}
	// CentsOf recognises float64(q)/100 for an integer term q with |q| < 2^52.
	n[modelPkg+"CentsOf"] = func(vm *VM, a []Value) Value {
		t := a[0].T
		no := tuple(Value{}, Value{})
		if t == nil || t.op != OFDiv {
			return no
		}
		x, y := t.args[0], t.args[1]
		if x.op != OFFromS || y.op != OConst || math.Float64frombits(y.val) != 100 {
			return no
		}
		q := x.args[0]
		lim := vm.ctx.Const(1<<51, 64)
		in := vm.ctx.BAnd(vm.ctx.Slt(vm.ctx.Neg(lim), q), vm.ctx.Slt(q, lim))
		if vm.branch(in) {
			return tuple(tv(q), Value{N: 1})
		}
		return no
	}
	n[modelPkg+"IntOfFloat"] = func(vm *VM, a []Value) Value {
		t := a[0].T
		no := tuple(Value{}, Value{})
		if t == nil || t.op != OFFromS {
			return no
		}
		q := t.args[0]
		lim := vm.ctx.Const(1<<52, 64)
		in := vm.ctx.BAnd(vm.ctx.Slt(vm.ctx.Neg(lim), q), vm.ctx.Slt(q, lim))
		if vm.branch(in) {
			return tuple(tv(q), Value{N: 1})
		}
		return no
	}
	n[modelPkg+"ConcFloat"] = func(vm *VM, a []Value) Value { return vm.concFloat(a[0]) }
	n[modelPkg+"FormatFloat"] = func(vm *VM, a []Value) Value {
		v := vm.concFloat(a[0])
		p := int(int64(a[2].N))
		return concStr(strconvFormat(math.Float64frombits(v.N), byte(a[1].N), p))
	}
	n[modelPkg+"FormatInt"] = func(vm *VM, a []Value) Value {
		if a[0].T != nil {
			panic("symbolic FormatInt")
		}
		return concStr(fmt.Sprint(int64(a[0].N)))
	}

	// ---- runtime leaves ----
	for _, s := range []string{"runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "runtime.Gosched",
		"(*strings.Builder).copyCheck",
		"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*internal/sync.Mutex).Lock", "(*internal/sync.Mutex).Unlock",
		"(*sync.Pool).Put", "(*sync.noCopy).Lock", "(*sync.noCopy).Unlock", "sync.runtime_registerPoolCleanup",
		"internal/godebug.setUpdate", "internal/godebug.registerMetric", "(*internal/godebug.Setting).IncNonDefault",
		"sync.throw", "sync.fatal", "internal/race.Enable", "os/signal.Notify",
	} {
		n[s] = nop
	}
	n["(*sync.Mutex).TryLock"] = func(vm *VM, a []Value) Value { return Value{N: 1} }
	n["(*internal/godebug.Setting).Value"] = func(vm *VM, a []Value) Value { return concStr("") }
	n["internal/godebug.New"] = func(vm *VM, a []Value) Value {
		return Value{R: newCell(Value{R: &Obj{elems: []Value{a[0], {}, {}}, n: 3}, N: AGG})}
	}
	n["internal/abi.NoEscape"] = ident
	n["internal/abi.Escape"] = ident
	n["strings.noescape"] = ident
	n["time.runtimeNano"] = func(vm *VM, a []Value) Value { return Value{N: 1000} }
	n["time.runtimeNow"] = func(vm *VM, a []Value) Value { return tuple(Value{N: 1600000000}, Value{}, Value{N: 1000}) }
	n["runtime.GOMAXPROCS"] = func(vm *VM, a []Value) Value { return Value{N: 1} }
	n["runtime.Caller"] = func(vm *VM, a []Value) Value { return tuple(Value{}, concStr("?"), Value{}, Value{}) }

	n["internal/bytealg.MakeNoZero"] = func(vm *VM, a []Value) Value {
		ln := int(vm.concVal(a[0]).N)
		cp := roundupsize(ln, true)
		o := newArr(types.Typ[types.Byte], cp)
		o.epoch = vm.epoch
		return Value{R: &Slice{o, 0, ln, cp}}
	}
	idxByte := func(vm *VM, b []Byte, x Value) Value {
		c := vm.ctx
		xt := vm.term(x, 8)
		for i := range b {
			if b[i].t == nil && x.T == nil {
				if uint64(b[i].c) == x.N {
					return Value{N: uint64(i)}
				}
				continue
			}
			if vm.branch(c.Eq(vm.byteTerm(b[i]), xt)) {
				return Value{N: uint64(i)}
			}
		}
		return Value{N: ^uint64(0)}
	}
	n["internal/bytealg.IndexByteString"] = func(vm *VM, a []Value) Value {
		if s, ok := a[0].R.(string); ok && a[1].T == nil {
			return Value{N: uint64(int64(strings.IndexByte(s, byte(a[1].N))))}
		}
		return idxByte(vm, strBytes(a[0]), a[1])
	}
	n["internal/bytealg.IndexByte"] = func(vm *VM, a []Value) Value { return idxByte(vm, vm.sliceBytes(a[0]), a[1]) }
	lastIdx := func(vm *VM, b []Byte, x Value) Value {
		for i := len(b) - 1; i >= 0; i-- {
			if vm.branch(vm.ctx.Eq(vm.byteTerm(b[i]), vm.term(x, 8))) {
				return Value{N: uint64(i)}
			}
		}
		return Value{N: ^uint64(0)}
	}
	n["internal/bytealg.LastIndexByteString"] = func(vm *VM, a []Value) Value { return lastIdx(vm, strBytes(a[0]), a[1]) }
	n["internal/bytealg.LastIndexByte"] = func(vm *VM, a []Value) Value { return lastIdx(vm, vm.sliceBytes(a[0]), a[1]) }
	count := func(vm *VM, b []Byte, x Value) Value {
		t := vm.ctx.Const(0, 64)
		for i := range b {
			e := vm.ctx.Eq(vm.byteTerm(b[i]), vm.term(x, 8))
			if vm.branch(e) {
				t = vm.ctx.Add(t, vm.ctx.Const(1, 64))
			}
		}
		return tv(t)
	}
	n["internal/bytealg.CountString"] = func(vm *VM, a []Value) Value { return count(vm, strBytes(a[0]), a[1]) }
	n["internal/bytealg.Count"] = func(vm *VM, a []Value) Value { return count(vm, vm.sliceBytes(a[0]), a[1]) }
	find := func(vm *VM, s, p []Byte) Value {
		for i := 0; i+len(p) <= len(s); i++ {
			if vm.branch(vm.strEq(strVal(s[i:i+len(p)]), strVal(p))) {
				return Value{N: uint64(i)}
			}
		}
		return Value{N: ^uint64(0)}
	}
	sfind := func(vm *VM, a []Value) Value {
		if s, ok := a[0].R.(string); ok {
			if p, ok := a[1].R.(string); ok {
				return Value{N: uint64(int64(strings.Index(s, p)))}
			}
		}
		return find(vm, strBytes(a[0]), strBytes(a[1]))
	}
	bfind := func(vm *VM, a []Value) Value { return find(vm, vm.sliceBytes(a[0]), vm.sliceBytes(a[1])) }
	n["internal/bytealg.IndexString"] = sfind
	n["internal/stringslite.Index"] = sfind
	n["strings.Index"] = sfind
	n["internal/bytealg.Index"] = bfind
	n["bytes.Index"] = bfind
	beq := func(vm *VM, a []Value) Value {
		return tv(vm.strEq(strVal(vm.sliceBytes(a[0])), strVal(vm.sliceBytes(a[1]))))
	}
	n["internal/bytealg.Equal"] = beq
	n["bytes.Equal"] = beq
	cmpS := func(vm *VM, x, y Value) Value {
		if vm.branch(vm.strEq(x, y)) {
			return Value{}
		}
		if vm.branch(vm.strLess(x, y)) {
			return Value{N: ^uint64(0)}
		}
		return Value{N: 1}
	}
	n["internal/bytealg.CompareString"] = func(vm *VM, a []Value) Value { return cmpS(vm, a[0], a[1]) }
	n["strings.Compare"] = n["internal/bytealg.CompareString"]
	n["internal/bytealg.Compare"] = func(vm *VM, a []Value) Value {
		return cmpS(vm, strVal(vm.sliceBytes(a[0])), strVal(vm.sliceBytes(a[1])))
	}

	// ---- math ----
	n["math.Float64bits"] = ident
	n["math.Float64frombits"] = ident
	n["math.Float32bits"] = ident
	n["math.Float32frombits"] = ident
	f1 := func(f func(float64) float64) natFn {
		return func(vm *VM, a []Value) Value {
			return Value{N: math.Float64bits(f(math.Float64frombits(vm.concFloat(a[0]).N)))}
		}
	}
	for name, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc,
		"Sqrt": math.Sqrt, "Log": math.Log, "Log10": math.Log10, "Log2": math.Log2, "Exp": math.Exp, "Round": math.Round, "Abs": math.Abs,
		"RoundToEven": math.RoundToEven} {
		n["math."+name] = f1(f)
	}
	f2 := func(f func(a, b float64) float64) natFn {
		return func(vm *VM, a []Value) Value {
			x := vm.concFloat(a[0])
			y := vm.concFloat(a[1])
			return Value{N: math.Float64bits(f(math.Float64frombits(x.N), math.Float64frombits(y.N)))}
		}
	}
	for name, f := range map[string]func(a, b float64) float64{"Pow": math.Pow, "Mod": math.Mod, "Max": math.Max, "Min": math.Min} {
		n["math."+name] = f2(f)
	}
	n["math/bits.Len64"] = bitsLen(64)
	n["math/bits.Len32"] = bitsLen(32)
	n["math/bits.Len"] = bitsLen(64)
	n["math/bits.TrailingZeros64"] = func(vm *VM, a []Value) Value {
		return Value{N: uint64(bits.TrailingZeros64(vm.concVal(a[0]).N))}
	}
	n["math/bits.Mul64"] = func(vm *VM, a []Value) Value {
		if a[0].T == nil && a[1].T == nil {
			h, l := bits.Mul64(a[0].N, a[1].N)
			return tuple(Value{N: h}, Value{N: l})
		}
		x, y := vm.term(a[0], 64), vm.term(a[1], 64)
		h, _ := bits.Mul64(x.umax, y.umax)
		if h == 0 {
			return tuple(Value{}, tv(vm.ctx.Mul(x, y)))
		}
		// high word by 32-bit halves
		c := vm.ctx
		m32 := c.Const(0xffffffff, 64)
		s32 := c.Const(32, 64)
		x0, x1 := c.And(x, m32), c.Lshr(x, s32)
		y0, y1 := c.And(y, m32), c.Lshr(y, s32)
		w0 := c.Mul(x0, y0)
		t := c.Add(c.Mul(x1, y0), c.Lshr(w0, s32))
		w1 := c.Add(c.And(t, m32), c.Mul(x0, y1))
		w2 := c.Lshr(t, s32)
		hi := c.Add(c.Add(c.Mul(x1, y1), w2), c.Lshr(w1, s32))
		return tuple(tv(hi), tv(c.Mul(x, y)))
	}

	// ---- unicode ----
	for name, f := range map[string]func(rune) bool{"IsLetter": unicode.IsLetter, "IsSpace": unicode.IsSpace,
		"IsNumber": unicode.IsNumber, "IsDigit": unicode.IsDigit, "IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower,
		"IsPunct": unicode.IsPunct, "IsPrint": unicode.IsPrint, "IsGraphic": unicode.IsGraphic, "IsControl": unicode.IsControl,
		"IsSymbol": unicode.IsSymbol, "IsMark": unicode.IsMark, "IsTitle": unicode.IsTitle} {
		n["unicode."+name] = runePred(f)
	}
	runeMap := func(f func(rune) rune, lo, hi uint64, delta int64) natFn {
		return func(vm *VM, a []Value) Value {
			if a[0].T == nil {
				return Value{N: uint64(uint32(f(rune(int32(uint32(a[0].N))))))}
			}
			c := vm.ctx
			t := a[0].T
			if t.umax < 128 || vm.branch(c.Ult(t, c.Const(128, 32))) {
				in := c.BAnd(c.Not(c.Ult(t, c.Const(lo, 32))), c.Not(c.Ult(c.Const(hi, 32), t)))
				return tv(c.Ite(in, c.Add(t, c.Const(uint64(delta), 32)), t))
			}
			v := vm.conc(t)
			return Value{N: uint64(uint32(f(rune(int32(uint32(v))))))}
		}
	}
	n["unicode.ToLower"] = runeMap(unicode.ToLower, 'A', 'Z', 32)
	n["unicode.ToUpper"] = runeMap(unicode.ToUpper, 'a', 'z', -32)
	n["unicode.SimpleFold"] = func(vm *VM, a []Value) Value {
		v := vm.concVal(a[0])
		return Value{N: uint64(uint32(unicode.SimpleFold(rune(int32(uint32(v.N))))))}
	}

	// ---- reflectlite as used by package sort ----
	rl := func(vm *VM, a []Value) Value {
		return Value{R: &Obj{elems: []Value{{}, {R: &Obj{elems: []Value{a[0]}, n: 1}}, {}}, n: 3}, N: AGG}
	}
	n["internal/reflectlite.ValueOf"] = rl
	n["(internal/reflectlite.Value).Len"] = func(vm *VM, a []Value) Value {
		v := a[0].R.(*Obj).elems[1].R.(*Obj).elems[0].R.(*Iface).v
		if v.R == nil {
			return Value{}
		}
		return Value{N: uint64(v.R.(*Slice).len)}
	}
	n["internal/reflectlite.Swapper"] = func(vm *VM, a []Value) Value {
		v := a[0].R.(*Iface).v
		return Value{R: &FuncV{name: "swapper", nat: func(vm *VM, b []Value) Value {
			i, j := int(b[0].N), int(b[1].N)
			s := v.R.(*Slice)
			x, y := vm.copyVal(s.arr.get(s.off+i)), vm.copyVal(s.arr.get(s.off+j))
			vm.store(s.arr, s.off+i, y)
			vm.store(s.arr, s.off+j, x)
			return Value{}
		}}}
	}
}

func bitsLen(w uint8) natFn {
	return func(vm *VM, a []Value) Value {
		if a[0].T == nil {
			return Value{N: uint64(bits.Len64(a[0].N))}
		}
		c := vm.ctx
		t := a[0].T
		lo, hi := bits.Len64(t.umin), bits.Len64(t.umax)
		r := c.Const(uint64(hi), 64)
		for k := hi - 1; k >= lo; k-- {
			r = c.Ite(c.Ult(t, c.Const(uint64(1)<<k, w)), c.Const(uint64(k), 64), r)
		}
		return tv(r)
	}
}

type runeRanges struct {
	once sync.Once
	r    [][2]uint64
}

func runePred(f func(rune) bool) natFn {
	rr := &runeRanges{}
	return func(vm *VM, a []Value) Value {
		if a[0].T == nil {
			return Value{N: b2u(f(rune(int32(uint32(a[0].N)))))}
		}
		rr.once.Do(func() {
			in := false
			for x := uint64(0); x <= 0x110000; x++ {
				v := x <= 0x10ffff && f(rune(x))
				if v && !in {
					rr.r = append(rr.r, [2]uint64{x, 0})
				}
				if !v && in {
					rr.r[len(rr.r)-1][1] = x - 1
				}
				in = v
			}
		})
		c := vm.ctx
		t := a[0].T
		r := c.fls
		for _, x := range rr.r {
			if x[1] < t.umin || x[0] > t.umax {
				continue
			}
			e := c.BAnd(c.Not(c.Ult(t, c.Const(x[0], 32))), c.Not(c.Ult(c.Const(x[1], 32), t)))
			r = c.BOr(r, e)
		}
		return tv(r)
	}
}

// atomicNative executes sync/atomic functions sequentially (the code under test has one goroutine).
func atomicNative(fn *ssa.Function) natFn {
	name := fn.Name()
	ld := func(vm *VM, p Value) Value {
		if p.R == nil {
			vm.throw("invalid memory address or nil pointer dereference")
		}
		return p.R.(*Obj).get(int(p.N))
	}
	st := func(vm *VM, p, v Value) { vm.store(p.R.(*Obj), int(p.N), v) }
	res := fn.Signature.Results()
	switch {
	case strings.HasPrefix(name, "Load"):
		return func(vm *VM, a []Value) Value { return ld(vm, a[0]) }
	case strings.HasPrefix(name, "Store"):
		return func(vm *VM, a []Value) Value { st(vm, a[0], a[1]); return Value{} }
	case strings.HasPrefix(name, "Add"):
		w := kindOf(res.At(0).Type()).w
		return func(vm *VM, a []Value) Value {
			v := Value{N: (vm.concVal(ld(vm, a[0])).N + vm.concVal(a[1]).N) & mask(w)}
			st(vm, a[0], v)
			return v
		}
	case strings.HasPrefix(name, "Swap"):
		return func(vm *VM, a []Value) Value { o := ld(vm, a[0]); st(vm, a[0], a[1]); return o }
	case strings.HasPrefix(name, "CompareAndSwap"):
		return func(vm *VM, a []Value) Value {
			o := ld(vm, a[0])
			if o.N == a[1].N && o.R == a[1].R {
				st(vm, a[0], a[2])
				return Value{N: 1}
			}
			return Value{}
		}
	}
	if len(fn.Blocks) > 0 {
		return nil
	}
	return func(vm *VM, a []Value) Value { unsupported("atomic %s", name); return Value{} }
}
