package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (vm *VM) opv(f *Frame, o Opd) Value {
	if o >= 0 {
		return f.regs[o]
	}
	if o > -gbase {
		return f.cf.consts[-o-1]
	}
	return Value{R: vm.global(int(-o - 1 - gbase))}
}

type SymPtr struct {
	arr *Obj
	off int
	n   int
	idx *Term
}

func (vm *VM) jump(f *Frame, e *edge) {
	switch len(e.moves) {
	case 0:
	case 1:
		f.regs[e.moves[0].dst] = vm.opv(f, e.moves[0].src)
	default:
		var tmp [8]Value
		t := tmp[:0]
		for _, m := range e.moves {
			t = append(t, vm.opv(f, m.src))
		}
		for i, m := range e.moves {
			f.regs[m.dst] = t[i]
		}
	}
	f.pc = e.pc
	if b := vm.blocks[f.cf]; b != nil {
		b[e.block] = true
	}
}

func (vm *VM) loop() {
	f := vm.top()
	for {
		if vm.st.steps&0x3ff == 0 {
			if vm.stop != nil && vm.stop() {
				abort(abInconclusive, "time budget")
			}
		}
		vm.st.steps++
		if vm.st.runLimit != 0 && vm.st.steps > vm.st.runLimit {
			panic(hangSignal{"step limit reached at " + vm.where()})
		}
		vm.iDec, vm.iPath, vm.iTrail = len(vm.dec), len(vm.path), len(vm.trail)
		ci := &f.cf.code[f.pc]
		switch ci.op {
		case cBin:
			a, b := vm.opv(f, ci.a), vm.opv(f, ci.b)
			if ci.k.w > 0 && !ci.k.float && a.T == nil && b.T == nil {
				if r, ok := fastBin(ci, a.N, b.N); ok {
					f.regs[ci.dst] = Value{N: r}
					f.pc++
					continue
				}
			}
			v := vm.binop(ci, a, b)
			f = vm.top()
			f.regs[ci.dst] = v
			f.pc++
		case cUn:
			a := vm.opv(f, ci.a)
			if ci.tok == token.MUL {
				switch p := a.R.(type) {
				case *Obj:
					v := p.get(int(a.N))
					if v.N == AGG {
						v = vm.copyVal(v)
					}
					f.regs[ci.dst] = v
					f.pc++
				case nil:
					vm.throw("invalid memory address or nil pointer dereference")
				case *SymPtr:
					v := vm.loadSym(p, ci.t)
					f = vm.top()
					f.regs[ci.dst] = v
					f.pc++
				default:
					unsupported("load through %T", a.R)
				}
				continue
			}
			v := vm.unop(ci, a)
			f = vm.top()
			f.regs[ci.dst] = v
			f.pc++
		case cFieldAddr:
			a := vm.opv(f, ci.a)
			switch p := a.R.(type) {
			case *Obj:
				s := p.get(int(a.N))
				so, ok := s.R.(*Obj)
				if !ok {
					unsupported("field address in %T", s.R)
				}
				f.regs[ci.dst] = Value{R: so, N: uint64(ci.i)}
				f.pc++
			case nil:
				vm.throw("invalid memory address or nil pointer dereference")
			default:
				unsupported("field address of %T", a.R)
			}
		case cField:
			a := vm.opv(f, ci.a)
			v := a.R.(*Obj).get(ci.i)
			if v.N == AGG {
				v = vm.copyVal(v)
			}
			f.regs[ci.dst] = v
			f.pc++
		case cStore:
			a, v := vm.opv(f, ci.a), vm.opv(f, ci.b)
			switch p := a.R.(type) {
			case *Obj:
				vm.store(p, int(a.N), v)
				f.pc++
			case nil:
				vm.throw("invalid memory address or nil pointer dereference")
			default:
				unsupported("store through %T", a.R)
			}
		case cIndexAddr:
			v := vm.indexAddr(f, ci)
			f = vm.top()
			f.regs[ci.dst] = v
			f.pc++
		case cIf:
			a := vm.opv(f, ci.a)
			if a.T == nil {
				vm.jump(f, &ci.e[1-a.N])
				continue
			}
			if a.T.op == OConst {
				vm.jump(f, &ci.e[1-a.T.val])
				continue
			}
			if ci.merge != nil {
				// depends only on the program state, so a replay does the same
				if vm.tryMerge(f, ci, a.T) {
					continue
				}
			}
			r := vm.branch(a.T)
			f = vm.top()
			if r {
				vm.jump(f, &ci.e[0])
			} else {
				vm.jump(f, &ci.e[1])
			}
		case cJump:
			vm.jump(f, &ci.e[0])
		case cCall:
			vm.call(f, ci)
			f = vm.top()
		case cReturn:
			var v Value
			switch len(ci.args) {
			case 0:
			case 1:
				v = vm.opv(f, ci.args[0])
			default:
				vs := make([]Value, len(ci.args))
				for i, a := range ci.args {
					vs[i] = vm.opv(f, a)
				}
				v = Value{R: vs}
			}
			vm.doReturn(v)
			f = vm.top()
		case cAlloc:
			o := newCell(zero(ci.t))
			o.epoch = vm.epoch
			if s, ok := o.elems[0].R.(*Obj); ok && o.elems[0].N == AGG {
				vm.fresh(s)
			}
			f.regs[ci.dst] = Value{R: o}
			f.pc++
		case cExtract:
			t := vm.opv(f, ci.a)
			f.regs[ci.dst] = t.R.([]Value)[ci.i]
			f.pc++
		case cChangeIface, cChangeType:
			f.regs[ci.dst] = vm.opv(f, ci.a)
			f.pc++
		case cConvert:
			v := vm.convert(ci, vm.opv(f, ci.a))
			f = vm.top()
			f.regs[ci.dst] = v
			f.pc++
		case cMakeIface:
			v := vm.opv(f, ci.a)
			if v.N == AGG {
				v = vm.copyVal(v)
			}
			f.regs[ci.dst] = Value{R: &Iface{ci.rt, v}}
			f.pc++
		case cTypeAssert:
			v := vm.typeAssert(ci, vm.opv(f, ci.a))
			f.regs[ci.dst] = v
			f.pc++
		case cMakeClosure:
			b := make([]Value, len(ci.args))
			for i, a := range ci.args {
				b[i] = vm.opv(f, a)
			}
			f.regs[ci.dst] = Value{R: &FuncV{fn: ci.fn, bind: b}}
			f.pc++
		case cMakeMap:
			f.regs[ci.dst] = Value{R: newMap(ci.t)}
			f.pc++
		case cMakeChan:
			f.regs[ci.dst] = Value{R: &Obj{n: 1, elems: []Value{{}}, name: "chan"}}
			f.pc++
		case cMakeSlice:
			n := vm.concVal(vm.opv(f, ci.a))
			c := vm.concVal(vm.opv(f, ci.b))
			f = vm.top()
			ln, cp := int64(n.N), int64(c.N)
			if ln < 0 || ln > 1<<28 {
				vm.throw("makeslice: len out of range")
			}
			if cp < ln || cp > 1<<28 {
				vm.throw("makeslice: cap out of range")
			}
			o := newArr(ci.t, int(cp))
			o.epoch = vm.epoch
			f.regs[ci.dst] = Value{R: &Slice{o, 0, int(ln), int(cp)}}
			f.pc++
		case cSlice:
			v := vm.slice(f, ci)
			f = vm.top()
			f.regs[ci.dst] = v
			f.pc++
		case cIndex:
			v := vm.index(f, ci)
			f = vm.top()
			f.regs[ci.dst] = v
			f.pc++
		case cLookup:
			v := vm.lookup(ci, vm.opv(f, ci.a), vm.opv(f, ci.b))
			f = vm.top()
			f.regs[ci.dst] = v
			f.pc++
		case cMapUpdate:
			m := vm.opv(f, ci.a)
			if m.R == nil {
				panic(GoPanic{Value{R: &Iface{vm.p.rtErr, concStr("assignment to entry in nil map")}}})
			}
			vm.mapSet(m.R.(*MapObj), vm.opv(f, ci.b), vm.copyVal(vm.opv(f, ci.c)))
			f = vm.top()
			f.pc++
		case cRange:
			a := vm.opv(f, ci.a)
			switch ci.t.Underlying().(type) {
			case *types.Map:
				it := &MapIter{}
				if a.R != nil {
					it.m = a.R.(*MapObj)
				}
				if vm.st.mapOrder > 0 && it.m != nil && it.m.live > 1 {
					// all in reverse, or one in any order
					if vm.st.mapOrder == 1 || vm.st.permSkip == 0 {
						it.perm = true
					}
					vm.st.permSkip--
				}
				f.regs[ci.dst] = Value{R: it}
			default:
				f.regs[ci.dst] = Value{R: &StrIter{b: strBytes(a)}}
			}
			f.pc++
		case cNext:
			v, it := vm.next(ci, vm.opv(f, ci.a))
			f = vm.top()
			if ci.a >= 0 {
				f.regs[ci.a] = it
			}
			f.regs[ci.dst] = v
			f.pc++
		case cPanic:
			v := vm.opv(f, ci.a)
			if v.R == nil {
				v = vm.rtError("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
			}
			panic(GoPanic{v})
		case cDefer:
			d := deferRec{ci: ci}
			for _, a := range ci.args {
				d.args = append(d.args, vm.opv(f, a))
			}
			switch ci.i {
			case 0:
				d.fv = &FuncV{fn: ci.fn}
			case 1:
				recv := vm.opv(f, ci.a)
				fn := vm.method(recv, ci.x.(*types.Func))
				d.fv = &FuncV{fn: fn}
				d.args = append([]Value{recv.R.(*Iface).v}, d.args...)
			case 2:
				d.bi = ci.bi
			case 3:
				if fv := vm.opv(f, ci.a); fv.R != nil {
					d.fv = fv.R.(*FuncV)
				}
			}
			f.defers = append(f.defers, d)
			f.pc++
		case cRunDefers:
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[:n-1]
				vm.callDeferred(d)
				f = vm.top()
				continue
			}
			f.pc++
		case cSliceToArr:
			a := vm.opv(f, ci.a)
			n := ci.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			_ = a
			unsupported("slice to array pointer (%d)", n)
		case cNop:
			f.pc++
		default:
			unsupported("%v in %s", ci.x, f.cf.name)
		}
	}
}

func fastBin(ci *CIns, a, b uint64) (uint64, bool) {
	w, sg := ci.k.w, ci.k.signed
	var r uint64
	switch ci.tok {
	case token.ADD:
		r = a + b
	case token.SUB:
		r = a - b
	case token.MUL:
		r = a * b
	case token.AND:
		r = a & b
	case token.OR:
		r = a | b
	case token.XOR:
		r = a ^ b
	case token.AND_NOT:
		r = a &^ b
	case token.EQL:
		return b2u(a == b), true
	case token.NEQ:
		return b2u(a != b), true
	case token.LSS:
		if sg {
			return b2u(sx(a, w) < sx(b, w)), true
		}
		return b2u(a < b), true
	case token.LEQ:
		if sg {
			return b2u(sx(a, w) <= sx(b, w)), true
		}
		return b2u(a <= b), true
	case token.GTR:
		if sg {
			return b2u(sx(a, w) > sx(b, w)), true
		}
		return b2u(a > b), true
	case token.GEQ:
		if sg {
			return b2u(sx(a, w) >= sx(b, w)), true
		}
		return b2u(a >= b), true
	case token.QUO:
		if b == 0 {
			return 0, false
		}
		if sg {
			x, y := sx(a, w), sx(b, w)
			if y == -1 {
				r = uint64(-x)
			} else {
				r = uint64(x / y)
			}
		} else {
			r = a / b
		}
	case token.REM:
		if b == 0 {
			return 0, false
		}
		if sg {
			x, y := sx(a, w), sx(b, w)
			if y == -1 {
				r = 0
			} else {
				r = uint64(x % y)
			}
		} else {
			r = a % b
		}
	case token.SHL, token.SHR:
		if ci.k2.signed && sx(b, ci.k2.w) < 0 {
			return 0, false
		}
		if ci.tok == token.SHL {
			if b < 64 {
				r = a << b
			}
		} else if sg {
			if b > 63 {
				b = 63
			}
			r = uint64(sx(a, w) >> b)
		} else if b < 64 {
			r = a >> b
		}
	default:
		return 0, false
	}
	return r & mask(w), true
}

func (vm *VM) term(v Value, w uint8) *Term {
	if v.T != nil {
		return v.T
	}
	return vm.ctx.Const(v.N, w)
}

func tv(t *Term) Value {
	if t.op == OConst {
		return Value{N: t.val}
	}
	return Value{T: t}
}

func (vm *VM) binop(ci *CIns, a, b Value) Value {
	c := vm.ctx
	k := ci.k
	switch {
	case k.boolk:
		x, y := vm.term(a, 0), vm.term(b, 0)
		switch ci.tok {
		case token.EQL:
			return tv(vm.boolEq(x, y))
		case token.NEQ:
			return tv(c.Not(vm.boolEq(x, y)))
		case token.AND:
			return tv(c.BAnd(x, y))
		case token.OR:
			return tv(c.BOr(x, y))
		}
	case k.str:
		switch ci.tok {
		case token.ADD:
			if s, ok := a.R.(string); ok {
				if t, ok := b.R.(string); ok {
					return concStr(s + t)
				}
			}
			x, y := strBytes(a), strBytes(b)
			return strVal(append(x[:len(x):len(x)], y...))
		case token.EQL:
			return tv(vm.strEq(a, b))
		case token.NEQ:
			return tv(c.Not(vm.strEq(a, b)))
		case token.LSS:
			return tv(vm.strLess(a, b))
		case token.GTR:
			return tv(vm.strLess(b, a))
		case token.LEQ:
			return tv(c.Not(vm.strLess(b, a)))
		case token.GEQ:
			return tv(c.Not(vm.strLess(a, b)))
		}
	case k.float:
		return vm.floatop(ci, a, b)
	case k.w > 0:
		if a.T == nil && b.T == nil {
			if r, ok := fastBin(ci, a.N, b.N); ok {
				return Value{N: r}
			}
		}
		w := k.w
		x := vm.term(a, w)
		if ci.tok == token.SHL || ci.tok == token.SHR {
			b = vm.concVal(b)
			if ci.k2.signed && sx(b.N, ci.k2.w) < 0 {
				vm.throw("negative shift amount")
			}
			n := b.N
			if n > 64 {
				n = 64
			}
			if n >= uint64(w) {
				if ci.tok == token.SHR && k.signed {
					return tv(c.Ashr(x, c.Const(uint64(w-1), w)))
				}
				return Value{}
			}
			s := c.Const(n, w)
			if ci.tok == token.SHL {
				return tv(c.Shl(x, s))
			}
			if k.signed {
				return tv(c.Ashr(x, s))
			}
			return tv(c.Lshr(x, s))
		}
		y := vm.term(b, w)
		switch ci.tok {
		case token.ADD:
			return tv(c.Add(x, y))
		case token.SUB:
			return tv(c.Sub(x, y))
		case token.MUL:
			return tv(c.Mul(x, y))
		case token.QUO, token.REM:
			if y.umin == 0 {
				if vm.branch(c.Eq(y, c.Const(0, w))) {
					vm.throw("integer divide by zero")
				}
			}
			switch {
			case k.signed && ci.tok == token.QUO:
				return tv(c.SDiv(x, y))
			case k.signed:
				return tv(c.SRem(x, y))
			case ci.tok == token.QUO:
				return tv(c.UDiv(x, y))
			}
			return tv(c.URem(x, y))
		case token.AND:
			return tv(c.And(x, y))
		case token.OR:
			return tv(c.Or(x, y))
		case token.XOR:
			return tv(c.Xor(x, y))
		case token.AND_NOT:
			return tv(c.And(x, c.BvNot(y)))
		case token.EQL:
			return tv(c.Eq(x, y))
		case token.NEQ:
			return tv(c.Not(c.Eq(x, y)))
		}
		lt := c.Ult
		if k.signed {
			lt = c.Slt
		}
		switch ci.tok {
		case token.LSS:
			return tv(lt(x, y))
		case token.GTR:
			return tv(lt(y, x))
		case token.LEQ:
			return tv(c.Not(lt(y, x)))
		case token.GEQ:
			return tv(c.Not(lt(x, y)))
		}
	case k.cplx:
		unsupported("complex arithmetic")
	default:
		switch ci.tok {
		case token.EQL:
			return tv(vm.eq(a, b, ci.t, ci.t2))
		case token.NEQ:
			return tv(c.Not(vm.eq(a, b, ci.t, ci.t2)))
		}
	}
	unsupported("binary %s on %s", ci.tok, ci.t)
	return Value{}
}

func (vm *VM) boolEq(x, y *Term) *Term {
	c := vm.ctx
	if x == y {
		return c.tru
	}
	if x.op == OConst {
		x, y = y, x
	}
	if y.op == OConst {
		if y.val == 1 {
			return x
		}
		return c.Not(x)
	}
	return c.Eq(x, y)
}

func (vm *VM) byteTerm(b Byte) *Term {
	if b.t != nil {
		return b.t
	}
	return vm.ctx.Const(uint64(b.c), 8)
}

func (vm *VM) strEq(a, b Value) *Term {
	c := vm.ctx
	if s, ok := a.R.(string); ok {
		if t, ok := b.R.(string); ok {
			return c.Bool(s == t)
		}
	}
	if strLen(a) != strLen(b) {
		return c.fls
	}
	x, y := strBytes(a), strBytes(b)
	// concrete mismatch first
	for i := range x {
		if x[i].t == nil && y[i].t == nil && x[i].c != y[i].c {
			return c.fls
		}
	}
	r := c.tru
	for i := range x {
		if x[i].t == nil && y[i].t == nil {
			continue
		}
		r = c.BAnd(r, c.Eq(vm.byteTerm(x[i]), vm.byteTerm(y[i])))
		if r == c.fls {
			return r
		}
	}
	return r
}

func (vm *VM) strLess(a, b Value) *Term {
	c := vm.ctx
	if s, ok := a.R.(string); ok {
		if t, ok := b.R.(string); ok {
			return c.Bool(s < t)
		}
	}
	x, y := strBytes(a), strBytes(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	// the first certain difference ends the comparison
	end := n
	r := c.Bool(len(x) < len(y))
	for i := 0; i < n; i++ {
		if x[i].t == nil && y[i].t == nil && x[i].c != y[i].c {
			end = i
			r = c.Bool(x[i].c < y[i].c)
			break
		}
	}
	for i := end - 1; i >= 0; i-- {
		p, q := vm.byteTerm(x[i]), vm.byteTerm(y[i])
		r = c.Ite(c.Eq(p, q), r, c.Ult(p, q))
	}
	return r
}

// eq compares reference-like or aggregate values.
func (vm *VM) eq(a, b Value, ta, tb types.Type) *Term {
	c := vm.ctx
	switch u := ta.Underlying().(type) {
	case *types.Interface:
		if _, ok := tb.Underlying().(*types.Interface); !ok {
			if b.R == nil && !isNilable(tb) || true {
				b = Value{R: &Iface{rtypeOf(tb), b}}
			}
		}
		if a.R == nil || b.R == nil {
			return c.Bool(a.R == nil && b.R == nil)
		}
		x, y := a.R.(*Iface), b.R.(*Iface)
		if x.t != y.t {
			return c.fls
		}
		if !types.Comparable(x.t.t) {
			vm.throw("comparing uncomparable type " + x.t.t.String())
		}
		return vm.eqT(x.v, y.v, x.t.t)
	case *types.Struct, *types.Array, *types.Basic:
		if _, ok := tb.Underlying().(*types.Interface); ok {
			return vm.eq(b, a, tb, ta)
		}
		_ = u
	default:
		if _, ok := tb.Underlying().(*types.Interface); ok && a.R != nil {
			return vm.eq(b, a, tb, ta)
		}
	}
	return vm.eqT(a, b, ta)
}

func isNilable(t types.Type) bool { return isPtrLike(t) }

func (vm *VM) eqT(a, b Value, t types.Type) *Term {
	c := vm.ctx
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k := kindOf(t)
		switch {
		case k.str:
			return vm.strEq(a, b)
		case k.boolk:
			return vm.boolEq(vm.term(a, 0), vm.term(b, 0))
		case k.float:
			if a.T == nil && b.T == nil {
				return c.Bool(fval(a, k.w) == fval(b, k.w))
			}
			return c.FOp(OFEq, 0, vm.term(a, 64), vm.term(b, 64))
		case k.w > 0:
			return c.Eq(vm.term(a, k.w), vm.term(b, k.w))
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return c.Bool(a.R == b.R && a.N == b.N)
		}
	case *types.Pointer:
		if a.R == nil || b.R == nil {
			return c.Bool(a.R == nil && b.R == nil)
		}
		return c.Bool(a.R == b.R && a.N == b.N)
	case *types.Map, *types.Chan:
		return c.Bool(a.R == b.R)
	case *types.Slice, *types.Signature:
		return c.Bool(a.R == nil && b.R == nil)
	case *types.Interface:
		return vm.eq(a, b, t, t)
	case *types.Struct:
		x, y := a.R.(*Obj), b.R.(*Obj)
		r := c.tru
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = c.BAnd(r, vm.eqT(x.get(i), y.get(i), u.Field(i).Type()))
			if r.op == OConst && r.val == 0 {
				return r
			}
		}
		return r
	case *types.Array:
		x, y := a.R.(*Obj), b.R.(*Obj)
		r := c.tru
		for i := 0; i < int(u.Len()); i++ {
			r = c.BAnd(r, vm.eqT(x.get(i), y.get(i), u.Elem()))
			if r.op == OConst && r.val == 0 {
				return r
			}
		}
		return r
	}
	unsupported("comparison of %s", t)
	return nil
}

func fval(v Value, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v.N)))
	}
	return math.Float64frombits(v.N)
}

func fbits(x float64, w uint8) Value {
	if w == 32 {
		return Value{N: uint64(math.Float32bits(float32(x)))}
	}
	return Value{N: math.Float64bits(x)}
}

func (vm *VM) floatop(ci *CIns, a, b Value) Value {
	w := ci.k.w
	if w == 32 {
		a, b = vm.concVal(a), vm.concVal(b)
	}
	if a.T == nil && b.T == nil {
		x, y := fval(a, w), fval(b, w)
		switch ci.tok {
		case token.ADD:
			return fbits(x+y, w)
		case token.SUB:
			return fbits(x-y, w)
		case token.MUL:
			return fbits(x*y, w)
		case token.QUO:
			return fbits(x/y, w)
		case token.EQL:
			return Value{N: b2u(x == y)}
		case token.NEQ:
			return Value{N: b2u(x != y)}
		case token.LSS:
			return Value{N: b2u(x < y)}
		case token.LEQ:
			return Value{N: b2u(x <= y)}
		case token.GTR:
			return Value{N: b2u(x > y)}
		case token.GEQ:
			return Value{N: b2u(x >= y)}
		}
	}
	c := vm.ctx
	x, y := vm.term(a, 64), vm.term(b, 64)
	switch ci.tok {
	case token.ADD:
		return tv(c.FOp(OFAdd, 64, x, y))
	case token.SUB:
		return tv(c.FOp(OFSub, 64, x, y))
	case token.MUL:
		return tv(c.FOp(OFMul, 64, x, y))
	case token.QUO:
		return tv(c.FOp(OFDiv, 64, x, y))
	case token.EQL:
		return tv(c.FOp(OFEq, 0, x, y))
	case token.NEQ:
		return tv(c.Not(c.FOp(OFEq, 0, x, y)))
	case token.LSS:
		return tv(c.FOp(OFLt, 0, x, y))
	case token.LEQ:
		return tv(c.FOp(OFLe, 0, x, y))
	case token.GTR:
		return tv(c.FOp(OFLt, 0, y, x))
	case token.GEQ:
		return tv(c.FOp(OFLe, 0, y, x))
	}
	unsupported("float %s", ci.tok)
	return Value{}
}

func (vm *VM) unop(ci *CIns, a Value) Value {
	c := vm.ctx
	k := ci.k
	switch ci.tok {
	case token.NOT:
		if a.T == nil {
			return Value{N: a.N ^ 1}
		}
		return tv(c.Not(a.T))
	case token.SUB:
		if k.float {
			if a.T != nil {
				return tv(c.FOp(OFNeg, 64, a.T))
			}
			return fbits(-fval(a, k.w), k.w)
		}
		if a.T == nil {
			return Value{N: -a.N & mask(k.w)}
		}
		return tv(c.Neg(a.T))
	case token.XOR:
		if a.T == nil {
			return Value{N: ^a.N & mask(k.w)}
		}
		return tv(c.BvNot(a.T))
	}
	unsupported("unary %s", ci.tok)
	return Value{}
}

// boundIdx resolves an index against a length: a concrete index, or a term known to be in
// range (t != nil).
func (vm *VM) boundIdx(v Value, k kind, n int, what string) (int, *Term) {
	if v.T == nil {
		i := int64(v.N)
		if k.w > 0 && k.signed {
			i = sx(v.N, k.w)
		}
		if i < 0 || i >= int64(n) {
			vm.throw(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	c := vm.ctx
	t := v.T
	if k.signed {
		t = c.Sext(t, 64)
	} else {
		t = c.Zext(t, 64)
	}
	if !vm.branch(c.Ult(t, c.Const(uint64(n), 64))) {
		vm.throw(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	if t.op == OConst {
		return int(t.val), nil
	}
	return 0, t
}

func (vm *VM) indexAddr(f *Frame, ci *CIns) Value {
	a, iv := vm.opv(f, ci.a), vm.opv(f, ci.b)
	var arr *Obj
	off, n := 0, 0
	switch u := ci.t.Underlying().(type) {
	case *types.Slice:
		if a.R != nil {
			s := a.R.(*Slice)
			arr, off, n = s.arr, s.off, s.len
		}
	case *types.Pointer:
		if a.R == nil {
			vm.throw("invalid memory address or nil pointer dereference")
		}
		ao, ok := a.R.(*Obj).get(int(a.N)).R.(*Obj)
		if !ok {
			unsupported("array pointer")
		}
		arr = ao
		n = int(u.Elem().Underlying().(*types.Array).Len())
	}
	i, t := vm.boundIdx(iv, ci.k2, n, "")
	if t != nil {
		if ci.flag && (ci.k.w > 0 || ci.k.boolk) && n <= 4096 {
			return Value{R: &SymPtr{arr, off, n, t}}
		}
		i = int(vm.conc(t))
	}
	return Value{R: arr, N: uint64(off + i)}
}

func (vm *VM) loadSym(p *SymPtr, t types.Type) Value {
	k := kindOf(t)
	lo, hi := int(p.idx.umin), p.n-1
	if p.idx.umax < uint64(hi) {
		hi = int(p.idx.umax)
	}
	allc := true
	for i := lo; i <= hi; i++ {
		if p.arr.get(p.off+i).T != nil {
			allc = false
			break
		}
	}
	if allc {
		tab := make([]uint64, p.n)
		for i := range tab {
			tab[i] = p.arr.get(p.off + i).N
		}
		if k.boolk {
			s := vm.ctx.Sel(tab, p.idx, 8)
			return tv(vm.ctx.Eq(s, vm.ctx.Const(1, 8)))
		}
		return tv(vm.ctx.Sel(tab, p.idx, k.w))
	}
	if hi-lo > 64 {
		return p.arr.get(p.off + int(vm.conc(p.idx)))
	}
	r := vm.term(p.arr.get(p.off+hi), k.w)
	for i := hi - 1; i >= lo; i-- {
		r = vm.ctx.Ite(vm.ctx.Eq(p.idx, vm.ctx.Const(uint64(i), p.idx.w)), vm.term(p.arr.get(p.off+i), k.w), r)
	}
	return tv(r)
}

func (vm *VM) index(f *Frame, ci *CIns) Value {
	a, iv := vm.opv(f, ci.a), vm.opv(f, ci.b)
	if u, ok := ci.t.Underlying().(*types.Array); ok {
		o := a.R.(*Obj)
		i, t := vm.boundIdx(iv, ci.k2, int(u.Len()), "")
		if t != nil {
			if ci.k.w > 0 {
				return vm.loadSym(&SymPtr{o, 0, int(u.Len()), t}, u.Elem())
			}
			i = int(vm.conc(t))
		}
		v := o.get(i)
		if v.N == AGG {
			v = vm.copyVal(v)
		}
		return v
	}
	return vm.strIndex(a, iv, ci.k2)
}

func (vm *VM) strIndex(a, iv Value, k kind) Value {
	n := strLen(a)
	i, t := vm.boundIdx(iv, k, n, "")
	if t == nil {
		switch s := a.R.(type) {
		case string:
			return Value{N: uint64(s[i])}
		case *SStr:
			return byteVal(s.b[i])
		}
	}
	b := strBytes(a)
	o := newArr(types.Typ[types.Byte], n)
	o.elems = make([]Value, n)
	for j := range b {
		o.elems[j] = byteVal(b[j])
	}
	return vm.loadSym(&SymPtr{o, 0, n, t}, types.Typ[types.Byte])
}

func (vm *VM) slice(f *Frame, ci *CIns) Value {
	a := vm.opv(f, ci.a)
	get := func(o Opd, def int) int {
		if o == -1<<30 {
			return def
		}
		v := vm.concVal(vm.opv(f, o))
		return int(int64(v.N))
	}
	switch u := ci.t.Underlying().(type) {
	case *types.Basic: // string
		n := strLen(a)
		lo, hi := get(ci.args[0], 0), get(ci.args[1], n)
		if hi < 0 || hi > n {
			vm.throw(fmt.Sprintf("slice bounds out of range [:%d] with length %d", hi, n))
		}
		if lo < 0 || lo > hi {
			vm.throw(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		switch s := a.R.(type) {
		case string:
			return concStr(s[lo:hi])
		case *SStr:
			return strVal(s.b[lo:hi])
		case nil:
			return concStr("")
		}
	case *types.Slice:
		var s Slice
		if a.R != nil {
			s = *a.R.(*Slice)
		}
		lo, hi, mx := get(ci.args[0], 0), get(ci.args[1], s.len), get(ci.args[2], s.cap)
		if mx < 0 || mx > s.cap {
			vm.throw(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", mx, s.cap))
		}
		if hi < 0 || hi > mx {
			vm.throw(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", hi, mx))
		}
		if lo < 0 || lo > hi {
			vm.throw(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		if a.R == nil {
			return Value{}
		}
		return Value{R: &Slice{s.arr, s.off + lo, hi - lo, mx - lo}}
	case *types.Pointer:
		if a.R == nil {
			vm.throw("invalid memory address or nil pointer dereference")
		}
		arr := a.R.(*Obj).get(int(a.N)).R.(*Obj)
		n := int(u.Elem().Underlying().(*types.Array).Len())
		lo, hi, mx := get(ci.args[0], 0), get(ci.args[1], n), get(ci.args[2], n)
		if mx < 0 || mx > n || hi < 0 || hi > mx || lo < 0 || lo > hi {
			vm.throw(fmt.Sprintf("slice bounds out of range [%d:%d:%d] of array", lo, hi, mx))
		}
		return Value{R: &Slice{arr, lo, hi - lo, mx - lo}}
	}
	unsupported("slice of %s", ci.t)
	return Value{}
}

// ---- conversions ----

func (vm *VM) convert(ci *CIns, a Value) Value {
	c := vm.ctx
	k, k2 := ci.k, ci.k2
	switch {
	case k.w > 0 && !k.float && k2.w > 0 && !k2.float:
		if a.T == nil {
			n := a.N
			if k.signed {
				n = uint64(sx(n, k.w))
			}
			return Value{N: n & mask(k2.w)}
		}
		if k2.w <= k.w {
			return tv(c.Trunc(a.T, k2.w))
		}
		if k.signed {
			return tv(c.Sext(a.T, k2.w))
		}
		return tv(c.Zext(a.T, k2.w))
	case k.w > 0 && !k.float && k2.float:
		if a.T != nil && k2.w == 64 {
			t := a.T
			if k.signed {
				return tv(c.FOp(OFFromS, 64, c.Sext(t, 64)))
			}
			if k.w < 64 || t.umax < 1<<63 {
				return tv(c.FOp(OFFromS, 64, c.Zext(t, 64)))
			}
		}
		a = vm.concVal(a)
		if k.signed {
			return fbits(float64(sx(a.N, k.w)), k2.w)
		}
		return fbits(float64(a.N), k2.w)
	case k.float && k2.float:
		if k.w == k2.w {
			return a
		}
		a = vm.concVal(a)
		return fbits(fval(a, k.w), k2.w)
	case k.float && k2.w > 0:
		a = vm.concFloat(a)
		x := fval(a, k.w)
		if k2.signed {
			return Value{N: uint64(int64(x)) & mask(k2.w)}
		}
		return Value{N: uint64(x) & mask(k2.w)}
	}
	src, dst := ci.t.Underlying(), ci.t2.Underlying()
	if k2.str {
		switch s := src.(type) {
		case *types.Slice:
			ek := kindOf(s.Elem())
			if ek.w == 8 {
				return strVal(vm.sliceBytes(a))
			}
			if ek.w == 32 {
				var out []Byte
				if a.R != nil {
					sl := a.R.(*Slice)
					for i := 0; i < sl.len; i++ {
						out = append(out, vm.encodeRune(sl.arr.get(sl.off+i), 32)...)
					}
				}
				return strVal(out)
			}
		case *types.Basic:
			if k.w > 0 {
				w := k.w
				if k.w > 32 {
					// large values become the replacement character
					t := vm.term(a, w)
					if vm.branch(c.Ult(c.Const(0x10ffff, w), t)) {
						return concStr("\uFFFD")
					}
					a = tv(c.Trunc(t, 32))
				} else if k.w < 32 {
					t := vm.term(a, w)
					if k.signed {
						a = tv(c.Sext(t, 32))
					} else {
						a = tv(c.Zext(t, 32))
					}
				}
				return strVal(vm.encodeRune(a, 32))
			}
			if k.str {
				return a
			}
		}
	}
	if k.str {
		if s, ok := dst.(*types.Slice); ok {
			ek := kindOf(s.Elem())
			if ek.w == 8 {
				b := strBytes(a)
				v := vm.bytesSlice(b)
				sl := v.R.(*Slice)
				cp := roundupsize(len(b), true)
				if len(b) <= 32 {
					cp = 32
				}
				sl.cap = cp
				sl.arr.n = cp
				return v
			}
			if ek.w == 32 {
				b := strBytes(a)
				var rs []Value
				for i := 0; i < len(b); {
					r, n := vm.decodeRune(b[i:])
					rs = append(rs, r)
					i += n
				}
				cp := roundupsize(len(rs)*4, true) / 4
				if len(rs) <= 32 {
					cp = 32
				}
				o := newArr(s.Elem(), cp)
				o.epoch = vm.epoch
				o.elems = rs
				return Value{R: &Slice{o, 0, len(rs), cp}}
			}
		}
	}
	// pointers and unsafe.Pointer
	if _, ok := dst.(*types.Pointer); ok {
		if a.R == nil {
			return Value{}
		}
		return a
	}
	if b, ok := dst.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if k.w > 0 {
			return Value{R: a.R, N: a.N}
		}
		return a
	}
	if b, ok := src.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return a // to uintptr
	}
	if types.Identical(src, dst) {
		return a
	}
	unsupported("conversion %s to %s", ci.t, ci.t2)
	return Value{}
}

// concFloat concretises a floating-point term by concretising the integers it is built from.
func (vm *VM) concFloat(a Value) Value {
	if a.T == nil {
		return a
	}
	vm.concLeaves(a.T)
	return Value{N: vm.conc(a.T)}
}

func (vm *VM) concLeaves(t *Term) {
	if t.op == OFFromS {
		vm.conc(t.args[0])
		return
	}
	for _, x := range t.args {
		vm.concLeaves(x)
	}
}

// decodeRune mirrors utf8.DecodeRune on possibly symbolic bytes.
func (vm *VM) decodeRune(b []Byte) (Value, int) {
	c := vm.ctx
	b0 := b[0]
	if b0.t == nil && b0.c < 0x80 {
		return Value{N: uint64(b0.c)}, 1
	}
	bad := Value{N: 0xFFFD}
	t0 := vm.byteTerm(b0)
	in := func(t *Term, lo, hi uint64) bool {
		r := c.BAnd(c.Not(c.Ult(t, c.Const(lo, 8))), c.Not(c.Ult(c.Const(hi, 8), t)))
		return vm.branch(r)
	}
	if in(t0, 0, 0x7f) {
		return tv(c.Zext(t0, 32)), 1
	}
	z := func(t *Term, m uint64, sh uint) *Term {
		x := c.And(c.Zext(t, 32), c.Const(m, 32))
		return c.Shl(x, c.Const(uint64(sh), 32))
	}
	if in(t0, 0xC2, 0xDF) {
		if len(b) < 2 {
			return bad, 1
		}
		t1 := vm.byteTerm(b[1])
		if !in(t1, 0x80, 0xBF) {
			return bad, 1
		}
		return tv(c.Add(z(t0, 0x1f, 6), z(t1, 0x3f, 0))), 2
	}
	if in(t0, 0xE0, 0xEF) {
		if len(b) < 2 {
			return bad, 1
		}
		lo, hi := uint64(0x80), uint64(0xBF)
		if in(t0, 0xE0, 0xE0) {
			lo = 0xA0
		} else if in(t0, 0xED, 0xED) {
			hi = 0x9F
		}
		t1 := vm.byteTerm(b[1])
		if len(b) < 3 || !in(t1, lo, hi) {
			return bad, 1
		}
		t2 := vm.byteTerm(b[2])
		if !in(t2, 0x80, 0xBF) {
			return bad, 1
		}
		return tv(c.Add(z(t0, 0xf, 12), c.Add(z(t1, 0x3f, 6), z(t2, 0x3f, 0)))), 3
	}
	if in(t0, 0xF0, 0xF4) {
		if len(b) < 4 {
			return bad, 1
		}
		lo, hi := uint64(0x80), uint64(0xBF)
		if in(t0, 0xF0, 0xF0) {
			lo = 0x90
		} else if in(t0, 0xF4, 0xF4) {
			hi = 0x8F
		}
		t1 := vm.byteTerm(b[1])
		if !in(t1, lo, hi) {
			return bad, 1
		}
		t2, t3 := vm.byteTerm(b[2]), vm.byteTerm(b[3])
		if !in(t2, 0x80, 0xBF) || !in(t3, 0x80, 0xBF) {
			return bad, 1
		}
		return tv(c.Add(c.Add(z(t0, 0x7, 18), z(t1, 0x3f, 12)), c.Add(z(t2, 0x3f, 6), z(t3, 0x3f, 0)))), 4
	}
	return bad, 1
}

func (vm *VM) encodeRune(v Value, w uint8) []Byte {
	c := vm.ctx
	if v.T == nil {
		s := string(rune(int32(uint32(v.N))))
		out := make([]Byte, len(s))
		for i := range out {
			out[i].c = s[i]
		}
		return out
	}
	t := v.T
	K := func(x uint64) *Term { return c.Const(x, 32) }
	lt := func(x uint64) bool { return vm.branch(c.Ult(t, K(x))) }
	B := func(x *Term) Byte { return valByte(tv(c.Trunc(x, 8))) }
	part := func(sh, m, or uint64) Byte {
		x := c.And(c.Lshr(t, K(sh)), K(m))
		return B(c.Add(x, K(or)))
	}
	rep := []Byte{{c: 0xEF}, {c: 0xBF}, {c: 0xBD}}
	if lt(0x80) {
		return []Byte{B(t)}
	}
	if lt(0x800) {
		return []Byte{part(6, 0x1f, 0xC0), part(0, 0x3f, 0x80)}
	}
	if lt(0x10000) {
		if vm.branch(c.BAnd(c.Not(c.Ult(t, K(0xD800))), c.Ult(t, K(0xE000)))) {
			return rep
		}
		return []Byte{part(12, 0xf, 0xE0), part(6, 0x3f, 0x80), part(0, 0x3f, 0x80)}
	}
	if lt(0x110000) {
		return []Byte{part(18, 7, 0xF0), part(12, 0x3f, 0x80), part(6, 0x3f, 0x80), part(0, 0x3f, 0x80)}
	}
	return rep
}

// ---- maps ----

func newMap(kt types.Type) *MapObj { return &MapObj{idx: map[any]int{}, kt: kt} }

// mapFind returns the entry index of key or -1, forking on equality with symbolic keys.
func (vm *VM) mapFind(m *MapObj, key Value) int {
	ck, conc := mapKey(key, m.kt)
	if conc {
		if i, ok := m.idx[ck]; ok {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
		for i := range m.entries {
			e := &m.entries[i]
			if !e.live {
				continue
			}
			if _, c := mapKey(e.key, m.kt); c {
				continue
			}
			if vm.branch(vm.eqT(e.key, key, m.kt)) {
				return i
			}
		}
		return -1
	}
	if i, ok := m.kt.Underlying().(*types.Interface); ok && i != nil && key.R != nil {
		if !types.Comparable(key.R.(*Iface).t.t) {
			vm.throw("hash of unhashable type " + key.R.(*Iface).t.t.String())
		}
	}
	for i := range m.entries {
		e := &m.entries[i]
		if !e.live {
			continue
		}
		if vm.branch(vm.eqT(e.key, key, m.kt)) {
			return i
		}
	}
	return -1
}

func (vm *VM) mapSet(m *MapObj, key, val Value) {
	i := vm.mapFind(m, key)
	if i >= 0 {
		vm.trail = append(vm.trail, trailEnt{kind: tMapUpd, m: m, i: i, old: m.entries[i].val})
		m.entries[i].val = val
		return
	}
	key = vm.copyVal(key)
	ck, conc := mapKey(key, m.kt)
	if !conc {
		ck = nil
		m.nsym++
	} else {
		m.idx[ck] = len(m.entries)
	}
	m.entries = append(m.entries, mapEntry{key, val, true})
	m.live++
	vm.trail = append(vm.trail, trailEnt{kind: tMapIns, m: m, key: ck})
}

func (vm *VM) mapDelete(m *MapObj, key Value) {
	i := vm.mapFind(m, key)
	if i < 0 {
		return
	}
	vm.mapDelAt(m, i)
}

func (vm *VM) mapDelAt(m *MapObj, i int) {
	ck, conc := mapKey(m.entries[i].key, m.kt)
	if conc {
		delete(m.idx, ck)
	} else {
		ck = nil
		m.nsym--
	}
	m.entries[i].live = false
	m.live--
	vm.trail = append(vm.trail, trailEnt{kind: tMapDel, m: m, i: i, key: ck})
}

func (vm *VM) lookup(ci *CIns, a, k Value) Value {
	mt, ok := ci.t.Underlying().(*types.Map)
	if !ok {
		return vm.strIndex(a, k, kindOf(types.Typ[types.Int]))
	}
	i := -1
	if a.R != nil {
		i = vm.mapFind(a.R.(*MapObj), k)
	} else if !types.Comparable(mt.Key()) {
		unsupported("nil map with odd key")
	}
	var v Value
	if i >= 0 {
		v = vm.copyVal(a.R.(*MapObj).entries[i].val)
	} else {
		v = zero(mt.Elem())
	}
	if ci.flag {
		return Value{R: []Value{v, {N: b2u(i >= 0)}}}
	}
	return v
}

func (vm *VM) next(ci *CIns, itv Value) (Value, Value) {
	switch it := itv.R.(type) {
	case *StrIter:
		if it.pos >= len(it.b) {
			return Value{R: []Value{{}, {}, {}}}, itv
		}
		r, n := vm.decodeRune(it.b[it.pos:])
		return Value{R: []Value{{N: 1}, {N: uint64(it.pos)}, r}}, Value{R: &StrIter{it.b, it.pos + n}}
	case *MapIter:
		if it.m == nil {
			return Value{R: []Value{{}, {}, {}}}, itv
		}
		if it.perm {
			var cand []int
			for i := range it.m.entries {
				if it.m.entries[i].live && !(i < len(it.visited) && it.visited[i]) {
					cand = append(cand, i)
				}
			}
			if len(cand) == 0 {
				return Value{R: []Value{{}, {}, {}}}, itv
			}
			k := 0
			if vm.st.mapOrder == 1 {
				k = len(cand) - 1
			} else if len(cand) > 1 && vm.st.permLeft > 0 {
				k = vm.choice(len(cand))
				vm.st.permLeft--
			} else if len(cand) > 1 {
				vm.job.note("map order: beyond the stated number of elements maps iterate in insertion order")
			}
			i := cand[k]
			nv := make([]bool, len(it.m.entries))
			copy(nv, it.visited)
			nv[i] = true
			e := &it.m.entries[i]
			return Value{R: []Value{{N: 1}, e.key, vm.copyVal(e.val)}}, Value{R: &MapIter{m: it.m, perm: true, visited: nv}}
		}
		pos := it.pos
		for pos < len(it.m.entries) && !it.m.entries[pos].live {
			pos++
		}
		if pos >= len(it.m.entries) {
			return Value{R: []Value{{}, {}, {}}}, itv
		}
		e := &it.m.entries[pos]
		return Value{R: []Value{{N: 1}, e.key, vm.copyVal(e.val)}}, Value{R: &MapIter{m: it.m, pos: pos + 1}}
	}
	unsupported("next on %T", itv.R)
	return Value{}, itv
}

// ---- interfaces ----

func (vm *VM) typeAssert(ci *CIns, a Value) Value {
	fail := func(have string) Value {
		if ci.flag {
			return Value{R: []Value{zero(ci.t), {}}}
		}
		vm.throw("interface conversion: interface is " + have + ", not " + ci.t.String())
		return Value{}
	}
	if a.R == nil {
		return fail("nil")
	}
	i := a.R.(*Iface)
	if ci.rt != nil {
		if i.t != ci.rt {
			return fail(i.t.t.String())
		}
		v := vm.copyVal(i.v)
		if ci.flag {
			return Value{R: []Value{v, {N: 1}}}
		}
		return v
	}
	if !vm.implements(i.t, ci.t) {
		return fail(i.t.t.String())
	}
	if ci.flag {
		return Value{R: []Value{a, {N: 1}}}
	}
	return a
}

func (vm *VM) implements(t *RType, it types.Type) bool {
	key := it
	if r, ok := t.impl.Load(key); ok {
		return r.(bool)
	}
	r := types.Implements(t.t, it.Underlying().(*types.Interface))
	t.impl.Store(key, r)
	return r
}

func (vm *VM) method(recv Value, m *types.Func) *ssa.Function {
	if recv.R == nil {
		vm.throw("invalid memory address or nil pointer dereference")
	}
	i := recv.R.(*Iface)
	key := m.Name()
	if !m.Exported() && m.Pkg() != nil {
		key = m.Pkg().Path() + "." + key
	}
	if f, ok := i.t.methods.Load(key); ok {
		return f.(*ssa.Function)
	}
	f := vm.p.prog.LookupMethod(i.t.t, m.Pkg(), m.Name())
	if f == nil {
		unsupported("method %s of %s", key, i.t.t)
	}
	i.t.methods.Store(key, f)
	return f
}

// ---- calls ----

func (vm *VM) call(f *Frame, ci *CIns) {
	var argbuf [8]Value
	args := argbuf[:0]
	var fn *ssa.Function
	var bind []Value
	switch ci.i {
	case 2:
		for _, a := range ci.args {
			args = append(args, vm.opv(f, a))
		}
		if ci.bi == "recover" {
			vm.doRecover(ci)
			return
		}
		v := vm.builtin(ci, args)
		f = vm.top()
		if ci.dst >= 0 {
			f.regs[ci.dst] = v
		}
		f.pc++
		return
	case 0:
		fn = ci.fn
	case 1:
		recv := vm.opv(f, ci.a)
		fn = vm.method(recv, ci.x.(*types.Func))
		args = append(args, recv.R.(*Iface).v)
	case 3:
		fv := vm.opv(f, ci.a)
		if fv.R == nil {
			vm.throw("invalid memory address or nil pointer dereference")
		}
		c := fv.R.(*FuncV)
		if c.nat != nil {
			for _, a := range ci.args {
				args = append(args, vm.opv(f, a))
			}
			v := c.nat(vm, append([]Value(nil), args...))
			f = vm.top()
			if ci.dst >= 0 {
				f.regs[ci.dst] = v
			}
			f.pc++
			return
		}
		fn, bind = c.fn, c.bind
		if strings.HasPrefix(c.name, "builtin ") {
			unsupported("builtin as value")
		}
	}
	for _, a := range ci.args {
		v := vm.opv(f, a)
		args = append(args, v)
	}
	tf, nat := vm.p.target(fn)
	if nat != nil {
		a := append([]Value(nil), args...)
		vm.lastFn = fn.Name()
		v := nat(vm, a)
		f = vm.top()
		if v.R == boundaryMark {
			return
		}
		if ci.dst >= 0 {
			f.regs[ci.dst] = v
		}
		f.pc++
		return
	}
	vm.pushFunc(vm.p.compiled(tf), args, bind, ci.dst)
}

type boundaryT struct{}

var boundaryMark any = &boundaryT{}

func (vm *VM) doRecover(ci *CIns) {
	n := len(vm.frames) - 1
	f := vm.top()
	v := Value{}
	if f.inDefer && n > 0 && vm.frames[n-1].pan != nil && !vm.frames[n-1].recovered {
		p := vm.mutFrame(n - 1)
		p.recovered = true
		v = p.pan.v
	}
	if ci.dst >= 0 {
		f.regs[ci.dst] = v
	}
	f.pc++
}

func (vm *VM) builtin(ci *CIns, args []Value) Value {
	c := vm.ctx
	switch ci.bi {
	case "len":
		a := args[0]
		switch u := ci.t.Underlying().(type) {
		case *types.Basic:
			return Value{N: uint64(strLen(a))}
		case *types.Slice:
			if a.R == nil {
				return Value{}
			}
			return Value{N: uint64(a.R.(*Slice).len)}
		case *types.Map:
			if a.R == nil {
				return Value{}
			}
			return Value{N: uint64(a.R.(*MapObj).live)}
		case *types.Array:
			return Value{N: uint64(u.Len())}
		case *types.Pointer:
			return Value{N: uint64(u.Elem().Underlying().(*types.Array).Len())}
		case *types.Chan:
			return Value{}
		}
	case "cap":
		a := args[0]
		switch u := ci.t.Underlying().(type) {
		case *types.Slice:
			if a.R == nil {
				return Value{}
			}
			return Value{N: uint64(a.R.(*Slice).cap)}
		case *types.Array:
			return Value{N: uint64(u.Len())}
		case *types.Pointer:
			return Value{N: uint64(u.Elem().Underlying().(*types.Array).Len())}
		}
	case "append":
		return vm.appendV(ci, args)
	case "copy":
		var d Slice
		if args[0].R != nil {
			d = *args[0].R.(*Slice)
		}
		if isString(ci.t2) {
			b := strBytes(args[1])
			n := len(b)
			if d.len < n {
				n = d.len
			}
			for i := 0; i < n; i++ {
				vm.setSlot(d.arr, d.off+i, byteVal(b[i]))
			}
			return Value{N: uint64(n)}
		}
		if args[1].R == nil {
			return Value{}
		}
		s := *args[1].R.(*Slice)
		n := s.len
		if d.len < n {
			n = d.len
		}
		if d.arr == s.arr && d.off > s.off {
			for i := n - 1; i >= 0; i-- {
				vm.store(d.arr, d.off+i, vm.copyVal(s.arr.get(s.off+i)))
			}
		} else {
			for i := 0; i < n; i++ {
				vm.store(d.arr, d.off+i, vm.copyVal(s.arr.get(s.off+i)))
			}
		}
		return Value{N: uint64(n)}
	case "delete":
		if args[0].R != nil {
			vm.mapDelete(args[0].R.(*MapObj), args[1])
		}
		return Value{}
	case "clear":
		switch ci.t.Underlying().(type) {
		case *types.Map:
			if args[0].R != nil {
				m := args[0].R.(*MapObj)
				for i := range m.entries {
					if m.entries[i].live {
						vm.mapDelAt(m, i)
					}
				}
			}
		case *types.Slice:
			if args[0].R != nil {
				s := args[0].R.(*Slice)
				for i := 0; i < s.len; i++ {
					vm.store(s.arr, s.off+i, zero(s.arr.et))
				}
			}
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "min", "max":
		r := args[0]
		for _, b := range args[1:] {
			var lt Value
			cc := *ci
			cc.tok = token.LSS
			if ci.bi == "min" {
				lt = vm.binop(&cc, b, r)
			} else {
				lt = vm.binop(&cc, r, b)
			}
			if lt.T == nil {
				if lt.N == 1 {
					r = b
				}
			} else if ci.k.w > 0 && !ci.k.float {
				r = tv(c.Ite(lt.T, vm.term(b, ci.k.w), vm.term(r, ci.k.w)))
			} else if vm.branch(lt.T) {
				r = b
			}
		}
		return r
	case "String": // unsafe.String(ptr, len)
		n := int(vm.concVal(args[1]).N)
		if n == 0 {
			return concStr("")
		}
		o, ok := args[0].R.(*Obj)
		if !ok {
			unsupported("unsafe.String of %T", args[0].R)
		}
		b := make([]Byte, n)
		for i := range b {
			b[i] = valByte(o.get(int(args[0].N) + i))
		}
		return strVal(b)
	case "StringData":
		b := strBytes(args[0])
		if len(b) == 0 {
			return Value{}
		}
		v := vm.bytesSlice(b)
		return Value{R: v.R.(*Slice).arr}
	case "SliceData":
		if args[0].R == nil {
			return Value{}
		}
		s := args[0].R.(*Slice)
		return Value{R: s.arr, N: uint64(s.off)}
	case "Slice":
		n := int(vm.concVal(args[1]).N)
		if args[0].R == nil {
			return Value{}
		}
		return Value{R: &Slice{args[0].R.(*Obj), int(args[0].N), n, n}}
	case "ssa:wrapnilchk":
		if args[0].R == nil {
			vm.throw("value method called using nil pointer")
		}
		return args[0]
	case "close":
		return Value{}
	}
	unsupported("builtin %s", ci.bi)
	return Value{}
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

var stdSizes = types.SizesFor("gc", "amd64")

func (vm *VM) appendV(ci *CIns, args []Value) Value {
	et := ci.t.Underlying().(*types.Slice).Elem()
	var add []Value
	if len(args) > 1 {
		if ci.t2 != nil && isString(ci.t2) {
			for _, b := range strBytes(args[1]) {
				add = append(add, byteVal(b))
			}
		} else if args[1].R != nil {
			s := args[1].R.(*Slice)
			add = make([]Value, s.len)
			for i := range add {
				add[i] = vm.copyVal(s.arr.get(s.off + i))
			}
		}
	}
	var s Slice
	if args[0].R != nil {
		s = *args[0].R.(*Slice)
	}
	if len(add) == 0 {
		return args[0]
	}
	n := s.len + len(add)
	if n <= s.cap {
		for i, v := range add {
			vm.store(s.arr, s.off+s.len+i, v)
		}
		return Value{R: &Slice{s.arr, s.off, n, s.cap}}
	}
	size := int(stdSizes.Sizeof(et))
	cp := growCap(s.cap, n, size, noPointers(et))
	o := newArr(et, cp)
	o.epoch = vm.epoch
	o.elems = make([]Value, n, cp)
	for i := 0; i < s.len; i++ {
		o.elems[i] = vm.copyVal(s.arr.get(s.off + i))
	}
	copy(o.elems[s.len:], add)
	return Value{R: &Slice{o, 0, n, cp}}
}

func noPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString == 0 && u.Kind() != types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !noPointers(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return u.Len() == 0 || noPointers(u.Elem())
	}
	return false
}

// growCap mirrors runtime.growslice.
func growCap(oldCap, newLen, size int, noscan bool) int {
	newcap := oldCap
	double := newcap + newcap
	if newLen > double {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = double
	} else {
		for newcap < newLen {
			newcap += (newcap + 3*256) >> 2
		}
	}
	if size == 0 {
		return newcap
	}
	return roundupsize(newcap*size, noscan) / size
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(size int, noscan bool) int {
	req := size
	if !noscan && req > 512 {
		req += 8
	}
	extra := req - size
	if req <= 32768-8 || noscan && req <= 32768 {
		for _, c := range sizeClasses {
			if c >= req {
				return c - extra
			}
		}
	}
	return (size + 8191) &^ 8191
}

// ---- merging of side-effect free branches ----

type arrival struct {
	guard *Term
	vals  []Value
}

func (vm *VM) tryMerge(f *Frame, ci *CIns, cond *Term) bool {
	if q := vm.quick(cond); q == 0 || q == 1 {
		return false
	}
	join := ci.merge.join
	var phis []Opd
	var arr []arrival
	scratch := append([]Value(nil), f.regs...)
	sf := &Frame{cf: f.cf, regs: scratch}
	steps := 0
	var walk func(fr *Frame, e *edge, guard *Term) bool
	walk = func(fr *Frame, e *edge, guard *Term) bool {
		if guard.op == OConst && guard.val == 0 {
			return true
		}
		if e.block == join {
			if phis == nil {
				phis = []Opd{}
				for _, m := range e.moves {
					phis = append(phis, m.dst)
				}
			}
			vals := make([]Value, len(e.moves))
			for i, m := range e.moves {
				vals[i] = vm.opv(fr, m.src)
			}
			arr = append(arr, arrival{guard, vals})
			return len(arr) <= 24
		}
		vm.jump(fr, e)
		for {
			steps++
			if steps > 400 {
				return false
			}
			in := &fr.cf.code[fr.pc]
			switch in.op {
			case cBin:
				fr.regs[in.dst] = vm.binop(in, vm.opv(fr, in.a), vm.opv(fr, in.b))
			case cUn:
				fr.regs[in.dst] = vm.unop(in, vm.opv(fr, in.a))
			case cConvert:
				fr.regs[in.dst] = vm.convert(in, vm.opv(fr, in.a))
			case cChangeType:
				fr.regs[in.dst] = vm.opv(fr, in.a)
			case cExtract:
				fr.regs[in.dst] = vm.opv(fr, in.a).R.([]Value)[in.i]
			case cField:
				fr.regs[in.dst] = vm.copyVal(vm.opv(fr, in.a).R.(*Obj).get(in.i))
			case cCall:
				var as []Value
				for _, a := range in.args {
					as = append(as, vm.opv(fr, a))
				}
				fr.regs[in.dst] = vm.builtin(in, as)
			case cJump:
				return walk(fr, &in.e[0], guard)
			case cIf:
				c := vm.opv(fr, in.a)
				if c.T == nil || c.T.op == OConst {
					n := c.N
					if c.T != nil {
						n = c.T.val
					}
					return walk(fr, &in.e[1-n], guard)
				}
				f2 := &Frame{cf: fr.cf, regs: append([]Value(nil), fr.regs...)}
				if !walk(fr, &in.e[0], vm.ctx.BAnd(guard, c.T)) {
					return false
				}
				return walk(f2, &in.e[1], vm.ctx.BAnd(guard, vm.ctx.Not(c.T)))
			default:
				return false
			}
			fr.pc++
		}
	}
	sf2 := &Frame{cf: f.cf, regs: append([]Value(nil), f.regs...)}
	if !walk(sf, &ci.e[0], cond) || !walk(sf2, &ci.e[1], vm.ctx.Not(cond)) || len(arr) == 0 {
		return false
	}
	// all phis must merge
	out := make([]Value, len(phis))
	for p := range phis {
		v := arr[len(arr)-1].vals[p]
		for i := len(arr) - 2; i >= 0; i-- {
			x := arr[i].vals[p]
			if sameVal(x, v) {
				continue
			}
			if x.R != nil || v.R != nil || x.N == AGG && x.T == nil && false {
				return false
			}
			ph := phiKind(f.cf, join, p)
			if !ph.boolk && (ph.w == 0 || ph.float) {
				return false
			}
			w := ph.w
			v = tv(vm.ctx.Ite(arr[i].guard, vm.term(x, w), vm.term(v, w)))
		}
		out[p] = v
	}
	for p, d := range phis {
		f.regs[d] = out[p]
	}
	f.pc = f.cf.blockPC[join]
	if b := vm.blocks[f.cf]; b != nil {
		b[join] = true
	}
	return true
}

func sameVal(a, b Value) bool {
	if a.T != b.T || a.N != b.N {
		return false
	}
	switch x := a.R.(type) {
	case nil:
		return b.R == nil
	case string:
		y, ok := b.R.(string)
		return ok && x == y
	case []Value:
		return false
	default:
		return a.R == b.R
	}
}

func phiKind(cf *CFunc, block int32, p int) kind {
	ph := cf.fn.Blocks[block].Instrs[p].(*ssa.Phi)
	return kindOf(ph.Type())
}

func (vm *VM) fresh(o *Obj) {
	o.epoch = vm.epoch
	if o.agg || o.et == nil {
		for i := range o.elems {
			if o.elems[i].N == AGG {
				if s, ok := o.elems[i].R.(*Obj); ok {
					vm.fresh(s)
				}
			}
		}
	}
}
