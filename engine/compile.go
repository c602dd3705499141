package main

// Translation of go/ssa functions into a compact register code.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Opd int32

const gbase = 1 << 24

type cop uint8

const (
	cNop cop = iota
	cAlloc
	cBin
	cUn
	cCall
	cChangeIface
	cChangeType
	cConvert
	cSliceToArr
	cExtract
	cField
	cFieldAddr
	cIndex
	cIndexAddr
	cIf
	cJump
	cLookup
	cMakeClosure
	cMakeIface
	cMakeMap
	cMakeSlice
	cMapUpdate
	cNext
	cPanic
	cRange
	cReturn
	cRunDefers
	cSlice
	cStore
	cTypeAssert
	cDefer
	cUnsupported
	cMakeChan
)

type kind struct {
	w      uint8
	signed bool
	float  bool
	str    bool
	boolk  bool
	other  bool // pointers, interfaces, structs...
	cplx   bool
}

func kindOf(t types.Type) kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return kind{boolk: true}
		case types.Int8:
			return kind{w: 8, signed: true}
		case types.Int16:
			return kind{w: 16, signed: true}
		case types.Int32, types.UntypedRune:
			return kind{w: 32, signed: true}
		case types.Int, types.Int64, types.UntypedInt:
			return kind{w: 64, signed: true}
		case types.Uint8:
			return kind{w: 8}
		case types.Uint16:
			return kind{w: 16}
		case types.Uint32:
			return kind{w: 32}
		case types.Uint, types.Uint64, types.Uintptr:
			return kind{w: 64}
		case types.Float32:
			return kind{w: 32, float: true}
		case types.Float64, types.UntypedFloat:
			return kind{w: 64, float: true}
		case types.String, types.UntypedString:
			return kind{str: true}
		case types.Complex128, types.Complex64, types.UntypedComplex:
			return kind{cplx: true, other: true}
		}
	}
	return kind{other: true}
}

type move struct{ dst, src Opd }

type edge struct {
	pc    int32
	block int32
	moves []move
}

type CIns struct {
	op    cop
	tok   token.Token
	dst   Opd
	a, b  Opd
	c     Opd
	args  []Opd
	k, k2 kind
	i     int
	flag  bool
	t     types.Type
	t2    types.Type
	rt    *RType
	fn    *ssa.Function
	x     any
	e     [2]edge
	merge *mergeInfo
	pos   token.Pos
	bi    string // builtin name
}

type CFunc struct {
	fn      *ssa.Function
	code    []CIns
	blockPC []int32
	nregs   int
	consts  []Value
	recover int32 // pc of recover block or -1
	name    string
	repo    bool // belongs to the repository under test
}

type mergeInfo struct {
	join int32 // block index of the join
	ok   bool
}

type Program struct {
	prog      *ssa.Program
	models    map[string]*ssa.Function
	targets   sync.Map
	rtErr     *RType
	resetOnce sync.Once
	resetList []*ssa.Global
	cache     sync.Map // *ssa.Function -> *CFunc
	mu        sync.Mutex
	globals   map[*ssa.Global]int
	gl        []*ssa.Global
	used      sync.Map // names of executed functions -> *CFunc
}

func (p *Program) globalIndex(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i, ok := p.globals[g]; ok {
		return i
	}
	i := len(p.gl)
	p.globals[g] = i
	p.gl = append(p.gl, g)
	return i
}

func (p *Program) globalAt(i int) *ssa.Global {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.gl[i]
}

func (p *Program) compiled(fn *ssa.Function) *CFunc {
	if c, ok := p.cache.Load(fn); ok {
		return c.(*CFunc)
	}
	c := p.compile(fn)
	a, _ := p.cache.LoadOrStore(fn, c)
	return a.(*CFunc)
}

func constValue(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		if _, ok := t.(*types.TypeParam); ok {
			panic("const of type parameter")
		}
		return zero(t)
	}
	k := kindOf(t)
	switch {
	case k.boolk:
		if constant.BoolVal(c.Value) {
			return Value{N: 1}
		}
		return Value{}
	case k.str:
		if c.Value.Kind() == constant.Int {
			i, _ := constant.Int64Val(c.Value)
			return concStr(string(rune(i)))
		}
		return concStr(constant.StringVal(c.Value))
	case k.float:
		f, _ := constant.Float64Val(c.Value)
		if k.w == 32 {
			return Value{N: uint64(math.Float32bits(float32(f)))}
		}
		return Value{N: math.Float64bits(f)}
	case k.w > 0:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Value{N: uint64(i) & mask(k.w)}
		}
		u, _ := constant.Uint64Val(v)
		return Value{N: u & mask(k.w)}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return Value{}
	}
	return Value{} // complex and the like: unsupported if used
}

func (p *Program) compile(fn *ssa.Function) *CFunc {
	cf := &CFunc{fn: fn, recover: -1, name: fn.String(), repo: isRepo(fnPkg(fn))}
	regs := map[ssa.Value]Opd{}
	nreg := Opd(0)
	newReg := func(v ssa.Value) Opd {
		r := nreg
		regs[v] = r
		nreg++
		return r
	}
	for _, pv := range fn.Params {
		newReg(pv)
	}
	for _, fv := range fn.FreeVars {
		newReg(fv)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				newReg(v)
			}
		}
	}
	constIdx := map[ssa.Value]Opd{}
	opd := func(v ssa.Value) Opd {
		if r, ok := regs[v]; ok {
			return r
		}
		if o, ok := constIdx[v]; ok {
			return o
		}
		var val Value
		switch x := v.(type) {
		case *ssa.Const:
			val = constValue(x)
		case *ssa.Global:
			o := Opd(-(gbase + p.globalIndex(x)) - 1)
			constIdx[v] = o
			return o
		case *ssa.Function:
			val = Value{R: &FuncV{fn: x, name: x.String()}}
		case *ssa.Builtin:
			val = Value{R: &FuncV{name: "builtin " + x.Name()}}
		default:
			panic(fmt.Sprintf("operand %T", v))
		}
		cf.consts = append(cf.consts, val)
		o := Opd(-len(cf.consts))
		constIdx[v] = o
		return o
	}
	cf.blockPC = make([]int32, len(fn.Blocks))
	mkEdge := func(from, to *ssa.BasicBlock) edge {
		e := edge{block: int32(to.Index)}
		pi := -1
		for i, pr := range to.Preds {
			if pr == from {
				pi = i
			}
		}
		// a block can be a predecessor twice (both arms of an If); phis agree then only if the
		// edge is the right one, which ssa keeps distinct by order; handle below.
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			e.moves = append(e.moves, move{regs[ph], opd(ph.Edges[pi])})
		}
		return e
	}
	for _, b := range fn.Blocks {
		cf.blockPC[b.Index] = int32(len(cf.code))
		for _, in := range b.Instrs {
			ci := CIns{dst: -1, pos: in.Pos()}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.Alloc:
				ci.op = cAlloc
				ci.t = x.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.BinOp:
				ci.op, ci.tok = cBin, x.Op
				ci.a, ci.b = opd(x.X), opd(x.Y)
				ci.k = kindOf(x.X.Type())
				ci.k2 = kindOf(x.Y.Type())
				ci.t, ci.t2 = x.X.Type(), x.Y.Type()
			case *ssa.UnOp:
				ci.op, ci.tok = cUn, x.Op
				ci.a = opd(x.X)
				ci.k = kindOf(x.X.Type())
				ci.t = x.Type()
				if x.Op == token.ARROW {
					ci.op, ci.x = cUnsupported, "channel receive"
				}
			case *ssa.Call:
				p.compileCall(&ci, &x.Call, opd)
				ci.op = cCall
			case *ssa.Defer:
				p.compileCall(&ci, &x.Call, opd)
				ci.op = cDefer
				if x.DeferStack != nil {
					ci.op, ci.x = cUnsupported, "defer with explicit stack"
				}
			case *ssa.Go:
				ci.op, ci.x = cUnsupported, "go statement"
			case *ssa.ChangeInterface:
				ci.op, ci.a = cChangeIface, opd(x.X)
			case *ssa.ChangeType:
				ci.op, ci.a = cChangeType, opd(x.X)
			case *ssa.Convert:
				ci.op, ci.a = cConvert, opd(x.X)
				ci.t, ci.t2 = x.X.Type(), x.Type()
				ci.k, ci.k2 = kindOf(x.X.Type()), kindOf(x.Type())
			case *ssa.MultiConvert:
				ci.op, ci.x = cUnsupported, "multiconvert"
			case *ssa.SliceToArrayPointer:
				ci.op, ci.a, ci.t = cSliceToArr, opd(x.X), x.Type()
			case *ssa.Extract:
				ci.op, ci.a, ci.i = cExtract, opd(x.Tuple), x.Index
			case *ssa.Field:
				ci.op, ci.a, ci.i = cField, opd(x.X), x.Field
			case *ssa.FieldAddr:
				ci.op, ci.a, ci.i = cFieldAddr, opd(x.X), x.Field
			case *ssa.Index:
				ci.op, ci.a, ci.b = cIndex, opd(x.X), opd(x.Index)
				ci.t = x.X.Type()
				ci.k2 = kindOf(x.Index.Type())
				ci.k = kindOf(x.Type())
			case *ssa.IndexAddr:
				ci.op, ci.a, ci.b = cIndexAddr, opd(x.X), opd(x.Index)
				ci.t = x.X.Type()
				ci.k2 = kindOf(x.Index.Type())
				if pt, ok := x.Type().Underlying().(*types.Pointer); ok {
					ci.k = kindOf(pt.Elem())
				}
				// only used for loads?
				ci.flag = true
				for _, r := range *x.Referrers() {
					if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
						if _, ok := r.(*ssa.DebugRef); !ok {
							ci.flag = false
						}
					}
				}
			case *ssa.If:
				ci.op, ci.a = cIf, opd(x.Cond)
				ci.e[0] = mkEdge(b, b.Succs[0])
				ci.e[1] = mkEdge(b, b.Succs[1])
				if b.Succs[0] == b.Succs[1] {
					fixDup(&ci, b, regs, opd)
				}
			case *ssa.Jump:
				ci.op = cJump
				ci.e[0] = mkEdge(b, b.Succs[0])
			case *ssa.Lookup:
				ci.op, ci.a, ci.b, ci.flag = cLookup, opd(x.X), opd(x.Index), x.CommaOk
				ci.t, ci.t2 = x.X.Type(), x.Type()
			case *ssa.MakeChan:
				ci.op = cMakeChan
			case *ssa.MakeClosure:
				ci.op, ci.fn = cMakeClosure, x.Fn.(*ssa.Function)
				for _, bb := range x.Bindings {
					ci.args = append(ci.args, opd(bb))
				}
			case *ssa.MakeInterface:
				ci.op, ci.a, ci.rt = cMakeIface, opd(x.X), rtypeOf(x.X.Type())
			case *ssa.MakeMap:
				ci.op = cMakeMap
				ci.t = x.Type().Underlying().(*types.Map).Key()
			case *ssa.MakeSlice:
				ci.op, ci.a, ci.b = cMakeSlice, opd(x.Len), opd(x.Cap)
				ci.t = x.Type().Underlying().(*types.Slice).Elem()
			case *ssa.MapUpdate:
				ci.op, ci.a, ci.b, ci.c = cMapUpdate, opd(x.Map), opd(x.Key), opd(x.Value)
			case *ssa.Next:
				ci.op, ci.a, ci.flag = cNext, opd(x.Iter), x.IsString
				ci.t = x.Type()
			case *ssa.Panic:
				ci.op, ci.a = cPanic, opd(x.X)
			case *ssa.Range:
				ci.op, ci.a, ci.t = cRange, opd(x.X), x.X.Type()
			case *ssa.Return:
				ci.op = cReturn
				for _, r := range x.Results {
					ci.args = append(ci.args, opd(r))
				}
			case *ssa.RunDefers:
				ci.op = cRunDefers
			case *ssa.Select:
				ci.op, ci.x = cUnsupported, "select"
			case *ssa.Send:
				ci.op, ci.x = cUnsupported, "channel send"
			case *ssa.Slice:
				ci.op, ci.a = cSlice, opd(x.X)
				ci.args = []Opd{-1 << 30, -1 << 30, -1 << 30}
				if x.Low != nil {
					ci.args[0] = opd(x.Low)
				}
				if x.High != nil {
					ci.args[1] = opd(x.High)
				}
				if x.Max != nil {
					ci.args[2] = opd(x.Max)
				}
				ci.t = x.X.Type()
			case *ssa.Store:
				ci.op, ci.a, ci.b = cStore, opd(x.Addr), opd(x.Val)
			case *ssa.TypeAssert:
				ci.op, ci.a, ci.flag = cTypeAssert, opd(x.X), x.CommaOk
				ci.t = x.AssertedType
				if !types.IsInterface(x.AssertedType) {
					ci.rt = rtypeOf(x.AssertedType)
				}
			default:
				ci.op, ci.x = cUnsupported, fmt.Sprintf("%T", in)
			}
			cf.code = append(cf.code, ci)
		}
	}
	for i := range cf.code {
		ci := &cf.code[i]
		if ci.op == cIf || ci.op == cJump {
			for j := range ci.e {
				ci.e[j].pc = cf.blockPC[ci.e[j].block]
			}
		}
	}
	if fn.Recover != nil {
		cf.recover = cf.blockPC[fn.Recover.Index]
	}
	cf.nregs = int(nreg)
	p.findMerges(cf)
	return cf
}

// fixDup handles an If whose two successors are the same block: the block appears twice among
// its predecessors and phi edges follow that order.
func fixDup(ci *CIns, b *ssa.BasicBlock, regs map[ssa.Value]Opd, opd func(ssa.Value) Opd) {
	to := b.Succs[0]
	k := 0
	for pi, pr := range to.Preds {
		if pr != b || k > 1 {
			continue
		}
		ci.e[k].moves = nil
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			ci.e[k].moves = append(ci.e[k].moves, move{regs[ph], opd(ph.Edges[pi])})
		}
		k++
	}
}

func (p *Program) compileCall(ci *CIns, c *ssa.CallCommon, opd func(ssa.Value) Opd) {
	if c.IsInvoke() {
		ci.a = opd(c.Value)
		ci.x = c.Method
		ci.i = 1 // invoke
	} else {
		switch f := c.Value.(type) {
		case *ssa.Builtin:
			ci.bi = f.Name()
			ci.i = 2
			for _, a := range c.Args {
				ci.t = a.Type()
				break
			}
			if len(c.Args) > 0 {
				ci.k = kindOf(c.Args[0].Type())
				ci.t = c.Args[0].Type()
			}
			if len(c.Args) > 1 {
				ci.t2 = c.Args[1].Type()
				ci.k2 = kindOf(c.Args[1].Type())
			}
		case *ssa.Function:
			ci.fn = f
			ci.i = 0
		default:
			ci.a = opd(c.Value)
			ci.i = 3
		}
	}
	for _, a := range c.Args {
		ci.args = append(ci.args, opd(a))
	}
}

// findMerges marks Ifs whose two arms are side-effect free and meet again nearby.
func (p *Program) findMerges(cf *CFunc) {
	pure := make([]bool, len(cf.blockPC))
	for bi := range cf.blockPC {
		pure[bi] = true
		for pc := int(cf.blockPC[bi]); pc < len(cf.code); pc++ {
			ci := &cf.code[pc]
			ok := false
			switch ci.op {
			case cBin:
				ok = true
				if ci.tok == token.QUO || ci.tok == token.REM {
					ok = false
				}
				if (ci.tok == token.SHL || ci.tok == token.SHR) && ci.k2.signed && ci.b >= 0 {
					ok = false
				}
				if ci.k.float || ci.k.cplx || ci.k.other {
					ok = ci.tok == token.EQL || ci.tok == token.NEQ
					if ci.k.float || ci.k.cplx {
						ok = false
					}
					if ci.k.other && !isPtrLike(ci.t) {
						ok = false
					}
				}
				if ci.k.str && ci.tok != token.EQL && ci.tok != token.NEQ {
					ok = false
				}
			case cUn:
				ok = ci.tok != token.MUL && !ci.k.float && !ci.k.cplx
			case cConvert:
				ok = ci.k.w > 0 && ci.k2.w > 0 && !ci.k.float && !ci.k2.float
			case cChangeType, cExtract, cField:
				ok = true
			case cCall:
				ok = ci.i == 2 && ci.bi == "len" && !isMapOrChan(ci.t)
			case cIf, cJump:
				ok = true
			}
			if !ok {
				pure[bi] = false
				break
			}
			if ci.op == cIf || ci.op == cJump {
				break
			}
		}
	}
	// for each If: find a join block J such that all paths from both successors through pure
	// blocks reach J, acyclic, at most 16 blocks
	for pc := range cf.code {
		ci := &cf.code[pc]
		if ci.op != cIf {
			continue
		}
		if j, ok := p.joinOf(cf, ci, pure); ok {
			ci.merge = &mergeInfo{join: j, ok: true}
		}
	}
}

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Signature, *types.Slice:
		return true
	}
	return false
}

func isMapOrChan(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Map, *types.Chan:
		return true
	}
	return false
}

func (p *Program) joinOf(cf *CFunc, ci *CIns, pure []bool) (int32, bool) {
	// candidate joins: blocks reachable from both arms; try the nearest in BFS order
	succ := func(b int32) []int32 {
		bb := cf.fn.Blocks[b]
		var r []int32
		for _, s := range bb.Succs {
			r = append(r, int32(s.Index))
		}
		return r
	}
	reach := func(start int32) []int32 {
		seen := map[int32]bool{start: true}
		order := []int32{start}
		for i := 0; i < len(order) && len(order) < 24; i++ {
			if !pure[order[i]] {
				continue
			}
			for _, s := range succ(order[i]) {
				if !seen[s] {
					seen[s] = true
					order = append(order, s)
				}
			}
		}
		return order
	}
	a := reach(ci.e[0].block)
	inB := map[int32]bool{}
	for _, b := range reach(ci.e[1].block) {
		inB[b] = true
	}
	for _, j := range a {
		if !inB[j] {
			continue
		}
		// verify: every path from both arms hits j within pure acyclic region
		state := map[int32]int{}
		count := 0
		var ok func(b int32) bool
		ok = func(b int32) bool {
			if b == j {
				return true
			}
			switch state[b] {
			case 1:
				return false
			case 2:
				return true
			}
			if !pure[b] {
				return false
			}
			count++
			if count > 16 {
				return false
			}
			state[b] = 1
			for _, s := range succ(b) {
				if !ok(s) {
					return false
				}
			}
			if len(succ(b)) == 0 {
				return false
			}
			state[b] = 2
			return true
		}
		if ok(ci.e[0].block) && ok(ci.e[1].block) {
			return j, true
		}
	}
	return 0, false
}
