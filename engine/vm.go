package main

// The symbolic machine: executes register code with symbolic scalars, explores both sides of
// every undecided branch depth first (snapshots of frames, trail for the heap), and hands work
// to other workers as decision prefixes.

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type deferRec struct {
	fv   *FuncV
	args []Value
	bi   string // builtin
	ci   *CIns
}

type GoPanic struct{ v Value }

type Frame struct {
	cf        *CFunc
	regs      []Value
	pc        int32
	ret       Opd
	epoch     uint32
	inDefer   bool // started as a deferred call of the frame below
	boundary  bool // result of sym call
	recovered bool
	goexit    bool
	defers    []deferRec
	pan       *GoPanic
}

type dkind uint8

const (
	dBranch dkind = iota
	dPick
	dChoice
	dAssume
	dAssert
)

type Decision struct {
	kind    dkind
	val     uint64
	implied bool
}

type alt struct {
	d     Decision
	model []uint64
}

type snapshot struct {
	frames   []*Frame
	trailLen int
	pathLen  int
	decLen   int
	inInstr  []Decision
	alts     []alt
	st       vmState
}

// vmState is copied with every snapshot.
type vmState struct {
	steps    uint64
	runLimit uint64 // step at which the current boundary gives up (0: none)
	nconc    int
	mapOrder int
	permLeft int
	permSkip int
	covers   []string
	observes []obsRec
	reduced  []string
}

type obsRec struct {
	name string
	v    Value
}

type tkind uint8

const (
	tObj tkind = iota
	tSlot
	tMapIns
	tMapUpd
	tMapDel
	tDom
	tKnown
)

type trailEnt struct {
	kind  tkind
	o     *Obj
	m     *MapObj
	i     int
	old   Value
	elems []Value
	key   any
	epoch uint32
	dom   domEnt
}

type domEnt struct {
	set, multi bool
	bits       [4]uint64
}

type abortKind int

const (
	abDone abortKind = iota
	abInfeasible
	abInconclusive
)

type pathAbort struct {
	kind   abortKind
	reason string
}

type exitSignal struct{ code int }

type Violation struct {
	Label  string
	Values map[string]uint64
	Query  bool // found by a solver query (as opposed to a concrete false on a path)
}

type VM struct {
	p       *Program
	ctx     *Ctx
	sol     *Solver
	frames  []*Frame
	globals []*Obj
	epoch   uint32
	epochC  uint32
	trail   []trailEnt
	snaps   []*snapshot
	path    []*Term
	model   []uint64
	dom     []domEnt
	known   []int8 // by term id: what is certain on this path
	dec     []Decision
	queue   []Decision
	qi      int
	iDec    int
	iPath   int
	iTrail  int
	st      vmState
	job     *Job
	root    *Job
	ctxJob  *Job
	ex      *Explorer
	base    bool // running inits: no symbolic state
	regPool [][]Value
	params  map[string]int64
	stop    func() bool
	blocks  map[*CFunc][]bool
	lastFn  string
	resetPk map[string]bool
	asserts int
}

func newVM(p *Program, argv []string, timeout time.Duration) *VM {
	vm := &VM{p: p, ctx: newCtx()}
	vm.sol = newSolver(vm.ctx, argv, timeout)
	vm.epoch, vm.epochC = 1, 1
	vm.blocks = map[*CFunc][]bool{}
	return vm
}

func abort(k abortKind, f string, a ...any) { panic(pathAbort{k, fmt.Sprintf(f, a...)}) }

func unsupported(f string, a ...any) {
	panic(pathAbort{abInconclusive, "unsupported: " + fmt.Sprintf(f, a...)})
}

// ---- heap writes ----

func (vm *VM) logObj(o *Obj, i int) {
	if o.epoch == vm.epoch {
		return
	}
	if len(o.elems) <= 48 {
		vm.trail = append(vm.trail, trailEnt{kind: tObj, o: o, elems: o.elems, epoch: o.epoch})
		ne := make([]Value, len(o.elems))
		copy(ne, o.elems)
		o.elems = ne
		o.epoch = vm.epoch
		return
	}
	vm.trail = append(vm.trail, trailEnt{kind: tSlot, o: o, i: i, old: o.elems[i]})
}

func (vm *VM) setSlot(o *Obj, i int, v Value) {
	if i >= len(o.elems) {
		if i >= o.n {
			panic(fmt.Sprintf("slot %d of %d", i, o.n))
		}
		o.grow(i + 1)
	}
	if o.epoch != vm.epoch {
		vm.logObj(o, i)
	}
	o.elems[i] = v
}

// store writes v through pointer p (aggregates are copied in place: other pointers into the
// aggregate's own slots must keep seeing it).
func (vm *VM) store(o *Obj, i int, v Value) {
	if v.N == AGG {
		if src, ok := v.R.(*Obj); ok {
			cur := o.get(i)
			dst, ok := cur.R.(*Obj)
			if ok && cur.N == AGG {
				vm.assignAgg(dst, src)
				return
			}
			vm.setSlot(o, i, vm.copyVal(v))
			return
		}
	}
	vm.setSlot(o, i, v)
}

func (vm *VM) assignAgg(dst, src *Obj) {
	if dst == src {
		return
	}
	n := len(src.elems)
	if len(dst.elems) > n {
		n = len(dst.elems)
	}
	// read everything first: src may contain dst
	for i := 0; i < n; i++ {
		vm.store(dst, i, src.get(i))
	}
}

func (vm *VM) undo(to int) {
	for len(vm.trail) > to {
		e := &vm.trail[len(vm.trail)-1]
		switch e.kind {
		case tObj:
			e.o.elems = e.elems
			e.o.epoch = e.epoch
		case tSlot:
			e.o.elems[e.i] = e.old
		case tMapIns:
			m := e.m
			if e.key != nil {
				delete(m.idx, e.key)
			} else {
				m.nsym--
			}
			m.live--
			m.entries = m.entries[:len(m.entries)-1]
		case tMapUpd:
			e.m.entries[e.i].val = e.old
		case tMapDel:
			e.m.entries[e.i].live = true
			e.m.live++
			if e.key != nil {
				e.m.idx[e.key] = e.i
			} else {
				e.m.nsym++
			}
		case tDom:
			vm.dom[e.i] = e.dom
		case tKnown:
			vm.known[e.i] = int8(e.epoch)
		}
		*e = trailEnt{}
		vm.trail = vm.trail[:len(vm.trail)-1]
	}
}

// ---- frames ----

func (vm *VM) top() *Frame {
	n := len(vm.frames) - 1
	return vm.mutFrame(n)
}

func (vm *VM) mutFrame(n int) *Frame {
	f := vm.frames[n]
	if f.epoch != vm.epoch {
		nf := *f
		nf.regs = vm.newRegs(len(f.regs))
		copy(nf.regs, f.regs)
		nf.defers = append([]deferRec(nil), f.defers...)
		nf.epoch = vm.epoch
		vm.frames[n] = &nf
		f = &nf
	}
	return f
}

func (vm *VM) newRegs(n int) []Value {
	if k := len(vm.regPool); k > 0 && n <= 64 {
		r := vm.regPool[k-1]
		vm.regPool = vm.regPool[:k-1]
		return r[:n]
	}
	if n <= 64 {
		return make([]Value, n, 64)
	}
	return make([]Value, n)
}

func (vm *VM) freeFrame(f *Frame) {
	if f.epoch == vm.epoch && cap(f.regs) == 64 && len(vm.regPool) < 256 {
		clear(f.regs)
		vm.regPool = append(vm.regPool, f.regs)
		f.regs = nil
	}
}

func (vm *VM) pushFunc(cf *CFunc, args []Value, bind []Value, ret Opd) *Frame {
	if len(vm.frames) > 6000 {
		panic(hangSignal{"call stack deeper than 6000"})
	}
	f := &Frame{cf: cf, regs: vm.newRegs(cf.nregs), ret: ret, epoch: vm.epoch}
	n := copy(f.regs, args)
	copy(f.regs[n:], bind)
	vm.frames = append(vm.frames, f)
	if cf.repo || vm.ex != nil && vm.ex.coverAll {
		if vm.blocks[cf] == nil {
			vm.blocks[cf] = make([]bool, len(cf.blockPC))
		}
		vm.blocks[cf][0] = true
	}
	return f
}

type hangSignal struct{ why string }

// ---- decisions ----

func (vm *VM) record(d Decision) { vm.dec = append(vm.dec, d) }

func (vm *VM) replaying() bool { return vm.qi < len(vm.queue) }

func (vm *VM) nextQueued(k dkind) Decision {
	d := vm.queue[vm.qi]
	if d.kind != k {
		panic(fmt.Sprintf("replay mismatch: have %d want %d at %d in %s", d.kind, k, vm.qi, vm.lastFn))
	}
	vm.qi++
	vm.record(d)
	return d
}

func (vm *VM) domOf(v *Term) *domEnt {
	i := int(v.val)
	for len(vm.dom) <= i {
		vm.dom = append(vm.dom, domEnt{})
	}
	e := &vm.dom[i]
	if !e.set {
		e.set = true
		e.bits = [4]uint64{}
		if v.w == 0 {
			e.bits[0] = 3
		} else {
			for x := v.umin; x <= v.umax; x++ {
				e.bits[x>>6] |= 1 << (x & 63)
			}
		}
	}
	return e
}

// constrain adds a condition to the path.
func (vm *VM) constrain(c *Term) {
	if c.op == OConst {
		return
	}
	if c.op == OBAnd {
		vm.constrain(c.args[0])
		vm.constrain(c.args[1])
		return
	}
	vm.path = append(vm.path, c)
	vm.learn(c, true)
	if c.uv != nil {
		tt := vm.ctx.truth(c)
		e := vm.domOf(c.uv)
		i := int(c.uv.val)
		vm.trail = append(vm.trail, trailEnt{kind: tDom, i: i, dom: *e})
		for k := range e.bits {
			e.bits[k] &= tt[k]
		}
		return
	}
	for _, vi := range c.vars {
		v := vm.ctx.vars[vi]
		if v.w > 8 {
			continue
		}
		e := vm.domOf(v)
		if !e.multi {
			vm.trail = append(vm.trail, trailEnt{kind: tDom, i: int(vi), dom: *e})
			e.multi = true
		}
	}
}

func (vm *VM) ensureModel() {
	if vm.model != nil {
		return
	}
	r, m := vm.sol.Check(vm.path, nil, true)
	switch r {
	case Sat:
		vm.model = m
	case Unsat:
		abort(abInfeasible, "path condition unsatisfiable")
	default:
		abort(abInconclusive, "solver unknown on path condition")
	}
}

// learn notes that c has the value v on this path: it is part of the path condition or the
// solver has shown that it follows from it.
func (vm *VM) learn(c *Term, v bool) {
	switch c.op {
	case OConst:
		return
	case OBNot:
		vm.learn(c.args[0], !v)
		return
	case OBAnd:
		if v {
			vm.learn(c.args[0], true)
			vm.learn(c.args[1], true)
		}
	case OBOr:
		if !v {
			vm.learn(c.args[0], false)
			vm.learn(c.args[1], false)
		}
	}
	i := int(c.id)
	for len(vm.known) <= i {
		vm.known = append(vm.known, make([]int8, i+1024-len(vm.known))...)
	}
	x := int8(-1)
	if v {
		x = 1
	}
	if vm.known[i] != x {
		vm.trail = append(vm.trail, trailEnt{kind: tKnown, i: i, epoch: uint32(uint8(vm.known[i]))})
		vm.known[i] = x
	}
}

// strip leaves out the parts of a conjunction that are certain on this path.
func (vm *VM) strip(c *Term) *Term {
	if c.op == OBAnd {
		return vm.ctx.BAnd(vm.strip(c.args[0]), vm.strip(c.args[1]))
	}
	if vm.recall(c) > 0 {
		return vm.ctx.tru
	}
	if r, _, _, _ := vm.domDecide(c); r == 1 {
		return vm.ctx.tru
	}
	return c
}

// recall gives the value of c if it follows from what is noted: 1, -1, or 0.
func (vm *VM) recall(c *Term) int8 {
	if c.op == OConst {
		return int8(2*c.val) - 1
	}
	if c.op == OBNot {
		return -vm.recall(c.args[0])
	}
	if i := int(c.id); i < len(vm.known) && vm.known[i] != 0 {
		return vm.known[i]
	}
	switch c.op {
	case OBAnd:
		x := vm.recall(c.args[0])
		if x < 0 {
			return -1
		}
		y := vm.recall(c.args[1])
		if y < 0 {
			return -1
		}
		if x > 0 && y > 0 {
			return 1
		}
	case OBOr:
		x := vm.recall(c.args[0])
		if x > 0 {
			return 1
		}
		y := vm.recall(c.args[1])
		if y > 0 {
			return 1
		}
		if x < 0 && y < 0 {
			return -1
		}
	case OIte:
		if x := vm.recall(c.args[0]); x > 0 {
			return vm.recall(c.args[1])
		} else if x < 0 {
			return vm.recall(c.args[2])
		}
	case OUlt:
		a, b := c.args[0], c.args[1]
		if a.op == OVar && b.op == OVar {
			e := vm.recall(vm.ctx.Eq(a, b))
			if e > 0 {
				return -1
			}
			r := vm.ctx.Ult(b, a)
			if i := int(r.id); i < len(vm.known) {
				if vm.known[i] > 0 {
					return -1
				}
				if vm.known[i] < 0 && e < 0 {
					return 1
				}
			}
		}
	case OEq:
		a, b := c.args[0], c.args[1]
		if a.op == OVar && b.op == OVar {
			for k := 0; k < 2; k++ {
				r := vm.ctx.Ult(a, b)
				if i := int(r.id); i < len(vm.known) && vm.known[i] > 0 {
					return -1
				}
				a, b = b, a
			}
		}
	}
	return 0
}

// repair looks for a model of the path and c next to the current model: one variable of c
// changed. Only evaluation decides; nil means that nothing was found.
func (vm *VM) repair(c *Term) []uint64 {
	if len(c.vars) > 4 {
		return nil
	}
	for _, vi := range c.vars {
		v := vm.ctx.vars[vi]
		if v.w == 0 {
			continue
		}
		old := v.umin
		if int(vi) < len(vm.model) {
			old = vm.model[vi]
		}
		var cand []uint64
		add := func(x uint64) {
			if x >= v.umin && x <= v.umax && x != old {
				for _, y := range cand {
					if y == x {
						return
					}
				}
				cand = append(cand, x)
			}
		}
		for _, wi := range c.vars {
			if wi == vi {
				continue
			}
			w := vm.ctx.vars[wi]
			x := w.umin
			if int(wi) < len(vm.model) {
				x = vm.model[wi]
			}
			add(x)
			add(x + 1)
			add(x - 1)
		}
		add(old + 1)
		add(old - 1)
		add(v.umin)
		add(v.umax)
		if v.w <= 8 {
			e := vm.domOf(v)
			k := cand[:0]
			for _, x := range cand {
				if e.bits[x>>6]>>(x&63)&1 == 1 {
					k = append(k, x)
				}
			}
			cand = k
		}
	next:
		for _, x := range cand {
			m := vm.withVar(v, x)
			if vm.ctx.Eval(c, m) != 1 {
				continue
			}
			for i := len(vm.path) - 1; i >= 0; i-- {
				p := vm.path[i]
				if hasVar(p, vi) && vm.ctx.Eval(p, m) != 1 {
					continue next
				}
			}
			vm.job.repaired++
			return m
		}
	}
	return nil
}

func hasVar(t *Term, v int32) bool {
	for _, x := range t.vars {
		if x == v {
			return true
		}
	}
	return false
}

func (vm *VM) withVar(v *Term, x uint64) []uint64 {
	n := make([]uint64, len(vm.ctx.vars))
	for i := range n {
		if i < len(vm.model) {
			n[i] = vm.model[i]
		} else {
			n[i] = vm.ctx.vars[i].umin
			if vm.ctx.vars[i].w == 0 {
				n[i] = 0
			}
		}
	}
	n[v.val] = x
	return n
}

// domDecide tries to decide a unary condition from the value set of its variable.
// res: 1 must be true, 0 must be false, 2 both possible (tv, fv example values), -1 unknown.
func (vm *VM) domDecide(c *Term) (res int, tv, fv uint64, exact bool) {
	if c.uv == nil {
		return -1, 0, 0, false
	}
	tt := vm.ctx.truth(c)
	e := vm.domOf(c.uv)
	var t, f [4]uint64
	for k := range e.bits {
		t[k] = e.bits[k] & tt[k]
		f[k] = e.bits[k] &^ tt[k]
	}
	ft, hasT := firstBit(t)
	ff, hasF := firstBit(f)
	switch {
	case !hasF:
		return 1, 0, 0, true
	case !hasT:
		return 0, 0, 0, true
	}
	if e.multi {
		return -1, 0, 0, false
	}
	return 2, ft, ff, true
}

func firstBit(b [4]uint64) (uint64, bool) {
	for k, x := range b {
		if x != 0 {
			n := 0
			for x&1 == 0 {
				x >>= 1
				n++
			}
			return uint64(k*64 + n), true
		}
	}
	return 0, false
}

func (vm *VM) snap(alts []alt) {
	s := &snapshot{
		frames:   append([]*Frame(nil), vm.frames...),
		trailLen: vm.iTrail, pathLen: vm.iPath, decLen: vm.iDec,
		inInstr: append([]Decision(nil), vm.dec[vm.iDec:]...),
		alts:    alts,
		st:      vm.st,
	}
	vm.snaps = append(vm.snaps, s)
	vm.epochC++
	vm.epoch = vm.epochC
	vm.job.forks++
}

// branch decides a symbolic condition, forking when both outcomes are possible.
func (vm *VM) branch(c *Term) bool {
	if c.op == OConst {
		return c.val == 1
	}
	if vm.replaying() {
		d := vm.nextQueued(dBranch)
		if !d.implied {
			if d.val == 1 {
				vm.constrain(c)
			} else {
				vm.constrain(vm.ctx.Not(c))
			}
		}
		return d.val == 1
	}
	vm.job.decisions++
	res, tv, fv, _ := vm.domDecide(c)
	switch res {
	case 1:
		vm.record(Decision{dBranch, 1, true})
		return true
	case 0:
		vm.record(Decision{dBranch, 0, true})
		return false
	}
	if r := vm.recall(c); r != 0 {
		vm.job.recalled++
		vm.record(Decision{dBranch, b2u(r > 0), true})
		return r > 0
	}
	vm.ensureModel()
	cur := vm.ctx.Eval(c, vm.model) == 1
	var other []uint64
	if res == 2 {
		x := fv
		if !cur {
			x = tv
		}
		other = vm.withVar(c.uv, x)
	} else {
		neg := c
		if cur {
			neg = vm.ctx.Not(c)
		}
		r, m := Sat, vm.repair(neg)
		if m == nil {
			r, m = vm.sol.Check(vm.path, neg, true)
		}
		switch r {
		case Unsat:
			vm.learn(c, cur)
			vm.record(Decision{dBranch, b2u(cur), true})
			return cur
		case Unknown:
			vm.reduce("solver unknown at a branch: only one side explored")
			vm.record(Decision{dBranch, b2u(cur), false})
			if cur {
				vm.constrain(c)
			} else {
				vm.constrain(vm.ctx.Not(c))
			}
			return cur
		}
		other = m
	}
	vm.snap([]alt{{Decision{dBranch, b2u(!cur), false}, other}})
	vm.record(Decision{dBranch, b2u(cur), false})
	if cur {
		vm.constrain(c)
	} else {
		vm.constrain(vm.ctx.Not(c))
	}
	return cur
}

// feasible reports whether c can be decided without forking: 1, 0 or 2 (both), -1 unknown.
func (vm *VM) quick(c *Term) int {
	if c.op == OConst {
		return int(c.val)
	}
	r, _, _, _ := vm.domDecide(c)
	return r
}

func (vm *VM) reduce(why string) {
	for _, r := range vm.st.reduced {
		if r == why {
			return
		}
	}
	vm.st.reduced = append(vm.st.reduced[:len(vm.st.reduced):len(vm.st.reduced)], why)
	vm.job.note(why)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// choice forks into n alternatives without constraints.
func (vm *VM) choice(n int) int {
	if n <= 1 {
		return 0
	}
	if vm.replaying() {
		return int(vm.nextQueued(dChoice).val)
	}
	var alts []alt
	for i := 1; i < n; i++ {
		alts = append(alts, alt{Decision{dChoice, uint64(i), false}, vm.model})
	}
	vm.snap(alts)
	vm.record(Decision{dChoice, 0, false})
	return 0
}

// conc concretises a term by enumeration of its feasible values.
func (vm *VM) conc(t *Term) uint64 {
	for {
		if t.op == OConst {
			return t.val
		}
		vm.st.nconc++
		if vm.st.nconc > 5000 {
			abort(abInconclusive, "too many concretisations on one path")
		}
		var v uint64
		if vm.replaying() {
			v = vm.nextQueued(dPick).val
		} else {
			vm.ensureModel()
			v = vm.ctx.Eval(t, vm.model)
			vm.record(Decision{dPick, v, false})
			vm.job.conc++
		}
		if vm.branch(vm.ctx.Eq(t, vm.ctx.Const(v, t.w))) {
			return v
		}
	}
}

func (vm *VM) concVal(v Value) Value {
	if v.T != nil {
		return Value{N: vm.conc(v.T)}
	}
	return v
}

func (vm *VM) intOf(v Value, k kind) int64 {
	v = vm.concVal(v)
	if k.signed {
		return sx(v.N, k.w)
	}
	return int64(v.N)
}

func (vm *VM) assume(c *Term) {
	if c.op == OConst {
		if c.val == 0 {
			abort(abInfeasible, "assumption")
		}
		return
	}
	if vm.replaying() {
		vm.nextQueued(dAssume)
		vm.constrain(c)
		if vm.model != nil && vm.ctx.Eval(c, vm.model) == 0 {
			vm.model = nil
		}
		return
	}
	res, tv, _, _ := vm.domDecide(c)
	if res == 0 {
		abort(abInfeasible, "assumption")
	}
	if res != 1 {
		vm.ensureModel()
		if vm.ctx.Eval(c, vm.model) == 0 {
			if res == 2 {
				vm.model = vm.withVar(c.uv, tv)
			} else {
				r, m := vm.sol.Check(vm.path, c, true)
				switch r {
				case Unsat:
					abort(abInfeasible, "assumption")
				case Unknown:
					abort(abInconclusive, "solver unknown on an assumption")
				}
				vm.model = m
			}
		}
	}
	vm.record(Decision{dAssume, 1, false})
	vm.constrain(c)
}

func (vm *VM) assert(c *Term, label string) {
	if vm.replaying() {
		if c.op == OConst {
			return
		}
		d := vm.nextQueued(dAssert)
		if !d.implied {
			vm.constrain(c)
		}
		return
	}
	vm.job.asserts++
	if c.op == OConst {
		if c.val == 1 {
			vm.job.trivial++
			return
		}
		// reached on this path: any model of the path condition is a counterexample
		r, m := vm.sol.Check(vm.path, nil, true)
		if r == Sat {
			vm.job.violation(vm, label, m)
		} else if r == Unknown {
			if vm.model != nil {
				vm.job.violation(vm, label, vm.model)
			} else {
				abort(abInconclusive, "solver unknown at a failed assertion")
			}
		} else {
			abort(abInconclusive, "path condition unsat at a failed assertion (engine inconsistency)")
		}
		abort(abDone, "violated")
	}
	full := c
	c = vm.strip(c)
	if vm.recall(c) > 0 { // part of the path condition, or shown to follow from it
		vm.job.discharged++
		vm.record(Decision{dAssert, 1, true})
		return
	}
	r, m := vm.sol.Check(vm.path, vm.ctx.Not(c), true)
	switch r {
	case Unsat:
		vm.learn(full, true)
		vm.job.discharged++
		vm.record(Decision{dAssert, 1, true})
		return
	case Unknown:
		vm.reduce("solver unknown on an assertion: " + label)
		vm.record(Decision{dAssert, 1, true})
		return
	}
	vm.job.violation(vm, label, m)
	// go on with the executions on which it holds
	r, m = vm.sol.Check(vm.path, c, true)
	if r != Sat {
		abort(abDone, "violated")
	}
	vm.model = m
	vm.record(Decision{dAssert, 1, false})
	vm.constrain(c)
}

// valueKey must agree with the native package sym.
func valueKey(name string, lo, hi uint64) string { return fmt.Sprintf("%s:%d-%d", name, lo, hi) }

func (vm *VM) values(m []uint64) map[string]uint64 {
	out := map[string]uint64{}
	for i, v := range vm.ctx.vars {
		x := v.umin
		if v.w == 0 {
			x = 0
		}
		if i < len(m) {
			x = m[i]
		}
		out[valueKey(v.name, v.umin, v.umax)] = x
	}
	return out
}

// backtrack restores the most recent snapshot with an alternative; false if none is left.
func (vm *VM) backtrack() bool {
	if len(vm.snaps) == 0 {
		return false
	}
	s := vm.snaps[len(vm.snaps)-1]
	a := s.alts[0]
	s.alts = s.alts[1:]
	vm.undo(s.trailLen)
	vm.frames = append(vm.frames[:0], s.frames...)
	vm.path = vm.path[:s.pathLen]
	vm.dec = vm.dec[:s.decLen]
	vm.queue = append(append([]Decision(nil), s.inInstr...), a.d)
	vm.qi = 0
	vm.model = a.model
	vm.st = s.st
	vm.epochC++
	vm.epoch = vm.epochC
	if len(s.alts) == 0 {
		vm.snaps = vm.snaps[:len(vm.snaps)-1]
	}
	return true
}

// donate removes the oldest alternative and returns the decision prefix leading to it.
func (vm *VM) donate() []Decision {
	if len(vm.snaps) == 0 {
		return nil
	}
	s := vm.snaps[0]
	a := s.alts[len(s.alts)-1]
	s.alts = s.alts[:len(s.alts)-1]
	p := append([]Decision(nil), vm.dec[:s.decLen]...)
	p = append(p, s.inInstr...)
	p = append(p, a.d)
	if len(s.alts) == 0 {
		vm.snaps = append(vm.snaps[:0:0], vm.snaps[1:]...)
	}
	return p
}

// ---- running ----

// runPath executes until the current path ends.
func (vm *VM) runPath() (ab pathAbort) {
	for {
		done, a := vm.runProtected()
		if done {
			return a
		}
	}
}

func (vm *VM) runProtected() (done bool, ab pathAbort) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case pathAbort:
			if x.kind == abInconclusive && !strings.Contains(x.reason, " < ") {
				x.reason += " at " + vm.where()
			}
			done, ab = true, x
		case GoPanic:
			defer func() {
				if r2 := recover(); r2 != nil {
					if a, ok := r2.(pathAbort); ok {
						done, ab = true, a
						return
					}
					done, ab = true, pathAbort{abInconclusive, fmt.Sprint("engine: ", r2)}
				}
			}()
			vm.startPanic(x.v)
		case exitSignal:
			if !vm.unwindTo(2, fmt.Sprint(x.code), x.code) {
				done, ab = true, pathAbort{abInconclusive, fmt.Sprintf("exit(%d) outside a run", x.code)}
			}
		case hangSignal:
			if !vm.unwindTo(3, x.why, 0) {
				done, ab = true, pathAbort{abInconclusive, "step limit outside a run: " + x.why}
			}
		default:
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 1500 {
				st = st[:1500]
			}
			done, ab = true, pathAbort{abInconclusive, fmt.Sprintf("engine: %v in %s %s", r, vm.where(), st)}
		}
	}()
	vm.loop()
	return true, pathAbort{abDone, ""}
}

func (vm *VM) where() string {
	var sb strings.Builder
	for i := len(vm.frames) - 1; i >= 0 && i > len(vm.frames)-7; i-- {
		f := vm.frames[i]
		pos := ""
		if int(f.pc) < len(f.cf.code) {
			p := vm.p.prog.Fset.Position(f.cf.code[f.pc].pos)
			if p.IsValid() {
				fn := p.Filename
				if j := strings.LastIndexByte(fn, '/'); j >= 0 {
					fn = fn[j+1:]
				}
				pos = fmt.Sprintf("(%s:%d)", fn, p.Line)
			}
		}
		sb.WriteString(f.cf.name + pos + " < ")
	}
	return sb.String()
}

// unwindTo pops frames up to the nearest boundary and makes it return (kind, msg, code).
func (vm *VM) unwindTo(kind int, msg string, code int) bool {
	for i := len(vm.frames) - 1; i >= 0; i-- {
		if vm.frames[i].boundary {
			ret := vm.frames[i].ret
			vm.frames = vm.frames[:i]
			vm.st.runLimit = 0
			f := vm.top()
			if ret >= 0 {
				f.regs[ret] = Value{R: []Value{{N: uint64(kind)}, concStr(msg), {N: uint64(code)}}}
			}
			f.pc++
			return true
		}
	}
	return false
}

func (vm *VM) startPanic(v Value) {
	f := vm.top()
	f.pan = &GoPanic{v}
	f.recovered = false
	vm.unwind()
}

// unwind continues the panic of the top frame: runs its deferred calls, then its callers'.
func (vm *VM) unwind() {
	for {
		f := vm.top()
		if f.pan == nil {
			return
		}
		if f.recovered && len(f.defers) == 0 {
			// return from the function with its named results
			f.pan = nil
			f.recovered = false
			if f.cf.recover >= 0 {
				f.pc = f.cf.recover
				return
			}
			res := f.cf.fn.Signature.Results()
			var v Value
			if res.Len() == 1 {
				v = zero(res.At(0).Type())
			} else if res.Len() > 1 {
				v = zero(res)
			}
			vm.doReturn(v)
			return
		}
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			if vm.callDeferred(d) {
				return // a frame was pushed; its return resumes unwinding
			}
			continue
		}
		p := f.pan
		if f.boundary {
			msg := vm.panicText(p.v)
			vm.unwindTo(1, msg, 2)
			return
		}
		wasDefer := f.inDefer
		vm.frames = vm.frames[:len(vm.frames)-1]
		if len(vm.frames) == 0 {
			abort(abInconclusive, "panic outside a run: %s", vm.panicText(p.v))
		}
		nf := vm.top()
		_ = wasDefer
		nf.pan = p
		nf.recovered = false
	}
}

func (vm *VM) panicText(v Value) string {
	if v.R == nil {
		return "nil"
	}
	i, ok := v.R.(*Iface)
	if !ok {
		return "?"
	}
	s := i.t.t.String()
	if x, ok := i.v.R.(string); ok {
		s += ": " + x
	} else if o, ok := i.v.R.(*Obj); ok && len(o.elems) > 0 {
		if x, ok := o.elems[0].R.(string); ok {
			s += ": " + x
		}
	}
	return s + " at " + vm.where()
}

// callDeferred starts a deferred call; true if a frame was pushed.
func (vm *VM) callDeferred(d deferRec) bool {
	if d.bi != "" {
		vm.builtin(d.ci, d.args)
		return false
	}
	if d.fv == nil {
		panic(GoPanic{vm.rtError("invalid memory address or nil pointer dereference")})
	}
	if nat := vm.nativeOf(d.fv); nat != nil {
		nat(vm, d.args)
		return false
	}
	f := vm.pushFunc(vm.p.compiled(d.fv.fn), d.args, d.fv.bind, -1)
	f.inDefer = true
	return true
}

func (vm *VM) nativeOf(fv *FuncV) func(vm *VM, args []Value) Value {
	if fv.nat != nil {
		return fv.nat
	}
	_, nat := vm.p.target(fv.fn)
	return nat
}

// doReturn pops the top frame and delivers its result.
func (vm *VM) doReturn(v Value) {
	n := len(vm.frames) - 1
	f := vm.frames[n]
	vm.frames = vm.frames[:n]
	if n == 0 {
		vm.frames = vm.frames[:0]
		abort(abDone, "")
	}
	c := vm.top()
	if f.inDefer {
		// back in the frame that runs its deferred calls
		vm.freeFrame(f)
		if c.pan != nil {
			vm.unwind()
		}
		return // cRunDefers is executed again
	}
	if f.boundary {
		v = Value{R: []Value{{N: 0}, concStr(""), {N: 0}}}
		vm.st.runLimit = 0
	}
	if f.ret >= 0 {
		c.regs[f.ret] = v
	}
	c.pc++
	vm.freeFrame(f)
}

func (vm *VM) rtError(msg string) Value {
	return Value{R: &Iface{vm.p.rtErr, concStr("runtime error: " + msg)}}
}

func (vm *VM) throw(msg string) { panic(GoPanic{vm.rtError(msg)}) }

func (vm *VM) global(i int) *Obj {
	for len(vm.globals) <= i {
		vm.globals = append(vm.globals, nil)
	}
	o := vm.globals[i]
	if o == nil {
		g := vm.p.globalAt(i)
		o = newCell(zero(g.Type().Underlying().(*types.Pointer).Elem()))
		o.name = g.String()
		// epoch 0: older than every snapshot. A cell that does not exist yet reads as zero,
		// so creating it is invisible.
		vm.globals[i] = o
	}
	return o
}

// ---- program-level resolution ----

type targetInfo struct {
	fn  *ssa.Function
	nat func(vm *VM, args []Value) Value
}

// target maps a function to the function that is executed instead (model) or to a native.
func (p *Program) target(fn *ssa.Function) (*ssa.Function, func(vm *VM, args []Value) Value) {
	if t, ok := p.targets.Load(fn); ok {
		ti := t.(*targetInfo)
		return ti.fn, ti.nat
	}
	ti := &targetInfo{fn: fn}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if fn.Synthetic == "package initializer" && skipInit(fnPkg(fn)) {
		ti.nat = func(vm *VM, args []Value) Value { return Value{} }
	} else if m, ok := p.models[name]; ok {
		ti.fn = m
		if n, ok := natives[m.String()]; ok {
			ti.nat = n
		}
	} else if n, ok := natives[name]; ok {
		ti.nat = n
	} else if strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "internal/runtime/atomic.") {
		ti.nat = atomicNative(fn)
	} else if len(fn.Blocks) == 0 {
		nm := name
		ti.nat = func(vm *VM, args []Value) Value {
			unsupported("external function %s", nm)
			return Value{}
		}
	}
	p.targets.Store(fn, ti)
	return ti.fn, ti.nat
}

var _ = atomic.AddInt64
