package main

// Hash-consed bit-vector / boolean terms with exact simplification and interval analysis.
// A term of width 0 is a boolean. Every rewriting below preserves the term's value for all
// assignments (bit-vector semantics modulo 2^w).

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"sort"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OLin // sum coef[i]*args[i] + val (mod 2^w)
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	OIte
	OZext
	OSext
	OTrunc
	OSel // table lookup tab[args[0]] (default 0)
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBAnd
	OBOr
	OBNot
	// floating point (double); width 64 terms holding IEEE bits
	OFFromS // signed int -> double
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFLt
	OFLe
	OFEq
	OFNeg
)

type Term struct {
	op         Op
	w          uint8
	id         int32
	sh         uint64 // structural hash: a worker-independent order
	val        uint64
	args       []*Term
	coef       []uint64
	tab        []uint64
	name       string
	umin, umax uint64
	smin, smax int64
	vars       []int32 // sorted variable ids
	uv         *Term   // the only variable, if there is exactly one and it has width <= 8
	tt         *[4]uint64
	evalGen    uint32
	evalVal    uint64
	emitted    uint32 // solver generation in which the definition was sent
	size       int32
	canon      *Term // the table that stands for it
	ik         uint8 // integer reading, see intsmt.go
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

type Ctx struct {
	buckets  map[uint64][]*Term
	n        int32
	vars     []*Term // by variable index (val field of the OVar term)
	byKey    map[string]*Term
	gen      uint32
	tru, fls *Term
}

func newCtx() *Ctx {
	c := &Ctx{buckets: make(map[uint64][]*Term), byKey: make(map[string]*Term)}
	c.tru = c.Const(1, 0)
	c.fls = c.Const(0, 0)
	return c
}

func hmix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	return h ^ (h >> 32)
}

func (c *Ctx) intern(t Term) *Term {
	h := hmix(uint64(t.op)<<8|uint64(t.w), t.val)
	for _, a := range t.args {
		h = hmix(h, uint64(a.id))
	}
	for _, a := range t.coef {
		h = hmix(h, a)
	}
	if t.tab != nil {
		h = hmix(h, uint64(len(t.tab)))
		for _, v := range t.tab {
			h = hmix(h, v)
		}
	}
	for i := 0; i < len(t.name); i++ {
		h = hmix(h, uint64(t.name[i]))
	}
outer:
	for _, o := range c.buckets[h] {
		if o.op != t.op || o.w != t.w || o.val != t.val || o.name != t.name || len(o.args) != len(t.args) || len(o.coef) != len(t.coef) || len(o.tab) != len(t.tab) {
			continue
		}
		for i := range o.args {
			if o.args[i] != t.args[i] {
				continue outer
			}
		}
		for i := range o.coef {
			if o.coef[i] != t.coef[i] {
				continue outer
			}
		}
		for i := range o.tab {
			if o.tab[i] != t.tab[i] {
				continue outer
			}
		}
		if o.canon != nil {
			return o.canon
		}
		return o
	}
	p := new(Term)
	*p = t
	c.n++
	p.id = c.n
	p.sh = structHash(p)
	c.finish(p)
	c.buckets[h] = append(c.buckets[h], p)
	if p.uv != nil && (p.size > 24 || p.op >= OFFromS) && p.op != OSel && p.w > 0 && len(p.args) > 0 && p.uv.w > 0 {
		p.canon = c.tabulate(p)
		return p.canon
	}
	return p
}

// tabulate writes a function of one small variable down as its table, or as a linear term if
// that is what it is.
func (c *Ctx) tabulate(t *Term) *Term {
	v := t.uv
	tab := make([]uint64, v.umax+1)
	m := make([]uint64, v.val+1)
	affine := true
	for x := v.umin; x <= v.umax; x++ {
		m[v.val] = x
		tab[x] = c.Eval(t, m)
		if x > v.umin+1 && (tab[x]-tab[x-1]-(tab[v.umin+1]-tab[v.umin]))&mask(t.w) != 0 {
			affine = false
		}
	}
	if affine && t.op < OFFromS && v.umax > v.umin && t.w >= v.w {
		k := (tab[v.umin+1] - tab[v.umin]) & mask(t.w)
		r := c.linFlat([]*Term{c.Zext(v, t.w)}, []uint64{k}, (tab[v.umin]-k*v.umin)&mask(t.w), t.w)
		if r.size <= 24 {
			return r
		}
	}
	return c.Sel(tab, v, t.w)
}

// finish computes variable sets and intervals of a new term.
func (c *Ctx) finish(t *Term) {
	// variables
	if t.op == OVar {
		t.vars = []int32{int32(t.val)}
	} else {
		switch len(t.args) {
		case 0:
		case 1:
			t.vars = t.args[0].vars
		default:
			t.vars = mergeVars(t.args)
		}
	}
	t.size = 1
	for _, a := range t.args {
		if t.size < 1<<28 {
			t.size += a.size
		}
	}
	if len(t.vars) == 1 {
		v := t
		if t.op != OVar {
			v = c.vars[t.vars[0]]
		}
		if v.w <= 8 {
			t.uv = v
		}
	}
	// intervals
	m := mask(t.w)
	t.umin, t.umax = 0, m
	if t.w == 0 {
		t.umin, t.umax = 0, 1
		t.smin, t.smax = 0, 1
		if t.op == OConst {
			t.umin, t.umax = t.val, t.val
		}
		return
	}
	if t.w == 64 {
		t.smin, t.smax = math.MinInt64, math.MaxInt64
	} else {
		t.smin, t.smax = -(int64(1) << (t.w - 1)), int64(1)<<(t.w-1)-1
	}
	uset := func(lo, hi uint64) {
		if lo > t.umin {
			t.umin = lo
		}
		if hi < t.umax {
			t.umax = hi
		}
	}
	sset := func(lo, hi int64) {
		if lo > t.smin {
			t.smin = lo
		}
		if hi < t.smax {
			t.smax = hi
		}
	}
	switch t.op {
	case OConst:
		t.umin, t.umax = t.val, t.val
		s := sx(t.val, t.w)
		t.smin, t.smax = s, s
		return
	case OLin:
		if k, ok := exactS(t); ok {
			lo, hi := linRange(t)
			sset(lo.Add(lo, k).Int64(), hi.Add(hi, k).Int64())
		}
		if k, ok := exactU(t); ok {
			lo, hi := linRange(t)
			uset(lo.Add(lo, k).Uint64(), hi.Add(hi, k).Uint64())
		}
		// unsigned bounds with non-negative coefficients
		ulo, uhi := new(big.Int).SetUint64(t.val), new(big.Int).SetUint64(t.val)
		for i, a := range t.args {
			k := new(big.Int).SetUint64(t.coef[i])
			ulo.Add(ulo, new(big.Int).Mul(k, new(big.Int).SetUint64(a.umin)))
			uhi.Add(uhi, new(big.Int).Mul(k, new(big.Int).SetUint64(a.umax)))
		}
		if uhi.IsUint64() && uhi.Uint64() <= m {
			uset(ulo.Uint64(), uhi.Uint64())
		}
	case OMul:
		a, b := t.args[0], t.args[1]
		h1, l1 := bits.Mul64(a.umax, b.umax)
		if h1 == 0 && l1 <= m {
			uset(a.umin*b.umin, l1)
		}
	case OUDiv:
		a, b := t.args[0], t.args[1]
		if b.umin > 0 {
			uset(a.umin/b.umax, a.umax/b.umin)
		}
	case OURem:
		a, b := t.args[0], t.args[1]
		if b.umin > 0 {
			hi := b.umax - 1
			if a.umax < hi {
				hi = a.umax
			}
			uset(0, hi)
		}
	case OSDiv:
		a, b := t.args[0], t.args[1]
		if b.op == OConst && sx(b.val, b.w) > 0 {
			d := sx(b.val, b.w)
			sset(a.smin/d, a.smax/d)
		}
	case OSRem:
		a, b := t.args[0], t.args[1]
		if b.op == OConst && sx(b.val, b.w) > 0 {
			d := sx(b.val, b.w)
			lo, hi := -(d - 1), d-1
			if a.smin >= 0 {
				lo = 0
			}
			if a.smax <= 0 {
				hi = 0
			}
			sset(lo, hi)
		}
	case OAnd:
		hi := t.args[0].umax
		if t.args[1].umax < hi {
			hi = t.args[1].umax
		}
		uset(0, hi)
	case OOr, OXor:
		hi := t.args[0].umax | t.args[1].umax
		n := bits.Len64(hi)
		if n < 64 {
			uset(0, uint64(1)<<n-1)
		}
		if t.op == OOr {
			lo := t.args[0].umin
			if t.args[1].umin > lo {
				lo = t.args[1].umin
			}
			uset(lo, m)
		}
	case OLshr:
		if t.args[1].op == OConst {
			s := t.args[1].val
			if s >= 64 {
				uset(0, 0)
			} else {
				uset(t.args[0].umin>>s, t.args[0].umax>>s)
			}
		} else {
			uset(0, t.args[0].umax)
		}
	case OShl:
		if t.args[1].op == OConst {
			s := t.args[1].val
			if s < uint64(t.w) && t.args[0].umax <= m>>s {
				uset(t.args[0].umin<<s, t.args[0].umax<<s)
			}
		}
	case OAshr:
		if t.args[1].op == OConst {
			s := t.args[1].val
			if s > 63 {
				s = 63
			}
			sset(t.args[0].smin>>s, t.args[0].smax>>s)
		}
	case OIte:
		a, b := t.args[1], t.args[2]
		lo, hi := a.umin, a.umax
		if b.umin < lo {
			lo = b.umin
		}
		if b.umax > hi {
			hi = b.umax
		}
		uset(lo, hi)
		sl, sh := a.smin, a.smax
		if b.smin < sl {
			sl = b.smin
		}
		if b.smax > sh {
			sh = b.smax
		}
		sset(sl, sh)
	case OZext:
		uset(t.args[0].umin, t.args[0].umax)
	case OSext:
		sset(t.args[0].smin, t.args[0].smax)
	case OTrunc:
		a := t.args[0]
		if a.umax <= m {
			uset(a.umin, a.umax)
		}
		if a.smin >= t.smin && a.smax <= t.smax {
			sset(a.smin, a.smax)
		}
	case OSel:
		lo, hi := ^uint64(0), uint64(0)
		for i, v := range t.tab {
			if uint64(i) < t.args[0].umin || uint64(i) > t.args[0].umax {
				continue
			}
			if v < lo {
				lo = v
			}
			if v > hi {
				hi = v
			}
		}
		if t.args[0].umax >= uint64(len(t.tab)) {
			lo = 0
		}
		if lo <= hi {
			uset(lo, hi)
		}
	}
	// transfer between signed and unsigned views
	half := uint64(1) << (t.w - 1)
	if t.umax < half {
		sset(int64(t.umin), int64(t.umax))
	} else if t.umin >= half {
		sset(sx(t.umin, t.w), sx(t.umax, t.w))
	}
	if t.smin >= 0 {
		uset(uint64(t.smin), uint64(t.smax))
	} else if t.smax < 0 {
		uset(uint64(t.smin)&m, uint64(t.smax)&m)
	}
}

func mergeVars(args []*Term) []int32 {
	var best []int32
	for _, a := range args {
		if len(a.vars) > len(best) {
			best = a.vars
		}
	}
	all := true
	for _, a := range args {
		if len(a.vars) == 0 || &a.vars[0] == &best[0] && len(a.vars) == len(best) {
			continue
		}
		if !subset(a.vars, best) {
			all = false
			break
		}
	}
	if all {
		return best
	}
	set := map[int32]bool{}
	for _, a := range args {
		for _, v := range a.vars {
			set[v] = true
		}
	}
	out := make([]int32, 0, len(set))
	for v := range set {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func subset(a, b []int32) bool {
	j := 0
	for _, x := range a {
		for j < len(b) && b[j] < x {
			j++
		}
		if j >= len(b) || b[j] != x {
			return false
		}
	}
	return true
}

// ---- constructors ----

func (c *Ctx) Const(v uint64, w uint8) *Term {
	if w == 0 {
		v &= 1
	} else {
		v &= mask(w)
	}
	return c.intern(Term{op: OConst, w: w, val: v})
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.tru
	}
	return c.fls
}

// Var returns the variable with the given key, creating it if needed. lo..hi is its declared
// unsigned range: the solver asserts it once, globally, with the declaration.
func (c *Ctx) Var(key string, w uint8, lo, hi uint64) *Term {
	k := fmt.Sprintf("%s|%d|%d|%d", key, w, lo, hi)
	if v, ok := c.byKey[k]; ok {
		return v
	}
	t := &Term{op: OVar, w: w, val: uint64(len(c.vars)), name: key}
	c.n++
	t.id = c.n
	t.sh = hmix(0x77, uint64(w))
	for i := 0; i < len(key); i++ {
		t.sh = hmix(t.sh, uint64(key[i]))
	}
	c.vars = append(c.vars, t)
	c.finish(t)
	if w > 0 {
		t.umin, t.umax = lo, hi
		half := uint64(1) << (w - 1)
		if hi < half {
			t.smin, t.smax = int64(lo), int64(hi)
		}
	}
	c.byKey[k] = t
	return t
}

func (c *Ctx) linParts(t *Term) (args []*Term, coef []uint64, k uint64) {
	switch t.op {
	case OConst:
		return nil, nil, t.val
	case OLin:
		return t.args, t.coef, t.val
	}
	return []*Term{t}, []uint64{1}, 0
}

func (c *Ctx) mkLin(args []*Term, coef []uint64, k uint64, w uint8) *Term {
	m := mask(w)
	k &= m
	type pair struct {
		t *Term
		c uint64
	}
	ps := make([]pair, 0, len(args))
	for i, a := range args {
		if coef[i]&m != 0 {
			ps = append(ps, pair{a, coef[i] & m})
		}
	}
	sort.Slice(ps, func(i, j int) bool { return after(ps[j].t, ps[i].t) })
	out := ps[:0]
	for _, p := range ps {
		if len(out) > 0 && out[len(out)-1].t == p.t {
			out[len(out)-1].c = (out[len(out)-1].c + p.c) & m
			if out[len(out)-1].c == 0 {
				out = out[:len(out)-1]
			}
			continue
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return c.Const(k, w)
	}
	if len(out) == 1 && out[0].c == 1 && k == 0 {
		return out[0].t
	}
	// several functions of the same small variable are one function of it
	for _, p := range out {
		v := p.t.uv
		if v == nil || v.w < 2 || w < v.w {
			continue
		}
		n, plain := 0, true
		for _, q := range out {
			if q.t.uv == v {
				if n++; q.t != v && !(q.t.op == OZext && q.t.args[0] == v) {
					plain = false
				}
			}
		}
		if n < 2 || plain {
			continue
		}
		var ra []*Term
		var rc []uint64
		tab := make([]uint64, v.umax+1)
		mdl := make([]uint64, v.val+1)
		for _, q := range out {
			if q.t.uv != v {
				ra = append(ra, q.t)
				rc = append(rc, q.c)
			}
		}
		affine := true
		for x := v.umin; x <= v.umax; x++ {
			mdl[v.val] = x
			for _, q := range out {
				if q.t.uv == v {
					tab[x] += q.c * c.Eval(q.t, mdl)
				}
			}
			tab[x] &= m
			if x > v.umin+1 && (tab[x]-tab[x-1]-(tab[v.umin+1]-tab[v.umin]))&m != 0 {
				affine = false
			}
		}
		if affine && v.umax > v.umin {
			s := (tab[v.umin+1] - tab[v.umin]) & m
			return c.mkLin(append(ra, c.Zext(v, w)), append(rc, s), k+tab[v.umin]-s*v.umin, w)
		}
		{
			small := true
			for _, q := range out {
				if q.t.uv == v && q.t.op == OSel {
					small = false
				}
			}
			if !small {
				return c.mkLin(append(ra, c.Sel(tab, v, w)), append(rc, 1), k, w)
			}
		}
	}
	// k*(x%d) + k*d*(x/d) is k*x
	for i, p := range out {
		if p.t.op != OURem || p.t.args[1].op != OConst {
			continue
		}
		d := p.t.args[1].val
		for j, q := range out {
			if q.t.op == OUDiv && q.t.args[0] == p.t.args[0] && q.t.args[1] == p.t.args[1] && q.c == (p.c*d)&m {
				xa, xc, xk := c.linParts(p.t.args[0])
				var ra []*Term
				var rc []uint64
				for l, o := range out {
					if l != i && l != j {
						ra = append(ra, o.t)
						rc = append(rc, o.c)
					}
				}
				for l := range xa {
					ra = append(ra, xa[l])
					rc = append(rc, xc[l]*p.c)
				}
				return c.mkLin(ra, rc, k+xk*p.c, w)
			}
		}
	}
	// x - c*(x/c) is x%c (whose range is known)
	for i, p := range out {
		if p.t.op == OUDiv && p.t.args[1].op == OConst {
			d := p.t.args[1].val
			neg := (-p.c) & m
			if d < 2 || neg%d != 0 || neg/d == 0 {
				continue
			}
			kk := neg / d
			xa, xc, xk := c.linParts(p.t.args[0])
			have := map[*Term]uint64{}
			for j, o := range out {
				if j != i {
					have[o.t] = o.c
				}
			}
			match := len(xa) > 0
			for j, t := range xa {
				if have[t] != (xc[j]*kk)&m {
					match = false
				}
			}
			if !match {
				continue
			}
			inx := map[*Term]bool{}
			for _, t := range xa {
				inx[t] = true
			}
			var ra []*Term
			var rc []uint64
			for j, o := range out {
				if j != i && !inx[o.t] {
					ra = append(ra, o.t)
					rc = append(rc, o.c)
				}
			}
			ra = append(ra, c.intern(Term{op: OURem, w: w, args: []*Term{p.t.args[0], p.t.args[1]}}))
			rc = append(rc, kk)
			return c.mkLin(ra, rc, k-xk*kk, w)
		}
	}
	as := make([]*Term, len(out))
	cs := make([]uint64, len(out))
	for i, p := range out {
		as[i], cs[i] = p.t, p.c
	}
	return c.intern(Term{op: OLin, w: w, args: as, coef: cs, val: k})
}

func (c *Ctx) addScaled(a *Term, ka uint64, b *Term, kb uint64) *Term {
	w := a.w
	aa, ac, ak := c.linParts(a)
	ba, bc, bk := c.linParts(b)
	args := make([]*Term, 0, len(aa)+len(ba))
	coef := make([]uint64, 0, len(aa)+len(ba))
	for i := range aa {
		args = append(args, aa[i])
		coef = append(coef, ac[i]*ka)
	}
	for i := range ba {
		args = append(args, ba[i])
		coef = append(coef, bc[i]*kb)
	}
	return c.mkLin(args, coef, ak*ka+bk*kb, w)
}

func (c *Ctx) Add(a, b *Term) *Term { return c.addScaled(a, 1, b, 1) }
func (c *Ctx) Sub(a, b *Term) *Term { return c.addScaled(a, 1, b, ^uint64(0)) }
func (c *Ctx) Neg(a *Term) *Term    { return c.addScaled(a, ^uint64(0), c.Const(0, a.w), 0) }
func (c *Ctx) BvNot(a *Term) *Term { // ~a = -a-1
	return c.addScaled(a, ^uint64(0), c.Const(^uint64(0), a.w), 1)
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		return c.addScaled(a, b.val, c.Const(0, a.w), 0)
	}
	if after(a, b) {
		a, b = b, a
	}
	return c.intern(Term{op: OMul, w: a.w, args: []*Term{a, b}})
}

// splitLin tries to write x = q*d + r exactly over the integers, with 0 <= r < d, both linear,
// given that x is non-negative and does not wrap.
func (c *Ctx) splitLin(x *Term, d uint64) (q, r *Term, ok bool) {
	if x.op != OLin || d < 2 {
		return nil, nil, false
	}
	kc, exact := exactS(x)
	if !exact || x.smin < 0 {
		if kc, exact = exactU(x); !exact {
			if linExactUnsigned(x) {
				return c.splitLinU(x, d)
			}
			return nil, nil, false
		}
	}
	sd := int64(d)
	if sd <= 0 {
		return nil, nil, false
	}
	var qa, ra []*Term
	var qc, rc []uint64
	rlo, rhi := new(big.Int), new(big.Int)
	for i, a := range x.args {
		k := sx(x.coef[i], x.w)
		// choose quotient part by truncation towards zero
		qk := k / sd
		rk := k - qk*sd
		if qk != 0 {
			qa = append(qa, a)
			qc = append(qc, uint64(qk))
		}
		if rk != 0 {
			ra = append(ra, a)
			rc = append(rc, uint64(rk))
			lo := new(big.Int).Mul(big.NewInt(rk), big.NewInt(a.smin))
			hi := new(big.Int).Mul(big.NewInt(rk), big.NewInt(a.smax))
			if rk < 0 {
				lo, hi = hi, lo
			}
			rlo.Add(rlo, lo)
			rhi.Add(rhi, hi)
		}
	}
	// distribute the constant so that the remainder's lower bound lies in [0,d)
	tot := new(big.Int).Add(rlo, kc)
	qk := new(big.Int)
	rem := new(big.Int)
	qk.DivMod(tot, big.NewInt(sd), rem) // floor division; 0<=rem<d
	rk := new(big.Int).Sub(kc, new(big.Int).Mul(qk, big.NewInt(sd)))
	hi := new(big.Int).Add(rhi, rk)
	if hi.Cmp(big.NewInt(sd)) >= 0 {
		return nil, nil, false
	}
	q = c.mkLin(qa, qc, low64(qk, x.w), x.w)
	r = c.mkLin(ra, rc, low64(rk, x.w), x.w)
	return q, r, true
}

// splitLinU is splitLin for a sum that is exact when read as unsigned.
func (c *Ctx) splitLinU(x *Term, d uint64) (q, r *Term, ok bool) {
	var qa, ra []*Term
	var qc, rc []uint64
	rlo, rhi := new(big.Int), new(big.Int)
	bu := func(v uint64) *big.Int { return new(big.Int).SetUint64(v) }
	for i, a := range x.args {
		qk, rk := x.coef[i]/d, x.coef[i]%d
		if qk != 0 {
			qa, qc = append(qa, a), append(qc, qk)
		}
		if rk != 0 {
			ra, rc = append(ra, a), append(rc, rk)
			rlo.Add(rlo, new(big.Int).Mul(bu(rk), bu(a.umin)))
			rhi.Add(rhi, new(big.Int).Mul(bu(rk), bu(a.umax)))
		}
	}
	// x = d*(sum qk*a) + (sum rk*a) + k; with lo <= sum rk*a: choose qk so that the rest is in [0,d)
	tot := new(big.Int).Add(rlo, bu(x.val))
	qk, rem := new(big.Int), new(big.Int)
	qk.DivMod(tot, bu(d), rem)
	hi := new(big.Int).Add(rhi, bu(x.val))
	hi.Sub(hi, new(big.Int).Mul(qk, bu(d)))
	if hi.Cmp(bu(d)) >= 0 || !qk.IsUint64() {
		return nil, nil, false
	}
	// the constants are taken modulo 2^w, which the sums' values make exact
	q = c.mkLin(qa, qc, qk.Uint64(), x.w)
	r = c.mkLin(ra, rc, x.val-qk.Uint64()*d, x.w)
	return q, r, true
}

// linRange bounds the sum of a linear term without its constant, over the integers, reading
// coefficients and arguments as signed.
func linRange(x *Term) (lo, hi *big.Int) {
	lo, hi = new(big.Int), new(big.Int)
	for i, a := range x.args {
		k := big.NewInt(sx(x.coef[i], x.w))
		p := new(big.Int).Mul(k, big.NewInt(a.smin))
		q := new(big.Int).Mul(k, big.NewInt(a.smax))
		if k.Sign() < 0 {
			p, q = q, p
		}
		lo.Add(lo, p)
		hi.Add(hi, q)
	}
	return
}

// exactIn gives the integer constant k, congruent to the term's constant, for which the sum
// over the integers always lies in [min, min+2^w): then it is the term's value read in that range.
func exactIn(x *Term, min *big.Int) (*big.Int, bool) {
	lo, hi := linRange(x)
	n := new(big.Int).Lsh(big.NewInt(1), uint(x.w))
	k := big.NewInt(sx(x.val, x.w))
	// move lo+k into the range
	d := new(big.Int).Add(lo, k)
	d.Sub(d, min)
	q, r := new(big.Int), new(big.Int)
	q.DivMod(d, n, r)
	k.Sub(k, q.Mul(q, n))
	r.Add(r, hi)
	r.Sub(r, lo)
	return k, r.Cmp(n) < 0
}

func exactS(x *Term) (*big.Int, bool) {
	return exactIn(x, new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), uint(x.w-1))))
}

func exactU(x *Term) (*big.Int, bool) { return exactIn(x, new(big.Int)) }

// linExactSigned reports that the OLin term's signed integer sum never leaves the signed range.
func linExactSigned(x *Term) bool {
	_, ok := exactS(x)
	return ok
}

// low64 is k modulo 2^w.
func low64(k *big.Int, w uint8) uint64 {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	return new(big.Int).Mod(k, m).Uint64()
}

func (c *Ctx) UDiv(a, b *Term) *Term {
	if b.op == OConst && b.val != 0 {
		if b.val == 1 {
			return a
		}
		if a.op == OConst {
			return c.Const(a.val/b.val, a.w)
		}
		if a.umax/b.val == a.umin/b.val {
			return c.Const(a.umax/b.val, a.w)
		}
		if q, _, ok := c.splitLin(a, b.val); ok {
			return q
		}
	}
	if r := c.iteLift2(a, b, c.UDiv); r != nil {
		return r
	}
	return c.intern(Term{op: OUDiv, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) URem(a, b *Term) *Term {
	if b.op == OConst && b.val != 0 {
		if a.op == OConst {
			return c.Const(a.val%b.val, a.w)
		}
		if a.umax < b.val {
			return a
		}
		if a.umax/b.val == a.umin/b.val {
			return c.Sub(a, c.Const(a.umax/b.val*b.val, a.w))
		}
		if _, r, ok := c.splitLin(a, b.val); ok {
			return r
		}
		// a - (a/b)*b keeps things linear over one quotient term
		if q := c.UDiv(a, b); q.op != OUDiv {
			return c.Sub(a, c.Mul(q, b))
		}
	}
	return c.intern(Term{op: OURem, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) SDiv(a, b *Term) *Term {
	if a.smin >= 0 && b.smin >= 0 {
		return c.UDiv(a, b)
	}
	if b.op == OConst && b.val != 0 {
		if a.op == OConst {
			x, y := sx(a.val, a.w), sx(b.val, b.w)
			if y == -1 {
				return c.Const(uint64(-x), a.w)
			}
			return c.Const(uint64(x/y), a.w)
		}
		if a.smax < 0 && sx(b.val, b.w) > 0 && a.smin > math.MinInt64 {
			return c.Neg(c.UDiv(c.Neg(a), b))
		}
	}
	return c.intern(Term{op: OSDiv, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) SRem(a, b *Term) *Term {
	if a.smin >= 0 && b.smin >= 0 {
		return c.URem(a, b)
	}
	if b.op == OConst && b.val != 0 {
		if a.op == OConst {
			x, y := sx(a.val, a.w), sx(b.val, b.w)
			if y == -1 {
				return c.Const(0, a.w)
			}
			return c.Const(uint64(x%y), a.w)
		}
		if q := c.SDiv(a, b); q.op != OSDiv {
			return c.Sub(a, c.Mul(q, b))
		}
	}
	return c.intern(Term{op: OSRem, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) And(a, b *Term) *Term {
	if a.op == OConst {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.op == OConst {
		if a.op == OConst {
			return c.Const(a.val&b.val, a.w)
		}
		if b.val == 0 {
			return b
		}
		if b.val == mask(a.w) {
			return a
		}
		// low mask 2^k-1
		if b.val&(b.val+1) == 0 {
			if a.umax <= b.val {
				return a
			}
			if a.umin&^b.val == a.umax&^b.val { // constant high part
				return c.Sub(a, c.Const(a.umin&^b.val, a.w))
			}
			k := uint8(bits.Len64(b.val))
			return c.Zext(c.Trunc(a, k), a.w)
		}
	}
	if after(a, b) && b.op != OConst {
		a, b = b, a
	}
	return c.intern(Term{op: OAnd, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a.op == OConst {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.op == OConst {
		if a.op == OConst {
			return c.Const(a.val|b.val, a.w)
		}
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) {
			return b
		}
	}
	if after(a, b) && b.op != OConst {
		a, b = b, a
	}
	return c.intern(Term{op: OOr, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) Xor(a, b *Term) *Term {
	if a.op == OConst {
		a, b = b, a
	}
	if a == b {
		return c.Const(0, a.w)
	}
	if b.op == OConst {
		if a.op == OConst {
			return c.Const(a.val^b.val, a.w)
		}
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) {
			return c.BvNot(a)
		}
	}
	if after(a, b) && b.op != OConst {
		a, b = b, a
	}
	return c.intern(Term{op: OXor, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) Shl(a, b *Term) *Term {
	if b.op == OConst {
		if b.val >= uint64(a.w) {
			return c.Const(0, a.w)
		}
		return c.Mul(a, c.Const(uint64(1)<<b.val, a.w))
	}
	return c.intern(Term{op: OShl, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) Lshr(a, b *Term) *Term {
	if b.op == OConst {
		if b.val >= uint64(a.w) {
			return c.Const(0, a.w)
		}
		if b.val == 0 {
			return a
		}
		if a.op == OConst {
			return c.Const(a.val>>b.val, a.w)
		}
		if a.umax>>b.val == a.umin>>b.val {
			return c.Const(a.umax>>b.val, a.w)
		}
		if b.val < 62 {
			if q, _, ok := c.splitLin(a, uint64(1)<<b.val); ok {
				return q
			}
		}
	}
	return c.intern(Term{op: OLshr, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) Ashr(a, b *Term) *Term {
	if a.smin >= 0 {
		return c.Lshr(a, b)
	}
	if b.op == OConst {
		if b.val == 0 {
			return a
		}
		s := b.val
		if s > 63 {
			s = 63
		}
		if a.op == OConst {
			return c.Const(uint64(sx(a.val, a.w)>>s), a.w)
		}
		if a.smin>>s == a.smax>>s {
			return c.Const(uint64(a.smin>>s), a.w)
		}
	}
	return c.intern(Term{op: OAshr, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		panic("zext narrows")
	}
	switch a.op {
	case OConst:
		return c.Const(a.val, w)
	case OZext:
		return c.Zext(a.args[0], w)
	case OTrunc:
		in := a.args[0]
		if in.umax <= mask(a.w) { // nothing was cut off
			if in.w >= w {
				return c.Trunc(in, w)
			}
			return c.Zext(in, w)
		}
	case OIte:
		if a.args[1].op == OConst || a.args[2].op == OConst {
			return c.Ite(a.args[0], c.Zext(a.args[1], w), c.Zext(a.args[2], w))
		}
	case OLin:
		// zext distributes over a sum that does not wrap. Use the signed view when exact and
		// non-negative: value = sum sx(coef)*sext(arg)
		kc, exact := exactS(a)
		if !exact || a.smin < 0 {
			kc, exact = exactU(a)
		}
		if exact {
			args := make([]*Term, len(a.args))
			coef := make([]uint64, len(a.args))
			for i := range a.args {
				args[i] = c.Sext(a.args[i], w)
				coef[i] = uint64(sx(a.coef[i], a.w))
			}
			return c.linFlat(args, coef, low64(kc, w), w)
		}
		if linExactUnsigned(a) {
			args := make([]*Term, len(a.args))
			for i := range a.args {
				args[i] = c.Zext(a.args[i], w)
			}
			return c.linFlat(args, append([]uint64(nil), a.coef...), a.val, w)
		}
	}
	return c.intern(Term{op: OZext, w: w, args: []*Term{a}})
}

func linExactUnsigned(x *Term) bool {
	hi := new(big.Int).SetUint64(x.val)
	for i, a := range x.args {
		hi.Add(hi, new(big.Int).Mul(new(big.Int).SetUint64(x.coef[i]), new(big.Int).SetUint64(a.umax)))
	}
	return hi.IsUint64() && hi.Uint64() <= mask(x.w)
}

func (c *Ctx) linFlat(args []*Term, coef []uint64, k uint64, w uint8) *Term {
	r := c.Const(k, w)
	flat := true
	for _, a := range args {
		if a.op == OLin || a.op == OConst {
			flat = false
		}
	}
	if flat {
		return c.mkLin(args, coef, k, w)
	}
	for i, a := range args {
		r = c.addScaled(r, 1, a, coef[i])
	}
	return r
}

func (c *Ctx) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		panic("sext narrows")
	}
	if a.smin >= 0 {
		return c.Zext(a, w)
	}
	switch a.op {
	case OConst:
		return c.Const(uint64(sx(a.val, a.w)), w)
	case OSext:
		return c.Sext(a.args[0], w)
	case OIte:
		if a.args[1].op == OConst || a.args[2].op == OConst {
			return c.Ite(a.args[0], c.Sext(a.args[1], w), c.Sext(a.args[2], w))
		}
	case OLin:
		if kc, exact := exactS(a); exact {
			args := make([]*Term, len(a.args))
			coef := make([]uint64, len(a.args))
			for i := range a.args {
				args[i] = c.Sext(a.args[i], w)
				coef[i] = uint64(sx(a.coef[i], a.w))
			}
			return c.linFlat(args, coef, low64(kc, w), w)
		}
	}
	return c.intern(Term{op: OSext, w: w, args: []*Term{a}})
}

func (c *Ctx) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w < w {
		panic("trunc widens")
	}
	switch a.op {
	case OConst:
		return c.Const(a.val, w)
	case OTrunc:
		return c.Trunc(a.args[0], w)
	case OZext, OSext:
		in := a.args[0]
		if in.w == w {
			return in
		}
		if in.w > w {
			return c.Trunc(in, w)
		}
		if a.op == OZext {
			return c.Zext(in, w)
		}
		return c.Sext(in, w)
	case OIte:
		if a.args[1].op == OConst || a.args[2].op == OConst {
			return c.Ite(a.args[0], c.Trunc(a.args[1], w), c.Trunc(a.args[2], w))
		}
	case OLin:
		args := make([]*Term, len(a.args))
		for i := range a.args {
			args[i] = c.Trunc(a.args[i], w)
		}
		return c.linFlat(args, append([]uint64(nil), a.coef...), a.val, w)
	case OAnd, OOr, OXor:
		x, y := c.Trunc(a.args[0], w), c.Trunc(a.args[1], w)
		switch a.op {
		case OAnd:
			return c.And(x, y)
		case OOr:
			return c.Or(x, y)
		default:
			return c.Xor(x, y)
		}
	}
	return c.intern(Term{op: OTrunc, w: w, args: []*Term{a}})
}

func (c *Ctx) Sel(tab []uint64, idx *Term, w uint8) *Term {
	if idx.op == OConst {
		if idx.val < uint64(len(tab)) {
			return c.Const(tab[idx.val], w)
		}
		return c.Const(0, w)
	}
	same := true
	var v0 uint64
	first := true
	for i := idx.umin; i <= idx.umax && i < uint64(len(tab)); i++ {
		if first {
			v0 = tab[i]
			first = false
		} else if tab[i] != v0 {
			same = false
			break
		}
	}
	if same && !first && idx.umax < uint64(len(tab)) {
		return c.Const(v0, w)
	}
	return c.intern(Term{op: OSel, w: w, args: []*Term{idx}, tab: tab})
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.op == OConst {
		if cond.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if cond.op == OBNot {
		return c.Ite(cond.args[0], b, a)
	}
	if a.w == 0 {
		if a.op == OConst {
			if a.val == 1 {
				return c.BOr(cond, b)
			}
			return c.BAnd(c.Not(cond), b)
		}
		if b.op == OConst {
			if b.val == 1 {
				return c.BOr(c.Not(cond), a)
			}
			return c.BAnd(cond, a)
		}
	}
	return c.intern(Term{op: OIte, w: a.w, args: []*Term{cond, a, b}})
}

// iteLift2 lifts a binary operation with constant second operand over an ite with constant
// branches.
func (c *Ctx) iteLift2(a, b *Term, f func(x, y *Term) *Term) *Term {
	if b.op == OConst && a.op == OIte && a.args[1].op == OConst && a.args[2].op == OConst {
		return c.Ite(a.args[0], f(a.args[1], b), f(a.args[2], b))
	}
	return nil
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tru
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq widths %d %d", a.w, b.w))
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if b.op == OConst {
			if b.val == 1 {
				return a
			}
			return c.Not(a)
		}
	} else {
		if a.umax < b.umin || b.umax < a.umin || a.smax < b.smin || b.smax < a.smin {
			return c.fls
		}
		if b.op == OConst {
			switch a.op {
			case OZext:
				in := a.args[0]
				if b.val > mask(in.w) {
					return c.fls
				}
				return c.Eq(in, c.Const(b.val, in.w))
			case OSext:
				in := a.args[0]
				t := c.Const(b.val, in.w)
				if uint64(sx(t.val, in.w))&mask(a.w) != b.val {
					return c.fls
				}
				return c.Eq(in, t)
			case OIte:
				if a.args[1].op == OConst || a.args[2].op == OConst {
					return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
				}
			case OLin:
				if a.val != 0 {
					z := c.mkLin(a.args, a.coef, 0, a.w)
					return c.Eq(z, c.Const(b.val-a.val, a.w))
				}
				if len(a.args) == 1 && a.coef[0]&1 == 1 { // odd coefficient: invertible
					inv := a.coef[0]
					for i := 0; i < 6; i++ {
						inv *= 2 - a.coef[0]*inv
					}
					return c.Eq(a.args[0], c.Const(b.val*inv, a.w))
				}
			}
		}
		if a.op == OZext && b.op == OZext {
			x, y := a.args[0], b.args[0]
			if x.w == y.w {
				return c.Eq(x, y)
			}
			if x.w < y.w {
				return c.Eq(c.Zext(x, y.w), y)
			}
			return c.Eq(x, c.Zext(y, x.w))
		}
		if (a.op == OLin || b.op == OLin) && b.op != OConst {
			d := c.Sub(a, b)
			if d.op == OConst {
				return c.Bool(d.val == 0)
			}
			if len(d.args) < len(a.args)+len(b.args) || d.op != OLin {
				return c.Eq(d, c.Const(0, a.w))
			}
		}
	}
	if n, g, k, sign, ok := c.linDiff(a, b); ok {
		if n == nil {
			return c.Bool(k == 0)
		}
		if k%g != 0 {
			return c.fls
		}
		v := -k / g * sign
		if v < n.smin || v > n.smax {
			return c.fls
		}
		kt := c.Const(uint64(v)&mask(n.w), n.w)
		if n.op != OLin {
			return c.Eq(n, kt)
		}
		return c.intern(Term{op: OEq, w: 0, args: []*Term{n, kt}})
	}
	if after(a, b) && b.op != OConst {
		a, b = b, a
	}
	return c.intern(Term{op: OEq, w: 0, args: []*Term{a, b}})
}

// linDiff writes a - b over the integers as g*n + k, n linear without constant, with a
// positive leading coefficient after multiplication by sign (+1 or -1); ok only if nothing
// wraps: neither a, b nor a-b.
func (c *Ctx) linDiff(a, b *Term) (n *Term, g, k int64, sign int64, ok bool) {
	if a.w < 8 || (a.op != OLin && b.op != OLin) {
		return
	}
	if a.op == OLin && !linExactSigned(a) || b.op == OLin && !linExactSigned(b) {
		return
	}
	d := c.Sub(a, b)
	if d.op == OConst {
		return nil, 0, sx(d.val, a.w), 1, a.smin >= -1<<61 && a.smax <= 1<<61 && b.smin >= -1<<61 && b.smax <= 1<<61
	}
	if d.op != OLin {
		// a single term with coefficient one; a-b must not wrap
		if a.smin < -1<<61 || a.smax > 1<<61 || b.smin < -1<<61 || b.smax > 1<<61 || a.w < 64 {
			return
		}
		return d, 1, 0, 1, true
	}
	kc, exact := exactS(d)
	if !exact || !kc.IsInt64() {
		return
	}
	// a - b over the integers must be the sum d stands for: bound the operands
	if a.w == 64 {
		if a.smin < -1<<61 || a.smax > 1<<61 || b.smin < -1<<61 || b.smax > 1<<61 {
			return
		}
	} else {
		lim := int64(1) << (a.w - 1)
		if a.smax-b.smin >= lim || a.smin-b.smax < -lim {
			return
		}
	}
	sign = 1
	if sx(d.coef[0], d.w) < 0 {
		sign = -1
	}
	for _, x := range d.coef {
		v := sx(x, d.w)
		if v < 0 {
			v = -v
		}
		if v < 0 {
			return
		}
		for v != 0 {
			g, v = v, g%v
		}
	}
	coef := make([]uint64, len(d.coef))
	for i, x := range d.coef {
		coef[i] = uint64(sx(x, d.w) / g * sign)
	}
	return c.mkLin(d.args, coef, 0, d.w), g, kc.Int64(), sign, true
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// lcmp brings a < b between linear terms into the form n < const or its negation.
func (c *Ctx) lcmp(a, b *Term) *Term {
	n, g, k, sign, ok := c.linDiff(a, b)
	if !ok {
		return nil
	}
	if n == nil {
		return c.Bool(k < 0)
	}
	// sign*g*n + k < 0
	var t *Term
	if sign > 0 { // g*n < -k  <=>  n < ceil(-k/g) = -floor(k/g)
		t = c.ncmp(n, -floorDiv(k, g))
	} else { // g*n > k  <=>  not (n < floor(k/g)+1)
		t = c.Not(c.ncmp(n, floorDiv(k, g)+1))
	}
	return t
}

// ncmp is n < k without further normalisation of linear terms.
func (c *Ctx) ncmp(n *Term, k int64) *Term {
	if n.smax < k {
		return c.tru
	}
	if n.smin >= k {
		return c.fls
	}
	kt := c.Const(uint64(k)&mask(n.w), n.w)
	if n.op == OLin {
		if n.smin >= 0 && k >= 0 {
			return c.intern(Term{op: OUlt, w: 0, args: []*Term{n, kt}})
		}
		return c.intern(Term{op: OSlt, w: 0, args: []*Term{n, kt}})
	}
	return c.Slt(n, kt)
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a.umax < b.umin {
		return c.tru
	}
	if a.umin >= b.umax {
		return c.fls
	}
	if a.op == OZext && b.op == OConst {
		in := a.args[0]
		if b.val > mask(in.w) {
			return c.tru
		}
		return c.Ult(in, c.Const(b.val, in.w))
	}
	if b.op == OZext && a.op == OConst {
		in := b.args[0]
		if a.val > mask(in.w) {
			return c.fls
		}
		return c.Ult(c.Const(a.val, in.w), in)
	}
	if b.op == OConst && a.op == OIte && (a.args[1].op == OConst || a.args[2].op == OConst) {
		return c.Ite(a.args[0], c.Ult(a.args[1], b), c.Ult(a.args[2], b))
	}
	if a.smin >= 0 && b.smin >= 0 {
		if t := c.lcmp(a, b); t != nil {
			return t
		}
	}
	return c.intern(Term{op: OUlt, w: 0, args: []*Term{a, b}})
}

func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *Ctx) Slt(a, b *Term) *Term {
	if a.smax < b.smin {
		return c.tru
	}
	if a.smin >= b.smax {
		return c.fls
	}
	if a.smin >= 0 && b.smin >= 0 {
		return c.Ult(a, b)
	}
	if b.op == OConst && a.op == OIte && (a.args[1].op == OConst || a.args[2].op == OConst) {
		return c.Ite(a.args[0], c.Slt(a.args[1], b), c.Slt(a.args[2], b))
	}
	if t := c.lcmp(a, b); t != nil {
		return t
	}
	return c.intern(Term{op: OSlt, w: 0, args: []*Term{a, b}})
}

func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func (c *Ctx) Not(a *Term) *Term {
	if a.op == OConst {
		return c.Bool(a.val == 0)
	}
	if a.op == OBNot {
		return a.args[0]
	}
	return c.intern(Term{op: OBNot, w: 0, args: []*Term{a}})
}

func (c *Ctx) BAnd(a, b *Term) *Term {
	if a.op == OConst {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if c.Not(a) == b {
		return c.fls
	}
	if after(a, b) {
		a, b = b, a
	}
	return c.intern(Term{op: OBAnd, w: 0, args: []*Term{a, b}})
}

func (c *Ctx) BOr(a, b *Term) *Term {
	return c.Not(c.BAnd(c.Not(a), c.Not(b)))
}

func (c *Ctx) FOp(op Op, w uint8, args ...*Term) *Term {
	return c.intern(Term{op: op, w: w, args: args})
}

// ---- evaluation ----

// Eval evaluates t under a full assignment (by variable index; missing = 0).
func (c *Ctx) Eval(t *Term, m []uint64) uint64 {
	c.gen++
	return c.eval(t, m)
}

func (c *Ctx) eval(t *Term, m []uint64) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.evalGen == c.gen {
		return t.evalVal
	}
	var r uint64
	w := t.w
	A := func(i int) uint64 { return c.eval(t.args[i], m) }
	b2 := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OVar:
		if int(t.val) < len(m) {
			r = m[t.val]
		} else if w > 0 {
			r = t.umin
		}
		if w == 0 {
			r &= 1
		} else {
			r &= mask(w)
		}
	case OLin:
		r = t.val
		for i := range t.args {
			r += t.coef[i] * A(i)
		}
	case OMul:
		r = A(0) * A(1)
	case OUDiv:
		y := A(1)
		if y == 0 {
			r = ^uint64(0)
		} else {
			r = A(0) / y
		}
	case OURem:
		y := A(1)
		if y == 0 {
			r = A(0)
		} else {
			r = A(0) % y
		}
	case OSDiv:
		x, y := sx(A(0), w), sx(A(1), w)
		if y == 0 {
			if x < 0 {
				r = 1
			} else {
				r = ^uint64(0)
			}
		} else if y == -1 {
			r = uint64(-x)
		} else {
			r = uint64(x / y)
		}
	case OSRem:
		x, y := sx(A(0), w), sx(A(1), w)
		if y == 0 {
			r = uint64(x)
		} else if y == -1 {
			r = 0
		} else {
			r = uint64(x % y)
		}
	case OAnd:
		r = A(0) & A(1)
	case OOr:
		r = A(0) | A(1)
	case OXor:
		r = A(0) ^ A(1)
	case OShl:
		s := A(1)
		if s < uint64(w) {
			r = A(0) << s
		}
	case OLshr:
		s := A(1)
		if s < uint64(w) {
			r = A(0) >> s
		}
	case OAshr:
		s := A(1)
		if s > 63 {
			s = 63
		}
		r = uint64(sx(A(0), w) >> s)
	case OIte:
		if A(0) == 1 {
			r = A(1)
		} else {
			r = A(2)
		}
	case OZext, OTrunc:
		r = A(0)
	case OSext:
		r = uint64(sx(A(0), t.args[0].w))
	case OSel:
		i := A(0)
		if i < uint64(len(t.tab)) {
			r = t.tab[i]
		}
	case OEq:
		r = b2(A(0) == A(1))
	case OUlt:
		r = b2(A(0) < A(1))
	case OUle:
		r = b2(A(0) <= A(1))
	case OSlt:
		r = b2(sx(A(0), t.args[0].w) < sx(A(1), t.args[0].w))
	case OSle:
		r = b2(sx(A(0), t.args[0].w) <= sx(A(1), t.args[0].w))
	case OBAnd:
		r = A(0) & A(1)
	case OBOr:
		r = A(0) | A(1)
	case OBNot:
		r = A(0) ^ 1
	case OFFromS:
		r = math.Float64bits(float64(sx(A(0), t.args[0].w)))
	case OFAdd:
		r = math.Float64bits(math.Float64frombits(A(0)) + math.Float64frombits(A(1)))
	case OFSub:
		r = math.Float64bits(math.Float64frombits(A(0)) - math.Float64frombits(A(1)))
	case OFMul:
		r = math.Float64bits(math.Float64frombits(A(0)) * math.Float64frombits(A(1)))
	case OFDiv:
		r = math.Float64bits(math.Float64frombits(A(0)) / math.Float64frombits(A(1)))
	case OFNeg:
		r = math.Float64bits(-math.Float64frombits(A(0)))
	case OFLt:
		r = b2(math.Float64frombits(A(0)) < math.Float64frombits(A(1)))
	case OFLe:
		r = b2(math.Float64frombits(A(0)) <= math.Float64frombits(A(1)))
	case OFEq:
		r = b2(math.Float64frombits(A(0)) == math.Float64frombits(A(1)))
	default:
		panic(fmt.Sprint("eval op ", t.op))
	}
	if w == 0 {
		r &= 1
	} else {
		r &= mask(w)
	}
	t.evalGen, t.evalVal = c.gen, r
	return r
}

// truth returns the truth table of a boolean term over its single <=8-bit variable.
func (c *Ctx) truth(t *Term) *[4]uint64 {
	if t.tt != nil {
		return t.tt
	}
	idx := int(t.uv.val)
	m := make([]uint64, idx+1)
	var tt [4]uint64
	n := 1 << t.uv.w
	if t.uv.w == 0 {
		n = 2
	}
	for v := 0; v < n; v++ {
		if t.uv.w > 0 && (uint64(v) < t.uv.umin || uint64(v) > t.uv.umax) {
			continue
		}
		m[idx] = uint64(v)
		if c.Eval(t, m) == 1 {
			tt[v>>6] |= 1 << (v & 63)
		}
	}
	t.tt = &tt
	return t.tt
}

func (t *Term) String() string { return termString(t, 0) }

var opNames = map[Op]string{OLin: "lin", OMul: "*", OUDiv: "udiv", OURem: "urem", OSDiv: "sdiv", OSRem: "srem", OAnd: "&", OOr: "|", OXor: "^", OShl: "<<", OLshr: ">>u", OAshr: ">>s", OIte: "ite", OZext: "zext", OSext: "sext", OTrunc: "trunc", OSel: "sel", OEq: "=", OUlt: "<u", OSlt: "<s", OBAnd: "and", OBNot: "not", OFFromS: "f64", OFDiv: "f/", OFMul: "f*", OFAdd: "f+", OFSub: "f-", OFLt: "f<", OFLe: "f<=", OFEq: "f=", OFNeg: "fneg"}

func termString(t *Term, d int) string {
	if d > 12 {
		return "..."
	}
	switch t.op {
	case OConst:
		return fmt.Sprint(sx(t.val, t.w))
	case OVar:
		return t.name
	case OLin:
		s := "("
		for i, a := range t.args {
			if i > 0 {
				s += "+"
			}
			s += fmt.Sprintf("%d*%s", sx(t.coef[i], t.w), termString(a, d+1))
		}
		return s + fmt.Sprintf("+%d)", sx(t.val, t.w))
	}
	s := "(" + opNames[t.op]
	for _, a := range t.args {
		s += " " + termString(a, d+1)
	}
	return s + ")"
}

func structHash(t *Term) uint64 {
	h := hmix(uint64(t.op)<<8|uint64(t.w), t.val)
	for _, a := range t.args {
		h = hmix(h, a.sh)
	}
	for _, k := range t.coef {
		h = hmix(h, k)
	}
	for _, v := range t.tab {
		h = hmix(h, v)
	}
	return h
}

// after orders terms independently of the order of their creation, so that every worker
// builds the same terms.
func after(a, b *Term) bool {
	if a.sh != b.sh {
		return a.sh > b.sh
	}
	return a.id > b.id
}
