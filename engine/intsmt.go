package main

// Integer view of terms. A bit-vector term none of whose operations wraps is translated to
// linear integer arithmetic (with div and mod by constants), which solvers decide much faster
// than the equivalent bit-level problem when several variables are added up. The translation
// is only used where interval analysis shows that no operation involved leaves its range, so
// that both readings have the same value for every assignment.

import (
	"fmt"
	"strconv"
	"strings"
)

const (
	ikKnown = 1 << iota
	ikU     // has an exact unsigned integer reading
	ikS     // has an exact signed integer reading
	ikHard  // adds up several variables
)

func (c *Ctx) intKind(t *Term) uint8 {
	if t.ik&ikKnown != 0 {
		return t.ik
	}
	k := c.intKind1(t)
	if t.w > 0 && t.smin >= 0 && k&(ikU|ikS) != 0 {
		k |= ikU | ikS
	}
	hard := uint8(0)
	for _, a := range t.args {
		hard |= c.intKind(a) & ikHard
	}
	if t.op == OLin && len(t.vars) > 1 {
		hard = ikHard
	}
	t.ik = k | hard | ikKnown
	return t.ik
}

func (c *Ctx) intKind1(t *Term) uint8 {
	K := func(i int) uint8 { return c.intKind(t.args[i]) }
	has := func(i int, k uint8) bool { return K(i)&k != 0 }
	constArg := func(i int) bool { return t.args[i].op == OConst }
	switch t.op {
	case OConst:
		return ikU | ikS
	case OVar:
		return ikU
	case OLin:
		args := uint8(ikS | ikU)
		for i := range t.args {
			args &= K(i)
		}
		r := uint8(0)
		if args&ikS != 0 {
			if _, ok := exactS(t); ok {
				r |= ikS
			}
			if _, ok := exactU(t); ok {
				r |= ikU
			}
		}
		return r
	case OZext:
		if has(0, ikU) {
			return ikU | ikS
		}
	case OSext:
		if has(0, ikS) {
			return ikS
		}
	case OTrunc:
		if has(0, ikU) {
			return ikU
		}
	case OUDiv, OURem:
		if has(0, ikU) && constArg(1) && t.args[1].val > 0 {
			return ikU
		}
	case OSDiv, OSRem:
		if has(0, ikS) && constArg(1) && t.args[0].smin >= 0 && sx(t.args[1].val, t.w) > 0 {
			return ikU | ikS
		}
	case OLshr:
		if has(0, ikU) && constArg(1) && t.args[1].val < 62 {
			return ikU
		}
	case OAnd:
		if has(0, ikU) && constArg(1) {
			m := t.args[1].val
			if m != 0 && m < 1<<62 && m&(m+1) == 0 {
				return ikU
			}
		}
	case OIte:
		return c.boolKind(t.args[0]) & K(1) & K(2) & (ikU | ikS)
	case OSel:
		if has(0, ikU) {
			return ikU
		}
	}
	if t.w == 0 {
		return c.boolKind1(t)
	}
	return 0
}

func (c *Ctx) boolKind(t *Term) uint8 { return c.intKind(t) }

func (c *Ctx) boolKind1(t *Term) uint8 {
	both := func(k uint8) bool {
		for _, a := range t.args {
			if c.intKind(a)&k == 0 {
				return false
			}
		}
		return true
	}
	ok := uint8(ikU | ikS)
	switch t.op {
	case OEq:
		if both(ikU) || both(ikS) {
			return ok
		}
	case OUlt:
		if both(ikU) {
			return ok
		}
	case OSlt:
		if both(ikS) {
			return ok
		}
	case OBAnd, OBOr, OBNot, OIte:
		if both(ikU) {
			return ok
		}
	}
	return 0
}

// wantInts says the query is better decided over the integers.
func (s *Solver) wantInts(path []*Term, extra *Term) bool {
	hard := false
	for _, t := range path {
		k := s.ctx.intKind(t)
		if k&ikU == 0 {
			return false
		}
		hard = hard || k&ikHard != 0
	}
	if extra != nil {
		k := s.ctx.intKind(extra)
		if k&ikU == 0 {
			return false
		}
		hard = hard || k&ikHard != 0
	}
	return hard
}

func iconst(v int64) string {
	if v < 0 {
		if v == -v {
			return "(- 9223372036854775808)"
		}
		return fmt.Sprintf("(- %d)", -v)
	}
	return strconv.FormatInt(v, 10)
}

// iref is the SMT name of the signed (or unsigned) integer reading of t.
func (s *Solver) iref(t *Term, signed bool) string {
	if t.op == OConst {
		if t.w == 0 {
			return bv(t.val, 0)
		}
		if signed {
			return iconst(sx(t.val, t.w))
		}
		return strconv.FormatUint(t.val, 10)
	}
	if t.w > 0 && t.smin >= 0 {
		signed = s.ctx.intKind1(t)&ikS != 0 // same value: use the reading there is
	}
	key := ikey{t, signed}
	if n, ok := s.iemit[key]; ok {
		return n
	}
	n := "t" + strconv.Itoa(int(t.id))
	if signed {
		n = "s" + n[1:]
	}
	if t.op == OVar {
		sort := "Int"
		if t.w == 0 {
			sort = "Bool"
		}
		s.send(fmt.Sprintf("(declare-const %s %s)\n", n, sort))
	} else {
		b := s.ibody(t, signed)
		sort := "Int"
		if t.w == 0 {
			sort = "Bool"
		}
		s.send(fmt.Sprintf("(define-fun %s () %s %s)\n", n, sort, b))
	}
	s.iemit[key] = n
	return n
}

type ikey struct {
	t      *Term
	signed bool
}

func (s *Solver) ibody(t *Term, signed bool) string {
	U := func(i int) string { return s.iref(t.args[i], false) }
	S := func(i int) string { return s.iref(t.args[i], true) }
	switch t.op {
	case OLin:
		var parts []string
		kc, ok := exactU(t)
		if signed {
			kc, ok = exactS(t)
		}
		if !ok {
			panic("inexact sum over the integers")
		}
		for i := range t.args {
			k := sx(t.coef[i], t.w)
			if k == 1 {
				parts = append(parts, S(i))
			} else {
				parts = append(parts, "(* "+iconst(k)+" "+S(i)+")")
			}
		}
		if kc.Sign() > 0 {
			parts = append(parts, kc.String())
		} else if kc.Sign() < 0 {
			parts = append(parts, "(- "+kc.String()[1:]+")")
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(+ " + strings.Join(parts, " ") + ")"
	case OZext:
		return U(0)
	case OSext:
		return S(0)
	case OTrunc:
		if t.args[0].umax <= mask(t.w) {
			return U(0)
		}
		return fmt.Sprintf("(mod %s %d)", U(0), mask(t.w)+1)
	case OUDiv, OSDiv:
		return fmt.Sprintf("(div %s %d)", U(0), t.args[1].val)
	case OURem, OSRem:
		return fmt.Sprintf("(mod %s %d)", U(0), t.args[1].val)
	case OLshr:
		return fmt.Sprintf("(div %s %d)", U(0), uint64(1)<<t.args[1].val)
	case OAnd:
		return fmt.Sprintf("(mod %s %d)", U(0), t.args[1].val+1)
	case OIte:
		if t.w > 0 && signed {
			return "(ite " + U(0) + " " + S(1) + " " + S(2) + ")"
		}
		return "(ite " + U(0) + " " + U(1) + " " + U(2) + ")"
	case OSel:
		runs := selRuns(t)
		ix := U(0)
		e := strconv.FormatUint(runs[len(runs)-1].v, 10)
		for i := len(runs) - 2; i >= 0; i-- {
			e = fmt.Sprintf("(ite (< %s %d) %d %s)", ix, runs[i+1].start, runs[i].v, e)
		}
		return e
	case OEq, OUlt, OSlt:
		op := "="
		if t.op != OEq {
			op = "<"
		}
		if t.args[0].w == 0 || t.op == OUlt || t.op == OEq && s.ctx.intKind(t.args[0])&s.ctx.intKind(t.args[1])&ikU != 0 {
			return "(" + op + " " + U(0) + " " + U(1) + ")"
		}
		return "(" + op + " " + S(0) + " " + S(1) + ")"
	case OBAnd:
		return "(and " + U(0) + " " + U(1) + ")"
	case OBOr:
		return "(or " + U(0) + " " + U(1) + ")"
	case OBNot:
		return "(not " + U(0) + ")"
	}
	panic(fmt.Sprint("integer reading of op ", t.op))
}

func (s *Solver) iassert(t *Term) {
	n := s.iref(t, false)
	for _, v := range t.vars {
		x := s.ctx.vars[v]
		if x.w > 0 {
			s.send(fmt.Sprintf("(assert (<= %d %s %d))\n", x.umin, s.iref(x, false), x.umax))
		}
	}
	s.send("(assert " + n + ")\n")
}

type selRun struct {
	start uint64
	v     uint64
}

// selRuns gives the runs of equal values of a table lookup.
func selRuns(t *Term) []selRun {
	idx := t.args[0]
	n := len(t.tab)
	hi := uint64(n - 1)
	if idx.umax < hi {
		hi = idx.umax
	}
	var runs []selRun
	for i := uint64(0); i <= hi; i++ {
		if len(runs) == 0 || runs[len(runs)-1].v != t.tab[i] {
			runs = append(runs, selRun{i, t.tab[i]})
		}
	}
	if idx.umax >= uint64(n) {
		runs = append(runs, selRun{uint64(n), 0})
	}
	return runs
}
