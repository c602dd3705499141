package main

// SMT-LIB2 back end: one long-lived solver process per worker, terms defined once with
// global declarations, path constraints pushed incrementally.

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Sat SatResult = iota
	Unsat
	Unknown
)

func (r SatResult) String() string { return [...]string{"sat", "unsat", "unknown"}[r] }

var (
	slowDump = os.Getenv("VERIF_SLOW")
	noInts   = os.Getenv("VERIF_NOINTS") != "" // development: decide everything over bit-vectors
)

type Solver struct {
	ctx     *Ctx
	argv    []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	gen     uint32 // process generation: terms emitted into it carry this mark
	stack   []*Term
	timeout time.Duration
	dump    *bytes.Buffer // if set, records a self-contained transcript

	Queries   int
	SatN      int
	UnsatN    int
	UnknownN  int
	IntN      int // decided over the integers
	Time      time.Duration
	MaxTime   time.Duration
	ErrLines  []string
	fpUsed    bool
	lastPath  []*Term
	lastExtra *Term
	ints      *Solver // decides queries over the integers
	isInt     bool
	iemit     map[ikey]string
}

func newSolver(ctx *Ctx, argv []string, timeout time.Duration) *Solver {
	s := &Solver{ctx: ctx, argv: argv, timeout: timeout}
	s.start()
	return s
}

func (s *Solver) start() {
	s.gen++
	s.stack = nil
	s.iemit = map[ikey]string{}
	s.cmd = exec.Command(s.argv[0], s.argv[1:]...)
	var err error
	s.inPipe, err = s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(s.inPipe, 1<<16)
	s.out = bufio.NewReaderSize(o, 1<<16)
	s.send("(set-option :print-success false)\n")
	s.send("(set-option :global-declarations true)\n")
	if strings.Contains(s.argv[0], "z3") {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout.Milliseconds()))
	} else {
		s.send("(set-option :produce-models true)\n")
		s.send("(set-logic ALL)\n")
	}
}

func (s *Solver) kill() {
	if c := s.cmd; c != nil && c.Process != nil {
		c.Process.Kill()
	}
}

func (s *Solver) close() {
	if s.ints != nil {
		s.ints.close()
	}
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// reset forgets everything and serves another term context.
func (s *Solver) reset(ctx *Ctx) {
	s.close()
	s.ctx = ctx
	if s.ints != nil {
		s.ints.reset(ctx)
	}
	s.start()
}

func (s *Solver) send(x string) {
	s.in.WriteString(x)
	if s.dump != nil {
		s.dump.WriteString(x)
	}
}

func bv(v uint64, w uint8) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w)/4, v&mask(w))
	}
	return fmt.Sprintf("#b%0*b", int(w), v&mask(w))
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// ref returns the SMT name of a term, sending its definition first if needed.
func (s *Solver) ref(t *Term) string {
	if t.op == OConst {
		return bv(t.val, t.w)
	}
	if t.emitted == s.gen {
		return "t" + strconv.Itoa(int(t.id))
	}
	name := "t" + strconv.Itoa(int(t.id))
	if t.op == OVar {
		t.emitted = s.gen
		s.send(fmt.Sprintf("(declare-const %s %s)\n", name, sortOf(t.w)))
		if t.w > 0 && (t.umin > 0 || t.umax < mask(t.w)) {
			// Range: part of every query. Asserted at base level via a named pending list.
			s.rangeAssert(t, name)
		}
		return name
	}
	body := s.body(t)
	t.emitted = s.gen
	s.send(fmt.Sprintf("(define-fun %s () %s %s)\n", name, sortOf(t.w), body))
	return name
}

// rangeAssert: assertions made inside a push are lost on pop, so declare the bounded variable
// through a definition that maps every bit pattern into the range is not value preserving;
// instead we assert the range together with each constraint that mentions the variable.
func (s *Solver) rangeAssert(t *Term, name string) {}

func (s *Solver) rangeOf(t *Term) string {
	n := s.ref(t)
	return fmt.Sprintf("(and (bvuge %s %s) (bvule %s %s))", n, bv(t.umin, t.w), n, bv(t.umax, t.w))
}

func bitsFor(lo, hi int64) uint8 { // signed width
	n := uint8(1)
	for n < 64 {
		if lo >= -(int64(1)<<(n-1)) && hi <= int64(1)<<(n-1)-1 {
			return n
		}
		n++
	}
	return 64
}

// low returns an expression for the low k bits of t.
func (s *Solver) low(t *Term, k uint8) string {
	if k == t.w {
		return s.ref(t)
	}
	switch t.op {
	case OConst:
		return bv(t.val, k)
	case OZext:
		in := t.args[0]
		if in.w == k {
			return s.ref(in)
		}
		if in.w < k {
			return fmt.Sprintf("((_ zero_extend %d) %s)", k-in.w, s.ref(in))
		}
		return s.low(in, k)
	case OSext:
		in := t.args[0]
		if in.w == k {
			return s.ref(in)
		}
		if in.w < k {
			return fmt.Sprintf("((_ sign_extend %d) %s)", k-in.w, s.ref(in))
		}
		return s.low(in, k)
	case OLin:
		return s.linAt(t, k)
	case OIte:
		return fmt.Sprintf("(ite %s %s %s)", s.ref(t.args[0]), s.low(t.args[1], k), s.low(t.args[2], k))
	}
	return fmt.Sprintf("((_ extract %d 0) %s)", k-1, s.ref(t))
}

func (s *Solver) linAt(t *Term, k uint8) string {
	var parts []string
	for i, a := range t.args {
		x := s.low(a, k)
		co := t.coef[i] & mask(k)
		switch {
		case co == 0:
			continue
		case co == 1:
			parts = append(parts, x)
		case co == mask(k):
			parts = append(parts, "(bvneg "+x+")")
		default:
			parts = append(parts, fmt.Sprintf("(bvmul %s %s)", bv(co, k), x))
		}
	}
	if t.val&mask(k) != 0 {
		parts = append(parts, bv(t.val, k))
	}
	if len(parts) == 0 {
		return bv(0, k)
	}
	e := parts[0]
	for _, p := range parts[1:] {
		e = "(bvadd " + e + " " + p + ")"
	}
	return e
}

func (s *Solver) body(t *Term) string {
	w := t.w
	R := func(i int) string { return s.ref(t.args[i]) }
	bin := func(op string) string { return "(" + op + " " + R(0) + " " + R(1) + ")" }
	fp := func(i int) string { return "((_ to_fp 11 53) " + R(i) + ")" }
	switch t.op {
	case OLin:
		k := bitsFor(t.smin, t.smax)
		if linExactSigned(t) && k < w {
			e := s.linAt(t, k)
			return fmt.Sprintf("((_ sign_extend %d) %s)", w-k, e)
		}
		return s.linAt(t, w)
	case OMul:
		return bin("bvmul")
	case OUDiv, OURem:
		op := "bvudiv"
		if t.op == OURem {
			op = "bvurem"
		}
		hi := t.args[0].umax
		if t.args[1].umax > hi {
			hi = t.args[1].umax
		}
		k := uint8(1)
		for k < w && hi > mask(k) {
			k++
		}
		if k < w {
			return fmt.Sprintf("((_ zero_extend %d) (%s %s %s))", w-k, op, s.low(t.args[0], k), s.low(t.args[1], k))
		}
		return bin(op)
	case OSDiv:
		return bin("bvsdiv")
	case OSRem:
		return bin("bvsrem")
	case OAnd:
		return bin("bvand")
	case OOr:
		return bin("bvor")
	case OXor:
		return bin("bvxor")
	case OShl:
		return bin("bvshl")
	case OLshr:
		return bin("bvlshr")
	case OAshr:
		return bin("bvashr")
	case OIte:
		return "(ite " + R(0) + " " + R(1) + " " + R(2) + ")"
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", w-t.args[0].w, R(0))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", w-t.args[0].w, R(0))
	case OTrunc:
		return s.low(t.args[0], w)
	case OSel:
		// runs of equal values
		idx := t.args[0]
		ix := R(0)
		runs := selRuns(t)
		e := bv(runs[len(runs)-1].v, w)
		for i := len(runs) - 2; i >= 0; i-- {
			e = fmt.Sprintf("(ite (bvult %s %s) %s %s)", ix, bv(runs[i+1].start, idx.w), bv(runs[i].v, w), e)
		}
		return e
	case OEq, OUlt, OSlt:
		a, b := t.args[0], t.args[1]
		op := map[Op]string{OEq: "=", OUlt: "bvult", OSlt: "bvslt"}[t.op]
		if a.w > 1 {
			k := bitsFor(min64(a.smin, b.smin), max64(a.smax, b.smax))
			if t.op == OUlt {
				hi := a.umax
				if b.umax > hi {
					hi = b.umax
				}
				k = 1
				for k < a.w && hi > mask(k) {
					k++
				}
			}
			if k < a.w {
				return fmt.Sprintf("(%s %s %s)", op, s.low(a, k), s.low(b, k))
			}
		}
		return bin(op)
	case OBAnd:
		return bin("and")
	case OBOr:
		return bin("or")
	case OBNot:
		return "(not " + R(0) + ")"
	case OFFromS:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp 11 53) RNE %s))", R(0))
	case OFAdd, OFSub, OFMul, OFDiv:
		op := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[t.op]
		return fmt.Sprintf("(fp.to_ieee_bv (%s RNE %s %s))", op, fp(0), fp(1))
	case OFNeg:
		return fmt.Sprintf("(fp.to_ieee_bv (fp.neg %s))", fp(0))
	case OFLt:
		return fmt.Sprintf("(fp.lt %s %s)", fp(0), fp(1))
	case OFLe:
		return fmt.Sprintf("(fp.leq %s %s)", fp(0), fp(1))
	case OFEq:
		return fmt.Sprintf("(fp.eq %s %s)", fp(0), fp(1))
	}
	panic(fmt.Sprint("emit op ", t.op))
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func (s *Solver) assertTerm(t *Term) {
	if s.isInt {
		s.iassert(t)
		return
	}
	n := s.ref(t)
	for _, v := range t.vars {
		x := s.ctx.vars[v]
		if x.w > 0 && (x.umin > 0 || x.umax < mask(x.w)) {
			r := s.rangeOf(x)
			s.send("(assert " + r + ")\n")
		}
	}
	s.send("(assert " + n + ")\n")
}

// sync makes the solver's assertion stack equal to path.
func (s *Solver) sync(path []*Term) {
	n := 0
	for n < len(path) && n < len(s.stack) && path[n] == s.stack[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", k))
		s.stack = s.stack[:n]
	}
	for ; n < len(path); n++ {
		s.send("(push 1)\n")
		s.assertTerm(path[n])
		s.stack = append(s.stack, path[n])
	}
}

// Check decides path ∧ extra. If sat and wantModel, the model is returned by variable index.
func (s *Solver) Check(path []*Term, extra *Term, wantModel bool) (SatResult, []uint64) {
	if !s.isInt && !noInts && s.wantInts(path, extra) {
		if s.ints == nil {
			s.ints = &Solver{ctx: s.ctx, argv: s.argv, timeout: s.timeout, isInt: true}
			s.ints.start()
		}
		t0 := time.Now()
		s.ints.IntN = 0
		r, m := s.ints.Check(path, extra, wantModel)
		s.lastPath, s.lastExtra = nil, nil
		s.ErrLines = append(s.ErrLines, s.ints.ErrLines...)
		s.ints.ErrLines = nil
		if r != Unknown {
			s.IntN++
			s.count(r, t0)
			return r, m
		}
	}
	if s.cmd == nil {
		s.start()
	}
	if slowDump != "" {
		s.lastPath, s.lastExtra = path, extra
	}
	s.sync(path)
	t0 := time.Now()
	defer time.AfterFunc(s.timeout+s.timeout/2+2*time.Second, s.kill).Stop()
	if extra != nil {
		s.send("(push 1)\n")
		s.assertTerm(extra)
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	r := Unknown
	line := s.readLine()
	switch line {
	case "sat":
		r = Sat
	case "unsat":
		r = Unsat
	case "unknown", "timeout":
	default:
		if !strings.Contains(line, "EOF") {
			s.ErrLines = append(s.ErrLines, line)
		}
		r = Unknown
		// restart to be safe
		s.close()
		s.start()
		s.count(r, t0)
		return r, nil
	}
	var m []uint64
	if r == Sat && wantModel {
		m = s.model(path, extra)
	}
	if extra != nil {
		s.send("(pop 1)\n")
	}
	s.count(r, t0)
	return r, m
}

func (s *Solver) count(r SatResult, t0 time.Time) {
	d := time.Since(t0)
	if slowDump != "" && d > 2*time.Second && s.lastPath != nil {
		var sb strings.Builder
		fmt.Fprintf(&sb, "; %v %v\n", r, d)
		for _, t := range s.lastPath {
			fmt.Fprintf(&sb, "%s\n", t)
		}
		fmt.Fprintf(&sb, "EXTRA %v\n", s.lastExtra)
		s.smtDump(fmt.Sprintf("%s/slow-%d-%d.smt2", slowDump, os.Getpid(), s.Queries))
		os.WriteFile(fmt.Sprintf("%s/slow-%d-%d.txt", slowDump, os.Getpid(), s.Queries), []byte(sb.String()), 0o644)
	}
	s.Queries++
	s.Time += d
	if d > s.MaxTime {
		s.MaxTime = d
	}
	switch r {
	case Sat:
		s.SatN++
	case Unsat:
		s.UnsatN++
	default:
		s.UnknownN++
	}
}

func (s *Solver) readLine() string {
	line, err := s.out.ReadString('\n')
	if err != nil {
		return "(error " + err.Error() + ")"
	}
	return strings.TrimSpace(line)
}

func (s *Solver) model(path []*Term, extra *Term) []uint64 {
	need := map[int32]bool{}
	for _, p := range path {
		for _, v := range p.vars {
			need[v] = true
		}
	}
	if extra != nil {
		for _, v := range extra.vars {
			need[v] = true
		}
	}
	m := make([]uint64, len(s.ctx.vars))
	for i, v := range s.ctx.vars { // default value inside the range
		m[i] = v.umin
		if v.w == 0 {
			m[i] = 0
		}
	}
	if len(need) == 0 {
		return m
	}
	var ids []int32
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for i := range s.ctx.vars {
		if need[int32(i)] {
			ids = append(ids, int32(i))
			sb.WriteString(" t" + strconv.Itoa(int(s.ctx.vars[i].id)))
		}
	}
	sb.WriteString("))\n")
	s.in.WriteString(sb.String())
	s.in.Flush()
	// read a balanced s-expression
	depth := 0
	var buf []byte
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			panic("solver died in get-value")
		}
		buf = append(buf, b)
		if b == '(' {
			depth++
		} else if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	s.out.ReadString('\n')
	txt := string(buf)
	if strings.HasPrefix(txt, "(error") {
		panic("solver: " + txt)
	}
	var err error
	for _, id := range ids {
		key := "(t" + strconv.Itoa(int(s.ctx.vars[id].id)) + " "
		i := strings.Index(txt, key)
		if i < 0 {
			panic("no value for " + key)
		}
		rest := txt[i+len(key):]
		j := strings.IndexByte(rest, ')')
		v := strings.TrimSpace(rest[:j])
		switch {
		case v == "true":
			m[id] = 1
		case v == "false":
			m[id] = 0
		case strings.HasPrefix(v, "#x"):
			m[id], _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			m[id], _ = strconv.ParseUint(v[2:], 2, 64)
		case s.isInt:
			m[id], err = strconv.ParseUint(v, 10, 64)
			if err != nil {
				panic("model value " + v)
			}
		default:
			panic("model value " + v)
		}
	}
	return m
}

// smtDump writes the last query as a file of its own.
func (s *Solver) smtDump(file string) {
	d := &Solver{ctx: s.ctx, argv: s.argv, gen: s.gen + 1<<30, dump: &bytes.Buffer{}, in: bufio.NewWriter(io.Discard)}
	d.send("(set-logic QF_BV)\n")
	for _, p := range s.lastPath {
		d.assertTerm(p)
	}
	if s.lastExtra != nil {
		d.assertTerm(s.lastExtra)
	}
	d.send("(check-sat)\n")
	os.WriteFile(file, d.dump.Bytes(), 0o644)
	s.close()
	s.start()
}
