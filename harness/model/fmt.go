package model

import (
	"io"
	"strings"
	"unicode/utf8"

	"verif/harness/sym"
)

type stringer interface{ String() string }

func fmt__Sprintf(f string, a ...any) string { return Sprintf(f, a...) }
func fmt__Sprint(a ...any) string            { return Sprint(a...) }
func fmt__Sprintln(a ...any) string          { return Sprintln(a...) }
func fmt__Printf(f string, a ...any) (int, error) {
	s := Sprintf(f, a...)
	stdout = append(stdout, s...)
	return len(s), nil
}
func fmt__Print(a ...any) (int, error) {
	s := Sprint(a...)
	stdout = append(stdout, s...)
	return len(s), nil
}
func fmt__Println(a ...any) (int, error) {
	s := Sprintln(a...)
	stdout = append(stdout, s...)
	return len(s), nil
}
func fmt__Fprintf(w io.Writer, f string, a ...any) (int, error) {
	return w.Write([]byte(Sprintf(f, a...)))
}
func fmt__Fprint(w io.Writer, a ...any) (int, error)   { return w.Write([]byte(Sprint(a...))) }
func fmt__Fprintln(w io.Writer, a ...any) (int, error) { return w.Write([]byte(Sprintln(a...))) }
func fmt__Appendf(b []byte, f string, a ...any) []byte { return append(b, Sprintf(f, a...)...) }
func fmt__Append(b []byte, a ...any) []byte            { return append(b, Sprint(a...)...) }
func fmt__Appendln(b []byte, a ...any) []byte          { return append(b, Sprintln(a...)...) }

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

type plainError struct{ msg string }

func (e *plainError) Error() string { return e.msg }

type wrapErrors struct {
	msg  string
	errs []error
}

func (e *wrapErrors) Error() string   { return e.msg }
func (e *wrapErrors) Unwrap() []error { return e.errs }

func fmt__Errorf(f string, a ...any) error {
	p := &printer{}
	p.printf(f, a)
	switch len(p.wrapped) {
	case 0:
		return &plainError{string(p.buf)}
	case 1:
		return &wrapError{string(p.buf), p.wrapped[0]}
	}
	return &wrapErrors{string(p.buf), p.wrapped}
}

func Sprintf(f string, a ...any) string {
	p := &printer{}
	p.printf(f, a)
	return string(p.buf)
}

func Sprintln(a ...any) string {
	p := &printer{}
	for i, x := range a {
		if i > 0 {
			p.buf = append(p.buf, ' ')
		}
		p.arg(x, 'v')
	}
	p.buf = append(p.buf, '\n')
	return string(p.buf)
}

func Sprint(a ...any) string {
	p := &printer{}
	prev := false
	for i, x := range a {
		s := Kind(x) == 5
		if i > 0 && !s && !prev {
			p.buf = append(p.buf, ' ')
		}
		p.arg(x, 'v')
		prev = s
	}
	return string(p.buf)
}

type printer struct {
	buf                             []byte
	minus, plus, sharp, space, zero bool
	wid, prec                       int
	hasWid, hasPrec                 bool
	plusV, raw                      bool
	depth                           int
	wrapped                         []error
}

func (p *printer) printf(f string, a []any) {
	n := 0
	reordered := false
	for i := 0; i < len(f); {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			p.buf = append(p.buf, f[i:j]...)
			i = j
			continue
		}
		i++
		p.minus, p.plus, p.sharp, p.space, p.zero = false, false, false, false, false
		p.hasWid, p.hasPrec, p.wid, p.prec = false, false, 0, 0
	flags:
		for ; i < len(f); i++ {
			switch f[i] {
			case '-':
				p.minus = true
				p.zero = false
			case '+':
				p.plus = true
			case '#':
				p.sharp = true
			case ' ':
				p.space = true
			case '0':
				p.zero = !p.minus
			default:
				break flags
			}
		}
		if i < len(f) && f[i] == '[' {
			k := 0
			for i++; i < len(f) && f[i] >= '0' && f[i] <= '9'; i++ {
				k = k*10 + int(f[i]-'0')
			}
			if i >= len(f) || f[i] != ']' || k < 1 || k > len(a) {
				Unsupported("argument index in a format")
			}
			i++
			n = k - 1
			reordered = true
		}
		if i < len(f) && f[i] == '*' {
			i++
			if n < len(a) && Kind(a[n]) == 2 {
				p.wid = int(AsInt(a[n]))
				p.hasWid = true
				if p.wid < 0 {
					p.wid = -p.wid
					p.minus = true
					p.zero = false
				}
			} else {
				p.buf = append(p.buf, "%!(BADWIDTH)"...)
			}
			n++
		} else {
			for i < len(f) && f[i] >= '0' && f[i] <= '9' {
				p.wid = p.wid*10 + int(f[i]-'0')
				p.hasWid = true
				i++
			}
		}
		if i < len(f) && f[i] == '.' {
			i++
			p.hasPrec = true
			if i < len(f) && f[i] == '*' {
				i++
				if n < len(a) && Kind(a[n]) == 2 {
					p.prec = int(AsInt(a[n]))
					if p.prec < 0 {
						p.prec = 0
						p.hasPrec = false
					}
				} else {
					p.buf = append(p.buf, "%!(BADPREC)"...)
				}
				n++
			} else {
				for i < len(f) && f[i] >= '0' && f[i] <= '9' {
					p.prec = p.prec*10 + int(f[i]-'0')
					i++
				}
			}
		}
		if i >= len(f) {
			p.buf = append(p.buf, "%!(NOVERB)"...)
			break
		}
		verb, size := utf8.DecodeRuneInString(f[i:])
		i += size
		if verb == '%' {
			p.buf = append(p.buf, '%')
			continue
		}
		if n >= len(a) {
			p.buf = append(p.buf, "%!"...)
			p.buf = append(p.buf, string(verb)...)
			p.buf = append(p.buf, "(MISSING)"...)
			continue
		}
		x := a[n]
		n++
		if verb == 'w' {
			if e, ok := x.(error); ok {
				p.wrapped = append(p.wrapped, e)
			}
			verb = 'v'
		}
		p.plusV = verb == 'v' && p.plus
		if p.plusV {
			p.plus = false
		}
		p.arg(x, verb)
		p.plusV = false
	}
	if !reordered && n < len(a) {
		p.buf = append(p.buf, "%!(EXTRA "...)
		p.hasWid, p.hasPrec = false, false
		for i := n; i < len(a); i++ {
			if i > n {
				p.buf = append(p.buf, ", "...)
			}
			if a[i] == nil {
				p.buf = append(p.buf, "<nil>"...)
				continue
			}
			p.buf = append(p.buf, TypeName(a[i])...)
			p.buf = append(p.buf, '=')
			p.arg(a[i], 'v')
		}
		p.buf = append(p.buf, ')')
	}
}

// pad appends s padded to the width, counted in runes.
func (p *printer) pad(s string) {
	if !p.hasWid || p.wid == 0 {
		p.buf = append(p.buf, s...)
		return
	}
	k := p.wid - utf8.RuneCountInString(s)
	if !p.minus {
		c := byte(' ')
		if p.zero {
			c = '0'
		}
		for ; k > 0; k-- {
			p.buf = append(p.buf, c)
		}
	}
	p.buf = append(p.buf, s...)
	for ; k > 0; k-- {
		p.buf = append(p.buf, ' ')
	}
}

func (p *printer) str(s string, verb rune) {
	switch verb {
	case 'v', 's':
		if p.hasPrec {
			n := 0
			for i := range s {
				if n == p.prec {
					s = s[:i]
					break
				}
				n++
			}
		}
		if p.sharp && verb == 'v' {
			p.pad(quote(s))
			return
		}
		p.pad(s)
	case 'q':
		p.pad(quote(s))
	case 'x', 'X':
		h := "0123456789abcdef"
		if verb == 'X' {
			h = "0123456789ABCDEF"
		}
		var b []byte
		for i := 0; i < len(s); i++ {
			b = append(b, h[s[i]>>4], h[s[i]&15])
		}
		p.pad(string(b))
	default:
		p.bad(verb, "string="+s)
	}
}

func (p *printer) bad(verb rune, what string) {
	p.buf = append(p.buf, "%!"...)
	p.buf = append(p.buf, string(verb)...)
	p.buf = append(p.buf, '(')
	p.buf = append(p.buf, what...)
	p.buf = append(p.buf, ')')
}

func strconv__Quote(s string) string { return quote(s) }
func time__quote(s string) string    { return quote(s) }

func anySym(s string) bool {
	for i := 0; i < len(s); i++ {
		if IsSym(s[i]) {
			return true
		}
	}
	return false
}

// quote of a symbolic text leaves its special characters alone (error messages only); the
// run is marked so that its output is not compared byte by byte with a native run.
func quote(s string) string {
	if anySym(s) {
		sym.Cover("inexact quote")
		return "\"" + s + "\""
	}
	b := []byte{'"'}
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"' || c == '\\':
			b = append(b, '\\', c)
		case c == '\n':
			b = append(b, '\\', 'n')
		case c == '\t':
			b = append(b, '\\', 't')
		case c == '\r':
			b = append(b, '\\', 'r')
		case c < ' ' || c == 127:
			const h = "0123456789abcdef"
			b = append(b, '\\', 'x', h[c>>4], h[c&15])
		case c > 127:
			sym.Cover("inexact quote")
			b = append(b, c)
		default:
			b = append(b, c)
		}
	}
	return string(append(b, '"'))
}

// Decimal writes |x| of a possibly symbolic integer.
func Decimal(x int64) string {
	if !IsSym(x) {
		return FormatInt(x)
	}
	neg := x < 0
	u := uint64(x)
	if neg {
		u = -u
	}
	s := udecimal(u)
	if neg {
		return "-" + s
	}
	return s
}

func udecimal(u uint64) string {
	n := 1
	for lim := uint64(10); n < 20; n++ {
		if u < lim {
			break
		}
		if n == 19 {
			n = 20
			break
		}
		lim *= 10
	}
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		q := u / 10
		b[i] = byte('0' + (u - q*10))
		u = q
	}
	return string(b)
}

func strconv__FormatInt(i int64, base int) string {
	if base != 10 {
		if IsSym(i) {
			i = int64(sym.Conc(int(i)))
		}
		return formatBase(uint64(abs(i)), i < 0, base)
	}
	return Decimal(i)
}

func abs(i int64) int64 {
	if i < 0 {
		return -i
	}
	return i
}

func formatBase(u uint64, neg bool, base int) string {
	const d = "0123456789abcdefghijklmnopqrstuvwxyz"
	var b []byte
	for {
		b = append(b, d[u%uint64(base)])
		u /= uint64(base)
		if u == 0 {
			break
		}
	}
	if neg {
		b = append(b, '-')
	}
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return string(b)
}

func strconv__Itoa(i int) string { return Decimal(int64(i)) }
func strconv__FormatUint(u uint64, base int) string {
	if base != 10 {
		if IsSym(u) {
			u = uint64(sym.Conc(int(u)))
		}
		return formatBase(u, false, base)
	}
	return udecimal(u)
}
func strconv__AppendInt(b []byte, i int64, base int) []byte {
	return append(b, strconv__FormatInt(i, base)...)
}
func strconv__AppendUint(b []byte, i uint64, base int) []byte {
	return append(b, strconv__FormatUint(i, base)...)
}
func strconv__FormatFloat(f float64, c byte, prec, bits int) string {
	if c == 'f' && prec == 2 {
		return float2(f)
	}
	return FormatFloat(f, c, prec)
}

// float2 is %.2f: exact when f is an integer number of hundredths below 2^51.
func float2(f float64) string {
	if !IsSym(f) {
		return FormatFloat(f, 'f', 2)
	}
	q, ok := CentsOf(f)
	if !ok {
		return FormatFloat(f, 'f', 2)
	}
	neg := q < 0
	if neg {
		q = -q
	}
	w := q / 100
	c := q - w*100
	t := c / 10
	s := udecimal(uint64(w)) + "." + string([]byte{byte('0' + t), byte('0' + (c - t*10))})
	if neg {
		return "-" + s
	}
	return s
}

func (p *printer) signed(s string) string {
	if p.plus && s[0] != '-' {
		s = "+" + s
	} else if p.space && s[0] != '-' {
		s = " " + s
	}
	return s
}

// num pads a number; zeros go after the sign.
func (p *printer) num(s string) {
	if p.zero && p.hasWid && len(s) > 0 && (s[0] == '-' || s[0] == '+' || s[0] == ' ') {
		p.buf = append(p.buf, s[0])
		w := p.wid
		p.wid--
		p.pad(s[1:])
		p.wid = w
		return
	}
	p.pad(s)
}

func (p *printer) integer(i int64, u bool, verb rune) {
	switch verb {
	case 'v', 'd':
		var s string
		if u {
			s = udecimal(uint64(i))
		} else {
			s = Decimal(i)
		}
		if p.hasPrec {
			neg := s[0] == '-'
			if neg {
				s = s[1:]
			}
			for len(s) < p.prec {
				s = "0" + s
			}
			if neg {
				s = "-" + s
			}
			z := p.zero
			p.zero = false
			p.num(p.signed(s))
			p.zero = z
			return
		}
		p.num(p.signed(s))
	case 'c':
		p.pad(string(rune(i)))
	case 'q':
		p.pad("'" + string(rune(i)) + "'")
	case 'x', 'o', 'b', 'X':
		i = int64(sym.Conc(int(i)))
		base := 16
		if verb == 'o' {
			base = 8
		} else if verb == 'b' {
			base = 2
		} else if verb == 'X' {
			Unsupported("%X")
		}
		p.num(p.signed(formatBase(uint64(abs(i)), i < 0, base)))
	case 'U':
		Unsupported("%U")
	default:
		p.bad(verb, "int="+Decimal(i))
	}
}

func (p *printer) float(f float64, verb rune) {
	prec := -1
	c := byte(verb)
	switch verb {
	case 'v':
		c = 'g'
	case 'f', 'F', 'e':
		prec = 6
		if verb == 'F' {
			c = 'f'
		}
	case 'g':
	default:
		Unsupported("float verb")
	}
	if p.hasPrec {
		prec = p.prec
	}
	var s string
	if c == 'f' && prec == 2 {
		s = float2(f)
	} else if c == 'f' && prec == 0 {
		if q, ok := IntOfFloat(f); ok {
			s = Decimal(q)
		} else {
			s = FormatFloat(f, c, prec)
		}
	} else {
		s = FormatFloat(f, c, prec)
	}
	if verb == 'v' && prec == -1 { // the shortest form, with another threshold for exponents
		f = ConcFloat(f)
		e := FormatFloat(f, 'e', -1)
		if i := strings.IndexByte(e, 'e'); i > 0 {
			x := 0
			for _, d := range e[i+2:] {
				x = 10*x + int(d-'0')
			}
			if e[i+1] == '-' {
				x = -x
			}
			s = e
			if x >= -4 && x < 21 {
				s = FormatFloat(f, 'f', -1)
			}
		}
	}
	if s == "+Inf" || s == "-Inf" || s == "NaN" {
		if s == "+Inf" && !p.plus {
			s = "+Inf"
		}
		z := p.zero
		p.zero = false
		p.pad(s)
		p.zero = z
		return
	}
	p.num(p.signed(s))
}

func (p *printer) arg(x any, verb rune) {
	k := Kind(x)
	if k == 0 {
		if verb == 'T' || verb == 'v' {
			p.pad("<nil>")
		} else {
			p.bad(verb, "<nil>")
		}
		return
	}
	if verb == 'T' {
		p.pad(TypeName(x))
		return
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X' {
		if !p.sharp && !p.raw {
			if e, ok := x.(error); ok {
				p.method(x, e.Error, verb)
				return
			}
			if s, ok := x.(stringer); ok {
				p.method(x, s.String, verb)
				return
			}
		}
	}
	switch k {
	case 1:
		if verb != 'v' && verb != 't' {
			p.bad(verb, "bool")
			return
		}
		if AsBool(x) {
			p.pad("true")
		} else {
			p.pad("false")
		}
	case 2:
		p.integer(AsInt(x), false, verb)
	case 3:
		p.integer(AsInt(x), true, verb)
	case 4:
		p.float(AsFloat(x), verb)
	case 5:
		p.str(AsString(x), verb)
	case 6:
		if verb == 's' {
			p.str(string(AsBytes(x)), verb)
			return
		}
		fallthrough
	case 8:
		if verb == 'p' {
			Unsupported("%p")
		}
		p.buf = append(p.buf, '[')
		for i := 0; i < SliceLen(x); i++ {
			if i > 0 {
				p.buf = append(p.buf, ' ')
			}
			p.arg(SliceElem(x, i), verb)
		}
		p.buf = append(p.buf, ']')
	default:
		p.shape(x, verb)
	}
}

// shape writes structs, arrays, maps and pointers to them.
func (p *printer) shape(x any, verb rune) {
	k := Shape(x)
	if k == 4 && verb == 'p' || p.sharp {
		Unsupported("formatting of " + TypeName(x))
	}
	if k != 3 && IsNilPtr(x) {
		p.pad("<nil>")
		return
	}
	if k == 0 || k == 4 && p.depth > 0 {
		Unsupported("formatting of " + TypeName(x))
	}
	p.depth++
	l := Parts(x)
	switch k {
	case 1:
		p.buf = append(p.buf, '{')
		raw := p.raw
		for i, e := range l {
			if i > 0 {
				p.buf = append(p.buf, ' ')
			}
			n := PartName(x, i)
			if p.plusV {
				p.buf = append(p.buf, n[1:]...)
				p.buf = append(p.buf, ':')
			}
			p.raw = raw || n[0] == '-'
			p.arg(e, verb)
		}
		p.raw = raw
		p.buf = append(p.buf, '}')
	case 2:
		p.buf = append(p.buf, '[')
		for i, e := range l {
			if i > 0 {
				p.buf = append(p.buf, ' ')
			}
			p.arg(e, verb)
		}
		p.buf = append(p.buf, ']')
	case 3:
		p.buf = append(p.buf, "map["...)
		// keys in order
		var ks []int
		for i := 0; i < len(l); i += 2 {
			at := len(ks)
			for at > 0 && keyLess(l[i], l[ks[at-1]]) {
				at--
			}
			ks = append(ks, 0)
			copy(ks[at+1:], ks[at:])
			ks[at] = i
		}
		for n, i := range ks {
			if n > 0 {
				p.buf = append(p.buf, ' ')
			}
			p.arg(l[i], verb)
			p.buf = append(p.buf, ':')
			p.arg(l[i+1], verb)
		}
		p.buf = append(p.buf, ']')
	case 4:
		p.buf = append(p.buf, '&')
		p.arg(l[0], verb)
	}
	p.depth--
}

func keyLess(a, b any) bool {
	switch Kind(a) {
	case 2:
		return AsInt(a) < AsInt(b)
	case 3:
		return uint64(AsInt(a)) < uint64(AsInt(b))
	case 5:
		return AsString(a) < AsString(b)
	}
	Unsupported("order of map keys of type " + TypeName(a))
	return false
}

// method prints the result of a String or Error method the way package fmt does: a nil
// receiver that panics prints <nil>, other panics are shown in the text.
func (p *printer) method(x any, f func() string, verb rune) {
	var s string
	ok := false
	n := len(p.buf)
	func() {
		defer func() {
			if ok {
				return
			}
			if r := recover(); r != nil {
				p.buf = p.buf[:n]
				if IsNilPtr(x) {
					p.buf = append(p.buf, "<nil>"...)
					return
				}
				p.buf = append(p.buf, "%!"...)
				p.buf = append(p.buf, string(verb)...)
				p.buf = append(p.buf, "(PANIC="...)
				switch x.(type) {
				case error:
					p.buf = append(p.buf, "Error"...)
				default:
					p.buf = append(p.buf, "String"...)
				}
				p.buf = append(p.buf, " method: "...)
				q := &printer{}
				q.arg(r, 'v')
				p.buf = append(p.buf, q.buf...)
				p.buf = append(p.buf, ')')
			}
		}()
		s = f()
		ok = true
	}()
	if ok {
		p.str(s, verb)
	}
}
