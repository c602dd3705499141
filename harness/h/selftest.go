package h

import (
	"bufio"
	"bytes"
	"container/heap"
	"container/list"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"text/tabwriter"
	"time"
	"unicode"
	"unicode/utf8"

	"verif/harness/sym"
)

// SelfTest: things that a change of the program may use; the machine has to agree with the
// real ones. It is not part of a check: run it with 'try SelfTest k=N'.
func SelfTest() {
	b := []byte{sym.Byte("b0", 0, 255), sym.Byte("b1", 0, 255), sym.Byte("b2", '0', '9')}
	s := string(b)
	n := sym.Int("n", -50, 50)
	f := selfTests[sym.Param("k", 0)]
	out := ""
	p := sym.Catch(func() { out = f(s, int(n)) })
	sym.Observe("out", out+p)
}

type pair struct {
	a string
	b int
}
type ints []int

func (p ints) Len() int            { return len(p) }
func (p ints) Less(i, j int) bool  { return p[i] < p[j] }
func (p ints) Swap(i, j int)       { p[i], p[j] = p[j], p[i] }
func (p *ints) Push(x interface{}) { *p = append(*p, x.(int)) }
func (p *ints) Pop() interface{} {
	o := *p
	x := o[len(o)-1]
	*p = o[:len(o)-1]
	return x
}

type myErr struct{ n int }

func (e *myErr) Error() string { return "my " + strconv.Itoa(e.n) }

type stringer struct{ s string }

func (s stringer) String() string { return "<" + s.s + ">" }

var selfTests = []func(s string, n int) string{
	func(s string, n int) string { // 0 fmt
		return fmt.Sprintf("%d|%5d|%-5d|%05d|%+d|%x|%c|%q|%v|%s|%10s|%-10s|%.2s|%t|%T|%p", n, n, n, n, n, n, 'x', s, n, s, s, s, s, n > 0, n, nil)
	},
	func(s string, n int) string { // 1
		return fmt.Sprintf("%v %+v %v %v %v %v %v", pair{s, n}, pair{s, n}, []int{n, 1}, []string{s}, map[string]int{"a": n, "b": 2}, &pair{s, n}, stringer{s})
	},
	func(s string, n int) string { // 2
		return fmt.Sprint(s, n, 1, "x", nil, errors.New("e")) + fmt.Sprintln(s, n) + fmt.Sprintf("%*d|%-*s|%%|%[2]d %[1]d", 6, n, 8, s)
	},
	func(s string, n int) string { // 3
		return fmt.Sprintf("%6.2f|%.1f|%g|%v|%e", float64(n)/4, float64(n), float64(n), float64(n)/2, float64(n))
	},
	func(s string, n int) string { // 4 strconv
		a, e1 := strconv.Atoi(s)
		c, e2 := strconv.ParseInt(s[2:], 10, 64)
		d, e3 := strconv.ParseUint("12"+s[2:], 10, 32)
		g, e4 := strconv.ParseFloat("1."+s[2:], 64)
		h, e5 := strconv.ParseBool(s)
		return fmt.Sprint(a, e1, c, e2, d, e3, g, e4, h, e5) + strconv.Quote(s) + strconv.FormatInt(int64(n), 16) + string(strconv.AppendInt(nil, int64(n), 10)) + strconv.FormatFloat(float64(n), 'f', 2, 64)
	},
	func(s string, n int) string { // 5 strings
		x, y, ok := strings.Cut(s, "a")
		return strings.Join(strings.Fields(s+" z"), "|") + strings.Title(s) + strings.ToUpper(s) + strings.ToLower(s) + strings.TrimSpace(s) + strings.Trim(s, "ab") + strings.TrimRight(s, "0") + strings.TrimFunc(s, unicode.IsSpace) + x + y + strconv.FormatBool(ok) +
			strings.Repeat(s, 2) + strings.Map(func(r rune) rune {
			if r == 'a' {
				return -1
			}
			return r + 1
		}, s) + strconv.Itoa(strings.Count(s, "a")) + strconv.Itoa(strings.IndexAny(s, "xyz")) + strconv.Itoa(strings.LastIndex(s, "a")) + strconv.Itoa(strings.IndexFunc(s, unicode.IsUpper)) + strconv.Itoa(strings.Compare(s, "abc"))
	},
	func(s string, n int) string { // 6
		return strings.Join(strings.SplitN(s, "a", 2), "|") + strings.Join(strings.SplitAfter(s, "a"), "|") + strings.Join(strings.FieldsFunc(s, func(r rune) bool { return r == 'b' }), "|") + strings.NewReplacer("a", "1", "b", "2").Replace(s) + strings.NewReplacer("ab", "1", "b", "22").Replace(s) + strings.Replace(s, "a", "b", 1) + strconv.FormatBool(strings.EqualFold(s, "ABC")) + strconv.FormatBool(strings.ContainsRune(s, 'q')) + strconv.FormatBool(strings.HasSuffix(s, "1")) + strings.ToTitle(s) + strconv.Itoa(strings.IndexByte(s, 'u')) + strconv.Itoa(strings.LastIndexByte(s, 'u')) + strings.TrimLeftFunc(s, unicode.IsDigit) + strings.TrimPrefix(s, "a") + strings.ToValidUTF8(s, "?")
	},
	func(s string, n int) string { // 7 builders
		var sb strings.Builder
		sb.Grow(10)
		sb.WriteString(s)
		sb.WriteByte('x')
		sb.WriteRune('é')
		fmt.Fprintf(&sb, "%d", n)
		var bb bytes.Buffer
		bb.WriteString(s)
		bb.WriteByte('c')
		bb.Write([]byte(s))
		fmt.Fprint(&bb, n)
		l, _ := bb.ReadString('c')
		return sb.String() + l + bb.String() + strconv.Itoa(sb.Len()+bb.Len())
	},
	func(s string, n int) string { // 8 bufio
		out := ""
		sc := bufio.NewScanner(strings.NewReader("a\n" + s + "\r\nb"))
		for sc.Scan() {
			out += "[" + sc.Text() + "]"
		}
		sc = bufio.NewScanner(strings.NewReader("a " + s + " b"))
		sc.Split(bufio.ScanWords)
		for sc.Scan() {
			out += "{" + sc.Text() + "}"
		}
		r := bufio.NewReader(strings.NewReader("a\n" + s))
		for {
			l, e := r.ReadString('\n')
			out += "(" + l + ")"
			if e != nil {
				out += e.Error()
				break
			}
		}
		r = bufio.NewReader(strings.NewReader(s))
		for {
			c, k, e := r.ReadRune()
			if e != nil {
				break
			}
			out += strconv.Itoa(int(c)) + "," + strconv.Itoa(k) + ";"
		}
		r = bufio.NewReader(strings.NewReader("xy\n" + s))
		l, _, _ := r.ReadLine()
		pk, _ := r.Peek(1)
		out += string(l) + string(pk)
		r.UnreadByte()
		rest, _ := ioutil.ReadAll(r)
		out += string(rest)
		var bb bytes.Buffer
		w := bufio.NewWriter(&bb)
		fmt.Fprintln(w, s, n)
		w.WriteString("q")
		w.Flush()
		return out + bb.String()
	},
	func(s string, n int) string { // 9 sort
		l := []string{s, "b", "abc", "0"}
		sort.Strings(l)
		i := []int{n, 3, -2}
		sort.Ints(i)
		p := []pair{{s, n}, {"b", 2}, {"a", 2}}
		sort.Slice(p, func(i, j int) bool { return p[i].b < p[j].b })
		sort.SliceStable(p, func(i, j int) bool { return p[i].a < p[j].a })
		x := ints{n, 5, 1}
		sort.Sort(sort.Reverse(x))
		sort.Stable(x)
		k := sort.Search(10, func(i int) bool { return i >= n })
		return fmt.Sprint(l, i, p, x, k, sort.SearchStrings(l, "b"), sort.StringsAreSorted(l))
	},
	func(s string, n int) string { // 10 regexp
		r := regexp.MustCompile(`^([a-z]+)(\d)`)
		m := r.FindStringSubmatch(s)
		return strings.Join(m, "|") + r.ReplaceAllString(s, "$2") + regexp.QuoteMeta(s) + strconv.FormatBool(r.MatchString(s)) + fmt.Sprint(r.FindStringIndex(s), regexp.MustCompile(`\s+`).Split(s, -1), regexp.MustCompile("[ab]").FindAllString(s, -1))
	},
	func(s string, n int) string { // 11 time
		t, e := time.Parse("2006-01-02", "2020-01-1"+s[2:])
		u := t.AddDate(0, n, 1)
		y, w := u.ISOWeek()
		d := time.Date(2020, time.March, n, 0, 0, 0, 0, time.UTC)
		return fmt.Sprint(t, e, u.Format("2006/01/02 Mon Jan 15:04"), u.Weekday(), u.YearDay(), y, w, u.Sub(t).Hours(), u.After(t), u.Before(t), u.Equal(t), u.Month(), t.Unix(), d.Day(), d.String(), u.Sub(t), u.Truncate(24*time.Hour).Format(time.RFC3339), d.IsZero(), d.In(time.Local).Format("02.01.2006"))
	},
	func(s string, n int) string { // 12 time
		_, e := time.Parse("2006-01-02", s)
		_, e2 := time.ParseInLocation("2006-1-2", "2020-2-3"+s[2:], time.Local)
		d, e3 := time.ParseDuration("1" + s[2:] + "h")
		now := time.Now()
		y, m, dd := now.Date()
		return fmt.Sprint(e, e2, d, e3, now.Year() == y, m > 0, dd > 0, time.Since(now) < time.Hour, time.Unix(int64(n), 0).UTC(), time.Duration(n)*time.Hour)
	},
	func(s string, n int) string { // 13 unicode
		out := ""
		for i, r := range s {
			out += fmt.Sprint(i, r, unicode.IsLetter(r), unicode.IsDigit(r), unicode.IsSpace(r), unicode.IsUpper(r), unicode.IsPunct(r), unicode.IsPrint(r), unicode.IsSymbol(r), unicode.ToUpper(r), unicode.IsControl(r), unicode.IsNumber(r))
		}
		return out
	},
	func(s string, n int) string { // 14 utf8
		r, k := utf8.DecodeRuneInString(s)
		q, j := utf8.DecodeLastRuneInString(s)
		return fmt.Sprint(r, k, q, j, utf8.RuneCountInString(s), utf8.ValidString(s), utf8.RuneLen(r), []rune(s), []byte(s), string([]rune(s)), utf8.RuneError, len(string(rune(n))))
	},
	func(s string, n int) string { // 15 tabwriter
		var bb bytes.Buffer
		w := tabwriter.NewWriter(&bb, 0, 8, 2, ' ', tabwriter.AlignRight)
		fmt.Fprintf(w, "a\t%s\t%d\t\n", strconv.Quote(s), n)
		fmt.Fprintf(w, "abc\tx\ty\t\n")
		w.Flush()
		return bb.String()
	},
	func(s string, n int) string { // 16 math
		f := float64(n) / 4
		return fmt.Sprint(math.Round(f), math.Floor(f), math.Ceil(f), math.Abs(f), math.Trunc(f), math.Mod(f, 2), math.Max(f, 1), math.Min(f, 1), math.MaxInt64, math.Pow(2, 3), math.IsNaN(f), math.Sqrt(16), math.Pow10(2), math.Signbit(f))
	},
	func(s string, n int) string { // 17 big
		a := big.NewInt(int64(n))
		b, ok := new(big.Int).SetString("1234567890123456789012345678"+s[2:], 10)
		b.Add(b, a)
		b.Mul(b, big.NewInt(3))
		return b.String() + fmt.Sprint(ok, a.Sign(), a.Cmp(b), b.IsInt64(), a.Int64())
	},
	func(s string, n int) string { // 18 big.Rat
		r := big.NewRat(int64(n), 100)
		q, ok := new(big.Rat).SetString("1.2" + s[2:])
		return r.FloatString(2) + fmt.Sprint(ok) + q.FloatString(2) + q.Add(q, r).FloatString(3)
	},
	func(s string, n int) string { // 19 errors
		e := error(&myErr{n})
		w := fmt.Errorf("wrap %s: %w", s, e)
		var m *myErr
		ok := errors.As(w, &m)
		_, oe := os.Open("nothing")
		var pe *os.PathError
		ok2 := errors.As(oe, &pe)
		out := fmt.Sprint(w, ok, m.n, errors.Is(w, e), errors.Unwrap(w) == e, os.IsNotExist(oe), errors.Is(oe, os.ErrNotExist), ok2, oe)
		_, se := os.Stat("nothing")
		_, re := ioutil.ReadFile("nothing")
		return out + fmt.Sprint(se, re, pe.Path, pe.Op)
	},
	func(s string, n int) string { // 20 path
		p, e := filepath.Abs("a/../b/" + s[2:])
		r, e2 := filepath.Rel("/a/b", "/a/c"+s[2:])
		m, e3 := filepath.Match("a*", s)
		h := ""
		if _, err := filepath.EvalSymlinks("nothing"); err != nil {
			h = "no"
		}
		return fmt.Sprint(strings.HasSuffix(p, "b/"+s[2:]), e, r, e2, m, e3, h, filepath.Join("a", "..", s), filepath.Base(s), filepath.Dir("x/"+s), filepath.Ext("x."+s), filepath.Clean("./x//"+s), filepath.IsAbs(s))
	},
	func(s string, n int) string { // 21 containers
		l := list.New()
		l.PushBack(n)
		l.PushFront(s)
		out := ""
		for e := l.Front(); e != nil; e = e.Next() {
			out += fmt.Sprint(e.Value)
		}
		h := &ints{n, 3, 1}
		heap.Init(h)
		heap.Push(h, 2)
		for h.Len() > 0 {
			out += fmt.Sprint(heap.Pop(h))
		}
		return out
	},
	func(s string, n int) string { // 22 goroutines
		ch := make(chan int)
		done := make(chan struct{})
		go func() {
			for i := 0; i < 3; i++ {
				ch <- n + i
			}
			close(ch)
		}()
		out := ""
		go func() {
			for v := range ch {
				out += strconv.Itoa(v) + ","
			}
			close(done)
		}()
		<-done
		var wg sync.WaitGroup
		var mu sync.Mutex
		t := 0
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				mu.Lock()
				defer mu.Unlock()
				t += i
			}(i)
		}
		wg.Wait()
		var o sync.Once
		o.Do(func() { t++ })
		var rw sync.RWMutex
		rw.RLock()
		rw.RUnlock()
		return out + strconv.Itoa(t)
	},
	func(s string, n int) string { // 23 select, buffered
		ch := make(chan string, 2)
		ch <- s
		ch <- "x"
		out := ""
		for len(ch) > 0 {
			select {
			case v := <-ch:
				out += v
			default:
				out += "none"
			}
		}
		select {
		case v, ok := <-ch:
			out += v + fmt.Sprint(ok)
		default:
			out += "none"
		}
		return out + strconv.Itoa(cap(ch))
	},
	func(s string, n int) string { // 24 language
		type key struct {
			a byte
			b int
		}
		m := map[key][]string{}
		m[key{s[0], n}] = append(m[key{s[0], n}], s)
		m[key{'a', 1}] = append(m[key{'a', 1}], "q")
		arr := [4]int{1, n, 3}
		brr := arr
		brr[2] = 9
		out := fmt.Sprint(len(m), len(m[key{'a', 1}]), arr == brr, arr, brr)
		func() {
			defer func() {
				r := recover()
				out += fmt.Sprint("recovered ", r)
			}()
			_ = arr[(n+50)%5]
			_ = 10 / n
		}()
	outer:
		for i := 0; i < 4; i++ {
			for j := 0; j < 4; j++ {
				if j == 2 {
					continue outer
				}
				if i == 2 {
					break outer
				}
				out += strconv.Itoa(i*j) + " "
			}
		}
		i := 0
	again:
		i++
		if i < 3 {
			goto again
		}
		switch {
		case n > 10:
			out += "big"
			fallthrough
		case n > 20:
			out += "huge"
		default:
			out += "small"
		}
		var x interface{} = n
		switch v := x.(type) {
		case string:
			out += v
		case int, int64:
			out += fmt.Sprint(v)
		}
		return out
	},
	func(s string, n int) string { // 25 integers
		u := uint8(n)
		return fmt.Sprint(u, uint16(n), int8(n*3), n>>1, n<<2, n&7, n|8, n^5, n&^3, -n, ^n, uint64(n)>>60, n%7, n/7, float32(n)/2, int(float64(n)*1.5), uint32(n)*3, 7*n-3)
	},
	func(s string, n int) string { // 26 slices
		a := []byte(s)
		c := append(a[:1:1], 'z')
		d := make([]byte, 5, 10)
		k := copy(d[1:], a)
		e := append([]string(nil), s, s[1:], s[:2])
		e = append(e[:1], e[2:]...)
		x := [][]int{{1}, {2, n}}
		return fmt.Sprint(a, c, d, k, e, x, bytes.Equal(a, c), bytes.Contains(a, []byte("a")), string(bytes.TrimSpace(a)), string(bytes.ToUpper(a)), bytes.IndexByte(a, 'q'), string(bytes.Join([][]byte{a, c}, []byte(","))), bytes.Split(a, []byte("a")), cap(d), string(bytes.Runes(a)))
	},
	func(s string, n int) string { // 27 funcs
		fs := []func(int) int{}
		for i := 0; i < 3; i++ {
			i := i
			fs = append(fs, func(x int) int { return x*i + n })
		}
		g := stringer{s}.String
		h := (*myErr).Error
		var e error = &myErr{n}
		t := 0
		for _, f := range fs {
			t += f(2)
		}
		return fmt.Sprint(t) + g() + h(&myErr{1}) + e.Error()
	},
	func(s string, n int) string { // 28 Sscanf
		var a, b int
		k, e := fmt.Sscanf("12-3"+s[2:], "%d-%d", &a, &b)
		var w string
		k2, e2 := fmt.Sscan(s[2:]+" word", &a, &w)
		return fmt.Sprint(k, e, a, b, k2, e2, w)
	},
	func(s string, n int) string { // 29 io
		r := io.MultiReader(strings.NewReader(s), strings.NewReader("tail"))
		all, e := io.ReadAll(io.LimitReader(r, 5))
		var bb bytes.Buffer
		k, e2 := io.Copy(&bb, strings.NewReader(s))
		io.WriteString(&bb, "x")
		t := io.TeeReader(strings.NewReader(s), &bb)
		ioutil.ReadAll(t)
		_, e3 := io.ReadFull(strings.NewReader("a"), make([]byte, 2))
		return fmt.Sprint(string(all), e, k, e2, bb.String(), e3)
	},
	func(s string, n int) string { // 30 os
		os.Setenv("SELFTEST", s)
		v := os.Getenv("SELFTEST")
		os.Unsetenv("SELFTEST")
		_, ok := os.LookupEnv("SELFTEST")
		h, _ := os.UserHomeDir()
		_, err := os.Stat("/nothing/here")
		wd, _ := os.Getwd()
		return fmt.Sprint(v == s, ok, h != "x", err, os.ExpandEnv("a${SELFTEST}b"), wd != "", len(os.Args) > 0, os.Getpid() > 0, len(os.Environ()) >= 0)
	},
	func(s string, n int) string { // 31 sync.Map, atomic-free
		var m sync.Map
		m.Store("a", n)
		v, ok := m.Load("a")
		out := ""
		m.Range(func(k, v interface{}) bool { out += fmt.Sprint(k, v); return true })
		p := sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}
		b := p.Get().(*bytes.Buffer)
		b.WriteString(s)
		out += b.String()
		p.Put(b)
		return fmt.Sprint(v, ok, out)
	},
}
