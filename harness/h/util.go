package h

import (
	"strings"

	"verif/harness/sym"
)

// ---- a journal written down by its parts, independent of gledger ----

type post struct {
	acct     string
	comm     string // commodity as written, with its space if it has one
	num      string
	elided   bool
	val      int64 // hundredths
	comments []string
	head     string // indentation, default four spaces
	sep      string // between account and amount, default two spaces
	tail     string // what follows the amount (spaces, a comment)
	inline   bool   // the first comment is on the line of the posting
}

type txn struct {
	date  string
	raw   string // the date as written, if that is not how print shows it
	state string // "", "!" or "*"
	payee string
	note  string // header note
	notes []string
	posts []post
}

func (p post) text() string {
	h := p.head
	if h == "" {
		h = "    "
	}
	s := h + p.acct
	if !p.elided {
		sep := p.sep
		if sep == "" {
			sep = "  "
		}
		s += sep + p.comm + p.num
	}
	s += p.tail
	for i, c := range p.comments {
		if i == 0 && p.inline {
			s += "  ; " + c
			continue
		}
		s += "\n      ; " + c
	}
	return s
}

func (t txn) lines() string {
	s := t.date
	if t.raw != "" {
		s = t.raw
	}
	if t.state != "" {
		s += " " + t.state
	}
	s += " " + t.payee
	if t.note != "" {
		s += "  ; " + t.note
	}
	for _, n := range t.notes {
		s += "\n    ; " + n
	}
	for _, p := range t.posts {
		s += "\n" + p.text()
	}
	return s
}

func journalText(ts []txn) string {
	s := ""
	for _, t := range ts {
		s += t.lines() + "\n\n"
	}
	return s
}

// ---- numbers ----

func digits(v uint64, min int) string {
	s := ""
	n := 0
	for n < min || v > 0 {
		s = string([]byte{byte('0' + v%10)}) + s
		v /= 10
		n++
	}
	return s
}

// disp is the text of an amount of v hundredths.
func disp(v int64) string {
	sign := ""
	u := uint64(v)
	if v < 0 {
		sign = "-"
		u = -u
	}
	return sign + digits(u/100, 1) + "." + digits(u%100, 2)
}

// amount makes the text and the value of an amount with any digits.
func amount(name string, neg bool, whole, dec int) (string, int64) {
	n := int64(1)
	for i := 0; i < whole+dec; i++ {
		n *= 10
	}
	v := sym.Int(name, 0, n-1)
	s := ""
	x := v
	for i := 0; i < whole+dec; i++ {
		if i == dec && dec > 0 {
			s = "." + s
		}
		d := x
		if i < whole+dec-1 {
			d = x % 10
			x /= 10
		}
		s = string([]byte{byte('0' + d)}) + s
	}
	for i := dec; i < 2; i++ {
		v *= 10
	}
	if neg {
		return "-" + s, -v
	}
	return s, v
}

func itoa(i int) string {
	if i < 0 {
		return "-" + itoa(-i)
	}
	if i < 10 {
		return "0123456789"[i : i+1]
	}
	return itoa(i/10) + "0123456789"[i%10:i%10+1]
}

// ---- the calendar ----

// civil gives the date that is n days after 1970-01-01.
func civil(n int) (y, m, d int) {
	n += 719468
	era := n / 146097
	doe := n - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y = yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = doy - (153*mp+2)/5 + 1
	m = (mp+2)%12 + 1
	if m <= 2 {
		y++
	}
	return
}

// days is the inverse of civil.
func days(y, m, d int) int {
	if m <= 2 {
		y--
	}
	era := y / 400
	if y < 0 {
		era = (y - 399) / 400
	}
	yoe := y - era*400
	doy := (153*((m+9)%12)+2)/5 + d - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return era*146097 + doe - 719468
}

func pad(n, w int) string {
	s := ""
	for i := 0; i < w; i++ {
		s = string([]byte{byte('0' + n%10)}) + s
		n /= 10
	}
	return s
}

func dateText(y, m, d int, sep string) string {
	return pad(y, 4) + sep + pad(m, 2) + sep + pad(d, 2)
}

func dayText(n int, sep string) string {
	y, m, d := civil(n)
	return dateText(y, m, d, sep)
}

func leap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

func monthLen(y, m int) int {
	switch m {
	case 2:
		if leap(y) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

// ---- running gledger ----

const main = "main.ledger"

func runJ(j string, args ...string) sym.Result {
	return runFiles([]sym.File{{Name: main, Data: j}}, args...)
}

func runFiles(files []sym.File, args ...string) sym.Result {
	c := sym.Cmd{Args: append([]string{"-f", main}, args...), Files: files}
	r := sym.Run(c)
	observe(r)
	return r
}

func observe(r sym.Result) {
	sym.Observe("out", steady(r.Out))
	sym.Observe("err", r.Err)
	if r.Crash != "" {
		sym.Observe("crash", "yes")
	}
	if r.Hang {
		sym.Observe("hang", "yes")
	}
}

// rejected says the journal was refused.
func rejected(r sym.Result) bool {
	return r.Ok() && strings.HasPrefix(r.Out, "error at ")
}

func lines(s string) []string {
	if s == "" {
		return nil
	}
	if s[len(s)-1] == '\n' {
		s = s[:len(s)-1]
	}
	return strings.Split(s, "\n")
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

var commands = []string{"balance", "print", "accounts", "payees", "statistics", "budget"}

func pick(name string, l []string) string { return l[sym.Choice(name, len(l))] }

// ---- the balance report ----

type row struct {
	path   string
	amount string
	depth  int
}

// balanceRows reads the default layout of the balance report back.
func balanceRows(out string) (rows []row, total string, ok bool) {
	ls := lines(out)
	n := len(ls)
	if n < 2 || ls[n-2] != "--------------------" {
		return nil, "", false
	}
	total = strings.TrimLeft(ls[n-1], " ")
	var stack []string
	for i, l := range ls[:n-2] {
		if l == "" && i == n-3 {
			continue // nothing to show
		}
		l = strings.TrimLeft(l, " ")
		k := strings.Index(l, "  ")
		if k < 0 {
			return nil, "", false
		}
		amt, rest := l[:k], l[k+2:]
		d := 0
		for strings.HasPrefix(rest, "  ") {
			rest = rest[2:]
			d++
		}
		if d > len(stack) {
			return nil, "", false
		}
		stack = append(stack[:d], rest)
		rows = append(rows, row{strings.Join(stack, ":"), amt, d})
	}
	return rows, total, true
}

// steady leaves out how long ago the first and the last transaction were.
func steady(out string) string {
	if !strings.HasPrefix(out, "Transactions found in ") {
		return out
	}
	s := ""
	for _, l := range lines(out) {
		if strings.HasPrefix(l, "First transaction:") || strings.HasPrefix(l, "Last transaction:") {
			if i := strings.Index(l, " ("); i >= 0 {
				l = l[:i]
			}
		}
		s += l + "\n"
	}
	return s
}
