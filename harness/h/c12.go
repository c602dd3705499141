package h

import (
	"strings"

	"verif/harness/sym"
)

// ---- a matcher for the regular expressions used here, written independently of regexp ----
// Supported: literals, '.', '[x-y..]', '\' before a literal, '^', '$', postfix * + ?,
// alternatives, groups that are not repeated, and (?i) in front.

type item struct {
	set  string // pairs of bounds
	any  bool
	not  bool // what is not in set
	kind byte // 0 once, '*', '+', '?'; '^' and '$' anchors
}

func fold(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return strings.ReplaceAll(string(b), "É", "é")
}

func hasUpper(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 'A' && s[i] <= 'Z' {
			return true
		}
	}
	return strings.Contains(s, "É")
}

func items(p string) (l []item) {
	for i := 0; i < len(p); i++ {
		var it item
		switch c := p[i]; c {
		case '^', '$':
			l = append(l, item{kind: c})
			continue
		case '.':
			it.any = true
		case '[':
			for i++; p[i] != ']'; i++ {
				lo := p[i]
				hi := lo
				if p[i+1] == '-' {
					hi = p[i+2]
					i += 2
				}
				it.set += string([]byte{lo, hi})
			}
		case '\\':
			i++
			switch p[i] {
			case 'd':
				it.set = "09"
			case 'w':
				it.set = "09AZaz__"
			case 's':
				it.set = "\t\n\f\r  "
			case 'D', 'W', 'S': // the rest; pattern and text are then in upper and lower case
				it.not = true
				it.set = map[byte]string{'D': "09", 'W': "09AZaz__", 'S': "\t\n\f\r  "}[p[i]]
			default:
				it.set = string([]byte{p[i], p[i]})
			}
		default:
			it.set = string([]byte{c, c})
		}
		if i+1 < len(p) && (p[i+1] == '*' || p[i+1] == '+' || p[i+1] == '?') {
			i++
			it.kind = p[i]
		}
		l = append(l, it)
	}
	return
}

func (it item) has(c byte) bool {
	if it.any {
		return true
	}
	for i := 0; i < len(it.set); i += 2 {
		if c >= it.set[i] && c <= it.set[i+1] {
			return !it.not
		}
	}
	return it.not
}

func matchHere(l []item, s string, at int) bool {
	if len(l) == 0 {
		return true
	}
	it := l[0]
	switch it.kind {
	case '^':
		return at == 0 && matchHere(l[1:], s, at)
	case '$':
		return at == len(s) && matchHere(l[1:], s, at)
	case '*', '+', '?':
		min, max := 0, len(s)
		if it.kind == '+' {
			min = 1
		}
		if it.kind == '?' {
			max = 1
		}
		for n := 0; n <= max; n++ {
			if n >= min && matchHere(l[1:], s, at+n) {
				return true
			}
			if at+n >= len(s) || !it.has(s[at+n]) {
				return false
			}
		}
		return false
	}
	return at < len(s) && it.has(s[at]) && matchHere(l[1:], s, at+1)
}

// ungroup gives the alternatives of r without groups.
func ungroup(r string) []string {
	depth, from := 0, 0
	for i := 0; i < len(r); i++ { // alternatives outside of groups
		switch {
		case r[i] == '(':
			depth++
		case r[i] == ')':
			depth--
		case r[i] == '|' && depth == 0:
			return append(ungroup(r[:i]), ungroup(r[i+1:])...)
		}
	}
	i := strings.IndexByte(r, '(')
	if i < 0 {
		return []string{r}
	}
	var l []string
	from = i + 1
	for j := i + 1; ; j++ {
		switch r[j] {
		case '(':
			depth++
			continue
		case ')', '|':
			if r[j] == ')' && depth > 0 {
				depth--
			} else if depth == 0 {
				l = append(l, strings.TrimPrefix(r[from:j], "?:"))
				from = j + 1
				if r[j] == ')' {
					var all []string
					for _, x := range l {
						all = append(all, ungroup(r[:i]+x+r[j+1:])...)
					}
					return all
				}
			}
		}
	}
}

// match says whether the argument R selects s.
func match(r, s string) bool {
	if strings.HasPrefix(r, "(?i)") {
		r, s = fold(r[4:]), fold(s)
	} else if !hasUpper(r) {
		r, s = fold(r), fold(s)
	}
	alts := []string{r}
	if strings.IndexByte(r, '|') >= 0 || strings.IndexByte(r, '(') >= 0 {
		alts = ungroup(r)
	}
	for _, alt := range alts {
		l := items(alt)
		for at := 0; at <= len(s); at++ {
			if matchHere(l, s, at) {
				return true
			}
		}
	}
	return false
}

// ---- what filter arguments select ----

// selects gives the postings of t that the arguments select: all of them (whole), or some.
func selects(args []string, t txn) (whole bool, some []post) {
	if len(args) == 0 {
		return true, t.posts
	}
	for _, a := range args {
		switch {
		case strings.HasPrefix(a, "@"):
			if match(a[1:], t.payee) {
				return true, t.posts
			}
		case strings.HasPrefix(a, "="):
			if match(a[1:], t.note) {
				return true, t.posts
			}
			for _, n := range t.notes {
				if match(a[1:], n) {
					return true, t.posts
				}
			}
		}
	}
	for _, p := range t.posts {
		in := false
		for _, a := range args {
			switch {
			case strings.HasPrefix(a, "@"):
			case strings.HasPrefix(a, "="):
				for _, c := range p.comments {
					in = in || match(a[1:], c)
				}
			default:
				in = in || match(a, p.acct)
			}
		}
		if in {
			some = append(some, p)
		}
	}
	return false, some
}

// selected is the report of a command on what the arguments select of the transactions, as
// far as it is compared, and the same of what the command showed.
func selected(cmd string, args []string, ts []txn, out string) (want, got string) {
	root := &node{}
	n := 0
	var accts, payees []string
	for _, t := range ts {
		whole, some := selects(args, t)
		if !whole && len(some) == 0 {
			continue
		}
		n++
		want += t.printed()
		payees = insert(payees, t.payee)
		for _, p := range some {
			root.add(strings.Split(p.acct, ":"), p.val)
			accts = insert(accts, p.acct)
		}
	}
	sym.Cover("selected " + itoa(n))
	switch cmd {
	case "print":
		return want, out
	case "balance":
		root.prune()
		comm := "£"
		if len(ts) > 0 && len(ts[0].posts) > 0 {
			comm = ts[0].posts[0].comm
		}
		l := root.layout(0, comm)
		if len(l) == 0 {
			l = []string{""}
		}
		return strings.Join(l, "\n") + "\n--------------------\n" + right(disp(root.sum), 20) + "\n", out
	}
	if n == 0 {
		return "No transactions matched arguments.\n", out
	}
	for _, l := range lines(out) {
		if strings.HasPrefix(l, "Transactions:\t\t") {
			got += l[:strings.Index(l+" (", " (")] + "\n"
		}
		if strings.HasPrefix(l, "Unique ") {
			got += l + "\n"
		}
	}
	return "Transactions:\t\t" + itoa(n) + "\nUnique accounts:\t" + itoa(len(accts)) + "\nUnique payees:\t\t" + itoa(len(payees)) + "\n", got
}

// insert keeps l sorted and without doubles.
func insert(l []string, s string) []string {
	i := 0
	for i < len(l) && l[i] < s {
		i++
	}
	if i < len(l) && l[i] == s {
		return l
	}
	l = append(l, "")
	copy(l[i+1:], l[i:])
	l[i] = s
	return l
}

var patterns = []string{"a", "A", "ab", "aB", "^a", "b$", "a|c", "[a-c]x", "a.b", "ab*", "b+$", "^ab?$", "é", "É", "a:b", "^a:", "a\\.b", "z", ".", "\\Sa", "a\\S", "^\\w$", "\\D\\d", "A\\W", "(a|b)", "(a)(b)", "x(a|b|)c", "(?i)A", "(?:a|^b)$"}

const nFields = 14

// filterJournal is a journal of three transactions; text stands in the field-th text of one.
func filterJournal(field int, text string) []txn {
	p := func(acct, num string, v int64, el bool, comments ...string) post {
		return post{acct: acct, comm: "£", num: num, val: v, elided: el, comments: comments}
	}
	ts := []txn{
		{date: "2020-01-01", payee: "1", note: "2", notes: []string{"3", "4"}, posts: []post{
			p("X:5", "1.00", 100, false, "6", "7"), p("X:8", "2.50", 250, false), p("Y", "", -350, true, "9")}},
		{date: "2020-01-01", state: "!", payee: "xyz", posts: []post{p("W:Q", "4", 400, false), p("V:Q", "", -400, true)}},
		{date: "2020-01-02", payee: "0", note: "q", posts: []post{p("X", "3", 300, false, "w"), p("Y:U", "-3", -300, false)}},
	}
	t := &ts[0]
	switch field {
	case 0:
		t.payee = text
	case 1:
		t.note = text
	case 2:
		t.notes[1] = text
	case 3:
		t.posts[0].acct = "K" + text
	case 4:
		t.posts[2].acct = "X:" + text
	case 5:
		t.posts[0].comments[1] = text
	case 6:
		t.posts[2].comments[0] = text
	case 7:
		ts[2].payee = text
	case 8:
		t.notes[0] = text
	case 9:
		t.posts[0].comments[0] = text
	case 10:
		t.posts[2].comments = []string{text, "8", "7"}
	case 11:
		t.notes = []string{"5", text, "6"}
	case 12: // a posting of the same account, amount and text
		t.posts[1].acct, t.posts[1].comments = "X:5", []string{text}
	case 13:
		t.posts[1].acct, t.posts[1].num, t.posts[1].val = "X:"+text, "1.00", 100
		t.posts[2].acct, t.posts[2].val = "X:8", -200
	}
	return ts
}

// Filter: one argument, and free text in one of the fields it may be compared with.
func Filter() {
	n := sym.Param("n", 2)
	field := sym.Param("field", -1)
	if field < 0 {
		field = sym.Choice("field", nFields)
	}
	pat := patterns[sym.Choice("pattern", len(patterns))]
	kind := pick("kind", []string{"", "@", "="})
	cmd := pick("cmd", []string{"print", "balance", "statistics"})
	free := byte('p')
	if field >= 1 && field <= 2 || field == 5 || field == 6 || field > 7 {
		free = 'c'
	}
	if field == 3 || field == 4 || field == 13 {
		free = 'b'
	}
	text := freeText("t", n, free)
	if field == 3 || field == 4 || field == 13 { // an account with empty components is not asked about
		for i := 0; i < n; i++ {
			sym.Assume(text[i] != ':' || i > 0 && i < n-1 && text[i-1] != ':')
			sym.Assume(text[i] != ';' && text[i] != '#')
		}
	}
	if sym.Choice("wide", 2) == 1 {
		text = "É" + text[1:]
	}
	ts := filterJournal(field, text)
	args := []string{kind + pat}
	r := runJ(journalText(ts), append([]string{cmd}, args...)...)
	want, got := selected(cmd, args, ts, r.Out)
	sym.Assert(r.Ok() && got == want, "what the argument matches is selected")
}

// Filters: several arguments.
func Filters() {
	n := sym.Param("n", 1)
	field := sym.Choice("field", sym.Param("fields", 8))
	all := []string{"a", "@a", "=a", "B", "@b", "=B", "X", "^Y", "@1", "=4", "=9", "8$", "(a|b)", "@(a)"}
	args := []string{all[sym.Choice("p", len(all))], all[sym.Choice("q", len(all))]}
	if sym.Param("third", 0) == 1 {
		args = append(args, all[sym.Choice("r", len(all))])
	}
	cmd := pick("cmd", []string{"print", "balance", "statistics"})
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.Byte("t"+itoa(i), 'A', 'c')
		sym.Assume(b[i] <= 'C' || b[i] >= 'a')
	}
	ts := filterJournal(field, string(b))
	r := runJ(journalText(ts), append([]string{cmd}, args...)...)
	want, got := selected(cmd, args, ts, r.Out)
	sym.Assert(r.Ok() && got == want, "what any of the arguments matches is selected")
}

// FilterLetters: an argument of free letters.
func FilterLetters() {
	n, m := sym.Param("n", 2), sym.Param("m", 2)
	letter := func(name string) byte {
		c := sym.Byte(name, 'A', 'b')
		sym.Assume(c <= 'B' || c >= 'a')
		return c
	}
	pat, text := "", ""
	for i := 0; i < m; i++ {
		pat += string([]byte{letter("p" + itoa(i))})
	}
	for i := 0; i < n; i++ {
		text += string([]byte{letter("t" + itoa(i))})
	}
	field := []int{0, 1, 4, 6}[sym.Choice("field", 4)]
	args := []string{[]string{"@", "=", "", "="}[sym.Choice("field", 4)] + pat}
	ts := filterJournal(field, text)
	r := runJ(journalText(ts), "print", args[0])
	want, got := selected("print", args, ts, r.Out)
	sym.Assert(r.Ok() && got == want, "what the argument matches is selected")
}

// ---- accounts and payees ----

// names checks the list of names that a command prints.
func names(cmd string, used, args []string, r sym.Result) {
	var want []string
	for _, s := range used {
		in := len(args) == 0
		for _, a := range args {
			in = in || match(a, s)
		}
		if in {
			want = insert(want, s)
		}
	}
	text := ""
	for _, s := range want {
		text += s + "\n"
	}
	sym.Cover("listed " + itoa(len(want)))
	sym.Assert(r.Ok() && r.Out == text, cmd+" lists each used name once, in order")
}

// AccountNames: free account names.
func AccountNames() {
	n := sym.Param("n", 3)
	kind := sym.Param("kind", 1)
	depth := sym.Param("depth", 2)
	var used []string
	var ts []txn
	var t txn
	for i := 0; i < n; i++ {
		path := component("n"+itoa(i)+"0", kind, true)
		d := 1
		if depth > 1 {
			d = 1 + sym.Choice("d"+itoa(i), depth)
		}
		for k := 1; k < d; k++ {
			path += ":" + component("n"+itoa(i)+itoa(k), kind, false)
		}
		if sym.Param("args", 0) == 1 && sym.Choice("w"+itoa(i), 2) == 1 {
			path += pick("wide"+itoa(i), []string{"é", "É"})
		}
		used = append(used, path)
		if i%2 == 0 {
			t = txn{date: "2020-01-0" + itoa(i+1), payee: "P"}
			t.posts = []post{{acct: path, elided: true}}
		} else {
			t.posts = append(t.posts, post{acct: path, comm: "£", num: itoa(i)})
		}
		if i%2 == 1 || i == n-1 {
			ts = append(ts, t)
		}
	}
	var args []string
	if sym.Param("args", 0) == 1 {
		args = [][]string{{"a"}, {"A"}, {":b"}, {"^b", "C"}, {"[a-m]$"}, {"a:|^z"}, {"É"}, {"é"}, {"A", "É"}, {"(a|b)", "a"}, {"(A)", "(?i)A", "b"}, {"a", "a", "a"}, {".", "", "b"}}[sym.Choice("args", 13)]
	}
	r := runJ(journalText(ts), append([]string{pick("cmd", []string{"accounts", "acc", "a"})}, args...)...)
	names("accounts", used, args, r)
}

// PayeeNames: free payees.
func PayeeNames() {
	n := sym.Param("n", 3)
	m := sym.Param("m", 1)
	var used []string
	var ts []txn
	for i := 0; i < n; i++ {
		l := sym.Choice("l"+itoa(i), m+1)
		s := ""
		if l > 0 {
			s = freeText("p"+itoa(i), l, 'p')
		}
		if sym.Choice("w"+itoa(i), 2) == 1 {
			s += pick("wide"+itoa(i), []string{"é", "É"})
		}
		used = append(used, s)
		t := txn{date: "2020-01-0" + itoa(n-i), payee: s, posts: []post{{acct: "A", comm: "£", num: "1"}, {acct: "B", elided: true}}}
		if i == 1 {
			t.posts = nil
		}
		ts = append(ts, t)
	}
	var args []string
	if sym.Param("args", 0) == 1 {
		args = [][]string{{"a"}, {"A"}, {"b$"}, {"^b", "C"}, {"[a-m]"}, {"a|^z"}, {"é"}, {"É"}, {"A", "É"}, {"(a|b)", "a"}, {"(A)", "(?i)A", "b"}, {"a", "a", "a"}, {".", "", "b"}}[sym.Choice("args", 13)]
	}
	r := runJ(journalText(ts), append([]string{pick("cmd", []string{"payees", "pay"})}, args...)...)
	names("payees", used, args, r)
}
