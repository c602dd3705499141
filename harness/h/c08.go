package h

import (
	"strings"

	"verif/harness/sym"
)

var wide = []string{"é", "€", "日", "\u00a0", "ß", "\U0001F600"}

// freeText makes a text of n free characters.
// kind p: payee; c: comment or note; a: account.
func freeText(name string, n int, kind byte) string {
	b := make([]byte, n)
	for i := range b {
		lo := byte(' ')
		if kind == 'c' {
			lo = '\t'
		}
		c := sym.Byte(name+itoa(i), lo, '~')
		if lo == '\t' {
			sym.Assume(c == '\t' || c >= ' ')
		}
		switch kind {
		case 'p':
			sym.Assume(c != ';')
			sym.Assume(c != '#')
			if i == 0 {
				sym.Assume(c != '!')
				sym.Assume(c != '*')
			}
		case 'a':
			if i == 0 {
				sym.Assume(c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z')
			}
		}
		if i == 0 {
			sym.Assume(c != ' ')
		}
		if kind != 'c' {
			if i == n-1 {
				sym.Assume(c != ' ')
			} else if i > 0 && n > 2 {
				sym.Assume(c != ' ' || b[i-1] != ' ')
			}
		}
		b[i] = c
	}
	return string(b)
}

// printed is what print shows for a transaction.
func (t txn) printed() string {
	st := t.state
	if st == "" {
		st = " "
	}
	s := t.date + " " + st + " " + t.payee
	if t.note != "" {
		s += "    ; " + t.note
	}
	for _, n := range t.notes {
		s += "\n    ; " + n
	}
	for _, p := range t.posts {
		s += "\n    " + p.acct + "    " + p.comm + disp(p.val)
		for _, c := range p.comments {
			s += "\n      ; " + c
		}
	}
	return s + "\n\n"
}

func neighbours() (a, b txn) {
	a = txn{date: "2020-01-14", state: "!", payee: "Alpha", note: "first", posts: []post{
		{acct: "Assets:Cash", comm: "£", num: "7.25", val: 725, comments: []string{"a1", "a2"}},
		{acct: "Income:Job", elided: true, comm: "£", val: -725}}}
	b = txn{date: "2020-01-16", payee: "Omega", notes: []string{"n1", "n2"}, posts: []post{
		{acct: "Expenses:Rent", comm: "EUR ", num: "1", val: 100},
		{acct: "Assets:Bank", elided: true, comm: "EUR ", val: -100, comments: []string{"b1"}}}}
	return
}

// PrintFields: every part of a transaction is printed, with free text in one of the parts and
// every combination of the other parts present or not.
func PrintFields() {
	n := sym.Param("n", 3)
	field := sym.Param("field", -1)
	if field < 0 {
		field = sym.Choice("field", 6)
	}
	t := txn{date: "2020-01-15", state: pick("state", []string{"", "!", "*"}), payee: "Shop"}
	if sym.Choice("note", 2) == 1 {
		t.note = "Note; x  y"
	}
	for i := sym.Choice("notes", 3); i > 0; i-- {
		t.notes = append(t.notes, "under"+itoa(i))
	}
	p := post{acct: "Assets:Cash Box", comm: comms[sym.Param("comm", 2)], num: "12.34", val: 1234}
	for i := sym.Choice("comments", 3); i > 0; i-- {
		p.comments = append(p.comments, "on"+itoa(i))
	}
	q := post{acct: "Income:Job", elided: true, comm: p.comm, val: -1234}
	for i := sym.Choice("comments2", 2); i > 0; i-- {
		q.comments = append(q.comments, "last"+itoa(i))
	}
	mid := ""
	if w := sym.Choice("wide", len(wide)+1); w > 0 {
		mid = wide[w-1]
		n--
	}
	cut := n / 2
	mk := func(kind byte) string {
		a := freeText("t", n, kind)
		if mid == "" {
			return a
		}
		if kind != 'c' && cut < n && cut > 0 {
			return a[:cut] + mid + a[cut:]
		}
		return a + mid
	}
	switch field {
	case 0:
		t.payee = mk('p')
	case 1:
		t.note = mk('c')
	case 2:
		t.notes = append(t.notes, mk('c'))
	case 3:
		p.acct = mk('a')
	case 4:
		p.comments = append(p.comments, mk('c'))
	case 5:
		q.comments = append(q.comments, mk('c'))
	}
	t.posts = []post{p, q}
	a, b := neighbours()
	j := journalText([]txn{a, t, b})
	r := runJ(j, "print")
	sym.Assert(r.Ok() && r.Out == a.printed()+t.printed()+b.printed(), "transaction printed completely")
	sym.Cover("end")
}

// PrintTrailing: a comment on the line of a posting belongs to that posting.
func PrintTrailing() {
	n := sym.Param("n", 3)
	c := freeText("t", n, 'c')
	t := txn{date: "2020-01-15", payee: "Shop"}
	p := post{acct: "Assets:Cash", comm: "£", num: "1.00", val: 100}
	q := post{acct: "Income:Job", elided: true, comm: "£", val: -100}
	sep := pick("sep", []string{"  ", " ", "\t", "    "})
	mark := pick("mark", []string{"; ", ";", "# "})
	raw, want := t, t
	switch sym.Choice("where", 3) {
	case 0:
		raw.posts = []post{p, q}
		raw.posts[0].tail = sep + mark + c
		p.comments = []string{c}
	case 1:
		sym.Assume(sep != " ")
		raw.posts = []post{p, q}
		raw.posts[1].tail = sep + mark + c
		q.comments = []string{c}
	case 2:
		raw.posts = []post{p, q}
		raw.posts[0].tail = sep + mark + c
		raw.posts[0].comments = []string{"more"}
		p.comments = []string{c, "more"}
	}
	want.posts = []post{p, q}
	a, b := neighbours()
	r := runJ(a.lines()+"\n\n"+raw.lines()+"\n\n"+b.lines()+"\n", "print")
	sym.Assert(r.Ok() && r.Out == a.printed()+want.printed()+b.printed(), "comment printed with its posting")
	sym.Cover("end")
}

// PrintOrder: transactions come by date, and in their order in the journal on equal dates.
func PrintOrder() {
	n := sym.Param("n", 14)
	free := sym.Param("free", 2)
	days := sym.Param("days", 3)
	off := 0
	if free < n {
		off = sym.Choice("off", sym.Param("offs", 2)) * (n / 2)
	}
	var ts []txn
	var key []int
	for i := 0; i < n; i++ {
		d := 1 + i*7%days
		c := byte('0' + d)
		if i >= off && i < off+free {
			c = sym.Byte("d"+itoa(i), '1', byte('0'+days))
			d = int(c - '0')
		}
		t := txn{date: "2020-01-0" + string([]byte{c}), payee: "P" + itoa(i), posts: []post{
			{acct: "Assets:Cash", num: itoa(i) + ".00", val: int64(100 * i)},
			{acct: "Income:Job", elided: true, val: int64(-100 * i)}}}
		ts = append(ts, t)
		key = append(key, d)
	}
	r := runJ(journalText(ts), "print")
	want := ""
	for d := 1; d <= days; d++ {
		for i := range ts {
			if key[i] == d {
				want += ts[i].printed()
			}
		}
	}
	sym.Assert(r.Ok() && r.Out == want, "transactions printed by date, in the order read")
	sym.Cover("end")
}

// PrintDates: the order over months and years.
func PrintDates() {
	n := sym.Param("n", 3)
	base := days(sym.Param("y", 2019), sym.Param("m", 12), 1)
	var ts []txn
	var key []int
	for i := 0; i < n; i++ {
		d := int(sym.Int("d"+itoa(i), 0, int64(sym.Param("w", 100)-1)))
		ts = append(ts, txn{date: dayText(base+d, pick("sep", []string{"-", "/", "."}[:sym.Param("seps", 3)])), payee: "P" + itoa(i)})
		key = append(key, d)
	}
	r := runJ(journalText(ts), "print")
	// the positions that the transactions should have
	sym.Assert(r.Ok(), "ends")
	for i := range ts {
		ts[i].date = dayText(base+key[i], "-")
	}
	for i := range ts { // insertion sort
		for j := i; j > 0 && key[j] < key[j-1]; j-- {
			key[j], key[j-1] = key[j-1], key[j]
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
	want := ""
	for i := range ts {
		want += ts[i].printed()
	}
	sym.Assert(r.Out == want, "transactions printed by date")
	sym.Cover("end")
}

// PrintMonths: the order of two transactions, in any months of some years.
func PrintMonths() {
	ys := []int{2019, 2020, 999, 1000, 10}
	day := func(id string) int { return int(sym.Int("day"+id, 1, 28)) }
	var ts []txn
	var key []int
	for i := 0; i < 2; i++ {
		y, m, d := ys[sym.Choice("y"+itoa(i), sym.Param("years", 2))], 1+sym.Choice("m"+itoa(i), 12), day(itoa(i))
		ts = append(ts, txn{date: dateText(y, m, d, "-"), payee: "P" + itoa(i), posts: []post{{acct: "A", comm: "£", num: itoa(i) + ".00", val: int64(100 * i)}, {acct: "B", elided: true, comm: "£", val: int64(-100 * i)}}})
		key = append(key, (y*12+m)*31+d)
	}
	r := runJ(journalText(ts), "print")
	if key[1] < key[0] {
		ts[0], ts[1] = ts[1], ts[0]
	}
	sym.Assert(r.Ok() && r.Out == ts[0].printed()+ts[1].printed(), "transactions printed by date")
	sym.Cover("end")
}

// far are years around which representations of dates change.
var far = []int{1, 99, 100, 999, 1000, 1677, 1678, 1899, 1901, 1969, 1970, 1999, 2000, 2038, 2039, 2106, 2107, 2262, 2263, 4000, 9999}

// PrintFar: transactions of years far apart, printed, and printed again.
func PrintFar() {
	var ts []txn
	var key []int
	for i := 0; i < 2; i++ {
		y, m, d := far[sym.Choice("y"+itoa(i), len(far))], 1+11*sym.Choice("m"+itoa(i), 2), int(sym.Int("day"+itoa(i), 1, 31))
		ts = append(ts, txn{date: dateText(y, m, d, "-"), payee: "P" + itoa(i), posts: []post{{acct: "A", comm: "£", num: itoa(i) + ".00", val: int64(100 * i)}, {acct: "B", elided: true, comm: "£", val: int64(-100 * i)}}})
		key = append(key, (y*12+m)*31+d)
	}
	r := runJ(journalText(ts), "print")
	if key[1] < key[0] {
		ts[0], ts[1] = ts[1], ts[0]
	}
	sym.Assert(r.Ok() && r.Out == ts[0].printed()+ts[1].printed(), "transactions printed by date")
	sym.Cover("end")
}

// RoundFar: the same for one transaction of any of those years, printed twice.
func RoundFar() {
	t := txn{date: dateText(far[sym.Choice("y", len(far))], 1+sym.Choice("m", 12), int(sym.Int("day", 1, 28)), pick("sep", []string{"-", "/", "."})), payee: "P",
		posts: []post{{acct: "A", comm: "£", num: "1", val: 100}, {acct: "B", elided: true}}}
	roundTrip([]sym.File{{Name: main, Data: journalText([]txn{t})}})
}

// PrintPostings: all postings of a transaction, in order, with their amounts.
func PrintPostings() {
	n := sym.Param("n", 4)
	t := txn{date: "2020-01-15", state: "*", payee: "Shop"}
	el := sym.Choice("elided", n)
	sum := int64(0)
	comm := comms[sym.Choice("comm", len(comms))]
	for i := 0; i < n; i++ {
		p := post{acct: acctNames[sym.Choice("acct"+itoa(i), 2)*i], comm: comm, elided: i == el}
		if i != el {
			if i < 2 {
				p.num, p.val = amount("a"+itoa(i), i == 1, 1, 1)
			} else {
				p.num, p.val = itoa(i)+".00", int64(100*i)
			}
			sum += p.val
		}
		t.posts = append(t.posts, p)
	}
	t.posts[el].val = -sum
	r := runJ(t.lines(), "print")
	sym.Assert(r.Ok() && r.Out == t.printed(), "all postings printed in order")
	sym.Cover("end")
}

// PrintTwice: the output of print read again.
func roundTrip(files []sym.File) {
	r1 := runFiles(files, "print")
	sym.Assert(r1.Ok(), "ends")
	if rejected(r1) {
		sym.Cover("rejected")
		return
	}
	r2 := runJ(r1.Out, "print")
	sym.Assert(r2.Ok() && !rejected(r2), "printed output accepted")
	sym.Assert(r2.Out == r1.Out, "printed output printed again is the same")
	b1 := runFiles(files, "balance", "-Z")
	b2 := runJ(r1.Out, "balance", "-Z")
	sym.Assert(b1.Ok() && b2.Ok() && b1.Out == b2.Out, "same balances")
	sym.Cover("accepted")
}

// RoundFields: round trip with free text in one part of a transaction.
func RoundFields() {
	n := sym.Param("n", 2)
	lo, hi := byte(sym.Param("lo", 1)), byte(sym.Param("hi", 255))
	b := make([]byte, n)
	for i := range b {
		c := sym.Byte("b"+itoa(i), lo, hi)
		sym.Assume(c != '\n')
		sym.Assume(c != '\r') // carriage returns are line ends only
		b[i] = c
	}
	s := string(b)
	j := []string{
		"2020-01-15 * " + s + "\n    Assets:Cash  £1.00\n    Income\n",
		"2020-01-15 Shop" + s + "\n    Assets:Cash  £1.00\n    Income\n",
		"2020-01-15" + s + "Shop\n    Assets:Cash  £1.00\n    Income\n",
		"2020-01-15 Shop ;" + s + "\n    Assets:Cash  £1.00\n    Income\n",
		"2020-01-15 Shop ; note" + s + "\n    Assets:Cash  £1.00\n    Income\n",
		"2020-01-15 Shop\n    ;" + s + "\n    Assets:Cash  £1.00\n    Income\n",
		"2020-01-15 Shop\n    A" + s + "  £1.00\n    Income\n",
		"2020-01-15 Shop\n    Assets:Cash" + s + "£1.00\n    Income\n",
		"2020-01-15 Shop\n    Assets:Cash  " + s + "1.00\n    Income\n",
		"2020-01-15 Shop\n    Assets:Cash  £1" + s + "\n    Income\n",
		"2020-01-15 Shop\n    Assets:Cash  £1.00" + s + "\n    Income\n",
		"2020-01-15 Shop\n    Assets:Cash  £1.00  ;" + s + "\n    Income\n",
		"2020-01-15 Shop\n    Assets:Cash  £1.00\n    Income" + s + "\n",
		"2020-01-15 Shop\n    Assets:Cash  £1.00\n    Income" + s,
		"2020-01-15 Shop\n    Assets:Cash  £1.00\n    Income\n    ;" + s + "\n",
		"2020-01-15 Shop\n" + s + "Assets:Cash  £1.00\n    Income\n",
		s + "2020-01-15 Shop\n    Assets:Cash  £1.00\n    Income\n",
		"2020-01-15 Shop\n    Assets:Cash  £1.00\n    Income\n" + s + "2020-01-16 Job\n    Assets:Cash  £1.00\n    Income\n",
	}
	k := sym.Param("pos", -1)
	if k < 0 {
		k = sym.Choice("pos", len(j))
	}
	roundTrip([]sym.File{{Name: main, Data: j[k]}})
}

// RoundAmounts: round trip over amounts and commodities.
func RoundAmounts() {
	n := sym.Param("n", 3)
	t := txn{date: "2020-02-29", payee: pick("payee", []string{"Shop", ""}), note: pick("note", []string{"", "note"})}
	el := sym.Choice("elided", n)
	for i := 0; i < n; i++ {
		p := post{acct: acctNames[i], comm: comms[sym.Choice("comm", len(comms))], elided: i == el}
		if i != el {
			p.num, p.val = amount("a"+itoa(i), sym.Choice("s"+itoa(i), 2) == 1, 1, sym.Choice("dec", 3))
		}
		t.posts = append(t.posts, p)
	}
	roundTrip([]sym.File{{Name: main, Data: t.lines()}})
}

// RoundDates: round trip over dates, states and order.
func RoundDates() {
	base := days(sym.Param("y", 2019), sym.Param("m", 12), 1)
	var ts []txn
	for i := 0; i < 2; i++ {
		d := int(sym.Int("d"+itoa(i), 0, int64(sym.Param("w", 100)-1)))
		t := txn{date: dayText(base+d, []string{"-", "/"}[i]), state: pick("st"+itoa(i), []string{"", "!", "*"}), payee: "P" + itoa(i)}
		if i == 0 || sym.Choice("empty", 2) == 0 {
			t.posts = []post{{acct: "A", comm: "£", num: itoa(i + 1)}, {acct: "B", elided: true}}
		}
		ts = append(ts, t)
	}
	roundTrip([]sym.File{{Name: main, Data: journalText(ts)}})
}

// PrintRepeats: texts that may be the same as the one before, or as another one, or look like
// something else.
func PrintRepeats() {
	k := byte(sym.Param("letters", 2))
	free := func(id string) string { return string([]byte{sym.Byte(id, 'a', 'a'+k-1)}) }
	pre := pick("pre", []string{"", "; ", "# ", "; ; ", ";", "~ ", "include ", "2020-01-01 ", "  ", "\t"})
	t := txn{date: "2020-01-15", payee: free("p")}
	if sym.Choice("note", 2) == 1 {
		t.note = pre + free("h")
	}
	for i := 0; i < 3; i++ {
		t.notes = append(t.notes, pre+free("n"+itoa(i)))
	}
	p := post{acct: "A:" + free("a0"), comm: "£", num: "1", val: 100}
	q := post{acct: "A:" + free("a1"), comm: "£", num: "1.00", val: 100}
	e := post{acct: "A:" + free("a2"), comm: "£", elided: true, val: -200}
	for i := 0; i < 3; i++ {
		p.comments = append(p.comments, pre+free("c"+itoa(i)))
		if i > 0 {
			e.comments = append(e.comments, pre+free("d"+itoa(i)))
		}
	}
	t.posts = []post{p, q, e}
	u := t
	u.payee = free("p1")
	j := t.lines() + pick("gap", []string{"\n\n", "\n"}) + u.lines()
	if strings.HasPrefix(pre, " ") { // the space in front of a note belongs to the layout
		cut := func(l []string) (r []string) {
			for _, s := range l {
				r = append(r, s[len(pre):])
			}
			return
		}
		for _, x := range []*txn{&t, &u} {
			if x.note != "" {
				x.note = x.note[len(pre):]
			}
			x.notes = cut(x.notes)
			x.posts = append([]post{}, x.posts...)
			x.posts[0].comments, x.posts[2].comments = cut(p.comments), cut(e.comments)
		}
	}
	r := runJ(j, "print")
	sym.Assert(r.Ok() && r.Out == t.printed()+u.printed(), "texts are printed as often as they are written")
	sym.Cover("end")
}
