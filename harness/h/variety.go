package h

import (
	"strings"

	"verif/harness/sym"
)

// Journals that differ from an ordinary one in one way per transaction (a twist), for the
// things that go wrong only with something unusual.

var (
	long40  = "Abcdefghi Jklmnopqr Stuvwxyzab Cdefghijkl"
	long300 = strings.Repeat("Lorem ipsum dolor sit amet ", 11) + "end"
)

// fillTxn makes the transaction that the twists start from.
func fillTxn(id, date string, fill int) txn {
	t := txn{date: date, payee: "Shop" + id, posts: []post{
		{acct: "Assets:Cash", comm: "£"},
		{acct: "Expenses:Food", comm: "£"},
		{acct: "Income:Job", elided: true}}}
	for i := range t.posts[:2] {
		p := &t.posts[i]
		if i < fill {
			p.num, p.val = amount("v"+id+itoa(i), i == 1, 1, 2)
		} else {
			p.num, p.val = itoa(i+1)+".25", int64(100*i+125)
		}
	}
	return t
}

type twist struct {
	name string
	do   func(t *txn)
}

func first(t *txn) *post { return &t.posts[0] }
func last(t *txn) *post  { return &t.posts[len(t.posts)-1] }

func insertPost(t *txn, i int, p post) {
	t.posts = append(t.posts[:i:i], append([]post{p}, t.posts[i:]...)...)
}

func fixed(acct string, v int64) post {
	return post{acct: acct, comm: "£", num: disp(v), val: v}
}

// the twists that change no amount or account; all of them are seen by print only
var textTwists = []twist{
	{"none", func(t *txn) {}},
	{"pending", func(t *txn) { t.state = "!" }},
	{"cleared", func(t *txn) { t.state = "*" }},
	{"slashes", func(t *txn) { t.raw = strings.ReplaceAll(t.date, "-", "/") }},
	{"dots", func(t *txn) { t.raw = strings.ReplaceAll(t.date, "-", ".") }},
	{"no payee", func(t *txn) { t.payee = "" }},
	{"long payee", func(t *txn) { t.payee = long300 }},
	{"payee with signs", func(t *txn) { t.payee = "é @x =y ~ £5:00 -(*)!" }},
	{"payee like a state", func(t *txn) { t.state, t.payee = "*", "! x" }},
	{"payee of another transaction in lower case", func(t *txn) { t.payee = "shop1" }},
	{"the payee of another transaction", func(t *txn) { t.payee = "Shop1" }},
	{"header note", func(t *txn) { t.note = "header note" }},
	{"long header note", func(t *txn) { t.note = long300 }},
	{"header note with signs", func(t *txn) { t.note = "; # a  b\tc" }},
	{"note", func(t *txn) { t.notes = []string{"a note"} }},
	{"empty note", func(t *txn) { t.notes = []string{""} }},
	{"empty notes", func(t *txn) { t.notes = []string{"", "a", "", "a"} }},
	{"many notes", func(t *txn) { t.notes = []string{"n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9"} }},
	{"long note", func(t *txn) { t.notes = []string{long300} }},
	{"all notes", func(t *txn) {
		t.note, t.notes = "header", []string{"under"}
		first(t).comments = []string{"on"}
		last(t).comments = []string{"below"}
	}},
	{"comment", func(t *txn) { first(t).comments = []string{"a comment"} }},
	{"empty comment", func(t *txn) { first(t).comments = []string{""} }},
	{"empty comments", func(t *txn) { t.posts[1].comments = []string{"a", "", "a", ""} }},
	{"comment at the end", func(t *txn) { last(t).comments = []string{"the end"} }},
	{"many comments", func(t *txn) { last(t).comments = []string{"c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9"} }},
	{"long comment", func(t *txn) { t.posts[1].comments = []string{long300} }},
	{"comment on the line", func(t *txn) { first(t).comments, first(t).inline = []string{"on the line", "below"}, true }},
	{"empty comment on the line", func(t *txn) { t.posts[1].comments, t.posts[1].inline = []string{""}, true }},
	{"comment on the last line", func(t *txn) { last(t).comments, last(t).inline = []string{"on the line"}, true }},
	{"tabs", func(t *txn) {
		for i := range t.posts {
			t.posts[i].head, t.posts[i].sep = "\t", "\t"
		}
	}},
	{"wide spaces", func(t *txn) {
		for i := range t.posts {
			t.posts[i].head, t.posts[i].sep = "  ", spaces(60)
		}
	}},
	{"spaces at the end", func(t *txn) { first(t).tail, t.posts[1].tail = " ", "   " }},
}

// the twists that do
var sumTwists = []twist{
	{"first elided", func(t *txn) { first(t).elided, *last(t) = true, fixed("Income:Job", -725) }},
	{"second elided", func(t *txn) { t.posts[1].elided, *last(t) = true, fixed("Income:Job", -725) }},
	{"first elided, with a comment", func(t *txn) {
		first(t).elided, *last(t) = true, fixed("Income:Job", -725)
		first(t).comments = []string{"of the first"}
	}},
	{"first elided, with a comment on the line", func(t *txn) {
		first(t).elided, *last(t) = true, fixed("Income:Job", -725)
		first(t).comments, first(t).inline = []string{"of the first", "below"}, true
	}},
	{"second elided, with comments", func(t *txn) {
		t.posts[1].elided, *last(t) = true, fixed("Income:Job", -725)
		first(t).comments, t.posts[1].comments, last(t).comments = []string{"a"}, []string{"", "b"}, []string{"c"}
	}},
	{"last elided, with comments on the lines", func(t *txn) {
		for i := range t.posts {
			t.posts[i].comments, t.posts[i].inline = []string{"on " + itoa(i)}, true
		}
	}},
	{"notes, and the first elided", func(t *txn) {
		first(t).elided, *last(t) = true, fixed("Income:Job", -725)
		t.note, t.notes, last(t).comments = "header", []string{"n1", "n2"}, []string{"c1", "c2"}
	}},
	{"one account twice", func(t *txn) { t.posts[1].acct = first(t).acct }},
	{"one account first and last", func(t *txn) { last(t).acct = first(t).acct }},
	{"one account only", func(t *txn) { t.posts[1].acct, last(t).acct = first(t).acct, first(t).acct }},
	{"the same posting twice", func(t *txn) { insertPost(t, 1, *first(t)) }},
	{"posting to the parent", func(t *txn) { t.posts[1].acct = "Assets" }},
	{"posting to the parent first", func(t *txn) { first(t).acct, t.posts[1].acct = "Assets", "Assets:Cash" }},
	{"posting to child and grandchild", func(t *txn) { t.posts[1].acct = "Assets:Cash:Box:Old" }},
	{"name that begins like another", func(t *txn) { t.posts[1].acct = "Assets:Cash2" }},
	{"name that begins like another above", func(t *txn) { t.posts[1].acct = "AssetsX:Cash" }},
	{"name in lower case", func(t *txn) { t.posts[1].acct = "assets:cash" }},
	{"name of another account below", func(t *txn) { t.posts[1].acct = "Expenses:Cash" }},
	{"name of an account above", func(t *txn) { t.posts[1].acct = "Cash:Assets" }},
	{"name like its parent", func(t *txn) { t.posts[1].acct = "Assets:Assets:Assets" }},
	{"name with spaces", func(t *txn) { t.posts[1].acct = "Expenses Of Mine:Food And Drink:X" }},
	{"name with signs", func(t *txn) { t.posts[1].acct = "E-1:é.@(=)*~!:0" }},
	{"names of roots", func(t *txn) {
		t.posts[1].acct, last(t).acct = "Expenses:_root_:_budget_root_:B", "Income:_budget_root_:_root_"
	}},
	{"name of 40", func(t *txn) { t.posts[1].acct = "Expenses:" + long40 }},
	{"name of 300", func(t *txn) { t.posts[1].acct = "Expenses:" + long300 }},
	{"deep account", func(t *txn) { t.posts[1].acct = "Expenses:B:C:D:E:F:G:H:I:J:K:L:M" }},
	{"deep parents", func(t *txn) { first(t).acct, t.posts[1].acct = "A:B:C:D:E:F:G:H:I:J:K", "A:B:C:D:E:F:G:H:I:J" }},
	{"many postings", func(t *txn) {
		for i := 0; i < 12; i++ {
			insertPost(t, 1+i, fixed("Expenses:N"+itoa(i), int64(i*i-30)))
		}
	}},
	{"plus", func(t *txn) {
		if n := first(t).num; n[0] != '-' {
			first(t).num = "+" + n
		}
	}},
	{"zeros in front", func(t *txn) {
		if n := first(t).num; n[0] != '-' {
			first(t).num = "000" + n
		}
	}},
	{"no decimals", func(t *txn) { insertPost(t, 1, post{acct: "Expenses:Rent", comm: "£", num: "-7", val: -700}) }},
	{"one decimal", func(t *txn) { insertPost(t, 1, post{acct: "Expenses:Rent", comm: "£", num: "-7.5", val: -750}) }},
	{"zero", func(t *txn) { insertPost(t, 1, post{acct: "Expenses:Rent", comm: "£", num: "0"}) }},
	{"minus zero", func(t *txn) { insertPost(t, 2, post{acct: "Expenses:Rent", comm: "£", num: "-0.00"}) }},
	{"huge", func(t *txn) { insertPost(t, 1, fixed("Expenses:Rent", 4611686018427387)) }},
	{"huge that cancel out", func(t *txn) {
		insertPost(t, 1, fixed("Expenses:Rent", 9223372036854774807))
		insertPost(t, 2, fixed("Expenses:Flat", -9223372036854774807))
	}},
	{"nothing left", func(t *txn) { insertPost(t, 2, fixed("Expenses:Rent", -first(t).val-t.posts[1].val)) }},
	{"no posting", func(t *txn) { t.posts = nil }},
	{"two postings", func(t *txn) { t.posts = []post{t.posts[0], t.posts[2]} }},
}

// the twists that look like accounts that the budget knows
var budgetTwists = []twist{
	{"a name within a name", func(t *txn) { t.posts[1].acct = "Expenses:Work Expenses:Food" }},
	{"expenses of expenses", func(t *txn) { t.posts[1].acct = "Expenses:Expenses:Food" }},
	{"expenses only of expenses", func(t *txn) { t.posts[1].acct = "Expenses:Expenses" }},
	{"expenses of income", func(t *txn) { t.posts[1].acct = "Expenses:Income:Food" }},
	{"income of expenses", func(t *txn) { last(t).acct = "Income:Expenses:Food" }},
	{"income of income", func(t *txn) { last(t).acct = "Income:Income" }},
	{"assets of income", func(t *txn) { first(t).acct = "Assets:Income:Job" }},
	{"assets of expenses", func(t *txn) { first(t).acct = "Assets:Expenses:Food" }},
	{"a name that begins alike", func(t *txn) { t.posts[1].acct = "Expenses2:Food" }},
	{"a name that begins alike, with a space", func(t *txn) { t.posts[1].acct = "Expenses Food:Food" }},
	{"income in a longer name", func(t *txn) { last(t).acct = "Income Tax:Job" }},
	{"income alone", func(t *txn) { last(t).acct = "Income" }},
	{"expenses alone", func(t *txn) { t.posts[1].acct = "Expenses" }},
	{"expenses and income alone", func(t *txn) { first(t).acct, last(t).acct = "Expenses", "Income" }},
	{"to be budgeted", func(t *txn) { t.posts[1].acct = "Expenses:To Be Budgeted" }},
	{"lower case", func(t *txn) { t.posts[1].acct, last(t).acct = "expenses:Food", "income:Job" }},
	{"envelopes that differ in case", func(t *txn) { first(t).acct = "Expenses:food" }},
	{"envelopes that begin alike", func(t *txn) { first(t).acct = "Expenses:Food And Drink" }},
	{"all of it spent from income", func(t *txn) { first(t).acct = "Income:Job" }},
	{"many envelopes", func(t *txn) {
		for i := 0; i < 12; i++ {
			insertPost(t, 1+i, fixed("Expenses:"+"QWERTYUIOPAS"[i:i+1], int64(i*i-30)))
		}
	}},
}

// the twists that use several commodities, which balance and budget cannot add up
var commTwists = []twist{
	{"single posting", func(t *txn) { t.posts = []post{{acct: "Equity", elided: true}} }},
	{"two commodities", func(t *txn) { t.posts[1].comm = "$" }},
	{"two commodities apart", func(t *txn) { insertPost(t, 1, post{acct: "Expenses:Rent", comm: "$", num: "2", val: 200}) }},
	{"one without", func(t *txn) { t.posts[1].comm = "" }},
	{"first without", func(t *txn) { first(t).comm = "" }},
	{"one with a space", func(t *txn) { t.posts[1].comm = "£ " }},
}

func allTwists(comm bool) []twist {
	l := append(append([]twist{}, textTwists...), sumTwists...)
	if comm {
		l = append(l, commTwists...)
	}
	return l
}

// settle gives the posting without an amount its amount.
func (t *txn) settle() {
	sum, comm, el := int64(0), "", -1
	for i, p := range t.posts {
		if p.elided {
			el = i
			continue
		}
		sum += p.val
		if p.comm != "" {
			comm = p.comm
		}
	}
	if el >= 0 {
		t.posts[el].val, t.posts[el].comm = -sum, comm
	}
}

// recomm writes all amounts in another commodity.
func recomm(t *txn, comm string) {
	for i := range t.posts {
		if t.posts[i].comm == "£" {
			t.posts[i].comm = comm
		}
	}
}

// twisted makes n transactions; each of the first two has a twist.
func twisted(comm bool, pairs int) []txn {
	l := allTwists(comm)
	if sym.Param("cmd", 0) == 4 {
		l = append(l, budgetTwists...)
	}
	lo, hi := sym.Param("from", 0), sym.Param("to", len(l))
	fill := sym.Param("fill", 1)
	dates := []string{"2020-01-15", "2020-01-15", "2019-12-31"}
	var ts []txn
	for i := 0; i < sym.Param("n", 2); i++ {
		t := fillTxn(itoa(i), dates[i%3], fill)
		fill = sym.Param("fill1", 0)
		if i == 0 {
			l[lo+sym.Choice("twist0", hi-lo)].do(&t)
		}
		if i == 1 && pairs > 1 {
			l[sym.Choice("twist1", len(l))].do(&t)
		}
		ts = append(ts, t)
	}
	c := sym.Param("comm", 1)
	for i := range ts {
		recomm(&ts[i], comms[c])
		ts[i].settle()
	}
	return ts
}

func twistedText(ts []txn) string {
	s := ""
	for _, t := range ts {
		s += t.lines() + pick("gap", []string{"\n\n", "\n"})
	}
	return s
}

// Twisted: what the commands show of transactions with twists.
func Twisted() {
	cmd := sym.Param("cmd", 0)
	ts := twisted(cmd == 0 || cmd == 2 || cmd == 3, sym.Param("pairs", 1))
	text := twistedText(ts)
	twistedReport(text, ts, cmd)
}

func twistedReport(text string, ts []txn, cmd int) {
	switch cmd {
	case 0:
		r := runJ(text, "print")
		sortTxns(ts)
		want := ""
		for _, t := range ts {
			want += t.printed()
		}
		sym.Assert(r.Ok() && r.Out == want, "every transaction is printed completely")
	case 1:
		root := &node{}
		for _, t := range ts {
			for _, p := range t.posts {
				root.add(strings.Split(p.acct, ":"), p.val)
			}
		}
		args := []string{"balance", "-Z"}
		kind := sym.Choice("layout", 3)
		if kind > 0 {
			args = append(args, []string{"-C", "-F"}[kind-1])
		}
		if sym.Choice("zero", 2) == 1 {
			args = append(args[:1:1], args[2:]...)
			root.prune()
		}
		r := runJ(text, args...)
		want := root.layout(kind, comms[sym.Param("comm", 1)])
		if len(want) == 0 {
			want = []string{""}
		}
		want = append(want, "--------------------", right(disp(root.sum), 20))
		sym.Assert(r.Ok() && r.Out == strings.Join(want, "\n")+"\n", "the balance of every account")
	case 2:
		var names []string
		for _, t := range ts {
			for _, p := range t.posts {
				names = insert(names, p.acct)
			}
		}
		r := runJ(text, "accounts")
		sym.Assert(r.Ok() && r.Out == joined(names), "every account is listed once")
		names = nil
		for _, t := range ts {
			names = insert(names, t.payee)
		}
		r = runJ(text, "payees")
		sym.Assert(r.Ok() && r.Out == joined(names), "every payee is listed once")
	case 3:
		var key []int
		for i := range ts {
			d := ts[i].date
			key = append(key, days(int(tail(d[:4])), int(tail(d[5:7])), int(tail(d[8:]))))
		}
		statistics(runJ(text, "statistics"), ts, key)
	case 4:
		var bs bmonths
		for _, t := range ts {
			for _, p := range t.posts {
				bs.book(12*int(tail(t.date[:4]))+int(tail(t.date[5:7]))-1, p.acct, p.val)
			}
		}
		r := runJ(text, "budget")
		sym.Assert(r.Ok() && budgetShown(r.Out, comms[sym.Param("comm", 1)]) == bs.report(), "the months add up per envelope")
	}
	sym.Cover("twisted")
}

func joined(l []string) string {
	s := ""
	for _, x := range l {
		s += x + "\n"
	}
	return s
}

// TwistedRound: printing what print wrote for transactions with twists.
func TwistedRound() {
	roundTrip([]sym.File{{Name: main, Data: twistedText(twisted(false, sym.Param("pairs", 1)))}})
}

// TwistedSum: transactions with twists in which all postings have an amount are accepted iff they balance.
func TwistedSum() {
	l := allTwists(true)
	t := fillTxn("0", "2020-01-15", 2)
	t.posts[2] = post{acct: "Income:Job", comm: "£"}
	t.posts[2].num, t.posts[2].val = amount("v", sym.Choice("neg", 2) == 1, 1, 2)
	tw := l[sym.Choice("twist", len(l))]
	tw.do(&t)
	sum, el := int64(0), false
	for _, p := range t.posts {
		el = el || p.elided
		sum += p.val
	}
	sym.Assume(!el)
	cmd := pick("cmd", []string{"print", "accounts"})
	before := fillTxn("1", "2020-01-14", 0)
	r := runJ(before.lines()+pick("gap", []string{"\n\n", "\n"})+t.lines()+pick("end", []string{"", "\n", "\n\n2020-01-16 Last\n"}), cmd)
	sym.Assert(r.Ok(), "ends")
	if rejected(r) {
		sym.Cover("rejected")
		sym.Assert(sum != 0, "balanced transaction rejected")
	} else {
		sym.Cover("accepted")
		sym.Assert(sum == 0, "unbalanced transaction accepted")
	}
}
