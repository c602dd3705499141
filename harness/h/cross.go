package h

import (
	"strings"

	"verif/harness/sym"
)

// The twists of variety.go together with the other things that a command does: selecting by
// arguments and dates, reading several files, other layouts, allocations in between.

// crossTxns makes two transactions, the first with a twist, and one of another year.
func crossTxns(comm bool) []txn {
	l := allTwists(comm)
	lo, hi := sym.Param("from", 0), sym.Param("to", len(l))
	fill := sym.Param("fill", 1)
	var ts []txn
	for i := 0; i < 3; i++ {
		t := fillTxn(itoa(i), []string{"2020-01-15", "2020-01-16", "2019-12-31"}[i], fill)
		fill = 0
		if i == 0 {
			l[lo+sym.Choice("twist", hi-lo)].do(&t)
		}
		if i == 2 {
			t.posts[0].acct = "Assets:Bank"
			t.posts[1].comments = []string{"last comment"}
			t.note = "last note"
		}
		t.settle()
		ts = append(ts, t)
	}
	return ts
}

// TwistedSelect: what is selected by arguments and dates among transactions with twists.
func TwistedSelect() {
	c := sym.Param("cmd", 0)
	cmd := []string{"print", "balance", "statistics"}[c]
	ts := crossTxns(c != 1)
	args := [][]string{nil, {"cash"}, {"@shop0"}, {"=note"}, {"Food$"}, {"=comment", "Job"}, {"=^$"}, {"^Expenses:Food$", "@Shop1"}}[sym.Choice("args", 8)]
	k := sym.Choice("range", 5)
	opts := [][]string{nil, {"-b", "2020-01-15"}, {"-e", "2020-01-16"}, {"--begin=2020", "--end=2020-01-16"}, {"-e", "2020"}}[k]
	if len(args) == 0 && k == 0 {
		sym.Assume(false)
	}
	var in []txn
	for _, t := range ts {
		if k == 1 && t.date < "2020-01-15" || k >= 2 && t.date >= "2020-01-16" || k == 3 && t.date < "2020" || k == 4 && t.date >= "2020" {
			continue
		}
		in = append(in, t)
	}
	sortTxns(in)
	r := runJ(journalText(ts), append(append([]string{cmd}, opts...), args...)...)
	want, got := selected(cmd, args, in, r.Out)
	sym.Assert(r.Ok() && got == want, "what the arguments and dates select is reported")
	sym.Cover("select")
}

// reports are the command lines that cross-cutting changes are compared under.
var reports = [][]string{{"print"}, {"balance", "-Z"}, {"accounts"}, {"payees"}, {"budget"}, {"statistics"}}

func oneReport() []string {
	c := sym.Param("cmd", -1)
	if c < 0 {
		c = sym.Choice("cmd", len(reports))
	}
	return reports[c]
}

// TwistedFiles: transactions with twists, one or two of them in an included file.
func TwistedFiles() {
	ts := crossTxns(true)
	how := sym.Choice("how", 3)
	gap, end := []string{"\n\n", "\n", "\n\n"}[how], []string{"\n\n", "\n", ""}[how]
	at, n := sym.Choice("at", 3), 1
	if sym.Param("two", 0) == 1 {
		at, n = sym.Choice("at", 2), 2
	}
	var data [2]string
	for i, t := range ts {
		if i == at {
			data[0] += "include inc.ledger" + gap
		}
		k := 0
		if i >= at && i < at+n {
			k = 1
		}
		data[k] += t.lines() + gap
	}
	args := oneReport()
	r := runFiles([]sym.File{{Name: main, Data: data[0]}, {Name: "inc.ledger", Data: strings.TrimSuffix(data[1], end)}}, args...)
	w := runJ(journalText(ts), args...)
	a, b := r.Out, w.Out
	if args[0] == "statistics" {
		a, b = after(steady(a), "First "), after(steady(b), "First ")
	}
	sym.Assert(w.Ok() && !rejected(w) && r.Ok() && a == b, "same report as of one file")
	sym.Cover("included")
}

// TwistedLayout: the same transactions with twists in another layout.
func TwistedLayout() {
	ts := crossTxns(true)
	usual := journalText(ts)
	text := ""
	switch sym.Choice("layout", 7) {
	case 0: // CRLF
		text = strings.ReplaceAll(usual, "\n", "\r\n")
	case 1: // no blank lines
		text = strings.ReplaceAll(usual, "\n\n", "\n")
	case 2: // many, and none at the end
		text = strings.TrimRight("\n\n"+strings.ReplaceAll(usual, "\n\n", "\n\n\n\n"), "\n")
	case 3: // deeper
		text = strings.ReplaceAll(usual, "\n  ", "\n        ")
	case 4: // tabs
		text = strings.ReplaceAll(usual, "\n    ", "\n\t")
	case 5: // lines of comments
		text = "; c\n# c\n" + strings.ReplaceAll(usual, "\n\n", "\n\n; 2020-01-01 Shop\n#    A  £1\n;\n")
	case 6: // amounts further right
		for _, t := range ts {
			for i := range t.posts {
				if t.posts[i].sep == "" {
					t.posts[i].sep = spaces(30)
				}
			}
			text += t.lines() + "\n\n"
		}
	}
	args := oneReport()
	r := runJ(text, args...)
	w := runJ(usual, args...)
	sym.Assert(w.Ok() && !rejected(w) && r.Ok() && steady(r.Out) == steady(w.Out), "the report does not depend on the layout")
	sym.Cover("layout")
}

// TwistedBetween: allocations between transactions with twists.
func TwistedBetween() {
	ts := crossTxns(true)
	text := ""
	at := sym.Choice("at", 4)
	how := sym.Choice("how", 2)
	gap, alloc := []string{"\n\n", "\n"}[how], []string{"~ 2020-01\n    Food  £5.00", "~ 2019-12\n    Food\n    Rent  £-7\n    ; c"}[how]
	for i, t := range ts {
		if i == at {
			text += alloc + gap
		}
		text += t.lines() + gap
	}
	if at == 3 {
		text += alloc
	}
	args := oneReport()
	sym.Assume(args[0] != "budget")
	r := runJ(text, args...)
	w := runJ(journalText(ts), args...)
	sym.Assert(w.Ok() && !rejected(w) && r.Ok() && steady(r.Out) == steady(w.Out), "an allocation changes no report but the budget")
	sym.Cover("same")
}

// TwistedAgain: transactions with twists, reported twice with hash maps in another order.
func TwistedAgain() {
	ts := crossTxns(true)
	args := append(append([]string{}, oneReport()...), [][]string{nil, {"o"}}[sym.Choice("args", 2)]...)
	files := []sym.File{{Name: main, Data: journalText(ts)}}
	r := runFiles(files, args...)
	again(r, files, args)
	sym.Cover("repeated")
}

// TwistedFault: an error after a transaction with a twist is reported, and where.
func TwistedFault() {
	ts := crossTxns(true)[:1]
	if sym.Choice("both", 2) == 1 {
		ts = append(ts, fillTxn("1", "2020-01-16", 0))
	}
	gap := pick("gap", []string{"\n\n", "\n"})
	text := ""
	for _, t := range ts {
		text += t.lines() + gap
	}
	fault := pick("fault", []string{"2020-02-30 No\n", "junk\n", "2020-03-01 P\n    A  £1\n    B  £x\n", "2020-03-01 P\n    A  £1\n    B  £1\n\n"})
	n := strings.Count(text, "\n") + strings.Count(strings.TrimSuffix(fault, "\n"), "\n") + 1
	r := runJ(text+fault, oneReport()...)
	sym.Assert(errorAt(r, main, n), "the error says where")
	sym.Cover("rejected")
}
