package h

import (
	"strings"

	"verif/harness/sym"
)

// Allocations: an allocation anywhere in the journal changes no report but the budget's.
func Allocations() {
	month := "~ 2020-0" + string([]byte{sym.Byte("month", '1', '9')})
	s, _ := amount("v", false, 1, 0)
	c0 := sym.Byte("c", 'A', 'z')
	sym.Assume(c0 <= 'Z' || c0 >= 'a')
	acct := pick("acct", []string{"Expenses", "Income:Job", "Food", "Assets:Cash", "Expenses:Food:" + string([]byte{c0})})
	alloc := pick("alloc", []string{
		month + "\n    " + acct + "  £" + s + "\n",
		month + "  ; Shop\n    " + acct + "  £-" + s + "  ; late\n",
		month + "\n    ; late\n    " + acct + "  " + s + "\n      ; Job\n    Food  £3\n",
		month + "\n    " + acct + "  £" + s + "\n    Food\n",
		month + "\n    Other  £1\n    " + acct + "\n",
		month + "\n",
	}[:sym.Param("allocs", 6)])
	parts := []string{
		"2020-01-05 * Shop  ; Note\n    Expenses:Food  £7.25  ; c\n    Assets:Cash\n",
		"2020-02-06 Job\n    Assets:Cash  £20\n    Income:Job\n",
		"include inc.ledger\n",
		"2020-01-04 Late\n    ; late\n    Expenses:Rent  £1.50\n    Expenses:Food  -1.50\n",
	}
	inc := "2020-03-07 Included\n    Expenses:Food  £1\n    Assets:Cash\n"
	at := sym.Choice("at", 7)
	sep := pick("sep", []string{"\n", ""})
	put := func(at int) string {
		s := ""
		for i, p := range parts {
			if i == at {
				s += alloc + sep
			}
			s += p + sep
		}
		if at == len(parts) {
			s += alloc
		}
		return s
	}
	files := func(at int) []sym.File {
		f := inc
		switch at {
		case 5:
			f = alloc + sep + inc
		case 6:
			f = inc + sep + strings.TrimSuffix(alloc, "\n")
		}
		return []sym.File{{Name: main, Data: put(at)}, {Name: "inc.ledger", Data: f}}
	}
	args := [][]string{{"balance"}, {"print"}, {"accounts"}, {"payees"}, {"statistics"}, {"balance", "-Z"}, {"print", "food"}, {"statistics", "=late"}, {"accounts", "--end=2020-02"}}
	c := sym.Param("cmd", -1)
	if c < 0 {
		c = sym.Choice("cmd", len(args))
	}
	r := runFiles(files(at), args[c]...)
	w := runFiles(files(-1), args[c]...)
	sym.Assert(w.Ok() && !rejected(w), "accepted")
	sym.Assert(r.Ok() && steady(r.Out) == steady(w.Out), "an allocation changes no report but the budget")
	sym.Cover("same")
}

// AllocationFiles: a file of allocations only is no file with transactions.
func AllocationFiles() {
	s, _ := amount("v", false, 1, 0)
	t := "2020-01-05 Shop\n    Expenses:Food  £" + s + "\n    Assets:Cash\n"
	a := "~ 2020-01\n    Food  £" + s + "\n"
	var fs [3]string
	n := 0
	var want []string
	nm := []string{main, "b.ledger", "c.ledger"}
	for i := range fs {
		k := sym.Choice("has"+itoa(i), 4)
		if k&1 == 1 {
			fs[i] += t
			n++
			want = insert(want, nm[i])
		}
		if k&2 == 2 {
			if sym.Choice("first"+itoa(i), 2) == 1 {
				fs[i] = a + fs[i]
			} else {
				fs[i] += a
			}
		}
	}
	switch sym.Choice("tree", 3) {
	case 0:
		fs[0] = "include b.ledger\n" + fs[0] + "include c.ledger\n"
	case 1:
		fs[1] += "include c.ledger\n"
		fs[0] += "include b.ledger\n"
	case 2:
		fs[1] = "include c.ledger\n" + fs[1]
		fs[0] = "include b.ledger\n" + fs[0]
	}
	r := runFiles([]sym.File{{Name: main, Data: fs[0]}, {Name: nm[1], Data: fs[1]}, {Name: nm[2], Data: fs[2]}}, "statistics")
	sym.Assert(r.Ok() && !rejected(r), "accepted")
	if n == 0 {
		sym.Assert(r.Out == "No transactions matched arguments.\n", "no transactions")
		return
	}
	l, _ := fileList(r.Out)
	var got []string
	for _, f := range l {
		got = insert(got, f)
	}
	sym.Assert(strings.Join(got, " ") == strings.Join(want, " "), "the files of the transactions are listed")
	sym.Cover("files")
}
