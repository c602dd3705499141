package h

import (
	"verif/harness/sym"
)

// Repeatable: a command with many of everything that might be kept in a hash map, run twice;
// the second time hash maps are iterated in any order.
func Repeatable() {
	k := sym.Param("kinds", 2) // names to choose from
	name := func(id string) string {
		if sym.Param("alike", 0) == 1 { // names that differ in case only
			return []string{"Ab", "AB", "aB", "ab"}[sym.Choice(id, k)]
		}
		return string([]byte{sym.Byte(id, 'A', byte('A'+k-1))})
	}
	cmds := [][]string{
		{"balance"}, {"balance", "-F"}, {"balance", "-C"}, {"balance", "-Z"}, {"print"}, {"accounts"}, {"payees"}, {"statistics"}, {"budget"},
		{"print", "A", "B"}, {"balance", "B", "=A"}, {"accounts", "A", "C"}, {"statistics", "B"}, {"accounts", "s"}, {"payees", "."}, {"print", "@."}, {"balance", "s"}, {"budget", "-e", "2020-04"}, {"accounts", "-b", "2020"},
	}
	c := sym.Param("cmd", -1)
	if c < 0 {
		c = sym.Choice("cmd", len(cmds))
	}
	n := sym.Param("n", 2)
	j := ""
	for i := 0; i < n; i++ {
		id := itoa(i)
		s, _ := amount("v"+id, false, 1, 0)
		d := []string{"2020-01-05", "2020-02-05", "2020-01-05"}[i%3]
		j += d + " " + name("p"+id) + "\n    Expenses:" + name("a"+id) + ":X  £" + s + "  ; " + name("c"+id) + "\n    Expenses:" + name("b"+id) + "  £1.00\n    Income:" + name("i"+id) + "\n\n"
	}
	j += "~ 2020-01\n    B  £5.00\n    C:D  £2.00\n\n~ 2020-03\n    A  £5.00\n\n"
	files := []sym.File{{Name: main, Data: "include z.ledger\n" + j + "include a.ledger\ninclude b/z.ledger\n"},
		{Name: "z.ledger", Data: "2020-01-05 Z\n    Expenses:Z  £1\n    Income:A\n"},
		{Name: "a.ledger", Data: "2020-01-05 A\n    Expenses:Y  £1\n    Income:B\n"},
		{Name: "b/z.ledger", Data: "2020-01-05 z\n    Expenses:z  £1\n    Income:B\n"}}
	if sym.Param("reject", 0) == 1 {
		files[2].Data += "    Income:C\n"
	}
	r := runFiles(files, cmds[c]...)
	again(r, files, cmds[c])
	sym.Cover("repeated")
}

// again runs a command again, hash maps being iterated in another order.
func again(r sym.Result, files []sym.File, args []string) {
	at := sym.Choice("map", sym.Param("maps", 12)) - 1
	sym.MapOrder(at, sym.Param("orders", 3))
	sym.Differs(&r)
	w := sym.Run(sym.Cmd{Args: append([]string{"-f", main}, args...), Files: files})
	sym.Differs(nil)
	if at < 0 {
		sym.Cover("maps " + itoa(sym.MapRanges()))
	}
	sym.Assert(r.Out == w.Out && r.Err == w.Err && r.Code == w.Code && r.Crash == w.Crash, "the output depends on the order of a hash map")
}

// Again: free bytes in a journal and in arguments; the outcome is the same again.
func Again() {
	n := sym.Param("n", 2)
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.Byte("b"+itoa(i), 0, 255)
	}
	l := crashJournals(string(b))
	k := sym.Choice("pos", len(l))
	c := sym.Param("cmd", -1)
	if c < 0 {
		c = sym.Choice("cmd", len(commands))
	}
	files := []sym.File{{Name: main, Data: l[k]}, {Name: "inc.ledger", Data: "2020-01-15 Inc\n    A  1\n    B\n"}}
	r := runFiles(files, commands[c])
	again(r, files, []string{commands[c]})
	sym.Cover("repeated")
}
