package h

import (
	"verif/harness/sym"
)

// oddNames are names that some order or comparison could take for each other or put elsewhere.
var oddNames = []string{"9", "10", "2", "02", "A9", "A10", "a", "B", "b", "Z", "_", "~", "É", "e", "ß", "SS", "1.5", "-1", "+1", "(a)", "A B", "A.B", "A-B", "é", "e\u0301", "ab", "aB", "日本", "ı", "İ", "%d", "Total", "A\u00a0", "A!"}

// OddNames: any two of these names, as payees or accounts.
func OddNames() {
	i := sym.Choice("i", len(oddNames)-1)
	j := i + 1 + sym.Choice("j", len(oddNames)-1)
	sym.Assume(j < len(oddNames))
	a, b := oddNames[i], oddNames[j]
	if sym.Choice("turn", 2) == 1 {
		a, b = b, a
	}
	if sym.Param("cmd", 0) != 4 && sym.Choice("what", sym.Param("whats", 2)) == 1 {
		ts := []txn{{date: "2020-01-01", payee: b}, {date: "2020-01-01", payee: a}, {date: "2020-01-03", payee: b}}
		for i := range ts {
			ts[i].posts = []post{{acct: "A", comm: "£", num: "1", val: 100}, {acct: "B", elided: true, comm: "£", val: -100}}
		}
		nearReports(ts, true)
	} else if sym.Param("cmd", 0) == 4 {
		nearAccounts("X"+a, "X"+b)
	} else {
		nearAccounts("X:"+a, "X:"+b)
	}
	sym.Cover("end")
}
