package h

import (
	"strings"

	"verif/harness/sym"
)

// kept says that a run left all files as they were.
func kept(r sym.Result) {
	sym.Assert(len(r.Changed) == 0, "no file is created, changed or removed")
	sym.Cover("kept")
}

// ReadOnly: whatever the journal, the command and the options, the files stay as they are.
func ReadOnly() {
	v, _ := amount("v", sym.Choice("neg", 2) == 1, 1, 0)
	free := string([]byte{sym.Byte("free", 0, 255)})
	usual := "2020-02-05 * Shop  ; note\n    Expenses:Food  £" + v + "  ; c\n    Income:Job\n\n2020-01-06 Late\n    Expenses:Food  £1\n    Assets\n"
	alloc := "~ 2020-01\n    Food  £" + v + "\n\n"
	journals := []string{
		usual,
		strings.TrimSuffix(usual, "\n"),
		usual + "\n\n\n",
		strings.ReplaceAll(usual, "\n", "\r\n"),
		usual + free,
		free,
		"",
		"2020-01-05 Shop\n    A  £" + v + "\n    B  £5\n",
		"2020-13-05 Shop\n    A  £" + v + "\n    B\n",
		alloc + usual,
		usual + "\ninclude inc.ledger\n\n" + alloc,
		usual + "\ninclude sub/inc.ledger",
		usual + "\ninclude nowhere.ledger\n",
		usual + "\ninclude main.ledger\n",
		usual + "\n" + usual,
		"\n; " + free + "\n" + usual,
	}
	j := journals[sym.Choice("journal", len(journals))]
	cmds := [][]string{
		{"balance"}, {"print"}, {"accounts"}, {"payees"}, {"statistics"}, {"budget"}, {},
		{"balance", "-ZF"}, {"balance", "-C", "food"}, {"print", "@" + free}, {"print", "-c"}, {"accounts", "-b", "2020", "-e", "2021"}, {"statistics", "=note"}, {"budget", "-e", "2020-02"}, {"version"}, {"help", "print"}, {"nosuch"}, {"print", "--nosuch"},
	}
	args := append([]string{}, cmds[sym.Choice("cmd", len(cmds))]...)
	files := []sym.File{{Name: main, Data: j}, {Name: "inc.ledger", Data: usual}, {Name: "sub/inc.ledger", Data: "include other.ledger\n" + alloc}, {Name: "sub/other.ledger", Data: strings.TrimSuffix(usual, "\n")}, {Name: main + ".bak", Data: "x"}, {Name: ".gledger", Data: "x"}}
	var env []sym.File
	if sym.Choice("env", 2) == 1 {
		env = []sym.File{{Name: "LEDGER_FILE", Data: main}}
	} else {
		args = append([]string{"--file=" + main}, args...)
	}
	r := sym.Run(sym.Cmd{Args: args, Files: files, Env: env})
	sym.Assert(r.Ok(), "ends")
	kept(r)
}

// TwistedKept: the same for journals that are unusual.
func TwistedKept() {
	ts := crossTxns(true)
	args := oneReport()
	kept(runJ(journalText(ts), args...))
}

// ManyKept: and for those with much of something.
func ManyKept() {
	args := oneReport()
	kept(runJ(journalText(manyTxns(sym.Param("n", 70))), args...))
}
