package h

import (
	"strings"

	"verif/harness/sym"
)

// JournalSource: which file is read, by --file and LEDGER_FILE.
func JournalSource() {
	k := byte(sym.Param("names", 3))
	name := func(id string) string { return "j" + string([]byte{sym.Byte(id, 'a', 'a'+k-1)}) + ".dat" }
	var files []sym.File
	for i := 0; i < 2; i++ {
		id := itoa(i)
		s, _ := amount("v"+id, false, 1, 0)
		files = append(files, sym.File{Name: name("n" + id), Data: "2020-01-05 From" + id + "\n    Expenses:A" + id + "  £" + s + "\n    Income:B" + id + "\n"})
	}
	sym.Assume(files[0].Name != files[1].Name)
	files = append(files, sym.File{Name: "main.ledger", Data: "2020-01-05 FromElse\n    A  1\n    B\n"}, sym.File{Name: "ledger", Data: "2020-01-05 FromElse\n    A  1\n    B\n"})
	var env []sym.File
	want := ""
	switch sym.Choice("env", 3) {
	case 1:
		want = name("e")
		env = []sym.File{{Name: "LEDGER_FILE", Data: want}}
	case 2:
		env = []sym.File{{Name: "LEDGER_FILE", Data: ""}}
	}
	if sym.Choice("otherenv", 2) == 1 {
		env = append(env, sym.File{Name: "LEDGER", Data: "main.ledger"}, sym.File{Name: "LEDGER_FILES", Data: "main.ledger"}, sym.File{Name: "HLEDGER_FILE", Data: "main.ledger"})
	}
	cmd := pick("cmd", commands)
	args := []string{cmd}
	form := sym.Choice("form", 6)
	if form == 5 {
		args = []string{cmd, "-f", ""}
	} else if form > 0 {
		want = name("f")
		f := [][]string{{"-f", want}, {"--file", want}, {"--file=" + want}, {"-f" + want}}[form-1]
		switch sym.Choice("place", 3) {
		case 0:
			args = append(f, cmd)
		case 1:
			args = append(args, f...)
		case 2:
			args = append(append(args, "-b", "2001"), f...)
		}
	}
	r := sym.Run(sym.Cmd{Args: args, Files: files, Env: env})
	sym.Observe("out", steady(r.Out))
	sym.Observe("err", r.Err)
	sym.Assert(r.Ok(), "ends")
	for i := 0; i < 2; i++ {
		if want == files[i].Name {
			sym.Cover("read")
			w := sym.Run(sym.Cmd{Args: []string{cmd, "--file=" + want}, Files: files[i : i+1]})
			sym.Assert(r.Out == w.Out && !strings.Contains(r.Out, "From"+itoa(1-i)) && (cmd != "print" && cmd != "payees" || strings.Contains(r.Out, "From"+itoa(i))), "the file that is asked for is the one that is read")
			return
		}
	}
	sym.Cover("no journal")
	shown := strings.Contains(r.Out, "From") || strings.Contains(r.Out, "Expenses") || strings.Contains(r.Out, "------") || strings.Contains(r.Out, "ransactions")
	sym.Assert(!shown && r.Out+r.Err != "", "without a journal there is an error and no report")
}

// JournalNames: names of journals are taken as they are, whatever characters they have.
func JournalNames() {
	names := []string{"-", "$J", "a$J", "${J}x", "~", "~j", "%41", "a b", " j", "j ", "*", "j?", "j,a", "j:a", "j;a", "#j", "@j", "=j", "J", "é", "'j'", "\"j\"", "a\\j", "file:j", "j.gz", "j\tk", "d/./j", "d/../j", "./j", "d//j", "(j)", "[j]", "j.JOURNAL", "journal"}
	name := names[sym.Choice("name", len(names))]
	decoy := "2020-01-05 Decoy\n    A  1\n    B\n"
	v, _ := amount("v", false, 1, 0)
	data := "2020-01-05 Asked\n    Expenses:A  £" + v + "\n    Income:B\n"
	files := []sym.File{{Name: name, Data: data}}
	file := func(n string) {
		c := strings.TrimPrefix(strings.ReplaceAll(strings.ReplaceAll(name, "d/../", ""), "//", "/"), "./")
		if n != strings.ReplaceAll(c, "/./", "/") && n != name {
			files = append(files, sym.File{Name: n, Data: decoy})
		}
	}
	for _, n := range []string{"j", "a", "aA", "b", "x", "k", "Ax", "a b", "é", "A", "d/k", "main.ledger", ".ledger"} {
		file(n)
	}
	env := []sym.File{{Name: "J", Data: "A"}}
	cmd := pick("cmd", commands)
	var args []string
	switch sym.Choice("form", 5) {
	case 0:
		args = []string{"--file=" + name, cmd}
	case 1:
		args = []string{cmd, "-f", name}
	case 2:
		sym.Assume(name[0] != '=') // the sign can belong to the option
		args = []string{cmd, "-f" + name}
	case 3:
		args = []string{"-c", "--file", name, cmd}
	case 4:
		env = append(env, sym.File{Name: "LEDGER_FILE", Data: name})
		args = []string{cmd}
	}
	r := sym.Run(sym.Cmd{Args: args, Files: files, Env: env})
	w := sym.Run(sym.Cmd{Args: []string{cmd, "--file=main"}, Files: []sym.File{{Name: "main", Data: data}}})
	a, b := r.Out, w.Out
	if cmd == "statistics" {
		a, b = after(steady(a), "First "), after(steady(b), "First ")
	}
	sym.Assert(r.Ok() && w.Ok() && a == b && a != "", "the journal is read by the name it has")
	sym.Cover("read")
}
