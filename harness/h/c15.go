package h

import (
	"strings"

	"verif/harness/sym"
)

// errorAt says the program reported an error at the given line of the given file and nothing
// else of the journal.
func errorAt(r sym.Result, file string, line int) bool {
	return strings.Contains(r.Out+"\n", file+":"+itoa(line)+"\n")
}

// sound checks what holds for every run of every command, whatever the input.
func sound(r sym.Result, marker string) {
	sym.Assert(r.Crash == "", "no panic")
	sym.Assert(!r.Hang, "no endless loop")
	sym.Assert(r.Out+r.Err != "" || r.Code == 0, "a report or an error")
	if rejected(r) {
		sym.Cover("rejected")
		sym.Assert(marker == "" || !strings.Contains(r.Out, marker), "nothing is reported of a rejected journal")
		s := strings.TrimPrefix(r.Out, "error at ")
		k := strings.Index(s, ":")
		sym.Assert(k > 0 && k+1 < len(s) && s[k+1] >= '1' && s[k+1] <= '9', "the error says where")
	} else {
		sym.Cover("accepted")
	}
}

var crashHead = "2019-05-05 Marker\n    Assets:Marker  7.00\n    Income:Old\n\n"

func crashJournals(s string) []string {
	h := crashHead
	return []string{
		h + s,
		h + "\n" + s + "\n2020-01-15 Shop\n    Assets:Cash  £1.00\n    Income\n",
		h + "2020-01-15 * Shop\n" + s + "\n    Assets:Cash  £1.00\n    Income\n",
		h + "2020-01-15 Shop\n    Assets:Cash  £1.00\n" + s + "\n    Income\n",
		h + "2020-01-15 Shop\n    Assets:Cash  £1.00\n    Income\n" + s,
		h + "2020-01-15" + s + "\n    Assets:Cash  £1.00\n    Income\n",
		h + "20" + s + "\n    Assets:Cash  £1.00\n    Income\n",
		h + "2020-01-15 Shop\n    Expenses" + s + "  £1.00\n    Income\n",
		h + "2020-01-15 Shop\n    Expenses:A  " + s + "\n    Income\n",
		h + "2020-01-15 Shop\n    Expenses:A  1.00\n    Income" + s + "\n    Assets\n",
		h + "~ " + s + "\n    Food  5.00\n\n2020-01-15 Shop\n    Expenses:Food  £1.00\n    Income\n",
		h + "~ 2020-01\n    Food" + s + "5.00\n    X\n\n2020-01-15 Shop\n    Expenses:Food:B  £1.00\n    Income\n",
		h + "i" + s + "\n2020-01-15 Shop\n    Assets:Cash  £1.00\n    Income\n",
		h + "include inc.ledger" + s + "\n2020-01-15 Shop\n    Assets:Cash  £1.00\n    Income\n",
		s + "2020-01-15 Shop\n    Assets:Cash  £1.00\n    Income\n",
		h + "include" + s + "\n2020-01-15 Shop\n    Assets:Cash  £1.00\n    Income\n",
		h + "include " + s + "\n2020-01-15 Shop\n    Assets:Cash  £1.00\n    Income\n",
	}
}

// CrashBytes: arbitrary bytes at one of many places of a journal.
func CrashBytes() {
	n := sym.Param("n", 2)
	lo, hi := byte(sym.Param("lo", 0)), byte(sym.Param("hi", 255))
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.Byte("b"+itoa(i), lo, hi)
	}
	l := crashJournals(string(b))
	k := sym.Param("pos", -1)
	if k < 0 {
		k = sym.Choice("pos", len(l))
	}
	c := sym.Param("cmd", -1)
	if c < 0 {
		c = sym.Choice("cmd", len(commands))
	}
	args := []string{commands[c]}
	switch sym.Param("opt", 0) {
	case 1:
		args = append(args, []string{"-F", "food", "@s", "=x", "-b", "-Z"}[c])
		if args[1] == "-b" {
			args = append(args, "2019")
		}
	}
	marker := "Marker"
	if k == 14 {
		marker = ""
	}
	r := runFiles([]sym.File{{Name: main, Data: l[k]}, {Name: "inc.ledger", Data: "2020-01-15 Inc\n    A  1\n    B\n"}}, args...)
	sound(r, marker)
}

// CrashFile: a journal of nothing but arbitrary bytes.
func CrashFile() {
	n := sym.Param("n", 3)
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.Byte("b"+itoa(i), 0, 255)
	}
	r := runJ(string(b), pick("cmd", commands))
	sound(r, "")
}

// CrashLines: short lines made of the characters that mean something, in any order.
func CrashLines() {
	pieces := []string{"", "2020-01-15 P", "  A", "  A  1", "  A  -1", "\tA  £1", "  ; c", "; c", "~ 2020-01", "include inc.ledger", "  ", "  A  ; c", "2020-01-15", "20", "x", "  1", "~", "  To Be Budgeted", "  Expenses", "  A  +", "  A  £"}
	n := sym.Param("n", 3)
	j := ""
	for i := 0; i < n; i++ {
		j += pieces[sym.Choice("l"+itoa(i), len(pieces))]
		if i < n-1 || sym.Choice("end", 2) == 0 {
			j += "\n"
		}
	}
	c := sym.Param("cmd", -1)
	if c < 0 {
		c = sym.Choice("cmd", len(commands))
	}
	r := runFiles([]sym.File{{Name: main, Data: j}, {Name: "inc.ledger", Data: "2020-01-15 Inc\n    A  1\n    B\n"}}, commands[c])
	sound(r, "")
}

// CrashArgs: arbitrary bytes as arguments.
func CrashArgs() {
	n := sym.Param("n", 2)
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.Byte("b"+itoa(i), byte(sym.Param("lo", 1)), byte(sym.Param("hi", 255)))
	}
	s := string(b)
	k := sym.Param("pos", -1)
	if k < 0 {
		k = sym.Choice("pos", 7)
	}
	cmd := pick("cmd", commands)
	args := []string{cmd}
	switch k {
	case 0:
		args = append(args, "--", s)
	case 1:
		args = append(args, "@"+s)
	case 2:
		args = append(args, "="+s)
	case 3:
		args = append(args, "--begin="+s)
	case 4:
		args = append(args, "--end", s)
	case 5:
		args = append(args, "--begin", "2020-01"+s)
	case 6:
		args = append(args, "-e", "01"+s, "food")
	}
	r := runJ("2020-01-15 Shop  ; note\n    Expenses:Food  £1.00  ; c\n    Income\n", args...)
	sound(r, "")
}

// CrashInclude: files that include one another, or that are not there.
func CrashInclude() {
	n := sym.Choice("files", 3) + 1
	names := []string{main, "sub/b.ledger", "sub/c.ledger"}
	var files []sym.File
	cyc := false
	to := []int{-1, -1, -1}
	for i := 0; i < n; i++ {
		d := "2020-01-0" + itoa(i+1) + " P\n    A  1\n    B\n\n"
		if k := sym.Choice("inc"+itoa(i), n+3); k < n {
			to[i] = k
			target := names[k]
			if i > 0 {
				target = []string{"../main.ledger", "b.ledger", "./c.ledger"}[k]
			}
			d += "include " + target + "\n"
		} else {
			d += []string{"", "include nowhere.ledger\n", "include .\n"}[k-n]
			if k > n {
				to[i] = -2
			}
		}
		files = append(files, sym.File{Name: names[i], Data: d + "2020-02-01 Q\n    A  1\n    B\n"})
	}
	cur, steps := 0, 0
	for cur >= 0 && steps < 5 {
		cur = to[cur]
		steps++
	}
	cyc = cur >= 0 || cur == -2
	r := runFiles(files, pick("cmd", commands))
	sound(r, "")
	if cyc {
		sym.Cover("cycle or missing file")
		sym.Assert(rejected(r), "files that include themselves or are missing are reported")
	} else {
		sym.Assert(!rejected(r), "accepted")
	}
}

// ErrorLine: the error names the file and the line at which reading stopped.
func ErrorLine() {
	faults := []struct {
		text string
		line int // of the fault, from the first line of text; 0: the line that ends the transaction
	}{
		{"2020-13-01 P\n    A  1\n    B\n", 1},
		{"2020-01-01 P\n    A  1x\n    B\n", 2},
		{"2020-01-01 P\n    A  1\n    B  1.234\n", 3},
		{"2020-01-01 P\n    A  1\n    B\n    ; c\n    C\n", 6},
		{"2020-01-01 P\n    A  1\n    B  1\n", 4},
		{"2020-01-01 P\n    A  1\n    ; c\n    B  1\n    ; d\n", 6},
		{"2020-01-01 P\n    A  1\n    1  1\n", 3},
		{"junk\n", 1},
		{"include nowhere\n", 1},
		{"    A  1\n", 1},
		{"iinclude x\n", 1},
	}
	k := sym.Choice("fault", len(faults))
	f := faults[k]
	free := sym.Byte("free", ' ', '~')
	sym.Assume(free != ';' && free != '#')
	txn := "2019-05-05 Marker" + string([]byte{free}) + "\n    A  1\n    ; note\n    B\n"
	befores := []string{"", "\n\n", txn + "\n", txn, txn + txn + "\n\n", "; c\n\n" + txn + "\n"}
	bi := sym.Choice("before", len(befores))
	sym.Assume(bi != 3 || f.text[0] != ' ') // otherwise one more posting of the transaction before it
	before := befores[bi]
	line := strings.Count(befores[bi], "\n")
	nl := pick("nl", []string{"\n", "\r\n"})
	aft := pick("after", []string{"", "\n", "\n2021-01-01 Later\n    A  1\n    B\n", "2021-01-01 Later\n    A  1\n    B\n"})
	text := before + f.text + aft
	n := line + f.line
	if nl != "\n" {
		text = strings.ReplaceAll(text, "\n", nl)
	}
	c := sym.Param("cmd", -1)
	if c < 0 {
		c = sym.Choice("cmd", len(commands))
	}
	cmd := commands[c]
	where := main
	var files []sym.File
	switch sym.Choice("where", 3) {
	case 0:
		files = []sym.File{{Name: main, Data: text}}
	case 1:
		where = "inc.ledger"
		files = []sym.File{{Name: main, Data: "\n\ninclude inc.ledger\n"}, {Name: where, Data: text}}
	case 2:
		where = "sub/inc.ledger"
		files = []sym.File{{Name: main, Data: "2019-05-05 Marker\n    A  1\n    B\n\ninclude sub/mid.ledger\n\n\n"}, {Name: "sub/mid.ledger", Data: "\ninclude inc.ledger\n"}, {Name: where, Data: text}}
	}
	r := runFiles(files, cmd)
	sym.Assert(r.Ok() && rejected(r), "reported")
	sym.Assert(!strings.Contains(r.Out, "Marker") && !strings.Contains(r.Out, "Later"), "nothing is reported of a rejected journal")
	sym.Assert(errorAt(r, where, n), "the error names the file and the line")
	sym.Cover("end")
}
