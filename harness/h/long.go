package h

import (
	"strings"

	"verif/harness/sym"
)

// LongLines: lines as long as the buffers that they are read through, and longer, with a free
// character around the end of the buffer.
func LongLines() {
	at := []int{4096, 8192}[sym.Choice("size", sym.Param("sizes", 1))] - 2 + sym.Choice("at", 4)
	c := string([]byte{sym.Byte("c", '!', '~')})
	rest := pick("rest", []string{"", "y", " z;"})
	end := pick("end", []string{"\n", "\r\n", ""})
	a, b := neighbours()
	t := txn{date: "2020-01-15", payee: "Shop"}
	p := post{acct: "Assets:Cash", comm: "£", num: "1.00", val: 100}
	q := post{acct: "Income:Job", elided: true, comm: "£", val: -100}
	long := func(before int) string { return strings.Repeat("x", at-before) + c + rest }
	t.posts = []post{p, q}
	want := t
	text := ""
	where := sym.Choice("where", 7)
	switch where {
	case 0: // payee
		sym.Assume(c != ";" && c != "#" && rest != " z;")
		t.payee = long(11)
		want = t
	case 1: // header note
		t.note = long(20)
		want = t
	case 2: // note
		t.notes = []string{"n", long(6)}
		want = t
	case 3: // comment of a posting
		t.posts[1].comments = []string{long(8)}
		want = t
	case 4: // account
		sym.Assume(rest != " z;")
		t.posts[0].acct = long(4)
		want = t
	case 5: // comment line
		text = ";" + long(1) + end
		if end == "" {
			text += "\n"
		}
	case 6: // spaces before the amount
		sym.Assume(c == "x" && rest == "")
		t.posts[0].sep = strings.Repeat(" ", at-15)
		want.posts = append([]post{}, t.posts...)
	}
	j := text + a.lines() + "\n\n" + b.lines() + "\n\n" + t.lines() + "\n"
	if end != "\n" {
		j = strings.TrimSuffix(strings.ReplaceAll(j, "\n", "\r\n"), "\r\n") + end
	}

	if sym.Choice("cmd", 2) == 0 {
		r := runJ(j, "print")
		sym.Assert(r.Ok() && r.Out == a.printed()+want.printed()+b.printed(), "long lines are read in full")
		sym.Cover("long")
		return
	}
	// an error behind the long line
	r := runJ(j+"\n2020-13-01 No\n", "balance")
	n := strings.Count(j+"\n", "\n") + 1
	sym.Assert(errorAt(r, main, n), "the error after a long line says where")
	sym.Cover("error")
}
