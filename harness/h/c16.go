package h

import (
	"strings"

	"verif/harness/sym"
)

// layoutLines is a journal in its usual layout; the parts that stand at a posting's indentation
// and between account and amount are marked by \x01 and \x02.
var layoutLines = []string{
	"2020-01-15 * Shop  ; note",
	"\x01; a note",
	"\x01Expenses:Food A\x02£1.50",
	"\x01; comment",
	"\x01Income:Job",
	"",
	"~ 2020-01",
	"\x01Food A\x02£5.00",
	"",
	"2020-02-16 ! Other one",
	"\x01Assets:Cash\x02£-2.00",
	"\x01Expenses:Food\x02£2  ; c",
}

func usual(l []string) string {
	return strings.ReplaceAll(strings.ReplaceAll(strings.Join(l, "\n"), "\x01", "    "), "\x02", "  ") + "\n"
}

// space is a free run of n spaces and tabs.
func space(name string, n int) string {
	s := ""
	for i := 0; i < n; i++ {
		c := sym.Byte(name+itoa(i), '\t', ' ')
		sym.Assume(c == '\t' || c == ' ')
		s += string([]byte{c})
	}
	return s
}

// Layout: the report does not depend on how the journal is laid out.
func Layout() {
	n := sym.Param("n", 3)
	what := sym.Param("what", -1)
	if what < 0 {
		what = sym.Choice("what", 5)
	}
	c := sym.Param("cmd", -1)
	if c < 0 {
		c = sym.Choice("cmd", len(commands))
	}
	cmd := commands[c]
	l := append([]string{}, layoutLines...)
	insert := func(at int, s string) {
		l = append(l, "")
		copy(l[at+1:], l[at:])
		l[at] = s
	}
	switch what {
	case 0: // indentation
		s := space("in", 1+sym.Choice("len", n))
		sym.Assume(s[0] == '\t' || len(s) > 1 && s[1] == ' ')
		some := []int{1, 2, 3, 4, 7, 10, 11}
		k := sym.Choice("line", len(some)+1)
		for i, x := range some {
			if k == i || k == len(some) {
				l[x] = strings.Replace(l[x], "\x01", s, 1)
			}
		}
	case 1: // between account and amount
		s := space("sep", 1+sym.Choice("len", n))
		sym.Assume(len(s) > 1 || s[0] == '\t')
		some := []int{2, 7, 10, 11}
		k := sym.Choice("line", len(some)+1)
		for i, x := range some {
			if k == i || k == len(some) {
				l[x] = strings.Replace(l[x], "\x02", s, 1)
			}
		}
	case 2: // blank lines: missing before a header, or repeated
		for i := sym.Choice("top", 3); i > 0; i-- {
			insert(0, "")
		}
	case 3: // comment lines at the start of a line
		s := pick("mark", []string{";", "#"})
		for i := 0; i < n; i++ {
			b := sym.Byte("c"+itoa(i), '\t', '~')
			sym.Assume(b == '\t' || b >= ' ')
			s += string([]byte{b})
		}
		insert(sym.Choice("at", len(l)+1), s[:1+sym.Choice("len", n+1)])
	case 4: // indented comment lines
		sym.Assume(cmd != "print")
		s := pick("mark", []string{"  ;", "\t#", "    ;"})
		b := sym.Byte("c", '\t', '~')
		sym.Assume(b == '\t' || b >= ' ')
		insert(sym.Choice("at", len(l)+1), s+string([]byte{b}))
	}
	if what == 2 {
		var m []string
		for i, s := range l {
			if s == "" && i > 2 {
				for k := sym.Choice("blank"+itoa(i), 4); k > 0; k-- {
					m = append(m, "")
				}
				continue
			}
			m = append(m, s)
		}
		l = m
	}
	text := usual(l)
	text = text[:len(text)-1]
	for i := sym.Choice("end", 4); i > 0; i-- {
		text += "\n"
	}
	if sym.Choice("crlf", 2) == 1 {
		text = strings.ReplaceAll(text, "\n", "\r\n")
	}
	r := runJ(text, cmd)
	w := runJ(usual(layoutLines), cmd)
	sym.Assert(w.Ok() && !rejected(w), "accepted")
	sym.Assert(r.Ok() && steady(r.Out) == steady(w.Out), "the layout of the journal changes the report")
	sym.Cover("layout")
}

// PostingLine: an indented line of free characters counts or is rejected.
func PostingLine() {
	n := sym.Param("n", 2)
	cmd := pick("cmd", []string{"print", "balance", "accounts"})
	indent := pick("indent", []string{" ", "  ", "\t", "    "})
	s := ""
	for i := 0; i < n; i++ {
		b := sym.Byte("b"+itoa(i), '\t', '~')
		sym.Assume(b == '\t' || b >= ' ')
		s += string([]byte{b})
	}
	tail := pick("tail", []string{"", "  £0.00"})
	before := "2020-01-15 Shop\n    Expenses:Food  £1.00\n    Income:Job  £-1.00\n"
	gap := pick("gap", []string{"", "\n"})
	after := "\n2020-01-16 Other\n    Expenses:Rent  £1.00\n    Income:Job  £-1.00\n"
	r := runJ(before+gap+indent+s+tail+"\n"+after, cmd)
	line := indent + s + tail
	sym.Assume(line[0] != ' ' || line[1] != '\t')
	rest := strings.TrimLeft(line, " \t")
	sym.Assert(r.Ok(), "ends")
	switch {
	case rest != "" && line[0] == ' ' && line[1] != ' ': // not indented enough
		sym.Assert(rejected(r), "a line that cannot be read is skipped")
		sym.Cover("rejected")
	case rest == "":
		if line != " " {
			w := runJ(before+after, cmd)
			sym.Assert(r.Out == w.Out, "a blank line changes the report")
		}
	case rest[0] == ';' || rest[0] == '#':
		if cmd != "print" {
			w := runJ(before+after, cmd)
			sym.Assert(r.Out == w.Out, "a comment changes the report")
		}
		sym.Cover("comment")
	case rest[0] >= 'A' && rest[0] <= 'Z' || rest[0] >= 'a' && rest[0] <= 'z':
		// an account: up to two spaces or a tab
		k := strings.Index(rest, "\t")
		if j := strings.Index(rest, "  "); j >= 0 && (k < 0 || j < k) {
			k = j
		}
		acct, num := rest, ""
		if k >= 0 {
			acct, num = strings.TrimRight(rest[:k], " "), strings.TrimLeft(rest[k:], " \t")
		} else if strings.HasSuffix(rest, " ") {
			acct = rest[:len(rest)-1]
		}
		if gap != "" {
			sym.Assert(rejected(r), "a posting without a transaction is skipped")
			sym.Cover("rejected")
			return
		}
		for i := 0; i+1 < len(acct); i++ {
			sym.Assume(acct[i] != ':')
		}
		sym.Assume(acct[len(acct)-1] != ':')
		if j := strings.IndexAny(num, ";#"); j >= 0 {
			if tail != "" || cmd == "print" {
				return
			}
			num = num[:j]
		}
		if num == "" || num == "£0.00" {
			w := runJ(before+"    "+acct+"  £0.00\n"+after, cmd)
			sym.Assert(!rejected(w) && r.Out == w.Out, "a posting does not count")
			sym.Cover("counts")
		} else if !hasDigit(num) {
			sym.Assert(rejected(r), "a line that cannot be read is skipped")
			sym.Cover("rejected")
		}
	default:
		sym.Assert(rejected(r), "a line that cannot be read is skipped")
		sym.Cover("rejected")
	}
}

func hasDigit(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= '0' && s[i] <= '9' {
			return true
		}
	}
	return false
}

// PostingTail: what follows an amount is blank, a comment, or makes the line unreadable.
func PostingTail() {
	n := sym.Param("n", 2)
	cmd := pick("cmd", []string{"balance", "accounts", "budget"})
	s := ""
	for i := 0; i < n; i++ {
		b := sym.Byte("b"+itoa(i), '\t', '~')
		sym.Assume(b == '\t' || b >= ' ')
		s += string([]byte{b})
	}
	k := sym.Choice("line", 3)
	l := []string{"", "", ""}
	l[k] = pick("gap", []string{"", " ", "  ", "\t"}) + s
	head := pick("head", []string{"2020-01-15 Shop\n", "2020-01-15 Shop  ; note\n    ; note\n"})
	j := head + "    Expenses:Food  £1.00" + l[0] + "\n    Assets:Cash  £-2.00" + l[1] + "\n    Income:Job  1.00" + l[2]
	nl := pick("end", []string{"\n", ""})
	r := runJ(j+nl, cmd)
	rest := strings.TrimLeft(l[k], " \t")
	sym.Assert(r.Ok(), "ends")
	if rest == "" || rest[0] == ';' || rest[0] == '#' {
		w := runJ(head+"    Expenses:Food  £1.00\n    Assets:Cash  £-2.00\n    Income:Job  1.00\n", cmd)
		sym.Assert(!rejected(r) && r.Out == w.Out, "blanks or a comment after an amount change the report")
		sym.Cover("tail accepted")
	} else {
		sym.Assert(rejected(r), "text after an amount is skipped")
		sym.Cover("rejected")
	}
}

// ForeignByte: a control character or an unusual blank anywhere in a line never makes the line vanish.
func ForeignByte() {
	b := string([]byte{sym.Byte("b", 0, 127)})
	sym.Assume(b[0] != '\n' && (b[0] < ' ' || b[0] == 127))
	switch sym.Choice("wide", 4) {
	case 1:
		b = "\u00a0"
	case 2:
		b = "\u0085"
	case 3:
		b = "\u3000"
	}
	before := "2020-01-15 Shop\n    Expenses:Food  £1.00\n    Income:Job  £-1.00\n"
	line, after, cmd := "    Extra:Thing  £0.00", "", "accounts"
	if sym.Choice("line", 2) == 1 {
		line, cmd = "2020-01-16 Other", "print"
		before += "\n"
		after = "    Expenses:Rent  £2.00\n    Income:Job\n"
	}
	at := sym.Choice("at", len(line)+1)
	r := runJ(before+line[:at]+b+line[at:]+"\n"+after, cmd)
	sym.Assert(r.Ok(), "ends")
	if rejected(r) {
		sym.Cover("rejected")
		return
	}
	w := runJ(before, cmd)
	if cmd == "print" {
		sym.Assert(strings.Count(r.Out, "Expenses:") == 2 && strings.Count(r.Out, "\n2020-01-1")+strings.Count(r.Out[:9], "2020-01-1") == 2, "a transaction is skipped or joined to another")
	} else {
		sym.Assert(strings.Count(r.Out, "\n") == strings.Count(w.Out, "\n")+1, "a posting is skipped")
	}
	sym.Cover("counts")
}
