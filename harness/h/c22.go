package h

import (
	"verif/harness/sym"
)

// HeaderDate: the date of a header with free characters.
func HeaderDate() {
	base := []string{"2020-02-29", "2019/12/31", "1900.02.28", "0001-01-01", "2020-04-30", "9999/12/31", "2020-2-29", "2020-02-9", "20-02-29", "02/29", "2020", "2020-02", "2020-02-299", "2020-002-29", "20200229", "2020-02-29=2020-03-01", "12020-02-29", "2020-02-29T10:00", "2020-02-29Z"}[sym.Param("base", 0)]
	from, n := sym.Param("from", 0), sym.Param("n", 3)
	b := []byte(base)
	for i := range b {
		if i >= from && i < from+n && (sym.Param("keep", 0) == 0 || isDigit(b[i])) {
			b[i] = sym.Byte("b"+itoa(i), byte(sym.Param("lo", 0)), byte(sym.Param("hi", 255)))
		}
	}
	c := b[0]
	sym.Assume(c != ';' && c != '#' && c != '~' && c != 'i' && c != ' ' && c != '\t' && c != '\n' && c != '\r')
	text := string(b)
	if len(text) > 10 { // a space ends the date
		for i := range b {
			sym.Assume(b[i] != ' ' && b[i] != '\n')
		}
	}
	y, m, d, ok := smartDate(text, 0)
	ok = ok && len(text) == 10
	sym.Assume(!ok || sym.Param("bad", 0) == 0)
	t := dated(0, text)
	t.state = pick("state", []string{"", "*"})
	end := pick("end", []string{"\n", ""})
	head := pick("head", []string{"", "2019-05-05 Marker\n    A  1\n    B\n\n"})
	r := runJ(head+t.lines()+end, "print")
	sym.Assert(r.Ok(), "ends")
	if !ok {
		sym.Cover("not a date")
		sym.Assert(rejected(r), "a header without a proper date is accepted")
		return
	}
	sym.Cover("date")
	t.date = dateText(y, m, d, "-")
	if head == "" {
		sym.Assert(r.Out == t.printed(), "the date of a header is read as written")
		return
	}
	sym.Assert(!rejected(r), "the date of a header is read as written")
}

// HeaderDays: every day of a window, in the three ways to write it.
func HeaderDays() {
	w := int64(sym.Param("w", 250))
	base := days(sym.Param("y", 2019), sym.Param("m", 1), sym.Param("d", 1))
	base += (sym.Choice("wide", sym.Param("wide", 1))*100 + sym.Choice("window", sym.Param("windows", 1))) * int(w)
	d := int(sym.Int("d", 0, w-1))
	t := dated(0, dayText(base+d, pick("sep", []string{"-", "/", "."})))
	r := runJ(t.lines()+"\n", "print")
	t.date = dayText(base+d, "-")
	sym.Assert(r.Ok() && r.Out == t.printed(), "the date of a header is read as written")
	sym.Cover("date")
}

// PeriodText: the month of an allocation with free characters.
func PeriodText() {
	base := []string{"2020-02", "2019-12", "0001-01", "2020-2", "202-02", "20200-02", "2020-002", "2020/02", "2020", "monthly", "2020-02-01"}[sym.Param("base", 0)]
	from, n := sym.Param("from", 0), sym.Param("n", 3)
	b := []byte(base)
	for i := range b {
		if i >= from && i < from+n && (sym.Param("keep", 0) == 0 || isDigit(b[i])) {
			b[i] = sym.Byte("b"+itoa(i), byte(sym.Param("lo", 0)), byte(sym.Param("hi", 255)))
			c := b[i]
			sym.Assume(c != ';' && c != '#' && c != ' ' && c != '\t' && c != '\n' && c != '\r')
		}
	}
	text := string(b)
	y, a := 0, false
	m, c := 0, false
	if len(text) == 7 && text[4] == '-' {
		y, a = num(text, 0, 4)
		m, c = num(text, 5, 7)
	}
	ok := a && c && m >= 1 && m <= 12
	sym.Assume(!ok || sym.Param("bad", 0) == 0)
	cmd := pick("cmd", commands)
	end := pick("end", []string{"", "  ; note", " "})
	j := "2019-05-05 Marker\n    A  1\n    B\n\n~ " + text + end + "\n    Food  £5.00\n"
	r := runJ(j, cmd)
	sym.Assert(r.Ok(), "ends")
	sym.Assert(rejected(r) != ok, "a period is accepted only if it is a month")
	if !ok {
		sym.Cover("not a month")
		sym.Assert(errorAt(r, main, 5), "the error says where")
		return
	}
	sym.Cover("month")
	if cmd == "budget" {
		sym.Assert(budgetShown(r.Out, "£") == dateText(y, m, 1, "-")[:7]+" 0.00\nFood|5.00|0.00|5.00\n", "the month is the one written")
	}
}
