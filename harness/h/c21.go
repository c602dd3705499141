package h

import (
	"verif/harness/sym"
)

func isDigit(c byte) bool { return c >= '0' && c <= '9' }

// num is the number that s[i:j] writes; ok if they are all digits.
func num(s string, i, j int) (n int, ok bool) {
	for ; i < j; i++ {
		if !isDigit(s[i]) {
			return 0, false
		}
		n = 10*n + int(s[i]-'0')
	}
	return n, true
}

// smartDate reads a smart date as the documentation says; year is the current one.
func smartDate(s string, year int) (y, m, d int, ok bool) {
	sep := func(c byte) bool { return c == '/' || c == '.' || c == '-' }
	var a, b, c bool
	m, d = 1, 1
	switch {
	case len(s) == 4:
		y, ok = num(s, 0, 4)
		return
	case len(s) == 7 && sep(s[4]):
		y, a = num(s, 0, 4)
		m, b = num(s, 5, 7)
		ok = a && b
	case len(s) == 5 && sep(s[2]):
		y = year
		m, a = num(s, 0, 2)
		d, b = num(s, 3, 5)
		ok = a && b
	case len(s) == 10 && sep(s[4]) && s[7] == s[4]:
		y, a = num(s, 0, 4)
		m, b = num(s, 5, 7)
		d, c = num(s, 8, 10)
		ok = a && b && c
	}
	ok = ok && m >= 1 && m <= 12 && d >= 1 && d <= monthLen(y, m)
	return
}

// SmartDate: a text of free characters as --begin or --end.
func SmartDate() {
	base := []string{"2020", "02-29", "2020-02", "2020-02-29", "2019/12/31", "31.12", "12.31", "2020.07.15", "1900-02-29", "0001/01/02",
		"2", "20", "202", "20200", "02-2", "2020-1", "2020-02-2", "2020-02-029", "2020-02-29-01", "020-02-29", "02-029"}[sym.Param("base", 0)]
	from, n := sym.Param("from", 0), sym.Param("n", 4)
	b := []byte(base)
	for i := range b {
		if i >= from && i < from+n && (sym.Param("keep", 0) == 0 || isDigit(b[i])) {
			b[i] = sym.Byte("b"+itoa(i), byte(sym.Param("lo", 1)), byte(sym.Param("hi", 255)))
		}
	}
	text := string(b)
	year := 2019 + sym.Choice("year", 2)
	now := int64(days(year, 6, 15))*86400 + 43200
	z := zone(sym.Param("zone", 0))
	if sym.Param("turn", 0) == 1 { // the first or the last second of the year where the program runs
		now = int64(days(year, 1, 1)) * 86400
		if sym.Choice("last", 2) == 1 {
			now = int64(days(year+1, 1, 1))*86400 - 1
		}
		now -= int64(z.Offset)
	}
	y, m, d, ok := smartDate(text, year)
	sym.Assume(!ok || sym.Param("bad", 0) == 0)
	flag := sym.Choice("flag", 2)
	arg := []string{"--begin=", "--end="}[flag]
	var ts []txn
	if ok {
		sym.Assume(y < 10000 && d > 1 || len(text) != 5 && len(text) != 10)
		ts = append(ts, dated(0, dateText(y, m, d, "-")))
		if d > 1 {
			ts = append(ts, dated(1, dateText(y, m, d-1, "-")))
		} else {
			ts = append(ts, dated(1, dateText(y, m, 2, "-")))
		}
	} else {
		ts = append(ts, dated(0, "2020-02-29"))
	}
	r := runCmd(sym.Cmd{Args: []string{"-f", main, "print", arg + text}, Files: []sym.File{{Name: main, Data: journalText(ts)}}, Now: now, Zone: z})
	sym.Assert(r.Ok(), "ends")
	if !ok {
		sym.Cover("not a date")
		sym.Assert(rejected(r) || r.Err != "", "a text that is not a date is taken for one")
		return
	}
	sym.Cover("date")
	want := ""
	for _, t := range ts {
		if (t.payee == "Payee1" && d > 1) == (flag == 1) {
			want = t.printed() + want
		}
	}
	if d == 1 && flag == 0 {
		want = ts[0].printed() + ts[1].printed()
	}
	if d == 1 && flag == 1 {
		want = ""
	}
	sym.Assert(r.Out == want, "the date means what it says")
}
