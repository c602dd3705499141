package h

import (
	"strings"

	"verif/harness/sym"
)

// readAmount is the grammar of amounts: sign? digit+ ('.' digit digit?)?, in 64 bits of hundredths.
func readAmount(s string) (int64, bool) {
	neg := false
	if s != "" && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	var v uint64
	nd, dec, point := 0, 0, false
	for i := 0; i < len(s); i++ {
		if s[i] == '.' {
			if point || nd == 0 {
				return 0, false
			}
			point = true
			continue
		}
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		if point {
			dec++
		}
		nd++
		d := uint64(s[i] - '0')
		if v > 922337203685477580 {
			return 0, false
		}
		if v == 922337203685477580 && (neg && d > 8 || !neg && d > 7) {
			return 0, false
		}
		v = v*10 + d
	}
	if nd == 0 || point && dec == 0 || dec > 2 {
		return 0, false
	}
	for ; dec < 2; dec++ {
		if v > 92233720368547758 {
			if v > 922337203685477580 {
				return 0, false
			}
		}
		v *= 10
		if v > 9223372036854775807 && !(neg && v == 9223372036854775808) {
			return 0, false
		}
	}
	if neg {
		return int64(-v), true
	}
	return int64(v), true
}

// amountBytes makes n free bytes that can be in an amount text: anything but what ends it.
func amountBytes(n int, lo, hi byte) string {
	b := make([]byte, n)
	for i := range b {
		c := sym.Byte("c"+itoa(i), lo, hi)
		sym.Assume(c != ';')
		sym.Assume(c != '#')
		sym.Assume(c != '\t')
		sym.Assume(c != '\n')
		sym.Assume(c != '\r')
		sym.Assume(c != '\v')
		sym.Assume(c != '\f')
		b[i] = c
	}
	return string(b)
}

// checkAmount runs a journal with the amount text s and compares what is read.
func checkAmount(s string, form int, cmd int) {
	want, ok := readAmount(s)
	line := "\n    Assets:Cash  £" + s
	switch form {
	case 1:
		line = "\n    Assets:Cash\t" + s
	case 2:
		line = "\n    Assets:Cash    GBP " + s + "  ; note"
	case 3:
		line = "\n    Assets:Cash  $" + s + "\n    ; note"
	case 4:
		line = "\n    Assets:Cash   " + s + " # note"
	}
	j := "2020-01-15 Shop" + line + "\n    Income:Job\n"
	if form == 5 { // the second posting
		j = "2020-01-15 Shop\n    Income:Job\n    Assets:Cash  €" + s
	}
	if ok && want == -9223372036854775808 {
		return // has no counterpart for the other posting
	}
	switch cmd {
	case 0:
		r := runJ(j, "balance")
		sym.Assert(r.Ok(), "ends")
		if !ok {
			sym.Assert(rejected(r), "malformed amount rejected")
			sym.Cover("malformed")
			return
		}
		sym.Cover("wellformed")
		sym.Assert(!rejected(r), "wellformed amount accepted")
		if want == 0 {
			return
		}
		rows, _, good := balanceRows(r.Out)
		sym.Assert(good && len(rows) == 4, "report")
		if good && len(rows) == 4 {
			sym.Assert(strings.HasSuffix(rows[1].amount, disp(want)) && noDigit(rows[1].amount[:len(rows[1].amount)-len(disp(want))]), "amount read exactly")
			sym.Assert(strings.HasSuffix(rows[3].amount, disp(-want)), "remainder")
		}
	case 1:
		// a transaction that balances against the same number written out in full
		if !ok {
			return
		}
		j := "2020-01-15 Shop" + line + "\n    Income:Job  " + disp(-want) + "\n"
		r := runJ(j, "accounts")
		sym.Assert(r.Ok() && !rejected(r), "amount balances against the same number written in full")
		sym.Cover("balanced")
	case 2:
		// an allocation of a budget
		r := runJ("~ 2020-01\n    Food  £"+s+"\n", "budget")
		sym.Assert(r.Ok(), "ends")
		if !ok {
			sym.Assert(rejected(r), "malformed amount of an allocation rejected")
			return
		}
		sym.Assert(strings.Contains(r.Out, " "+disp(want)+" |"), "amount of an allocation read exactly")
		sym.Cover("allocation")
	}
}

func noDigit(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= '0' && s[i] <= '9' || s[i] == '-' || s[i] == '.' {
			return false
		}
	}
	return true
}

// AmountText: any text of n bytes in the place of an amount. The first byte is a digit, a
// sign or a point (other bytes there are commodities).
func AmountText() {
	n := sym.Param("n", 4)
	s := amountBytes(n, byte(sym.Param("lo", 0)), byte(sym.Param("hi", 255)))
	c := s[0]
	sym.Assume(c >= '0' && c <= '9' || c == '-' || c == '+' || c == '.')
	if c == '.' { // a commodity may end with a point, only one before a digit is an amount
		sym.Assume(n > 1)
		sym.Assume(s[1] >= '0' && s[1] <= '9')
	}
	// spaces: at the end they are layout, two of them too
	if s[n-1] == ' ' {
		sym.Assume(false)
	}
	for i := 0; i+1 < n; i++ {
		if s[i] == ' ' {
			sym.Assume(s[i+1] != ' ')
		}
	}
	checkAmount(s, sym.Param("form", 0), sym.Param("cmd", 0))
}

// AmountChars: longer texts over the characters that amounts are made of.
func AmountChars() {
	n := sym.Param("n", 6)
	b := make([]byte, n)
	for i := range b {
		c := sym.Byte("c"+itoa(i), '+', '9')
		sym.Assume(c != '/')
		b[i] = c
	}
	s := string(b)
	sym.Assume(s[0] != ',')
	if s[0] == '.' {
		sym.Assume(s[1] >= '0' && s[1] <= '9')
	}
	checkAmount(s, sym.Param("form", 0), sym.Param("cmd", 0))
}

// AmountDigits: n digits with the point at any place: sizes up to and beyond 64 bits.
func AmountDigits() {
	n := sym.Param("n", 19)
	dec := sym.Choice("dec", 4) // 0..2 decimals, 3: none and no point
	neg := sym.Choice("neg", 3)
	s := ""
	for i := 0; i < n; i++ {
		if dec < 3 && i == n-dec && dec > 0 {
			s += "."
		}
		s += string([]byte{sym.Byte("d"+itoa(i), '0', '9')})
	}
	if dec == 0 {
		s += "."
	}
	s = []string{"", "-", "+"}[neg] + s
	want, ok := readAmount(s)
	if ok && want == -9223372036854775808 {
		sym.Assume(false)
	}
	r := runJ("2020-01-15 Shop\n    Assets:Cash  £"+s+"\n    Income:Job\n", "print")
	sym.Assert(r.Ok(), "ends")
	if !ok {
		sym.Cover("does not fit or malformed")
		sym.Assert(rejected(r), "amount that does not fit rejected")
		return
	}
	sym.Cover("fits")
	sym.Assert(!rejected(r), "amount that fits accepted")
	sym.Assert(strings.Contains(r.Out, "    Assets:Cash    £"+disp(want)+"\n"), "amount read exactly")
}

// AmountPadded: leading zeros, however many, and the digits behind them.
func AmountPadded() {
	n := []int{0, 1, 2, 9, 16, 17, 18, 19, 20, 40, 300}[sym.Choice("zeros", 11)]
	s := strings.Repeat("0", n)
	for i := 0; i < sym.Param("n", 3); i++ {
		s += string([]byte{sym.Byte("d"+itoa(i), '0', '9')})
	}
	if dec := sym.Choice("dec", 4); dec < 3 {
		if s == "" || dec > len(s) {
			sym.Assume(false)
		}
		s = s[:len(s)-dec] + "." + s[len(s)-dec:]
	}
	checkAmount([]string{"", "-", "+"}[sym.Choice("sign", 3)]+s, 0, sym.Choice("how", 3))
}

// DisplayReports: what the reports show for an amount is what was written.
func DisplayReports() {
	n := sym.Param("n", 4)
	neg := sym.Choice("neg", 2) == 1
	s, v := amount("a", neg, n, 2)
	j := "2020-01-15 Shop\n    Assets:Cash  £" + s + "\n    Income:Job\n"
	switch sym.Choice("cmd", 3) {
	case 0:
		r := runJ(j, "balance", "--show-zero")
		rows, _, ok := balanceRows(r.Out)
		sym.Assert(r.Ok() && ok && len(rows) == 4, "report")
		if ok && len(rows) == 4 {
			sym.Assert(rows[1].amount == "£"+disp(v), "amount in the balance report")
		}
	case 1:
		r := runJ(j, "print")
		sym.Assert(r.Ok() && strings.Contains(r.Out, "    Assets:Cash    £"+disp(v)+"\n"), "amount printed")
	case 2:
		r := runJ("~ 2020-01\n    Food  £"+s+"\n", "budget")
		sym.Assert(r.Ok() && strings.Contains(r.Out, " "+disp(v)+" |"), "amount in the budget report")
	}
	sym.Cover("end")
}

// Extremes: amounts at and next to the limits of 64 bits, powers of ten and of two.
func Extremes() {
	base := []uint64{9223372036854775708, 9007199254740942, 9007199254740991, 4503599627370450, 999999999999999950, 2147483600, 4294967250, 99999950, 900719925474099150}[sym.Choice("base", 9)]
	off := uint64(sym.Int("off", 0, 100))
	v := base + off // up to 1<<63
	neg := sym.Choice("neg", 2) == 1
	if base > 9223372036854775000 && !neg {
		sym.Assume(off < 100)
	}
	q, n, c := int64(v), disp(int64(v)), "-"
	if neg {
		q, c = int64(-v), ""
		n = "-" + digits(v/100, 1) + "." + digits(v%100, 2)
	}
	comm := pick("comm", []string{"", "£", "GBP ", "%%", "a%d"})
	o := int64(v - 1)
	oq := -o
	if neg {
		oq = o
	}
	t := txn{date: "2020-01-15", payee: "P", posts: []post{{acct: "A", comm: comm, num: n, val: q},
		{acct: "B", comm: comm, num: c + disp(o), val: oq}}}
	t.posts = append(t.posts, post{acct: "C", elided: true, comm: comm, val: -q - oq})
	switch sym.Choice("cmd", 3) {
	case 0:
		r := runJ(t.lines(), "print")
		sym.Observe("out", r.Out)
		sym.Assert(r.Ok() && r.Out == t.printed(), "amounts printed")
	case 1:
		root := &node{}
		for _, p := range t.posts {
			root.add([]string{p.acct}, p.val)
		}
		r := runJ(t.lines(), "balance")
		want := append(root.layout(0, comm), "--------------------", right("0.00", 20))
		sym.Observe("out", r.Out)
		sym.Assert(r.Ok() && r.Out == strings.Join(want, "\n")+"\n", "amounts of the balance report")
	case 2:
		r := runJ(t.lines(), "balance", "^A$")
		sym.Observe("out", r.Out)
		sym.Assert(r.Ok() && r.Out == right(comm+n, 20)+"  A\n--------------------\n"+right(n, 20)+"\n", "amount and total of the balance report")
	}
	sym.Cover("extremes")
}
