package h

import (
	"strings"

	"verif/harness/sym"
)

// NearNames: two names that part at or after a free character, as payees and as accounts.
func NearNames() {
	k := sym.Param("at", -1)
	if k < 0 {
		k = sym.Choice("at", 3)
	}
	c := sym.Byte("c", ' ', '~')
	d := c
	if k == 1 {
		d = sym.Byte("d", ' ', '~')
	}
	sym.Assume(c != ';' && c != '#' && d != ';' && d != '#')
	two := func(pre string) (string, string) {
		switch k {
		case 0: // only after the character
			return pre + string([]byte{c}) + "x", pre + string([]byte{c}) + "y"
		case 1: // in the character
			return pre + string([]byte{c}) + "x", pre + string([]byte{d}) + "x"
		}
		return pre + "x" + string([]byte{c}) + "z", pre + "x"
	}
	var p, a, b string
	switch sym.Choice("what", 4) {
	case 3: // one has a character more
		a = "A:Bx"
		at := sym.Choice("more", 5)
		b = a[:at] + string([]byte{c}) + a[at:]
		if at == 0 {
			sym.Assume(letter(c))
		}
		sym.Assume(at < 4 || c != ' ')
		nearAccounts(a, b)
	case 0:
		p, a = two("P")
		a, b, p = "A", p, a
		ts := []txn{{date: "2020-01-01", payee: b}, {date: "2020-01-02", payee: p}, {date: "2020-01-03", payee: b}}
		for i := range ts {
			ts[i].posts = []post{{acct: a, comm: "£", num: "1", val: 100}, {acct: "B", elided: true, comm: "£", val: -100}}
		}
		nearReports(ts, true)
	case 1:
		a, b = two("A")
		nearAccounts(a, b)
	case 2:
		a, b = two("A:B")
		nearAccounts(a, b)
	}
	sym.Cover("end")
}

func nearAccounts(a, b string) {
	if sym.Param("cmd", 0) == 4 {
		a, b = "Expenses:"+a, "Expenses:"+b
	}
	ts := []txn{{date: "2020-01-01", payee: "P", posts: []post{{acct: a, comm: "£", num: "1", val: 100}, {acct: b, comm: "£", num: "3", val: 300}, {acct: "Z", elided: true, comm: "£", val: -400}}},
		{date: "2020-01-02", payee: "P", posts: []post{{acct: b, comm: "£", num: "0.50", val: 50}, {acct: a, elided: true, comm: "£", val: -50}}}}
	nearReports(ts, false)
}

func nearReports(ts []txn, payees bool) {
	text := journalText(ts)
	var accts, pays []string
	root := &node{}
	var key []int
	for i, t := range ts {
		key = append(key, i)
		pays = insert(pays, t.payee)
		for _, p := range t.posts {
			accts = insert(accts, p.acct)
			root.add(strings.Split(p.acct, ":"), p.val)
		}
	}
	switch sym.Param("cmd", 0) {
	case 0: // lists
		r := runJ(text, "payees")
		sym.Assert(r.Ok() && r.Out == joined(pays), "each payee is listed once")
		r = runJ(text, "accounts")
		sym.Assert(r.Ok() && r.Out == joined(accts), "each account is listed once")
	case 1:
		statistics(runJ(text, "statistics"), ts, key)
	case 2:
		kind := 2 * sym.Choice("layout", 2)
		args := append([]string{"balance", "-Z"}, [][]string{nil, {"-C"}, {"-F"}}[kind]...)
		r := runJ(text, args...)
		want := append(root.layout(kind, "£"), "--------------------", right("0.00", 20))
		sym.Assert(r.Ok() && r.Out == strings.Join(want, "\n")+"\n", "the balance of each account")
	case 4: // budget
		if payees {
			return
		}
		var bs bmonths
		alloc := "~ 2020-01\n"
		for _, t := range ts {
			for _, p := range t.posts {
				bs.book(12*2020, p.acct, p.val)
			}
		}
		for i, p := range ts[1].posts {
			name := strings.TrimPrefix(p.acct, "Expenses:")
			bs.at(12*2020).env.add(strings.Split(name, ":")[:1], int64(700+i))
			alloc += "    " + name + "  £7.0" + itoa(i) + "\n"
		}
		r := runJ(text+alloc, "budget")
		want := strings.ReplaceAll(strings.ReplaceAll(bs.report(), "\n ", "\n"), " |", "|")
		sym.Assert(r.Ok() && budgetShown(r.Out, "£") == want, "the envelopes of each account")
	case 3:
		r := runJ(text, "print")
		want := ""
		for _, t := range ts {
			want += t.printed()
		}
		sym.Assert(r.Ok() && r.Out == want, "names are printed as written")
	}
}

func letter(c byte) bool { return c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' }
