package h

import (
	"strings"

	"verif/harness/sym"
)

// Journals with much of something: what works for a few and not for many.

// manyTxns makes transactions with n of something; one amount is free, early, in the middle or late.
func manyTxns(n int) (ts []txn) {
	base := days(2019, 3, 1)
	at := []int{0, n / 2, n - 1}[sym.Choice("at", 3)]
	num, val := amount("v", sym.Choice("neg", 2) == 1, 1, 0)
	put := func(p *post, i int) {
		p.comm, p.num, p.val = "£", disp(int64(7*i%90-30)), int64(7*i%90-30)
		if i == at {
			p.num, p.val = num, val
		}
	}
	simple := func(i int, date, payee, acct, other string) txn {
		t := txn{date: date, payee: payee, posts: []post{{acct: acct}, {acct: other, elided: true}}}
		put(&t.posts[0], i)
		return t
	}
	switch sym.Choice("shape", 6) {
	case 0: // transactions, payees, accounts and days, the last ones first
		for i := 0; i < n; i++ {
			ts = append(ts, simple(i, dayText(base+2*(n-i), "-"), "P"+itoa(i), "Expenses:E"+itoa(i), "Income:I"+itoa(i%7)))
		}
	case 1: // transactions of one day, payee and account
		for i := 0; i < n; i++ {
			ts = append(ts, simple(i, "2020-02-29", "P", "Expenses:E", "Income:I"))
		}
	case 2: // postings of one transaction
		t := txn{date: "2020-02-29", payee: "P"}
		for i := 0; i < n; i++ {
			p := post{acct: "Expenses:E" + itoa(i%11) + ":X" + itoa(i)}
			put(&p, i)
			t.posts = append(t.posts, p)
		}
		insertPost(&t, n/3, post{acct: "Income:I", elided: true})
		ts = []txn{t}
	case 3: // notes and comments of one transaction
		t := simple(at, "2020-02-29", "P", "Expenses:E", "Income:I")
		for i := 0; i < n; i++ {
			t.notes = append(t.notes, "n"+itoa(i%17))
			t.posts[i%2].comments = append(t.posts[i%2].comments, "c"+itoa(i%19))
		}
		ts = []txn{t, simple(-1, "2020-02-28", "Q", "Expenses:E", "Income:I")}
	case 4: // words of names
		long := strings.Repeat("Ab cd ", n)
		for i := 0; i < 3; i++ {
			ts = append(ts, simple(at*i, dayText(base-i, "-"), long+itoa(i), "Expenses:"+long+"X:Y"+itoa(i), "Income:"+long+itoa(i)))
		}
	case 5: // levels of accounts
		d := n
		if d > 40 {
			d = 40
		}
		deep := strings.Repeat(":D", d)
		for i := 0; i < 3; i++ {
			ts = append(ts, simple(at*i, dayText(base-i, "-"), "P", "Expenses:E"+deep+":Y"+itoa(i), "Income"+deep[:len(deep)-2*i]))
		}
	}
	for i := range ts {
		ts[i].settle()
	}
	return ts
}

// Many: the reports of journals with much of something.
func Many() {
	cmd := sym.Param("cmd", 0)
	n := sym.Param("n", 70)
	ts := manyTxns(n)
	if cmd != 4 {
		twistedReport(journalText(ts), ts, cmd)
		return
	}
	var bs bmonths
	text := ""
	for _, t := range ts {
		for _, p := range t.posts {
			bs.book(12*int(tail(t.date[:4]))+int(tail(t.date[5:7]))-1, p.acct, p.val)
		}
	}
	how := sym.Choice("allocations", 3)
	for i := 0; i < n; i++ {
		m := 12*2020 + 1
		switch how {
		case 0: // of many months
			m = 12*2015 + 5*i%71
		case 1: // of one
		case 2: // within one
			if i > 0 {
				text = strings.TrimSuffix(text, "\n")
			}
		}
		name := "N" + itoa(i%23)
		bs.at(m).env.add([]string{name}, int64(i+1))
		if i == 0 || how != 2 {
			text += "~ " + pad(m/12, 4) + "-" + pad(m%12+1, 2) + "\n"
		}
		text += "    " + name + ":S" + itoa(i) + "  £" + disp(int64(i+1)) + "\n\n"
	}
	r := runJ(text+journalText(ts), "budget")
	sym.Assert(r.Ok() && budgetShown(r.Out, "£") == bs.report(), "the months add up per envelope")
	sym.Cover("many")
}

// ManyRound: printing what print wrote for journals with much of something.
func ManyRound() {
	roundTrip([]sym.File{{Name: main, Data: journalText(manyTxns(sym.Param("n", 70)))}})
}

// ManyFault: the line of an error behind many lines, in the journal or in an included file.
func ManyFault() {
	n := []int{100, 126, 127, 254, 255, 256, 999, 1023, 2047, 4095, 32767, 65534, 65536}[sym.Choice("n", sym.Param("sizes", 13))]
	rest, blocks := 0, 4
	if n < 1000 {
		rest = sym.Choice("rest", 3)
	}
	if n > 3000 {
		blocks = 1
	}
	free := string([]byte{sym.Byte("free", 'A', 'Z')})
	block := []string{"\n", "; c " + free + "\n", "2020-01-05 P" + free + "\n  A" + free + "  1\n  B\n\n", "2020-01-05 P\r\n  A  1\r\n  B\r\n"}[sym.Choice("block", blocks)]
	k := strings.Count(block, "\n")
	text := strings.Repeat(block, n/k) + strings.Repeat("\n", n%k+rest)
	fault := []string{"junk\n", "include no.ledger\n", "2020-01-05 P\n  A  1\n  B  2\n"}[sym.Choice("fault", 3)]
	line := n + rest + 1
	if strings.HasPrefix(fault, "2020") {
		line += 3
	}
	cmd := "balance"
	if n < 300 {
		cmd = pick("cmd", commands)
	}
	where := main
	files := []sym.File{{Name: main, Data: text + fault}}
	if sym.Choice("included", 2) == 1 {
		where = "inc.ledger"
		files = []sym.File{{Name: main, Data: text + "include inc.ledger\n"}, {Name: where, Data: text + fault}}
	}
	r := runFiles(files, cmd)
	sym.Assert(r.Ok() && rejected(r) && errorAt(r, where, line), "the error names the file and the line")
	sym.Cover("fault")
}

// ManySame: thousands of transactions of one account, the last ones with a free amount.
func ManySame() {
	n := sym.Param("n", 2100)
	v, val := amount("v", sym.Choice("neg", 2) == 1, 1, 0)
	text := strings.Repeat("2020-01-05 P\n  A  £1\n  B\n", n) + "2020-01-04 Q\n  A  £" + v + "\n  B\n"
	cmd := []string{"balance", "print", "statistics"}[sym.Param("cmd", 0)]
	r := runJ(text, cmd, "-e", "2021")
	switch cmd {
	case "balance":
		total := int64(n)*100 + val
		sym.Assert(r.Ok() && strings.HasPrefix(r.Out, right("£"+disp(total), 20)+"  A\n"+right("£"+disp(-total), 20)+"  B\n"), "all postings count")
	case "print":
		sym.Assert(r.Ok() && strings.HasPrefix(r.Out, "2020-01-04   Q\n") && strings.Count(r.Out, "2020-01-05   P\n    A    £1.00\n    B    £-1.00\n\n") == n, "all transactions are printed")
	case "statistics":
		sym.Assert(r.Ok() && strings.Contains(r.Out, "Transactions:\t\t"+itoa(n+1)+" ("), "all transactions are counted")
	}
	sym.Cover("same")
}
