package h

import (
	"strings"

	"verif/harness/sym"
)

var acctNames = []string{"Assets:Cash", "Expenses:Food", "Income:Job", "Liabilities:Card", "Equity", "Expenses:Rent:Flat", "Assets:Bank:Main", "Income"}
var comms = []string{"", "£", "GBP ", "$", "€ "}

// context places the lines of a transaction somewhere in a journal of one or more files.
const nContexts = 7

func context(k int, t string) []sym.File {
	before := "2019-05-05 * Before\n    Assets:Old  7.00\n    Income:Old\n\n"
	after := "\n2021-05-05 After\n    Assets:New  3.00\n    Income:New\n"
	switch k {
	case 0: // in the middle
		return []sym.File{{Name: main, Data: before + t + "\n" + after}}
	case 1: // the end, with a newline
		return []sym.File{{Name: main, Data: before + t + "\n"}}
	case 2: // the end, without one
		return []sym.File{{Name: main, Data: before + t}}
	case 3: // directly followed by another header
		return []sym.File{{Name: main, Data: t + after}}
	case 4: // the end of an included file
		return []sym.File{{Name: main, Data: before + "include inc.ledger\n" + after}, {Name: "inc.ledger", Data: t}}
	case 5: // directly before an include
		return []sym.File{{Name: main, Data: t + "\ninclude inc.ledger\n" + after}, {Name: "inc.ledger", Data: before}}
	default: // directly before a budget allocation
		return []sym.File{{Name: main, Data: before + t + "\n~ 2020-01\n    Food  5.00\n" + after}}
	}
}

// Balanced: a transaction of n postings with free amounts is accepted iff they sum to zero.
func Balanced() {
	n := sym.Param("n", 2)
	whole := sym.Param("whole", 1)
	free := sym.Param("free", n)
	ctx := sym.Param("ctx", -1)
	if ctx < 0 {
		ctx = sym.Choice("ctx", nContexts)
	}
	cmd := pick("cmd", commands)
	comm := comms[sym.Param("comm", 1)]
	t := txn{date: "2020-01-15", state: "*", payee: "Shop"}
	sum := int64(0)
	for i := 0; i < n; i++ {
		var s string
		var v int64
		if i < free {
			s, v = amount("a"+itoa(i), sym.Choice("s"+itoa(i), 2) == 1, whole, 2)
		} else {
			s, v = "-1.00", -100
		}
		t.posts = append(t.posts, post{acct: acctNames[i], comm: comm, num: s, val: v})
		sum += v
	}
	r := runFiles(context(ctx, t.lines()), cmd)
	sym.Assert(r.Ok(), "ends")
	rej := rejected(r)
	if rej {
		sym.Cover("rejected")
		sym.Assert(sum != 0, "balanced transaction rejected")
		sym.Assert(strings.Contains(r.Out, "balance"), "error does not say that it is about the balance")
		sym.Assert(!strings.Contains(r.Out, "Assets"), "report shown in spite of the error")
	} else {
		sym.Cover("accepted")
		sym.Assert(sum == 0, "unbalanced transaction accepted")
		if cmd == "balance" {
			ls := lines(r.Out)
			sym.Assert(len(ls) > 0 && strings.TrimLeft(ls[len(ls)-1], " ") == "0.00", "grand total of an accepted journal is not 0.00")
		}
	}
}

// TwoTransactions: each transaction has to balance on its own.
func TwoTransactions() {
	cmd := pick("cmd", commands)
	gap := pick("gap", []string{"\n\n", "\n"})
	var v [4]int64
	var ts [2]txn
	for k := 0; k < 2; k++ {
		ts[k] = txn{date: "2020-01-0" + itoa(k+1), payee: "P" + itoa(k)}
		for i := 0; i < 2; i++ {
			s, x := amount("a"+itoa(2*k+i), i == 1, 1, 2)
			v[2*k+i] = x
			ts[k].posts = append(ts[k].posts, post{acct: acctNames[2*k+i], comm: "£", num: s})
		}
	}
	r := runJ(ts[0].lines()+gap+ts[1].lines()+"\n", cmd)
	sym.Assert(r.Ok(), "ends")
	if rejected(r) {
		sym.Cover("rejected")
		a, b := v[0]+v[1] == 0, v[2]+v[3] == 0
		sym.Assert(!(a && b), "balanced transactions rejected")
	} else {
		sym.Cover("accepted")
		sym.Assert(v[0]+v[1] == 0, "first transaction does not balance but is accepted")
		sym.Assert(v[2]+v[3] == 0, "second transaction does not balance but is accepted")
	}
}

// Overflow: amounts of up to 19 digits whose sum may not fit in 64 bits.
func Overflow() {
	n := sym.Param("n", 3)
	cmd := pick("cmd", []string{"balance", "print"})
	t := txn{date: "2020-01-15", payee: "Shop"}
	hi, lo := int64(0), int64(0) // the exact sum: hi * 2^32 + lo
	for i := 0; i < n; i++ {
		neg := sym.Choice("s"+itoa(i), 2) == 1
		// the leading digits are free, the rest are nines or zeros: around the limits
		d := sym.Byte("a"+itoa(i), '0', '9')
		e := sym.Byte("b"+itoa(i), '0', '9')
		body := pick("t"+itoa(i), []string{"223372036854775", "000000000000000"})
		s := string([]byte{d}) + body + "8.0" + string([]byte{e})
		v := int64(d-'0')*1000000000000000000 + tail(body)*1000 + 800 + int64(e-'0')
		if d == '9' && body == "223372036854775" && e > '7' && !(neg && e == '8') {
			sym.Assume(false) // not an amount that fits
		}
		if neg {
			s, v = "-"+s, -v
		}
		hi += v >> 32
		lo += v & 0xffffffff
		t.posts = append(t.posts, post{acct: acctNames[i], num: s})
	}
	hi += lo >> 32
	lo &= 0xffffffff
	r := runJ(t.lines()+"\n", cmd)
	sym.Assert(r.Ok(), "ends")
	if !rejected(r) {
		sym.Cover("accepted")
		sym.Assert(hi == 0, "transaction whose sum overflows is accepted")
		sym.Assert(lo == 0, "transaction that does not balance is accepted")
	} else {
		sym.Cover("rejected")
	}
}

func tail(s string) int64 {
	v := int64(0)
	for i := 0; i < len(s); i++ {
		v = v*10 + int64(s[i]-'0')
	}
	return v
}

// Elided: one posting without an amount gets the remainder, at every position.
func Elided() {
	n := sym.Param("n", 3)
	whole := sym.Param("whole", 1)
	ctx := sym.Param("ctx", -1)
	if ctx < 0 {
		ctx = sym.Choice("ctx", nContexts)
	}
	which := sym.Choice("which", n)
	comm := comms[sym.Param("comm", 1)]
	tailOf := pick("tail", []string{"", "  ", "  ; note", "\n      ; note"})
	mode := sym.Choice("mode", 3)
	t := txn{date: "2020-01-15", payee: "Shop"}
	sum := int64(0)
	for i := 0; i < n; i++ {
		if i == which {
			t.posts = append(t.posts, post{acct: acctNames[i], elided: true, tail: tailOf})
			continue
		}
		s, v := amount("a"+itoa(i), sym.Choice("s"+itoa(i), 2) == 1, whole, 2)
		t.posts = append(t.posts, post{acct: acctNames[i], comm: comm, num: s, val: v})
		sum += v
	}
	t.posts[which].val = -sum
	want := make([]string, n)
	for i := range want {
		want[i] = disp(t.posts[i].val)
	}
	files := context(ctx, t.lines())
	cm := comm
	if n == 1 {
		cm = ""
	}
	switch mode {
	case 0:
		r := runFiles(files, "print", "@Shop")
		sym.Assert(r.Ok() && !rejected(r), "accepted")
		var got []string
		for _, l := range lines(r.Out) {
			if strings.HasPrefix(l, "    ") && !strings.HasPrefix(strings.TrimLeft(l, " "), ";") {
				got = append(got, strings.TrimLeft(l, " "))
			}
		}
		sym.Assert(len(got) == n, "number of postings printed")
		for i := range want {
			if i < len(got) {
				sym.Assert(got[i] == t.posts[i].acct+"    "+cm+want[i], "posting printed with its amount")
			}
		}
		sym.Cover("printed")
	case 1:
		r := runFiles(files, "balance", "--flatten", "--show-zero", "@Shop")
		sym.Assert(r.Ok() && !rejected(r), "accepted")
		for i := range want {
			found := false
			for _, l := range lines(r.Out) {
				if strings.HasSuffix(l, "  "+t.posts[i].acct) {
					found = true
					sym.Assert(strings.TrimLeft(l, " ") == cm+want[i]+"  "+t.posts[i].acct, "balance of the account")
				}
			}
			sym.Assert(found || t.posts[i].acct == "Income" && n > 2, "account of the posting shown")
		}
		sym.Cover("balance")
	case 2:
		r := runFiles(files, "accounts", t.posts[which].acct)
		sym.Assert(r.Ok() && contains(lines(r.Out), t.posts[which].acct), "account of the elided posting listed")
		sym.Cover("accounts")
	}
}

// ElidedNames: postings to accounts that may be the same, one of them without an amount.
func ElidedNames() {
	n := sym.Param("n", 4)
	k := byte(sym.Param("names", 3))
	which := sym.Choice("which", n)
	ts := []txn{{date: "2020-01-15", payee: "Shop"}, {date: "2020-01-16", payee: "Next"}}
	root := &node{}
	for x := range ts[:sym.Param("t", 1)] {
		t := &ts[x]
		sum := int64(0)
		for i := 0; i < n; i++ {
			p := post{acct: string([]byte{sym.Byte("n"+itoa(x)+itoa(i), 'A', 'A'+k-1)}), comm: "£", elided: i == which}
			if i == which {
				which = sym.Choice("w", n-1) // in the next one
				t.posts = append(t.posts, p)
				for j := i + 1; j < n; j++ {
					q := fixed(string([]byte{sym.Byte("n"+itoa(x)+itoa(j), 'A', 'A'+k-1)}), int64(100*j))
					sum += q.val
					t.posts = append(t.posts, q)
				}
				t.posts[i].val = -sum
				break
			}
			p.num, p.val = amount("v"+itoa(x)+itoa(i), i%2 == 1, 1, 0)
			sum += p.val
			t.posts = append(t.posts, p)
		}
		for _, p := range t.posts {
			root.add([]string{p.acct}, p.val)
		}
	}
	ts = ts[:sym.Param("t", 1)]
	if sym.Choice("cmd", 2) == 0 {
		r := runJ(journalText(ts), "print")
		want := ""
		for _, t := range ts {
			want += t.printed()
		}
		sym.Assert(r.Ok() && r.Out == want, "the posting without an amount has the remainder")
	} else {
		r := runJ(journalText(ts), "balance", "-Z")
		want := append(root.layout(0, "£"), "--------------------", right("0.00", 20))
		sym.Assert(r.Ok() && r.Out == strings.Join(want, "\n")+"\n", "the posting without an amount has the remainder")
	}
	sym.Cover("end")
}

// TwoElided: more than one posting without amount is an error, wherever they stand.
func TwoElided() {
	n := sym.Param("n", 4)
	a := sym.Choice("a", n)
	b := sym.Choice("b", n)
	c := sym.Choice("c", n)
	sym.Assume(a < b && b <= c)
	ctx := sym.Choice("ctx", nContexts)
	cmd := pick("cmd", commands)
	t := txn{date: "2020-01-15", payee: "Shop"}
	for i := 0; i < n; i++ {
		p := post{acct: acctNames[i], elided: true}
		if i != a && i != b && i != c {
			p.num, p.val = amount("a"+itoa(i), i%2 == 1, 1, 2)
			p.elided = false
		}
		t.posts = append(t.posts, p)
	}
	r := runFiles(context(ctx, t.lines()), cmd)
	sym.Assert(rejected(r), "transaction with several elided amounts rejected")
	sym.Cover("end")
}
