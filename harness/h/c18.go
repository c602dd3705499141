package h

import (
	"strings"

	"verif/harness/sym"
)

// field is the text after a label in the statistics report.
func field(out, label string) string {
	for _, l := range lines(out) {
		if strings.HasPrefix(l, label) {
			l = strings.TrimLeft(l[len(label):], "\t ")
			if i := strings.Index(l, " ("); i >= 0 && !strings.HasPrefix(label, "Transactions") {
				l = l[:i]
			}
			return l
		}
	}
	return "no " + label
}

// statistics checks the counts of the report for the selected transactions; key gives the day.
func statistics(r sym.Result, sel []txn, key []int) {
	sym.Assert(r.Ok() && !rejected(r), "ends")
	sym.Cover("selected " + itoa(len(sel)))
	if len(sel) == 0 {
		sym.Assert(r.Out == "No transactions matched arguments.\n", "nothing is selected")
		return
	}
	first, last := 0, 0
	var accts, payees []string
	for i, t := range sel {
		if key[i] < key[first] {
			first = i
		}
		if key[i] > key[last] {
			last = i
		}
		payees = insert(payees, t.payee)
		for _, p := range t.posts {
			accts = insert(accts, p.acct)
		}
	}
	days := key[last] - key[first]
	sym.Assert(field(r.Out, "First transaction:") == sel[first].date, "the earliest date")
	sym.Assert(field(r.Out, "Last transaction:") == sel[last].date, "the latest date")
	sym.Assert(field(r.Out, "Time period:") == digits(uint64(days), 1)+" days", "the days between the first and the last transaction")
	sym.Assert(field(r.Out, "Unique accounts:") == itoa(len(accts)), "the number of accounts")
	sym.Assert(field(r.Out, "Unique payees:") == itoa(len(payees)), "the number of payees")
	d := uint64(days)
	if d == 0 {
		d = 1
	}
	n := uint64(len(sel))
	t := (20*n + d) / (2 * d) // tenths, rounded
	per := func(t uint64) string {
		return itoa(len(sel)) + " (" + digits(t/10, 1) + "." + digits(t%10, 1) + " per day)"
	}
	got := field(r.Out, "Transactions:")
	sym.Assert(got == per(t) || (20*n)%(2*d) == d && got == per(t-1), "the number of transactions and how many a day")
}

// Statistics: transactions with free payees and accounts, one of them with a free date.
func Statistics() {
	n := sym.Param("n", 3)
	w := int64(sym.Param("w", 100))
	base := days(sym.Param("y", 2019), sym.Param("m", 12), sym.Param("d", 1))
	off := sym.Param("off", 40) // of the other transactions
	var ts []txn
	var key []int
	at := sym.Choice("at", n) // which one has the free date
	for i := 0; i < n; i++ {
		id := itoa(i)
		k := base + off + i*sym.Param("step", 1)
		if i == at {
			k = base + int(sym.Int("d", 0, w-1))
		}
		t := txn{date: dayText(k, "-"), payee: component("p"+id, sym.Param("kind", 0), true)}
		t.posts = []post{
			{acct: "X:" + component("a"+id, sym.Param("kind", 0), false), comm: "£", num: "1"},
			{acct: []string{"X", "Y:A", "Y"}[sym.Choice("o"+id, sym.Param("other", 2))], elided: true}}
		ts = append(ts, t)
		key = append(key, k)
	}
	args := []string{"statistics"}
	var sel []txn
	var skey []int
	mode := sym.Choice("mode", sym.Param("modes", 3))
	switch mode {
	case 1:
		args = append(args, "@A")
	case 2:
		args = append(args, "--begin", dayText(base+off, "-"), "@A", "@C")
	}
	for i, t := range ts {
		in := mode == 0 || strings.Contains(t.payee, "A")
		if mode == 2 {
			in = (in || strings.Contains(t.payee, "C")) && key[i] >= base+off
		}
		if in {
			sel = append(sel, t)
			skey = append(skey, key[i])
		}
	}
	statistics(runJ(journalText(ts), args...), sel, skey)
}

// StatisticsMany: many transactions, on few days.
func StatisticsMany() {
	n := sym.Param("n", 30)
	base := days(sym.Param("y", 2019), 12, 1)
	var ts []txn
	var key []int
	at := sym.Choice("at", 2) * (n - 1)
	for i := 0; i < n; i++ {
		k := base + i%7
		if i == at {
			k = base + int(sym.Int("d", 0, 59))
		}
		ts = append(ts, txn{date: dayText(k, "/"), payee: "P" + itoa(i%11), posts: []post{{acct: "A:" + itoa(i%5), comm: "£", num: "1"}, {acct: "B:" + itoa(i%13), elided: true}}})
		key = append(key, k)
	}
	text := journalText(ts)
	for i := range ts {
		ts[i].date = strings.ReplaceAll(ts[i].date, "/", "-")
	}
	statistics(runJ(text, pick("cmd", []string{"statistics", "stats", "s"})), ts, key)
}
