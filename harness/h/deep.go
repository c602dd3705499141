package h

import (
	"strings"

	"verif/harness/sym"
)

// DeepTree: two accounts of many levels that part at any level, in every layout.
func DeepTree() {
	depth := sym.Param("depth", 14)
	long := sym.Param("long", 0)
	mk := func(id string, d, part int) []string {
		var p []string
		for i := 0; i < d; i++ {
			c := "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[i%26 : i%26+1]
			if i == part {
				c = string([]byte{sym.Byte("n"+id, 'A', 'z')})
				sym.Assume(c <= "Z" || c >= "a")
			}
			p = append(p, c+strings.Repeat("x", long))
		}
		return p
	}
	d1, d2 := depth, depth
	if sym.Choice("short", 2) == 1 {
		d2 = 1 + sym.Choice("d", depth)
	}
	part := sym.Choice("part", depth)
	p1, p2 := mk("0", d1, part), mk("1", d2, part)
	s, v := amount("v", false, 1, 0)
	t := txn{date: "2020-01-15", payee: "P", posts: []post{{acct: strings.Join(p1, ":"), comm: "£", num: s, val: v}, {acct: strings.Join(p2, ":"), elided: true, comm: "£", val: -v}}}
	root := &node{}
	root.add(p1, v)
	root.add(p2, -v)
	kind := sym.Choice("layout", 3)
	args := append([]string{"balance", "-Z"}, [][]string{nil, {"-C"}, {"-F"}}[kind]...)
	r := runJ(t.lines(), args...)
	want := append(root.layout(kind, "£"), "--------------------", right("0.00", 20))
	sym.Assert(r.Ok() && r.Out == strings.Join(want, "\n")+"\n", "the accounts and their amounts")
	sym.Cover("deep")
}

// Columns: amounts and names around the width of the columns and beyond.
func Columns() {
	n := sym.Param("n", 4) // free digits
	comm := pick("comm", []string{"", "£", "GBP ", "Commodity", "VeryLongCommodityOfGold "})
	pre := pick("pre", []string{"", "7", "12345", "9012345678", "92233720368547"})
	if len(pre) > 13 && n > 4 {
		sym.Assume(false)
	}
	s, v := amount("v", false, n-2, 2)
	s = pre + s
	if pre != "" {
		p := tail(pre)
		for i := 0; i < n; i++ {
			p *= 10
		}
		if pre == "92233720368547" {
			sym.Assume(v < 5807)
		}
		v += p
	}
	if sym.Choice("neg", 2) == 1 {
		s, v = "-"+s, -v
	}
	name := pick("name", []string{"A", "Twenty characters.ab", "Expenses:" + long40, "Thirty characters and no more."})
	switch sym.Choice("cmd", 4) {
	case 0:
		t := txn{date: "2020-01-15", payee: "P", posts: []post{{acct: name, comm: comm, num: s, val: v}, {acct: "Z", elided: true, comm: comm, val: -v}}}
		r := runJ(t.lines(), "print")
		sym.Assert(r.Ok() && r.Out == t.printed(), "amounts printed")
	case 1:
		t := txn{date: "2020-01-15", payee: "P", posts: []post{{acct: name, comm: comm, num: s, val: v}, {acct: "Z", elided: true, comm: comm, val: -v}}}
		root := &node{}
		root.add(strings.Split(name, ":"), v)
		root.add([]string{"Z"}, -v)
		kind := sym.Choice("layout", 3)
		args := append([]string{"balance", "-Z"}, [][]string{nil, {"-C"}, {"-F"}}[kind]...)
		r := runJ(t.lines(), args...)
		want := append(root.layout(kind, comm), "--------------------", right("0.00", 20))
		sym.Assert(r.Ok() && r.Out == strings.Join(want, "\n")+"\n", "amounts of the balance report")
	case 3: // only one side of the transaction, in two postings
		t := txn{date: "2020-01-15", payee: "P", posts: []post{{acct: name, comm: comm, num: s, val: v}, {acct: "Z", elided: true, comm: comm, val: -v}}}
		u := txn{date: "2020-01-16", payee: "P", posts: []post{{acct: name, comm: comm, num: "0.01", val: 1}, {acct: "Z", elided: true, comm: comm, val: -1}}}
		root := &node{}
		arg, sum := "^[AET]", v+1
		if sym.Choice("side", 2) == 1 {
			arg, sum = "^Z", -v-1
			root.add([]string{"Z"}, sum)
		} else {
			root.add(strings.Split(name, ":"), sum)
		}
		if v > 9223372036854775806 {
			sym.Assume(false)
		}
		r := runJ(journalText([]txn{t, u}), "balance", "-Z", arg)
		want := append(root.layout(0, comm), "--------------------", right(disp(sum), 20))
		sym.Assert(r.Ok() && r.Out == strings.Join(want, "\n")+"\n", "amounts and the total of the balance report")
	case 2:
		name = strings.ReplaceAll(name, ":", " ")
		r := runJ("~ 2020-01\n    "+name+"  "+comm+s+"\n\n2020-01-02 P\n    Expenses:"+name+"  "+comm+"1.00\n    A\n", "budget")
		got := budgetShown(r.Out, strings.TrimRight(comm, " "))
		sum := v - 100
		if v < 0 && sum > 0 {
			sym.Assume(false)
		}
		if comm == "VeryLongCommodityOfGold " || comm == "GBP " {
			got = strings.ReplaceAll(got, "| ", "|")
		}
		sym.Assert(r.Ok() && got == "2020-01 0.00\n"+name+"|"+disp(v)+"|-1.00|"+disp(sum)+"\n", "amounts of the budget")
	}
	sym.Cover("columns")
}
