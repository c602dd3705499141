package h

import (
	"strings"

	"verif/harness/sym"
)

// node is an account of the tree that a journal should give.
type node struct {
	name string
	path string
	kids []*node
	sum  int64
}

// add books v on the account of the given path, and on everything above it.
func (n *node) add(path []string, v int64) {
	n.sum += v
	if len(path) == 0 {
		return
	}
	i := 0
	for i < len(n.kids) && n.kids[i].name < path[0] {
		i++
	}
	if i == len(n.kids) || n.kids[i].name != path[0] {
		k := &node{name: path[0], path: path[0]}
		if n.path != "" {
			k.path = n.path + ":" + k.name
		}
		n.kids = append(n.kids, nil)
		copy(n.kids[i+1:], n.kids[i:])
		n.kids[i] = k
	}
	n.kids[i].add(path[1:], v)
}

// prune leaves out what is zero with nothing but zeros below.
func (n *node) prune() bool {
	var keep []*node
	for _, k := range n.kids {
		if k.prune() {
			keep = append(keep, k)
		}
	}
	n.kids = keep
	return len(keep) > 0 || n.sum != 0
}

func right(s string, w int) string {
	for i := runes(s); i < w; i++ {
		s = " " + s
	}
	return s
}

func runes(s string) int {
	n := 0
	for range s {
		n++
	}
	return n
}

func (n *node) each(depth int, f func(n *node, depth int)) {
	for _, k := range n.kids {
		f(k, depth)
		k.each(depth+1, f)
	}
}

func spaces(n int) string { return strings.Repeat(" ", n) }

// layout gives the lines of the report in the layout 0 tree, 1 collapsed, 2 flat.
func (n *node) layout(kind int, comm string) []string {
	var out []string
	line := func(k *node, name string, depth int) {
		out = append(out, right(comm+disp(k.sum), 20)+"  "+spaces(2*depth)+name)
	}
	switch kind {
	case 0:
		n.each(0, func(k *node, d int) { line(k, k.name, d) })
	case 1:
		var walk func(n *node, d int)
		walk = func(n *node, d int) {
			for _, k := range n.kids {
				name := k.name
				for len(k.kids) == 1 {
					k = k.kids[0]
					name += ":" + k.name
				}
				line(k, name, d)
				walk(k, d+1)
			}
		}
		walk(n, 0)
	case 2:
		n.each(0, func(k *node, d int) {
			if len(k.kids) == 0 {
				line(k, k.path, 0)
			}
		})
	}
	return out
}

var tricky = []string{"A", "B", "AB", "A B", "A-B", "a", "É", "Expenses", "_", "1"}

// component makes the name of an account at one level.
func component(name string, kind int, first bool) string {
	if first { // an account starts with a letter
		switch kind {
		case 1:
			c := sym.Byte(name, 'A', 'z')
			sym.Assume(c <= 'Z' || c >= 'a')
			return string([]byte{c})
		case 2:
			return tricky[sym.Choice(name, 8)]
		}
	}
	switch kind {
	case 0: // one of two letters, any two
		return string([]byte{sym.Byte(name, 'A', 'B')})
	case 1: // any printable character
		c := sym.Byte(name, '!', '~')
		sym.Assume(c != ':')
		sym.Assume(c != ';')
		sym.Assume(c != '#')
		return string([]byte{c})
	case 2: // names that are close to each other
		return tricky[sym.Choice(name, len(tricky))]
	default: // a letter, and perhaps more
		return string([]byte{sym.Byte(name, 'A', 'C')}) + []string{"", "B", " B"}[sym.Choice(name+"x", 3)]
	}
}

// balTxns makes t transactions of n postings to any accounts. The last posting of each leaves
// its amount out.
func balTxns() (ts []txn, comm string) {
	t := sym.Param("t", 1)
	n := sym.Param("n", 3)
	kind := sym.Param("kind", 1)
	maxDepth := sym.Param("depth", 3)
	whole := sym.Param("whole", 0)
	comm = comms[sym.Param("comm", 1)]
	for i := 0; i < t; i++ {
		tx := txn{date: "2020-01-0" + itoa(i+1), payee: "P"}
		sum := int64(0)
		for j := 0; j < n; j++ {
			id := itoa(i) + itoa(j)
			d := maxDepth
			if sym.Param("fixdepth", 0) == 0 {
				d = 1 + sym.Choice("d"+id, maxDepth)
			}
			var path []string
			for k := 0; k < d; k++ {
				path = append(path, component("n"+id+itoa(k), kind, k == 0))
			}
			p := post{acct: strings.Join(path, ":"), comm: comm}
			if j == n-1 {
				p.elided = true
				p.val = -sum
			} else {
				if whole == 0 { // whole single digits
					p.num, p.val = amount("a"+id, (i+j)%2 == 1, 1, 0)
				} else {
					p.num, p.val = amount("a"+id, sym.Choice("s"+id, 2) == 1, whole, 2)
				}
				sum += p.val
			}
			tx.posts = append(tx.posts, p)
		}
		ts = append(ts, tx)
	}
	return
}

// balTree makes such a journal, and the tree of its accounts.
func balTree() (text string, root *node, comm string) {
	ts, comm := balTxns()
	root = &node{}
	for _, t := range ts {
		text += t.lines() + "\n\n"
		for _, p := range t.posts {
			root.add(strings.Split(p.acct, ":"), p.val)
		}
	}
	return text, root, comm
}

// BalanceFiltered: the report on what a filter argument selects, in each layout.
func BalanceFiltered() {
	ts, comm := balTxns()
	for i := range ts {
		ts[i].payee = []string{"P", "Q", "R"}[i%3]
		ts[i].posts[0].comments = []string{[]string{"x", "y", "z"}[i%3]}
		ts[i].note = "n" + itoa(i)
	}
	args := []string{"balance"}
	kind := sym.Choice("layout", sym.Param("layouts", 3))
	args = append(args, [][]string{nil, {"--collapse"}, {"--flatten"}}[kind]...)
	filters := [][]string{{"^A"}, {"B$"}, {"@p"}, {"=x"}, {"=n0"}, {"A:B"}, {"@Q", "^B"}}[sym.Choice("filter", sym.Param("filters", 7))]
	root := &node{}
	for _, t := range ts {
		_, some := selects(filters, t)
		if whole, _ := selects(filters, t); whole {
			some = t.posts
		}
		for _, p := range some {
			root.add(strings.Split(p.acct, ":"), p.val)
		}
	}
	if sym.Choice("zero", 2) == 1 {
		args = append(args, "--show-zero")
	} else {
		root.prune()
	}
	r := runJ(journalText(ts), append(args, filters...)...)
	l := root.layout(kind, comm)
	if len(l) == 0 {
		l = []string{""}
	}
	want := strings.Join(l, "\n") + "\n--------------------\n" + right(disp(root.sum), 20) + "\n"
	sym.Assert(r.Ok() && r.Out == want, "report on what is selected")
	sym.Cover("end")
}

// BalanceSums: the amount shown for every account is the sum of what is posted at and below it.
func BalanceSums() {
	text, root, comm := balTree()
	args := []string{"balance"}
	zero := sym.Choice("zero", 2) == 1
	if zero {
		args = append(args, "--show-zero")
	}
	r := runJ(text, args...)
	rows, total, ok := balanceRows(r.Out)
	sym.Assert(r.Ok() && ok, "report")
	if !ok {
		return
	}
	n := 0
	root.each(0, func(k *node, d int) {
		for _, x := range rows {
			if x.path == k.path {
				n++
				sym.Assert(x.amount == comm+disp(k.sum), "amount of an account is the sum of what is posted at and below it")
			}
		}
		if zero {
			n--
		}
	})
	if zero {
		sym.Assert(n == 0, "every account is shown once")
	} else {
		sym.Assert(n == len(rows), "only accounts that have postings are shown")
	}
	sym.Assert(total == disp(root.sum), "grand total is the sum of all postings")
	sym.Cover("end")
}

// BalanceFlat: the same in the flat layout.
func BalanceFlat() {
	text, root, comm := balTree()
	r := runJ(text, "balance", "--flatten", "--show-zero")
	sym.Assert(r.Ok(), "ends")
	ls := lines(r.Out)
	root.each(0, func(k *node, d int) {
		if len(k.kids) > 0 {
			return
		}
		n := 0
		for _, l := range ls {
			if strings.HasSuffix(l, "  "+k.path) {
				n++
				sym.Assert(strings.TrimLeft(l, " ") == comm+disp(k.sum)+"  "+k.path, "amount of an account without children")
			}
		}
		sym.Assert(n == 1, "every account without children is shown once")
	})
	sym.Cover("end")
}

// BalanceShown: which accounts are shown.
func BalanceShown() {
	text, root, _ := balTree()
	args := []string{"balance"}
	if sym.Choice("zero", 2) == 1 {
		args = append(args, pick("flag", []string{"--show-zero", "-Z"}))
	} else {
		root.prune()
	}
	r := runJ(text, args...)
	rows, total, ok := balanceRows(r.Out)
	sym.Assert(r.Ok() && ok, "report")
	if !ok {
		return
	}
	n := 0
	root.each(0, func(k *node, d int) {
		n++
		found := false
		for _, x := range rows {
			if x.path == k.path {
				found = true
				if k.sum == 0 {
					sym.Cover("zero account shown")
				}
				break
			}
		}
		sym.Assert(found, "account that is not zero, or has postings that are not zero below it, is shown")
	})
	sym.Assert(len(rows) <= n, "account that is zero with nothing below is hidden")
	sym.Assert(total == disp(root.sum), "grand total does not depend on what is hidden")
	sym.Cover("end")
}

// BalanceHiding: hiding changes no other line.
func BalanceHiding() {
	text, _, _ := balTree()
	flag := pick("layout", []string{"", "--flatten"})
	args := []string{"balance"}
	if flag != "" {
		args = append(args, flag)
	}
	all := runJ(text, append(args, "--show-zero")...)
	some := runJ(text, args...)
	sym.Assert(all.Ok() && some.Ok(), "ends")
	if flag == "" {
		a, ta, oka := balanceRows(all.Out)
		b, tb, okb := balanceRows(some.Out)
		sym.Assert(oka && okb, "report")
		sym.Assert(ta == tb, "same grand total")
		i := 0
		for _, x := range b {
			for i < len(a) && a[i] != x {
				i++
			}
			sym.Assert(i < len(a), "line shown as with --show-zero")
		}
	} else {
		a, b := lines(all.Out), lines(some.Out)
		sym.Assert(len(a) > 1 && len(b) > 1 && a[len(a)-1] == b[len(b)-1], "same grand total")
	}
	sym.Cover("end")
}

// BalanceLayout: the text of the report in each layout.
func BalanceLayout() {
	text, root, comm := balTree()
	zero := sym.Param("zero", 1) == 1
	args := []string{"balance"}
	kind := sym.Choice("layout", 3)
	if kind > 0 {
		args = append(args, [][]string{{"--collapse", "--flatten"}, {"-C", "-F"}}[sym.Param("short", 0)][kind-1])
	}
	if zero {
		args = append(args, "-Z")
	} else {
		root.prune()
	}
	r := runJ(text, args...)
	sym.Assert(r.Ok(), "ends")
	got := lines(r.Out)
	want := root.layout(kind, comm)
	if len(want) == 0 {
		want = []string{""}
	}
	sym.Assert(len(got) == len(want)+2, "number of lines")
	if len(got) == len(want)+2 {
		for i := range want {
			sym.Assert(got[i] == want[i], "line "+[]string{"of the tree", "of the collapsed tree", "of the flat list"}[kind])
		}
		sym.Assert(got[len(want)] == "--------------------", "rule")
	}
	sym.Cover("end")
}
