//go:build verifapi

// Package api holds the harnesses that call the account tree directly.
package api

import (
	"strings"

	"github.com/rikchilvers/gledger/journal"

	"verif/harness/sym"
)

// All lists the harnesses by name.
var All = map[string]func(){
	"TreePaths": TreePaths,
	"TreePrune": TreePrune,
	"TreeKeep":  TreeKeep,
	"Display":   Display,
}

func itoa(i int) string { return string([]byte{byte('0' + i)}) }

// name is the name of an account: one of two letters, any byte, or names close to each other.
func name(id string) string {
	switch sym.Param("kind", 0) {
	case 0:
		return string([]byte{sym.Byte(id, 'A', 'B')})
	case 1:
		return string([]byte{sym.Byte(id, 0, 255)})
	case 2:
		return []string{"A", "AA", "A A", "a", "", ":", "A:A", "_", "É", "_root_", "_budget_root_"}[sym.Choice(id, 11)]
	default:
		return string([]byte{sym.Byte(id, '^', 'b'), sym.Byte(id+"x", '^', 'b')})
	}
}

// paths makes n paths of up to depth components.
func paths(n, depth int) (l [][]string) {
	for i := 0; i < n; i++ {
		var p []string
		d := 1 + sym.Choice("d"+itoa(i), depth)
		for k := 0; k < d; k++ {
			p = append(p, name("n"+itoa(i)+itoa(k)))
		}
		l = append(l, p)
	}
	return
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// prefixes are the paths of all accounts that finding the given paths creates, each once.
func prefixes(ps [][]string) (l [][]string) {
	for _, p := range ps {
		for k := 1; k <= len(p); k++ {
			found := false
			for _, q := range l {
				if same(q, p[:k]) {
					found = true
				}
			}
			if !found {
				l = append(l, p[:k])
			}
		}
	}
	return
}

// walk lists the accounts below a, with their paths by the names of the links to them.
func walk(a *journal.Account, path []string, l *[]*journal.Account, ps *[][]string) {
	for _, n := range a.SortedChildNames() {
		c := a.Children[n]
		p := append(append([]string{}, path...), n)
		*l = append(*l, c)
		*ps = append(*ps, p)
		walk(c, p, l, ps)
	}
}

// reached checks that exactly the accounts of the wanted paths are reached from the root.
func reached(root *journal.Account, want [][]string, label string) []*journal.Account {
	var l []*journal.Account
	var ps [][]string
	walk(root, nil, &l, &ps)
	ok := len(ps) == len(want)
	for _, w := range want {
		found := false
		for _, p := range ps {
			found = found || same(p, w)
		}
		ok = ok && found
	}
	sym.Assert(ok, label)
	return l
}

// TreePaths: the same path gives the same account, different paths different ones, and each
// knows where it is.
func TreePaths() {
	ps := paths(sym.Param("n", 3), sym.Param("depth", 3))
	root := journal.NewAccount([]string{journal.RootID, journal.BudgetRootID}[sym.Choice("root", 2)])
	var got []*journal.Account
	for _, p := range ps {
		got = append(got, root.FindOrCreateAccount(append([]string{}, p...)))
	}
	for i := range ps {
		for k := range ps {
			sym.Assert((got[i] == got[k]) == same(ps[i], ps[k]), "one account for each path")
		}
	}
	all := prefixes(ps)
	reached(root, all, "exactly the accounts of the paths exist")
	linked(root, all)
	for i, p := range ps {
		sym.Assert(root.FindOrCreateAccount(append([]string{}, p...)) == got[i], "found again")
	}
	reached(root, all, "finding creates nothing")
	sym.Cover("accounts " + itoa(len(all)))
}

// linked checks each of the accounts that exist.
func linked(root *journal.Account, all [][]string) {
	for _, p := range all {
		a := root.FindOrCreateAccount(append([]string{}, p...))
		parent := root
		if len(p) > 1 {
			parent = root.FindOrCreateAccount(append([]string{}, p[:len(p)-1]...))
			sym.Assert(parent.FindOrCreateAccount(p[len(p)-1:]) == a, "found from its parent")
		}
		n := p[len(p)-1]
		sym.Assert(a.Name == n, "an account has its name")
		sym.Assert(a.Parent == parent && parent.Children[n] == a, "an account is linked to its parent")
		sym.Assert(a.Path == strings.Join(p, ":") && a.CreatePath() == a.Path, "an account knows its path")
		sym.Assert(same(a.PathComponents, p), "an account knows the components of its path")
		up := 0
		var last *journal.Account
		a.WalkAncestors(func(x *journal.Account) error { up++; last = x; return nil })
		sym.Assert(up == len(p)+1 && last == root, "the ancestors of an account lead to the root")
		sym.Assert(a.Head() == root.FindOrCreateAccount(p[:1]), "the head of an account")
	}
}

// recreated makes all accounts again after some have been removed.
func recreated(root *journal.Account, ps [][]string) {
	for i := range ps {
		root.FindOrCreateAccount(append([]string{}, ps[len(ps)-1-i]...))
	}
	all := prefixes(ps)
	reached(root, all, "what was removed can be created again")
	linked(root, all)
}

// TreePrune: pruning keeps what is above a depth; the leaves are what has no children.
func TreePrune() {
	ps := wider(paths(sym.Param("n", 3), sym.Param("depth", 3)))
	root := journal.NewAccount(journal.RootID)
	for _, p := range ps {
		root.FindOrCreateAccount(append([]string{}, p...))
	}
	d := sym.Choice("prune", sym.Param("depth", 3)+2)
	root.PruneChildren(d, 0)
	var want [][]string
	for _, p := range prefixes(ps) {
		if len(p) <= d {
			want = append(want, p)
		}
	}
	reached(root, want, "pruning keeps the accounts up to the depth")
	leaves(root, want)
	recreated(root, ps)
	sym.Cover("left " + itoa(len(want)))
}

// leaves checks Leaves of a tree of the given accounts.
func leaves(root *journal.Account, all [][]string) {
	got := root.Leaves()
	n := 0
	for _, p := range all {
		inner := false
		for _, q := range all {
			inner = inner || len(q) > len(p) && same(q[:len(p)], p)
		}
		a := root.FindOrCreateAccount(append([]string{}, p...))
		times := 0
		for _, x := range got {
			if x == a {
				times++
			}
		}
		sym.Assert(times == 1 && !inner || times == 0 && inner, "the leaves are the accounts without children")
		if !inner {
			n++
		}
	}
	if len(all) == 0 {
		n = 1 // the root itself
	}
	sym.Assert(len(got) == n, "nothing else is a leaf")
}

// wider adds siblings: next to the first of the paths, or below it.
func wider(ps [][]string) [][]string {
	n := sym.Param("wide", 0)
	if n == 0 {
		return ps
	}
	var above []string
	if sym.Choice("where", 2) == 1 {
		above = ps[0]
	}
	for i := 0; i < n; i++ {
		ps = append(ps, append(append([]string{}, above...), "S"+itoa(i)))
	}
	return ps
}

// TreeKeep: removing by a matcher keeps what matches, and what is above it.
func TreeKeep() {
	ps := paths(sym.Param("n", 3), sym.Param("depth", 3))
	ps = wider(ps)
	root := journal.NewAccount(journal.RootID)
	for _, p := range ps {
		root.FindOrCreateAccount(append([]string{}, p...))
	}
	all := prefixes(ps)
	// which match is free
	marks := make([]bool, len(all))
	for i, p := range all {
		if i >= sym.Param("free", 100) || sym.Byte("m"+itoa(i), 0, 1) == 1 {
			marks[i] = true
			root.FindOrCreateAccount(append([]string{}, p...)).Amount.Quantity = int64(sym.Byte("q"+itoa(i), 1, 255)) - 256
		}
	}
	matcher := func(a journal.Account) bool { return a.Amount.Quantity != 0 }
	found := root.FindAccounts(matcher)
	count := 0
	var want [][]string
	for i, p := range all {
		if marks[i] {
			count++
		}
		keep := false
		for k, q := range all {
			keep = keep || marks[k] && len(q) >= len(p) && same(q[:len(p)], p)
		}
		if keep {
			want = append(want, p)
		}
	}
	sym.Assert(len(found) == count, "exactly the matching accounts are found")
	for _, a := range found {
		sym.Assert(a.Amount.Quantity != 0, "what is found matches")
	}
	if sym.Choice("how", 2) == 0 {
		r := root.RemoveChildren(matcher)
		sym.Assert(r == (count > 0), "whether anything is kept")
	} else {
		root.RemoveEmptyChildren()
	}
	reached(root, want, "exactly what matches is kept, and what is above it")
	leaves(root, want)
	recreated(root, ps)
	sym.Cover("left " + itoa(len(want)))
}

var comms = []string{"", "£", "$ ", "GBP ", "%", "%%s %d"}

// Display: every 64-bit number of hundredths of n digits is shown exactly.
func Display() {
	n := sym.Param("n", 19)
	neg := sym.Choice("neg", 2) == 1
	var v uint64
	var txt []byte
	for i := 0; i < n; i++ {
		lo := byte('0')
		if i == 0 && n > 1 {
			lo = '1'
		}
		d := sym.Byte("d"+itoa2(i), lo, '9')
		txt = append(txt, d)
		v = v*10 + uint64(d-'0')
	}
	if n == 19 {
		if neg {
			sym.Assume(v <= 9223372036854775808)
		} else {
			sym.Assume(v <= 9223372036854775807)
		}
	}
	q := int64(v)
	if neg {
		q = int64(-v)
	}
	for len(txt) < 3 {
		txt = append([]byte{'0'}, txt...)
	}
	want := string(txt[:len(txt)-2]) + "." + string(txt[len(txt)-2:])
	if neg && n == 1 && txt[len(txt)-1] == '0' {
		neg = false
	}
	if neg {
		want = "-" + want
	}
	comm := comms[sym.Choice("comm", len(comms))]
	a := journal.NewAmount(comm, q)
	got := ""
	switch sym.Choice("how", 3) {
	case 0:
		got = a.DisplayableQuantity(false)
	case 1:
		got = a.DisplayableQuantity(true)
		want = comm + want
	case 2:
		got = a.String()
	}
	sym.Observe("got", got)
	sym.Assert(got == want, "amount displayed exactly")
	sym.Cover("end")
}

func itoa2(i int) string {
	if i < 10 {
		return itoa(i)
	}
	return itoa(i/10) + itoa(i%10)
}
