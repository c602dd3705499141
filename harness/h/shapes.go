package h

import (
	"strings"

	"verif/harness/sym"
)

// Trees of accounts of every shape.

// shape gives the paths of n accounts that make any tree: each is on its own or below one of those before.
func shape(n int) (paths []string, parent []int) {
	names := "DBFAECGH"
	for i := 0; i < n; i++ {
		p := sym.Choice("parent"+itoa(i), i+1) - 1
		path := names[i : i+1]
		if p >= 0 {
			path = paths[p] + ":" + path
		}
		paths, parent = append(paths, path), append(parent, p)
	}
	return
}

// Shapes: the report on a tree of accounts of any shape, in each layout.
func Shapes() {
	n := sym.Param("n", 6)
	free := sym.Param("free", 1)
	paths, parent := shape(n)
	leaf := make([]bool, n)
	for i := range leaf {
		leaf[i] = true
	}
	for _, p := range parent {
		if p >= 0 {
			leaf[p] = false
		}
	}
	all := sym.Choice("all", 2) == 1
	t := txn{date: "2020-01-01", payee: "P"}
	for i := n - 1; i >= 0; i-- {
		if !all && !leaf[i] {
			continue
		}
		p := post{acct: paths[i], comm: "£", num: disp(int64(100 << i)), val: 100 << i}
		if i >= n-free { // zero, or what cancels out the others, or something else
			p.num, p.val = amount("v"+itoa(i), sym.Choice("neg"+itoa(i), 2) == 1, 1, 0)
		}
		t.posts = append(t.posts, p)
	}
	rest := "Z"
	if sym.Param("in", 0) == 1 { // the rest is posted to one of them
		rest = paths[sym.Choice("rest", n)]
	}
	t.posts = append(t.posts, post{acct: rest, elided: true})
	t.settle()
	root := &node{}
	for _, p := range t.posts {
		root.add(strings.Split(p.acct, ":"), p.val)
	}
	kind := sym.Choice("layout", 3)
	args := []string{"balance"}
	if kind > 0 {
		args = append(args, []string{"--collapse", "--flatten"}[kind-1])
	}
	if sym.Param("zero", 0) == 1 {
		args = append(args, "-Z")
	} else {
		root.prune()
	}
	r := runJ(t.lines()+"\n", args...)
	want := append(root.layout(kind, "£"), "--------------------", right("0.00", 20))
	if len(want) == 2 {
		want = append([]string{""}, want...)
	}
	sym.Assert(r.Ok() && r.Out == strings.Join(want, "\n")+"\n", "the report on a tree of any shape")
	sym.Cover("shape")
}
