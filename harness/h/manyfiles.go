package h

import (
	"strings"

	"verif/harness/sym"
)

// elem is a transaction of a file, or the name of a file that it includes.
type elem struct {
	t   txn
	inc string
}

// flatten gives the transactions in the order they are read, and the file of each.
func flatten(files map[string][]elem, name string) (ts []txn, from []string) {
	dir := name[:strings.LastIndexByte(name, '/')+1]
	for _, e := range files[name] {
		if e.inc == "" {
			ts, from = append(ts, e.t), append(from, name)
			continue
		}
		t, f := flatten(files, cleanPath(dir+e.inc))
		ts, from = append(ts, t...), append(from, f...)
	}
	return
}

// ManyFiles: journals of many files: nested, side by side, or included more than once.
func ManyFiles() {
	shape := sym.Choice("shape", 6)
	place := sym.Choice("place", 3) // transactions before, after, or on both sides of the includes
	sizes := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 24, 33}
	if sym.Param("large", 0) == 1 {
		sizes = []int{11, 13, 14, 15, 18, 20, 25, 31, 32, 64, 65, 100}
	}
	n := sizes[sym.Choice("size", len(sizes))]
	files := map[string][]elem{}
	order := []string{}
	k := 0
	add := func(name string) {
		t := dated(k, "2020-0"+itoa(1+k%3)+"-01")
		k++
		if k == 1 {
			t.posts[0].num, t.posts[0].val = amount("v", false, 1, 0)
			t.settle()
		}
		files[name] = append(files[name], elem{t: t})
	}
	file := func(name string, incs ...string) {
		order = append(order, name)
		if place != 1 {
			add(name)
		}
		for i, inc := range incs {
			if i == 1 && place == 2 {
				add(name)
			}
			files[name] = append(files[name], elem{inc: inc})
		}
		if place != 0 {
			add(name)
		}
	}
	var incs []string
	switch shape {
	case 0: // one below the other
		last := main
		for i := 0; i < n; i++ {
			file(last, "f"+itoa(i)+".ledger")
			last = "f" + itoa(i) + ".ledger"
		}
		file(last)
	case 1: // side by side
		for i := 0; i < n; i++ {
			incs = append(incs, "f"+itoa(i)+".ledger")
		}
		file(main, incs...)
		for _, f := range incs {
			file(f)
		}
	case 2: // one of them again and again
		for i := 0; i < n; i++ {
			incs = append(incs, "f"+itoa(i%2)+".ledger")
		}
		file(main, incs...)
		file("f0.ledger")
		if n > 1 {
			file("f1.ledger")
		}
	case 3: // one of them by all the others
		for i := 0; i < n; i++ {
			incs = append(incs, "f"+itoa(i)+".ledger")
		}
		file(main, incs...)
		for _, f := range incs {
			file(f, "all.ledger")
		}
		file("all.ledger", "end.ledger")
		file("end.ledger")
	case 4: // files of one name in directories side by side
		for i := 0; i < n; i++ {
			incs = append(incs, "d"+itoa(i)+"/"+main)
		}
		file(main, incs...)
		for i := range incs {
			file(incs[i], "x.ledger", "../x.ledger")
			file("d" + itoa(i) + "/x.ledger")
		}
		file("x.ledger")
	case 5: // one below the other in directories below each other, and back
		last := main
		if n > 12 {
			n = 12
		}
		for i := 0; i < n; i++ {
			file(last, "d/"+main, "z.ledger")
			file(strings.TrimSuffix(last, main) + "z.ledger")
			last = strings.TrimSuffix(last, main) + "d/" + main
		}
		file(last)
	}
	var all []sym.File
	for _, name := range order {
		data := ""
		for _, e := range files[name] {
			if e.inc != "" {
				data += "include " + e.inc + "\n"
			} else {
				data += e.t.lines() + "\n\n"
			}
		}
		all = append(all, sym.File{Name: name, Data: data})
	}
	flat, from := flatten(files, main)
	cmd := pick("cmd", []string{"print", "statistics", "balance"})
	r := runFiles(all, cmd)
	sym.Assert(r.Ok() && !rejected(r), "ends")
	switch cmd {
	case "print":
		sortTxns(flat)
		want := ""
		for _, t := range flat {
			want += t.printed()
		}
		sym.Assert(r.Out == want, "printed as if the transactions stood in one file")
	case "statistics":
		var want, got []string
		for _, f := range from {
			want = insert(want, f)
		}
		l, k := fileList(r.Out)
		for _, f := range l {
			got = insert(got, f)
		}
		sym.Assert(k == itoa(len(want)) && len(l) == len(want) && strings.Join(got, " ") == strings.Join(want, " "), "the files of the reported transactions are listed")
		sym.Assert(strings.Contains(r.Out, "Transactions:\t\t"+itoa(len(flat))+" ("), "all transactions are counted")
	default:
		root := &node{}
		for _, t := range flat {
			for _, p := range t.posts {
				root.add(strings.Split(p.acct, ":"), p.val)
			}
		}
		root.prune()
		comm := flat[0].posts[0].comm
		sym.Assert(r.Out == strings.Join(append(root.layout(0, comm), "--------------------", right("0.00", 20)), "\n")+"\n", "same report as of one file")
	}
	sym.Cover("included")
}
