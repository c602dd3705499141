package h

import (
	"strings"

	"verif/harness/sym"
)

// tree builds a journal spread over files.
type tree struct {
	files []sym.File
	flat  []txn    // all transactions in the order they are read
	text  string   // the same journal in one file
	from  []string // the file of each
	n     int
	incs  int
	max   int // transactions and includes per file
	all   int // includes in total
	gap   string
	end   string
	alloc bool
}

var incDirs = []string{"", "sub/", "../", "./"}

// file writes the file of the given path, whose directory is dir.
func (g *tree) file(dir, name string, depth int) {
	id := itoa(len(g.files))
	at := len(g.files)
	g.files = append(g.files, sym.File{Name: dir + name})
	data := ""
	count := sym.Choice("count"+id, g.max+1)
	for i := 0; i < count; i++ {
		kinds := 1
		if depth > 0 && g.incs < g.all {
			kinds = 2
		}
		if g.alloc {
			kinds++
		}
		k := sym.Choice("kind"+id+itoa(i), kinds)
		if kinds == 2 && g.alloc && k == 1 {
			k = 2
		}
		switch k {
		case 0:
			day := byte('1')
			if g.n < sym.Param("free", 9) {
				day = sym.Byte("d"+itoa(g.n), '1', '2')
			}
			t := dated(g.n, "2020-0"+itoa(1+g.n%3)+"-0"+string([]byte{day}))
			t.posts[0].comments = []string{"c" + itoa(g.n)}
			g.n++
			g.flat = append(g.flat, t)
			g.from = append(g.from, dir+name)
			data += t.lines() + g.gap
			g.text += t.lines() + "\n\n"
		case 1:
			g.incs++
			d := incDirs[sym.Choice("dir"+id+itoa(i), sym.Param("dirs", 2))]
			inc := "i" + itoa(g.incs) + ".ledger"
			data += "include " + d + inc + g.gap
			sub := dir + d
			if d == "../" && dir == "" {
				sub = ""
				data = data[:len(data)-len(d+inc+g.gap)] + inc + g.gap
			}
			g.file(sub, inc, depth-1)
		case 2:
			a := "~ 2020-01\n    Food" + itoa(g.n) + "  £" + itoa(1+i) + ".00\n"
			data += a + g.gap[1:]
			g.text += a + "\n"
		}
	}
	if g.end == "" && strings.HasSuffix(data, "\n") {
		data = strings.TrimSuffix(data, g.gap)
	}
	g.files[at].Data = data
}

// cleanPath resolves the '.' and '..' of a relative path.
func cleanPath(p string) string {
	var l []string
	for _, s := range strings.Split(p, "/") {
		switch {
		case s == "." || s == "":
		case s == ".." && len(l) > 0 && l[len(l)-1] != "..":
			l = l[:len(l)-1]
		default:
			l = append(l, s)
		}
	}
	return strings.Join(l, "/")
}

// fileList reads the files that statistics lists.
func fileList(out string) (l []string, n string) {
	ls := lines(out)
	if len(ls) == 0 {
		return
	}
	n = strings.TrimSuffix(strings.TrimPrefix(ls[0], "Transactions found in "), " files:")
	for _, s := range ls[1:] {
		if !strings.HasPrefix(s, "  ") {
			break
		}
		l = append(l, cleanPath(s[2:]))
	}
	return
}

// Includes: a journal spread over files is reported like the same journal in one file.
func Includes() {
	g := &tree{max: sym.Param("max", 2), all: sym.Param("all", 2)}
	g.gap = []string{"\n\n", "\n"}[sym.Choice("gap", 2)]
	g.end = []string{"\n", ""}[sym.Choice("end", 2)]
	cmd := sym.Param("cmd", 0)
	g.alloc = rangeCommands[cmd] == "budget"
	dir := []string{"", "data/"}[sym.Choice("dir", 2)]
	g.file(dir, main, sym.Param("depth", 2))
	args := []string{rangeCommands[cmd]}
	var sel []txn
	var files []string
	until := sym.Choice("until", 2) == 1
	if until {
		args = append(args, "--end", "2020-02-02")
	}
	for i, t := range g.flat {
		if until && t.date >= "2020-02-02" {
			continue
		}
		sel = append(sel, t)
		files = insert(files, cleanPath(g.from[i]))
	}
	r := runCmd(sym.Cmd{Args: append([]string{"-f", dir + main}, args...), Files: g.files})
	sym.Assert(r.Ok() && !rejected(r), "ends")
	if g.incs > 0 {
		sym.Cover("included")
	}
	switch args[0] {
	case "print":
		sortTxns(sel)
		want := ""
		for _, t := range sel {
			want += t.printed()
		}
		sym.Assert(r.Out == want, "printed as if the transactions stood in one file")
	case "statistics":
		if len(sel) == 0 {
			sym.Assert(r.Out == "No transactions matched arguments.\n", "no transactions")
			return
		}
		l, n := fileList(r.Out)
		var got []string
		for _, f := range l {
			got = insert(got, f)
		}
		sym.Assert(n == itoa(len(files)) && len(l) == len(files) && strings.Join(got, " ") == strings.Join(files, " "), "the files of the reported transactions are listed")
		w := runJ(g.text, args...)
		sym.Assert(w.Ok() && after(steady(r.Out), "First ") == after(steady(w.Out), "First "), "same report as of one file")
	default:
		w := runJ(g.text, args...)
		sym.Assert(w.Ok() && r.Out == w.Out, "same report as of one file")
	}
}

// after is s from the first occurrence of sub on.
func after(s, sub string) string {
	if i := strings.Index(s, sub); i >= 0 {
		return s[i:]
	}
	return s
}

// IncludeLine: the ways to write an include line, with free characters in the name of the file.
func IncludeLine() {
	n := sym.Param("n", 2)
	b := make([]byte, n)
	for i := range b {
		c := sym.Byte("f"+itoa(i), ' ', '~')
		sym.Assume(c != '/' && c != ';' && c != '#')
		sym.Assume(c != ' ' || i > 0 && i < n-1 && b[i-1] != ' ')
		sym.Assume(c != '.' || i > 0)
		b[i] = c
	}
	name := string(b)
	sp := pick("space", []string{" ", "  "})
	tail := pick("tail", []string{"", " ", "  ; note", " # note", "\t; note"})
	dir := pick("dir", []string{"", "sub/", "./", "sub/../"})
	a, t := neighbours()
	j := a.lines() + "\n\ninclude" + sp + dir + name + tail + "\n\n" + t.lines() + "\n"
	mid := txn{date: "2020-01-15", payee: "Mid", posts: []post{{acct: "A", comm: "£", num: "2.00", val: 200}, {acct: "B", elided: true, comm: "£", val: -200}}}
	files := []sym.File{{Name: main, Data: j}, {Name: cleanPath(dir + name), Data: mid.lines()}}
	if dir == "sub/../" {
		files = append(files, sym.File{Name: "sub/other", Data: ""})
	}
	r := runFiles(files, "print")
	sym.Assert(r.Ok() && r.Out == a.printed()+mid.printed()+t.printed(), "included file is read in place")
	sym.Cover("end")
}

// IncludeNames: names of included files, and of their directories, are taken as they are.
func IncludeNames() {
	names := []string{"-", "$J", "a$J", "${J}x", "~", "~j", "%41", "a b", "*", "j?", "j,a", "j:a", "@j", "=j", "J", "é", "'j'", "\"j\"", "<j>", "a\\j", "file:j", "j.gz", "(j)", "[j]", "{j,a}", "j.JOURNAL", "journal", "...", "j.", ".j"}
	name := names[sym.Choice("name", len(names))]
	path := []string{name, name + "/k", "d/" + name}[sym.Choice("form", 3)]
	v, _ := amount("v", false, 1, 0)
	mid := txn{date: "2020-01-15", payee: "Mid", posts: []post{{acct: "A", comm: "£", num: v + ".00", val: 0}, {acct: "B", comm: "£", num: "-" + v + ".00", val: 0}}}
	a, t := neighbours()
	files := []sym.File{{Name: main, Data: a.lines() + "\n\ninclude " + path + "\n\n" + t.lines() + "\n"}, {Name: path, Data: mid.lines()}}
	for _, n := range []string{"j", "a", "aA", "x", "k", "Ax", "d/j", "d/a", "d/k", "d/x", "j/k", "a/k", "ab", "A", "b", "d/A"} {
		clash := false
		for _, f := range files {
			clash = clash || f.Name == n || strings.HasPrefix(f.Name, n+"/") || strings.HasPrefix(n, f.Name+"/")
		}
		if !clash {
			files = append(files, sym.File{Name: n, Data: "2020-01-15 Decoy\n    A  1\n    B\n"})
		}
	}
	r := sym.Run(sym.Cmd{Args: []string{"-f", main, "print"}, Files: files, Env: []sym.File{{Name: "J", Data: "A"}}})
	observe(r)
	want := dateText(2020, 1, 15, "-") + "   Mid\n    A    £" + v + ".00\n    B    £-" + v + ".00\n\n"
	if v == "0" {
		want = strings.ReplaceAll(want, "-0.00", "0.00")
	}
	sym.Assert(r.Ok() && r.Out == a.printed()+want+t.printed(), "included file is read in place")
	sym.Cover("included")
}

// IncludeChain: many files, each included by the one before it (or all by one, or by two),
// with transactions before and after the includes.
func IncludeChain() {
	n := sym.Param("n", 6)
	shape := sym.Choice("shape", 3)
	names := []string{main}
	for i := 1; i < n; i++ {
		names = append(names, "f"+itoa(i)+".ledger")
	}
	free := sym.Choice("free", n) // the file whose transactions have a free date
	kids := make([][]int, n)
	incs := make([]string, n)
	dirs := sym.Choice("dirs", sym.Param("dirs", 2)) == 1
	for i := 1; i < n; i++ {
		p := 0
		switch shape {
		case 0:
			p = i - 1
		case 2:
			p = (i - 1) / 2
		}
		kids[p] = append(kids[p], i)
		incs[i] = names[i]
		if dirs { // files of the same name in directories below each other
			incs[i] = "d" + itoa(i) + "/" + main
			names[i] = strings.TrimSuffix(names[p], main) + incs[i]
		}
	}
	place := sym.Choice("place", 3) // transactions before, after, or on both sides of the includes
	data := make([]string, n)
	var flat []txn
	var from []string
	var build func(i int)
	build = func(i int) {
		add := func(k int) {
			day := byte('1' + byte((i+k)%2))
			if i == free {
				day = sym.Byte("d"+itoa(k), '1', '2')
			}
			t := dated(len(flat), "2020-0"+itoa(1+i%2)+"-0"+string([]byte{day}))
			flat, from = append(flat, t), append(from, names[i])
			data[i] += t.lines() + "\n\n"
		}
		if place != 1 {
			add(0)
		}
		for _, k := range kids[i] {
			data[i] += "include " + incs[k] + "\n"
			build(k)
		}
		if len(kids[i]) > 0 {
			data[i] += "\n"
		}
		if place != 0 {
			add(1)
		}
	}
	build(0)
	var files []sym.File
	for i := range names {
		files = append(files, sym.File{Name: names[i], Data: data[i]})
	}
	cmd := sym.Param("cmd", -1)
	if cmd < 0 {
		cmd = sym.Choice("cmd", len(rangeCommands))
	}
	r := runFiles(files, rangeCommands[cmd])
	sym.Assert(r.Ok() && !rejected(r), "ends")
	switch rangeCommands[cmd] {
	case "print":
		sortTxns(flat)
		want := ""
		for _, t := range flat {
			want += t.printed()
		}
		sym.Assert(r.Out == want, "printed as if the transactions stood in one file")
	case "statistics":
		var want, got []string
		for _, f := range from {
			want = insert(want, f)
		}
		l, k := fileList(r.Out)
		for _, f := range l {
			got = insert(got, f)
		}
		sym.Assert(k == itoa(len(want)) && len(l) == len(want) && strings.Join(got, " ") == strings.Join(want, " "), "the files of the reported transactions are listed")
		w := runJ(journalText(flat), "statistics")
		sym.Assert(w.Ok() && after(steady(r.Out), "First ") == after(steady(w.Out), "First "), "same report as of one file")
	default:
		w := runJ(journalText(flat), rangeCommands[cmd])
		sym.Assert(w.Ok() && r.Out == w.Out, "same report as of one file")
	}
	sym.Cover("included")
}
