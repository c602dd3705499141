package h

import (
	"strings"

	"verif/harness/sym"
)

// Forms: options and commands mean the same in every form and at every place.
func Forms() {
	names := [][]string{{"balance", "bal", "b"}, {"print"}, {"accounts", "acc", "a"}, {"payees", "pay"}, {"statistics", "stats", "s"}, {"budget", "bud", "B"}}
	c := sym.Param("cmd", -1)
	if c < 0 {
		c = sym.Choice("cmd", len(names))
	}
	alias := sym.Choice("alias", len(names[c]))
	name := names[c][alias]
	day := func(id string) string {
		return "2020-01-1" + string([]byte{sym.Byte(id, '0', '9')})
	}
	// options, each with all the ways to write it
	var forms [][][]string
	var usual []string
	add := func(l ...[]string) {
		usual = append(usual, l[0]...)
		forms = append(forms, l)
	}
	set := sym.Param("set", -1)
	if set < 0 {
		set = sym.Choice("set", 6)
	}
	if set == 0 || set == 2 {
		d := day("b")
		add([]string{"--begin=" + d}, []string{"--begin", d}, []string{"-b", d}, []string{"-b" + d}, []string{"-b=" + d})
	}
	if set == 1 || set == 2 {
		d := day("e")
		add([]string{"--end=" + d}, []string{"--end", d}, []string{"-e", d}, []string{"-e" + d}, []string{"-e=" + d})
	}
	if set == 3 {
		add([]string{"--current"}, []string{"-c"}, []string{"--current=true"}, []string{"-c=true"})
	}
	if set == 4 {
		sym.Assume(c == 0)
		both := sym.Choice("second", 4)
		one := [][][]string{
			{{"--flatten"}, {"-F"}, {"--flatten=true"}},
			{{"--show-zero"}, {"-Z"}, {"-Z=true"}},
			{{"--collapse"}, {"-C"}, {"--collapse", "--current=false"}},
		}
		k := sym.Choice("first", 3)
		if both == 3 {
			add(one[k]...)
		} else {
			sym.Assume(both != k)
			short := []string{"F", "Z", "C"}
			add(append(one[k], []string{"-" + short[k] + short[both]})...)
			if sym.Choice("joined", 2) == 1 {
				usual = append(usual, one[both][0]...)
				forms[0] = forms[0][3:]
			} else {
				add(one[both]...)
				forms[0] = forms[0][:3]
			}
		}
	}
	var filter []string
	if sym.Choice("filter", 2) == 1 {
		filter = []string{pick("what", []string{"o", "@k"}[:sym.Param("filters", 1)])}
	}
	var opts []string
	k := 0
	if alias == 0 && len(forms) > 0 {
		k = sym.Choice("form", len(forms[0]))
	}
	for i, f := range forms {
		if i == 1 && sym.Param("all", 0) == 1 {
			k = sym.Choice("form1", len(f))
		}
		opts = append(opts, f[(k+2*i)%len(f)]...)
	}
	var args []string
	switch sym.Choice("place", 3) {
	case 0:
		sym.Assume(set != 4) // these belong to the command
		args = append(append(append(args, opts...), name), filter...)
	case 1:
		args = append(append(append(args, name), opts...), filter...)
	case 2:
		args = append(append(append(args, name), filter...), opts...)
	}
	s, _ := amount("v", false, 1, 0)
	j := "2020-01-12 Shop\n    Expenses:Food:x  £" + s + "\n    Income\n\n2020-01-15 Job\n    Assets:Cash  £2\n    Income:b\n\n2020-01-17 kite\n    Expenses:Food:y  £3\n    Income:b\n"
	now := int64(days(2020, 1, 15))*86400 + 3600*11
	run := func(a []string) sym.Result {
		return runCmd(sym.Cmd{Args: append([]string{"-f", main}, a...), Files: []sym.File{{Name: main, Data: j}}, Now: now})
	}
	r := run(args)
	w := run(append(append([]string{names[c][0]}, usual...), filter...))
	sym.Assert(r.Ok() && w.Ok() && r.Err == "" && w.Err == "", "ends")
	sym.Assert(steady(r.Out) == steady(w.Out), "the form of an option or command changes the report")
	sym.Cover("same")
}

// AllOptions: any options together, in any order and form, have the effects that each of them has.
func AllOptions() {
	c := sym.Choice("cmd", 5)
	names := [][]string{{"balance", "bal", "b"}, {"print"}, {"accounts", "acc", "a"}, {"payees", "pay"}, {"statistics", "stats", "s"}}[c]
	name := names[sym.Choice("alias", len(names))]
	form := sym.Choice("form", 3)
	var opts [][]string
	value := func(long, short, v string) {
		opts = append(opts, [][]string{{"--" + long, v}, {"-" + short + v}, {"--" + long + "=" + v}}[form])
	}
	flag := func(long, short string) {
		opts = append(opts, [][]string{{"--" + long}, {"-" + short}, {"--" + long + "=true"}}[form])
	}
	value("file", "f", main)
	begin, end, current := "0000", "9999", sym.Choice("current", 2) == 1
	if sym.Choice("begin", 2) == 1 {
		begin = "2020-01-14"
		value("begin", "b", begin)
	}
	if sym.Choice("end", 2) == 1 {
		end = "2020-01-1" + string([]byte{sym.Byte("e", '4', '9')})
		value("end", "e", end)
	}
	if current {
		flag("current", "c")
	}
	first := len(opts)
	kind, zero := 0, false
	if c == 0 {
		kind, zero = sym.Choice("layout", 3), sym.Choice("zero", 2) == 1
		if zero {
			flag("show-zero", "Z")
		}
		if kind > 0 {
			flag([]string{"collapse", "flatten"}[kind-1], []string{"C", "F"}[kind-1])
		}
	}
	var args, filters []string
	if sym.Choice("filter", 2) == 1 {
		filters = []string{"@k", "Assets"}
		if c > 1 && c < 4 {
			filters = []string{"k|b", "s"}
		}
	}
	switch sym.Choice("order", 4) {
	case 0:
		for i, o := range opts {
			if i == first {
				args = append(args, name)
			}
			args = append(args, o...)
		}
		if first == len(opts) {
			args = append(args, name)
		}
		args = append(args, filters...)
	case 1:
		args = append(args, name)
		for i := range opts {
			args = append(args, opts[len(opts)-1-i]...)
		}
		args = append(args, filters...)
	case 2:
		args = append(append(args, name), filters...)
		for _, o := range opts {
			args = append(args, o...)
		}
	case 3: // between the filters
		args = append(args, name)
		for i, o := range opts {
			if i < len(filters) {
				args = append(args, filters[i])
			}
			args = append(args, o...)
		}
		if len(opts) < len(filters) {
			args = append(args, filters[len(opts):]...)
		}
	}
	p := func(acct string, v int64) post { return fixed(acct, v) }
	ts := []txn{
		{date: "2020-01-12", payee: "Shop", posts: []post{p("Expenses:Food:x", 100), p("Assets:Cash", -100)}},
		{date: "2020-01-14", payee: "Job", posts: []post{p("Assets:Cash", 250), p("Income:b", -250)}},
		{date: "2020-01-15", payee: "Nothing", posts: []post{p("Expenses:Food:y", 100), p("Expenses:Food:y", -100), p("Assets", 7), p("Equity", -7)}},
		{date: "2020-01-17", payee: "kite", posts: []post{p("Expenses:Food:x", 1), p("Assets:Cash", -1)}},
	}
	var sel []txn
	root := &node{}
	var used []string
	for _, t := range ts {
		in := begin <= t.date && t.date < end
		if current {
			in = t.date <= "2020-01-15"
		}
		if !in {
			continue
		}
		if c == 2 || c == 3 {
			sel = append(sel, t)
			continue
		}
		whole, some := selects(filters, t)
		if !whole && len(some) == 0 {
			continue
		}
		sel = append(sel, t)
		if !whole {
			t.posts = some
		}
		for _, p := range t.posts {
			root.add(strings.Split(p.acct, ":"), p.val)
		}
	}
	r := runCmd(sym.Cmd{Args: args, Files: []sym.File{{Name: main, Data: journalText(ts)}}, Now: int64(days(2020, 1, 15))*86400 + 3600*11})
	sym.Assert(r.Ok() && r.Err == "", "ends")
	what := "together the options have another effect than each of them"
	switch c {
	case 0:
		if !zero {
			root.prune()
		}
		want := root.layout(kind, "£")
		if len(want) == 0 {
			want = []string{""}
		}
		want = append(want, "--------------------", right(disp(root.sum), 20))
		sym.Assert(r.Out == strings.Join(want, "\n")+"\n", what)
	case 1:
		want := ""
		for _, t := range sel {
			want += t.printed()
		}
		sym.Assert(r.Out == want, what)
	case 2, 3:
		for _, t := range sel {
			if c == 3 {
				used = append(used, t.payee)
			}
			for _, p := range t.posts {
				if c == 2 {
					used = append(used, p.acct)
				}
			}
		}
		var want []string
		for _, s := range used {
			in := len(filters) == 0
			for _, f := range filters {
				in = in || match(f, s)
			}
			if in {
				want = insert(want, s)
			}
		}
		sym.Assert(r.Out == joined(want), what)
	case 4:
		if len(sel) == 0 {
			sym.Assert(r.Out == "No transactions matched arguments.\n", what)
		} else {
			sym.Assert(strings.Contains(r.Out, "\nFirst transaction:\t"+sel[0].date+" (") && strings.Contains(r.Out, "\nTransactions:\t\t"+itoa(len(sel))+" ("), what)
		}
	}
	sym.Cover("options")
}
