package h

import (
	"verif/harness/sym"
)

// dated makes a transaction for the date tests; each has its own payee and accounts.
func dated(i int, date string) txn {
	v := int64(100*i + 125)
	n := disp(v)
	return txn{date: date, payee: "Payee" + itoa(i), posts: []post{
		{acct: "Expenses:Food" + itoa(i), comm: "£", num: n, val: v},
		{acct: "Income:Job", elided: true, comm: "£", val: -v}}}
}

// zone is the host's time zone: any offset, or one of a few with a change of the clocks.
func zone(k int) sym.Zone {
	switch k {
	case 1:
		return sym.Zone{Offset: int(sym.Int("offset", -16*3600, 16*3600))}
	case 2: // São Paulo 2018: midnight of November 4th does not exist
		return sym.Zone{Offset: -2 * 3600, Trans: 1541300400, Before: -3 * 3600}
	case 3: // London, March 29th 2020
		return sym.Zone{Offset: 3600, Trans: 1585443600, Before: 0}
	case 4: // Samoa skipped December 30th 2011
		return sym.Zone{Offset: 14 * 3600, Trans: 1325239200, Before: -10 * 3600}
	}
	return sym.Zone{}
}

func sameAs(r sym.Result, sel []txn, z sym.Zone, now int64, label string, args ...string) {
	sym.Assert(r.Ok() && !rejected(r), "ends")
	if args[0] == "print" {
		sortTxns(sel)
		want := ""
		for _, t := range sel {
			want += t.printed()
		}
		sym.Assert(r.Out == want, label)
		return
	}
	w := runCmd(sym.Cmd{Args: append([]string{"-f", main}, args...), Files: []sym.File{{Name: main, Data: journalText(sel)}}, Zone: z, Now: now})
	sym.Assert(w.Ok() && steady(r.Out) == steady(w.Out), label)
}

func runCmd(c sym.Cmd) sym.Result {
	r := sym.Run(c)
	observe(r)
	return r
}

func sortTxns(ts []txn) {
	for i := range ts {
		for j := i; j > 0 && ts[j].date < ts[j-1].date; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
}

var rangeCommands = []string{"print", "balance", "accounts", "payees", "budget", "statistics"}

// DateRange: --begin and --end over a window of days.
func DateRange() {
	w := int64(sym.Param("w", 60))
	base := days(sym.Param("y", 2019), sym.Param("m", 12), sym.Param("d", 15))
	cmd := sym.Param("cmd", -1)
	if cmd < 0 {
		cmd = sym.Choice("cmd", len(rangeCommands))
	}
	z := zone(sym.Param("zone", 0))
	d := int(sym.Int("d", 0, w-1))
	mid := int(w / 2)
	ts := []txn{dated(0, dayText(base+d, "-")), dated(1, dayText(base+mid, "-"))}
	if sym.Choice("swap", 2) == 1 {
		ts[0], ts[1] = ts[1], ts[0]
	}
	key := func(t txn) int {
		if t.payee == "Payee0" {
			return d
		}
		return mid
	}
	args := []string{rangeCommands[cmd]}
	style := sym.Choice("style", 3)
	sep := []string{"-", "/", "."}[style]
	mode := sym.Choice("mode", 3)
	lo, hi := -1000, 1000
	if mode != 1 {
		lo = int(sym.Int("b", 0, w-1))
		args = append(args, []string{"--begin", "-b", "--begin"}[style], dayText(base+lo, sep))
	}
	if mode != 0 {
		hi = int(sym.Int("e", 0, w-1))
		args = append(args, []string{"-e", "--end", "--end"}[style], dayText(base+hi, sep))
	}
	r := runCmd(sym.Cmd{Args: append([]string{"-f", main}, args...), Files: []sym.File{{Name: main, Data: journalText(ts)}}, Zone: z})
	var sel []txn
	for _, t := range ts {
		if k := key(t); k >= lo && k < hi {
			sel = append(sel, t)
		}
	}
	sym.Cover("selected " + itoa(len(sel)))
	sameAs(r, sel, z, 0, "transactions from --begin to before --end", args[0])
}

// DateForms: --begin and --end with a year or a month.
func DateForms() {
	y := sym.Param("y", 2019)
	cmd := sym.Choice("cmd", 3)
	z := zone(sym.Choice("zone", 5))
	ym := sym.Choice("form", 2) == 0
	from, text := 0, pad(y, 4)
	if ym {
		m := 1 + sym.Choice("month", 12)
		from, text = days(y, m, 1), text+pick("sep", []string{"-", "/", "."})+pad(m, 2)
	} else {
		from = days(y, 1, 1)
	}
	d := int(sym.Int("d", 0, 120))
	t := dated(0, dayText(from-60+d, "-"))
	flag := sym.Choice("flag", 2)
	r := runCmd(sym.Cmd{Args: []string{"-f", main, rangeCommands[cmd], []string{"--begin", "--end"}[flag], text}, Files: []sym.File{{Name: main, Data: journalText([]txn{t})}}, Zone: z})
	var sel []txn
	if d >= 60 == (flag == 0) {
		sel = append(sel, t)
	}
	sym.Cover("selected " + itoa(len(sel)))
	sameAs(r, sel, z, 0, "transactions from the first day of the period on, or before it", rangeCommands[cmd])
}

// Current: --current at any second of some days, in any zone.
func Current() {
	w := int64(sym.Param("w", 2))
	base := days(sym.Param("y", 2020), sym.Param("m", 2), sym.Param("d", 28))
	cmd := sym.Param("cmd", -1)
	if cmd < 0 {
		cmd = sym.Choice("cmd", len(rangeCommands))
	}
	z := zone(sym.Param("zone", 1))
	sec := int64(0) // the local time of day
	if rangeCommands[cmd] == "statistics" {
		sec = []int64{0, 1, 43210, 86399}[sym.Choice("sec", 4)]
	} else {
		sec = sym.Int("sec", 0, 86399)
	}
	today := int64(base) + int64(sym.Choice("today", int(w)))
	now := today*86400 + sec - int64(z.Offset)
	if z.Trans != 0 && now < z.Trans {
		now = today*86400 + sec - int64(z.Before)
		sym.Assume(now < z.Trans) // a local time that was skipped
	}
	d := int(sym.Int("d", 0, 6))
	t := dated(0, dayText(int(today)-3+d, "-"))
	also := sym.Choice("also", 3)
	args := []string{"-f", main, rangeCommands[cmd], []string{"-c", "--current", "--current"}[also]}
	switch also {
	case 1:
		args = append(args, "--begin", dayText(int(today)+2, "-"))
	case 2:
		args = append(args, "--end", dayText(int(today)-1, "-"))
	}
	r := runCmd(sym.Cmd{Args: args, Files: []sym.File{{Name: main, Data: journalText([]txn{t})}}, Zone: z, Now: now})
	var sel []txn
	if d <= 3 {
		sel = append(sel, t)
	}
	sym.Cover("selected " + itoa(len(sel)))
	sameAs(r, sel, z, now, "transactions up to and including today", rangeCommands[cmd])
}
