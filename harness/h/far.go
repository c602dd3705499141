package h

import (
	"verif/harness/sym"
)

// farDays are a day of each of the years of far.
func farDays() (l []int) {
	for i, y := range far {
		l = append(l, days(y, []int{1, 7, 12}[i%3], []int{1, 15, 31}[i%3]))
	}
	return
}

// farTxns are one transaction on each of these days, not in order.
func farTxns() (ts []txn, key []int) {
	l := farDays()
	for i := range l {
		k := l[i*8%len(l)]
		ts = append(ts, dated(i, dayText(k, "-")))
		key = append(key, k)
	}
	return
}

// RangeFar: --begin and --end on and around days of years far apart.
func RangeFar() {
	l := farDays()
	ts, key := farTxns()
	cmd := sym.Param("cmd", 0)
	args := []string{rangeCommands[cmd]}
	mode := sym.Choice("mode", 3)
	lo, hi := -1<<40, 1<<40
	if mode != 1 {
		lo = l[sym.Choice("b", len(l))] + sym.Choice("after", 2)
		args = append(args, "--begin", dayText(lo, "-"))
	}
	if mode != 0 {
		hi = l[sym.Choice("e", len(l))] + sym.Choice("until", 2)
		args = append(args, "--end", dayText(hi, "-"))
	}
	sym.Assume(hi < days(10000, 1, 1) || mode == 0)
	sym.Assume(lo < days(10000, 1, 1))
	r := runJ(journalText(ts), args...)
	var sel []txn
	for i, t := range ts {
		if key[i] >= lo && key[i] < hi {
			sel = append(sel, t)
		}
	}
	sym.Cover("selected " + itoa(len(sel)))
	sameAs(r, sel, sym.Zone{}, 0, "transactions from --begin to before --end", args[0])
}

// CurrentFar: --current on days of years far apart.
func CurrentFar() {
	l := farDays()
	ts, key := farTxns()
	today := l[sym.Choice("today", len(l))] - sym.Choice("before", 2)
	now := int64(today)*86400 + []int64{0, 86399, 1, 43200}[sym.Choice("sec", sym.Param("secs", 2))]
	sym.Assume(today >= days(1, 1, 1))
	args := []string{"print", "--current"}
	hi := 1 << 40
	if sym.Choice("also", sym.Param("also", 1)) == 1 {
		hi = l[sym.Choice("e", len(l))]
		args = append(args, "--end", dayText(hi, "-"))
	}
	r := sym.Run(sym.Cmd{Args: append([]string{"-f", main}, args...), Files: []sym.File{{Name: main, Data: journalText(ts)}}, Now: now})
	observe(r)
	var sel []txn
	for i, t := range ts {
		if key[i] <= today {
			sel = append(sel, t)
		}
	}
	sym.Cover("selected " + itoa(len(sel)))
	sameAs(r, sel, sym.Zone{}, now, "transactions up to and including today", "print")
}

// BudgetFar: allocations and transactions of years far apart.
func BudgetFar() {
	l := farDays()
	var bs bmonths
	text := ""
	for i := 0; i < len(l); i++ {
		k := l[i*8%len(l)]
		s, v := "£"+itoa(i)+".25", int64(100*i+25)
		bs.book(monthKey(k), "Expenses:Food", v)
		bs.book(monthKey(k), "Income:Job", -v)
		text += dayText(k, "-") + " P\n    Expenses:Food  " + s + "\n    Income:Job\n\n"
	}
	for i := 0; i < sym.Param("n", 1); i++ {
		id := itoa(i)
		m := monthKey(l[sym.Choice("y"+id, len(l))]) + sym.Choice("m"+id, 2)
		sym.Assume(m < 12*10000)
		s, v := amount("v"+id, false, 1, 0)
		bs.at(m).env.add([]string{"Food"}, v)
		text += "~ " + pad(m/12, 4) + "-" + pad(m%12+1, 2) + "\n    Food  £" + s + "\n\n"
	}
	r := runJ(text, "budget")
	sym.Cover("months far apart")
	sym.Assert(r.Ok() && budgetShown(r.Out, "£") == bs.report(), "a posting counts in the month of its date")
}

// StatisticsFar: the statistics of transactions of years far apart.
func StatisticsFar() {
	l := farDays()
	var ts []txn
	var key []int
	for i := 0; i < 2; i++ {
		k := l[sym.Choice("d"+itoa(i), len(l))]
		ts = append(ts, dated(i, dayText(k, "-")))
		key = append(key, k)
	}
	statistics(runJ(journalText(ts), "statistics"), ts, key)
}

// AgeFar: income and expenses of years far apart.
func AgeFar() {
	l := farDays()
	var fs []flow
	text := ""
	for i := 0; i < sym.Param("n", 2); i++ {
		f := flow{in: i != 1, day: l[sym.Choice("d"+itoa(i), len(l))], v: []int64{700, 500, 300}[i]}
		fs = append(fs, f)
		text += flowText(f, []string{"7", "5", "3"}[i], i)
	}
	ageOfMoney(runJ(text, "statistics"), fs)
}
