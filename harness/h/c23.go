package h

import (
	"verif/harness/sym"
)

// flow is money coming in (in) or going out on a day.
type flow struct {
	day int
	in  bool
	v   int64
}

// byDay sums the flows of one kind by day, in order of the days.
func byDay(fs []flow, in bool) (l []flow) {
	for _, f := range fs {
		if f.in != in {
			continue
		}
		i := 0
		for i < len(l) && l[i].day < f.day {
			i++
		}
		if i < len(l) && l[i].day == f.day {
			l[i].v += f.v
			continue
		}
		l = append(l, flow{})
		copy(l[i+1:], l[i:])
		l[i] = f
	}
	return
}

// draws are the ages of the money spent: the days from each income to what is spent of it.
func draws(fs []flow) (ages []int) {
	ins, outs := byDay(fs, true), byDay(fs, false)
	k := 0
	for _, o := range outs {
		for left := o.v; left > 0 && k < len(ins); {
			ages = append(ages, o.day-ins[k].day)
			if left >= ins[k].v {
				left -= ins[k].v
				k++
			} else {
				ins[k].v -= left
				left = 0
			}
		}
	}
	return
}

// ageOfMoney checks the age that the report shows.
func ageOfMoney(r sym.Result, fs []flow) {
	sym.Assert(r.Ok() && !rejected(r), "ends")
	ages := draws(fs)
	sym.Cover("draws " + itoa(len(ages)))
	if len(ages) > 10 {
		ages = ages[len(ages)-10:]
	}
	sum, n := 0, len(ages)
	for _, a := range ages {
		sum += a
	}
	if n == 0 {
		n = 1
	}
	if sum < 0 {
		sum = 0
	}
	want := (2*sum + n) / (2 * n) // rounded
	got := field(r.Out, "Age of money:")
	tie := 2*sum%(2*n) == n
	sym.Assert(got == itoa(want)+" days" || tie && got == itoa(want-1)+" days", "the age of money is the average of the last ten draws")
}

func flowText(f flow, num string, i int) string {
	acct, other := "Expenses:A"+itoa(i%3), "Assets:Cash"
	if i%2 == 1 {
		acct = "Expenses"
	}
	if f.in {
		acct = []string{"Income:Job", "Income", "Income:Job:X"}[i%3]
		num = "-" + num
	}
	return dayText(f.day, "-") + " P\n    " + acct + "  £" + num + "\n    " + other + "\n\n"
}

// AgeOfMoney: some income and expenses of free amounts on free days.
func AgeOfMoney() {
	ni, ne := sym.Param("in", 2), sym.Param("out", 2)
	base := days(sym.Param("y", 2020), sym.Param("m", 2), sym.Param("d", 20))
	offs := []int{0, 1, 9, 30, 365}[:sym.Param("offs", 4)]
	if sym.Param("far", 0) == 1 {
		offs = []int{0, 200000, 1000000}
	}
	var fs []flow
	text := ""
	for i := 0; i < ni+ne; i++ {
		f := flow{in: i < ni, day: base + offs[sym.Choice("d"+itoa(i), len(offs))]}
		s, v := amount("v"+itoa(i), false, 1, sym.Param("dec", 0))
		sym.Assume(v > 0)
		f.v = v
		fs = append(fs, f)
		s = flowText(f, s, i)
		if sym.Choice("front"+itoa(i), sym.Param("fronts", 2)) == 1 {
			text = s + text
		} else {
			text += s
		}
	}
	ageOfMoney(runJ(text, "statistics"), fs)
}

// AgeMany: more than ten draws, of which two amounts and one day are free.
func AgeMany() {
	n := sym.Param("n", 14)
	base := days(2019, 12, 1)
	var fs []flow
	text := ""
	late := sym.Choice("late", n)
	for i := 0; i < 4; i++ {
		s, v := "1"+itoa(i)+".00", int64(1000+100*i)
		if i >= 2 && sym.Param("rich", 0) == 1 {
			s, v = "1"+itoa(i)+"0.00", int64(10000+1000*i)
		}
		if i < 2 {
			s, v = amount("i"+itoa(i), false, 1, 1)
			sym.Assume(v > 0)
		}
		f := flow{day: base + 3*i*i, in: true, v: v}
		fs = append(fs, f)
		text = flowText(f, s, i) + text
	}
	for i := 0; i < n; i++ {
		f := flow{day: base + 5 + (7*i)%(n+3), v: 250}
		s := "2.5"
		if i == late {
			f.day = base + 70
			s, f.v = amount("e", false, 1, 1)
			sym.Assume(f.v > 0)
		}
		fs = append(fs, f)
		text += flowText(f, s, i)
	}
	ageOfMoney(runJ(text, "statistics"), fs)
}

// AgeDays: income on one day and an expense on any other of a window.
func AgeDays() {
	w := int64(sym.Param("w", 120))
	base := days(sym.Param("y", 2019), sym.Param("m", 12), sym.Param("d", 1))
	k := int(sym.Int("d", 0, w-1))
	fs := []flow{{day: base + int(w/3), in: true, v: 1000}, {day: base + k, v: 400}}
	if sym.Choice("which", 2) == 1 {
		fs[0].day, fs[1].day = fs[1].day, fs[0].day
	}
	text := flowText(fs[0], "10", 0) + flowText(fs[1], "4", 1)
	if sym.Choice("order", 2) == 1 {
		text = flowText(fs[1], "4", 1) + flowText(fs[0], "10", 0)
	}
	r := runJ(text, "statistics")
	age := fs[1].day - fs[0].day
	if age < 0 {
		age = 0
	}
	sym.Assert(r.Ok() && field(r.Out, "Age of money:") == digits(uint64(age), 1)+" days", "the days between income and expense")
	sym.Cover("age")
}
