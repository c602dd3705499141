package h

import (
	"strings"

	"verif/harness/sym"
)

// bmonth is what a month of the budget should say.
type bmonth struct {
	key   int // 12*year + month-1
	funds int64
	env   *node // budgeted
	exp   *node // spent
}

type bmonths []*bmonth

func (b *bmonths) at(key int) *bmonth {
	i := 0
	for i < len(*b) && (*b)[i].key < key {
		i++
	}
	if i == len(*b) || (*b)[i].key != key {
		*b = append(*b, nil)
		copy((*b)[i+1:], (*b)[i:])
		(*b)[i] = &bmonth{key: key, env: &node{}, exp: &node{}}
	}
	return (*b)[i]
}

// book counts a posting.
func (b *bmonths) book(key int, acct string, v int64) {
	p := strings.Split(acct, ":")
	switch p[0] {
	case "Income":
		b.at(key).funds -= v
	case "Expenses":
		m := b.at(key)
		if len(p) > 1 {
			m.exp.add(p[1:2], v)
			m.env.add(p[1:2], 0)
		}
	}
}

// report is what the command should show, in the form that budgetShown gives.
func (b bmonths) report() string {
	s := ""
	for _, m := range b {
		s += pad(m.key/12, 4) + "-" + pad(m.key%12+1, 2) + " " + disp(m.funds) + "\n"
		for _, k := range m.env.kids {
			spent := int64(0)
			for _, e := range m.exp.kids {
				if e.name == k.name {
					spent = e.sum
				}
			}
			s += k.name + "|" + disp(k.sum) + "|" + disp(-spent) + "|" + disp(k.sum-spent) + "\n"
		}
	}
	return s
}

// budgetShown reads the report of the budget command: a line for each month with its funds,
// and the rows of its envelopes.
func budgetShown(out, comm string) string {
	s, month := "", ""
	for _, l := range lines(out) {
		f := strings.Split(l, "|")
		if n := len(f); n > 5 { // a name with that character
			f = append([]string{strings.Join(f[:n-4], "|")}, f[n-4:]...)
		}
		for i := range f {
			f[i] = strings.TrimPrefix(strings.Trim(f[i], " "), comm)
		}
		switch {
		case len(f) == 1 && len(l) > 7 && l[0] >= '0' && l[0] <= '9':
			month = l[:7]
		case len(f) == 2 && f[0] == "Funds":
			s += month + " " + f[1] + "\n"
		case len(f) == 5 && f[0] != "Category":
			s += strings.Join(f[:4], "|") + "\n"
		}
	}
	return s
}

// monthKey is the month of the d-th day of the year (of 2019, from its first day; may go on).
func monthKey(n int) int {
	y, m, _ := civil(n)
	return 12*y + m - 1
}

// Budget: allocations and transactions of some months.
func Budget() {
	nt, na := sym.Param("t", 2), sym.Param("a", 1)
	free := sym.Param("free", 1)   // transactions with a free date
	w := int64(sym.Param("w", 90)) // in this window
	kind := sym.Param("kind", 0)
	base := days(sym.Param("y", 2019), sym.Param("m", 12), sym.Param("d", 1))
	whole := sym.Param("whole", 1)
	var bs bmonths
	text := ""
	for i := 0; i < na; i++ {
		m := monthKey(base) + sym.Choice("am"+itoa(i), sym.Param("am", 3))
		text += "~ " + pad(m/12, 4) + "-" + pad(m%12+1, 2) + "\n"
		for k := sym.Choice("an"+itoa(i), sym.Param("n", 1)); k >= 0; k-- {
			id := itoa(i) + itoa(k)
			s, v := amount("av"+id, sym.Choice("as"+id, sym.Param("signs", 2)) == 1, whole, 0)
			name := component("ac"+id, kind, true)
			path := name
			if sym.Choice("ad"+id, sym.Param("ad", 2)) == 1 {
				path += ":" + component("ae"+id, kind, false)
			}
			bs.at(m).env.add([]string{name}, v)
			text += "    " + path + "  £" + s + "\n"
		}
		text += "\n"
	}
	ts := ""
	for i := 0; i < nt; i++ {
		id := itoa(i)
		n := base + 40 + i
		if i < free {
			n = base + int(sym.Int("d"+id, 0, w-1))
		}
		key := monthKey(n)
		s, v := amount("v"+id, sym.Choice("s"+id, sym.Param("signs", 2)) == 1, whole, 0)
		acct, other := "Expenses", "Assets:Cash"
		switch sym.Choice("k"+id, sym.Param("kinds", 5)) {
		case 1:
			acct += ":" + component("c"+id, kind, false)
			other = "Income:Job"
		case 2:
			acct += ":" + component("c"+id, kind, false) + ":" + component("e"+id, kind, false)
		case 3:
			acct = "Income"
			other = "Expenses:" + component("c"+id, kind, false)
		case 4:
			acct = "ExpensesX:A"
			other = "Incomes:Expenses:B"
		}
		bs.book(key, acct, v)
		bs.book(key, other, -v)
		ts += dayText(n, "-") + " P\n    " + acct + "  £" + s + "\n    " + other + "\n\n"
	}
	if sym.Choice("order", sym.Param("orders", 2)) == 1 {
		text = ts + text
	} else {
		text += ts
	}
	r := runJ(text, pick("cmd", []string{"budget", "bud", "B"}[:sym.Param("cmds", 1)]))
	sym.Assert(r.Ok() && !rejected(r), "accepted")
	sym.Cover("months " + itoa(len(bs)))
	sym.Assert(budgetShown(r.Out, "£") == bs.report(), "the months add up per envelope")
}

// BudgetMonths: a single posting anywhere in a window of days.
func BudgetMonths() {
	w := int64(sym.Param("w", 250))
	base := days(sym.Param("y", 2019), sym.Param("m", 7), sym.Param("d", 1))
	n := base + int(sym.Int("d", 0, w-1))
	var bs bmonths
	key := monthKey(n)
	acct := pick("acct", []string{"Expenses:Food", "Income:Job", "Expenses:Food:Out"})
	bs.book(key, acct, 250)
	m := monthKey(base) + sym.Choice("month", 12)
	bs.at(m).env.add([]string{"Food"}, 1000)
	r := runJ("~ "+pad(m/12, 4)+"-"+pad(m%12+1, 2)+"\n    Food  £10.00\n\n"+dayText(n, "/")+" P\n    "+acct+"  £2.50\n    Assets\n", "budget")
	sym.Cover("months " + itoa(len(bs)))
	sym.Assert(r.Ok() && budgetShown(r.Out, "£") == bs.report(), "a posting counts in the month of its date")
}
