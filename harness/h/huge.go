package h

import (
	"strings"

	"verif/harness/sym"
)

// bigsum is a sum that may not fit in 64 bits: hi*10^9 + lo, and a small free part.
type bigsum struct{ hi, lo, d int64 }

func (w bigsum) plus(x bigsum) bigsum { return bigsum{w.hi + x.hi, w.lo + x.lo, w.d + x.d} }

// fits in 64 bits.
func (w bigsum) fits() bool {
	room := func(hi, lo int64) int64 {
		if hi > 1000 {
			return 1000000000000
		}
		if hi < -1000 {
			return -1000000000000
		}
		return hi*1000000000 + lo
	}
	return w.d <= room(9223372036-w.hi, 854775807-w.lo) && -w.d <= room(w.hi+9223372036, w.lo+854775808)
}

// hugeTree sums postings; and apart from each other what comes in and goes out.
type hugeTree struct {
	path      []string
	ins, outs []bigsum
	val       []int64
}

func (t *hugeTree) add(path string, w bigsum, v int64) {
	out := w.hi < 0 || w.hi == 0 && w.lo < 0
	parts := strings.Split(path, ":")
	for k := 1; k <= len(parts); k++ {
		p := strings.Join(parts[:k], ":")
		i := 0
		for i < len(t.path) && t.path[i] != p {
			i++
		}
		if i == len(t.path) {
			t.path, t.ins, t.outs, t.val = append(t.path, p), append(t.ins, bigsum{}), append(t.outs, bigsum{}), append(t.val, 0)
		}
		if out {
			t.outs[i] = t.outs[i].plus(w)
		} else {
			t.ins[i] = t.ins[i].plus(w)
		}
		t.val[i] += v
	}
}

// fits says that all sums do, and whether they do in any order.
func (t *hugeTree) fits() (all, any bool) {
	all, any = true, true
	for i := range t.path {
		all = all && t.ins[i].plus(t.outs[i]).fits()
		any = any && t.ins[i].fits() && t.outs[i].fits()
	}
	return
}

// huge is an amount near the limits, with a free last digit.
func huge(name string, kinds int) (string, bigsum, int64) {
	d := sym.Int(name, 0, 7)
	k := sym.Choice(name+"k", kinds)
	text := []string{"92233720368547758.0", "-92233720368547758.0", "46116860184273879.0", "-46116860184273879.0", "10.0"}[k]
	w := []bigsum{{9223372036, 854775800, 0}, {-9223372036, -854775800, 0}, {4611686018, 427387900, 0}, {-4611686018, -427387900, 0}, {0, 1000, 0}}[k]
	w.d = d
	if w.hi < 0 {
		w.d = -d
	}
	return text + string([]byte{byte('0' + d)}), w, w.hi*1000000000 + w.lo + w.d
}

// HugeSums: accounts whose sums may not fit in 64 bits.
func HugeSums() {
	n := sym.Param("n", 2)
	t := &hugeTree{}
	text := ""
	for i := 0; i < n; i++ {
		id := itoa(i)
		s, w, v := huge("v"+id, sym.Param("kinds", 5))
		acct := []string{"X", "X:A", "Y", "X:B"}[sym.Choice("a"+id, sym.Param("accts", 3))]
		t.add(acct, w, v)
		t.add("Z"+id, bigsum{-w.hi, -w.lo, -w.d}, -v)
		text += dayText(18000+i, "-") + " P\n    " + acct + "  £" + s + "\n    Z" + id + "\n\n"
	}
	r := runJ(text, "balance", "--show-zero")
	all, any := t.fits()
	sym.Assert(r.Ok(), "ends")
	if rejected(r) {
		sym.Cover("refused")
		sym.Assert(!any, "sums that fit are shown")
		return
	}
	sym.Cover("shown")
	sym.Assert(all, "sums that do not fit in 64 bits are refused")
	rows, total, ok := balanceRows(r.Out)
	sym.Assert(ok && len(rows) == len(t.path), "report")
	for i, p := range t.path {
		for _, x := range rows {
			if x.path == p {
				sym.Assert(x.amount == "£"+disp(t.val[i]), "amount of an account is the sum of what is posted at and below it")
			}
		}
	}
	sym.Assert(total == "0.00", "grand total is the sum of all postings")
}

// HugeBudget: months of the budget whose sums may not fit in 64 bits.
func HugeBudget() {
	n := sym.Param("n", 2)
	t := &hugeTree{}
	var bs bmonths
	text := ""
	for i := 0; i < n; i++ {
		id := itoa(i)
		s, w, v := huge("v"+id, sym.Param("kinds", 5))
		neg := bigsum{-w.hi, -w.lo, -w.d}
		// what is budgeted and available is one sum, what is spent another
		switch sym.Choice("k"+id, 4) {
		case 0:
			bs.at(12*2020).env.add([]string{"A"}, v)
			t.add("Available", w, v)
			text += "~ 2020-01\n    A  £" + s + "\n\n"
		case 1:
			bs.book(12*2020, "Expenses:A", v)
			t.add("Spent", neg, v)
			t.add("Available", neg, v)
			text += "2020-01-02 P\n    Expenses:A:B  £" + s + "\n    Z\n\n"
		case 2:
			bs.book(12*2020, "Income", v)
			t.add("Income", neg, v)
			text += "2020-01-03 P\n    Income:X  £" + s + "\n    Z\n\n"
		case 3: // in another month
			bs.book(12*2020+1, "Income", v)
			text += "2020-02-" + pad(1+i, 2) + " P\n    Income:Job  £" + s + "\n    Z\n\n"
			t.add("Later", neg, v)
		}
		// sums over the envelopes, which are not shown, may be refused too
		if w.hi < 0 {
			t.add("All", neg, v)
		} else {
			t.add("All", w, v)
		}
	}
	r := runJ(text, "budget")
	sym.Assert(r.Ok(), "ends")
	_, any := t.fits()
	shown := true
	for i, p := range t.path {
		shown = shown && (p == "All" || t.ins[i].plus(t.outs[i]).fits())
	}
	if rejected(r) || strings.Contains(r.Out, "too large") {
		sym.Cover("refused")
		sym.Assert(!any, "sums that fit are shown")
		return
	}
	sym.Cover("shown")
	sym.Assert(shown, "sums that do not fit in 64 bits are refused")
	sym.Assert(budgetShown(r.Out, "£") == bs.report(), "sums of a month are exact")
}

// HugeAge: days whose income or expenses may not fit in 64 bits.
func HugeAge() {
	t := &hugeTree{}
	var fs []flow
	text := ""
	for i := 0; i < sym.Param("n", 3); i++ {
		id := itoa(i)
		k := []int{0, 2, 4}[sym.Choice("k"+id, 3)]
		d := sym.Int("v"+id, 0, 7)
		w := []bigsum{{9223372036, 854775800, d}, {}, {4611686018, 427387900, d}, {}, {0, 1000, d}}[k]
		s := []string{"92233720368547758.0", "", "46116860184273879.0", "", "10.0"}[k] + string([]byte{byte('0' + d)})
		f := flow{day: days(2020, 1, 1) + 5*sym.Choice("d"+id, 2), in: sym.Choice("in"+id, 2) == 0, v: w.hi*1000000000 + w.lo + d}
		fs = append(fs, f)
		t.add([]string{"Out", "In"}[map[bool]int{true: 1}[f.in]]+itoa(f.day), w, f.v)
		text += flowText(f, s, i)
	}
	r := runJ(text, "statistics")
	all, _ := t.fits()
	sym.Assert(r.Ok(), "ends")
	sym.Assert(rejected(r) == !all, "days whose sums do not fit in 64 bits are refused, and only these")
	if all && !rejected(r) {
		ageOfMoney(r, fs)
	}
}
