package main

// The registry: which harness functions, with which bounds, decide which property.

// J is one job of a check.
func J(h string, kv ...any) JobSpec { return JobSpec{Harness: h, Params: P(kv...)} }

// each gives one job per value of one parameter.
func each(h, k string, lo, hi int, kv ...any) []JobSpec {
	var l []JobSpec
	for i := lo; i <= hi; i++ {
		l = append(l, J(h, append([]any{k, i}, kv...)...))
	}
	return l
}

func jobs(ls ...any) []JobSpec {
	var r []JobSpec
	for _, l := range ls {
		switch l := l.(type) {
		case JobSpec:
			r = append(r, l)
		case []JobSpec:
			r = append(r, l...)
		}
	}
	return r
}

const outsideJournals = "journals with more transactions, postings or files than stated; texts longer than the stated number of free characters"

var checks = []Check{
	{ID: "C01",
		Quick: jobs(J("TwistedSum"), J("Balanced", "n", 1), J("Balanced", "n", 2), J("Balanced", "n", 3, "ctx", 1), J("TwoTransactions"), J("Overflow", "n", 2)),
		Deep: jobs(J("TwistedSum"), J("Balanced", "n", 1), J("Balanced", "n", 2, "whole", 3), J("Balanced", "n", 3), J("Balanced", "n", 4, "ctx", 2),
			J("Balanced", "n", 8, "free", 3, "ctx", 0), J("TwoTransactions"), J("Overflow", "n", 2), J("Overflow", "n", 3)),
		Bounds:     "a transaction of 1 or 2 (every one of 7 places in a journal) or 3 postings, each amount any value with one whole digit and two decimals of either sign, all six commands; two adjacent transactions; sums of two amounts around the limits of 64 bits; transactions that are unusual in one of 76 ways (commodities, notes, comments, repeated, long, deep and close accounts, spaces, states), with three free amounts",
		DeepBounds: "transactions of 2 to 4 postings with up to three whole digits and two decimals of either sign, and of 8 postings with three free amounts; every one of 7 places in a journal for up to 3 postings; sums of up to three amounts around the limits of 64 bits; the same 76 twists",
		Outside:    outsideJournals, Covers: []string{"accepted", "rejected"}},
	{ID: "C02",
		Quick:      jobs(J("Twisted", "cmd", 0), J("Twisted", "cmd", 1), J("Elided", "n", 1), J("Elided", "n", 2), J("Elided", "n", 3, "ctx", 1, "comm", 1), J("TwoElided"), J("ElidedNames", "names", 2), J("ElidedNames", "t", 2, "n", 3, "names", 2)),
		Deep:       jobs(J("Twisted", "cmd", 0, "pairs", 2), J("Twisted", "cmd", 1), J("Elided", "n", 1), J("Elided", "n", 2, "whole", 3), J("Elided", "n", 3), J("Elided", "n", 4, "ctx", 0, "comm", 1), J("TwoElided", "n", 4), J("ElidedNames"), J("ElidedNames", "t", 2, "n", 3, "names", 2)),
		Bounds:     "transactions of 2 and 3 postings, the amount left out at any position, the other amounts any value with one whole digit and two decimals of either sign; two postings without an amount at any two positions; one or two such transactions whose accounts repeat in every way; transactions that are unusual in one of 76 ways (as in C01)",
		DeepBounds: "as quick, with transactions of 2 to 4 postings and up to three whole digits; transactions that are unusual in two of 76 ways (as in C01)",
		Outside:    outsideJournals},
	{ID: "C03",
		Quick:      jobs(J("AmountText", "n", 3), J("AmountText", "n", 4, "form", 0), J("AmountChars", "n", 5), J("AmountDigits", "n", 16), J("AmountPadded")),
		Deep:       jobs(J("AmountPadded", "n", 5), J("AmountText", "n", 4), J("AmountText", "n", 5), J("AmountChars", "n", 7), J("AmountDigits", "n", 17), J("AmountDigits", "n", 18)),
		Bounds:     "amount texts of 3 and 4 arbitrary bytes, of 5 characters out of those that amounts are made of, of 16 digits, and of three digits after up to 300 zeros",
		DeepBounds: "amount texts of 4 and 5 arbitrary bytes, of 7 characters out of those that amounts are made of, of 17 and 18 digits, and of five digits after up to 300 zeros",
		Outside:    "longer amount texts"},
	{ID: "C04", API: true,
		Quick:   jobs(J("Columns"), J("Extremes"), J("Display", "n", 1), J("Display", "n", 2), J("Display", "n", 3), J("Display", "n", 10), J("Display", "n", 18), J("Display", "n", 19), J("DisplayReports")),
		Bounds:  "every amount of 1, 2, 3, 10, 18 and 19 digits of hundredths including the smallest and largest 64-bit values, with four commodities; the amounts shown by print and balance; amounts of up to 19 digits, the last four free, in print, balance and budget with five commodities of up to 24 characters and names of up to 49; every amount within 50 of the limits of 64 bits and of powers of two and ten",
		Outside: "commodities other than those tried", Fallback: jobs(J("Columns"), J("Extremes"), J("DisplayReports"), J("AmountDigits", "n", 16)), FallbackBounds: "amounts of up to 16 free digits in print, and of up to 19 digits, the last four free, in print, balance and budget"},
	{ID: "C05",
		Quick: jobs(J("HugeSums"), J("Shapes", "n", 5, "zero", 1), J("ManySame", "steps", 20, "cmd", 0), J("Many", "cmd", 1), J("Twisted", "cmd", 1), J("BalanceSums", "kind", 3, "depth", 2, "n", 2), J("DeepTree"), J("BalanceSums", "kind", 1, "depth", 2), J("BalanceFlat", "kind", 0, "depth", 2), J("BalanceSums", "kind", 0, "depth", 3),
			J("BalanceSums", "kind", 0, "depth", 4, "fixdepth", 1), J("BalanceSums", "kind", 0, "t", 2, "n", 2, "depth", 2), J("BalanceSums", "kind", 0, "depth", 2, "whole", 1), J("NearNames", "cmd", 2)),
		Deep: jobs(J("HugeSums", "n", 3), J("Shapes", "zero", 1), J("ManySame", "steps", 50, "n", 5000, "cmd", 0), J("Many", "cmd", 1, "n", 300, "steps", 20), J("Twisted", "cmd", 1, "pairs", 2), J("DeepTree", "depth", 25), J("BalanceSums", "kind", 1, "depth", 3), J("BalanceSums", "kind", 2, "depth", 2), J("BalanceSums", "kind", 3, "depth", 2), J("BalanceFlat", "kind", 1, "depth", 3),
			J("BalanceSums", "kind", 0, "n", 4, "depth", 3), J("BalanceSums", "kind", 0, "depth", 6, "fixdepth", 1), J("BalanceSums", "kind", 0, "t", 2, "n", 2, "depth", 3), J("BalanceSums", "kind", 0, "t", 3, "n", 2, "depth", 2), J("NearNames", "cmd", 2)),
		Bounds:     "one transaction of 3 postings or two of 2, to accounts up to 3 levels deep (also 4) whose names at each level are free (one of two letters; any printable character up to 2 levels), amounts any digits; transactions that are unusual in one of 76 ways (as in C01); two accounts of 14 levels that part at any level; names of one to three characters; journals of 70 of something (transactions, payees, accounts, days, postings of one transaction, comments, words of a name; 40 levels of an account), with a free amount; 2101 transactions of one account; every tree of five accounts; two transactions with amounts of up to 92233720368547758.07",
		DeepBounds: "one transaction of 3 or 4 postings, or up to three of 2, to accounts up to 3 levels deep (also 6) whose names at each level are free: two letters, any printable character, or names that are close to each other; amounts any digits; transactions that are unusual in two of 76 ways (as in C01); accounts of 25 levels; journals of 300 of something (transactions, payees, accounts, days, postings of one transaction, comments, words of a name; 40 levels of an account), with a free amount; 2101 transactions of one account; every tree of six accounts; three transactions with amounts of up to 92233720368547758.07",
		Outside:    outsideJournals + "; names of more than two characters", Covers: []string{"end"}},
	{ID: "C06",
		Quick: jobs(J("Shapes", "n", 4, "in", 1), J("Shapes", "n", 5), J("Many", "cmd", 1), J("Twisted", "cmd", 1), J("BalanceShown", "kind", 0, "depth", 3), J("BalanceShown", "kind", 0, "depth", 2, "t", 2, "n", 2), J("BalanceHiding", "kind", 0, "depth", 2), J("BalanceShown", "kind", 0, "depth", 2, "whole", 1), J("BalanceFiltered", "kind", 0, "depth", 2, "t", 2, "n", 2, "layouts", 1, "filters", 4)),
		Deep: jobs(J("Shapes", "n", 5, "in", 1), J("Shapes", "n", 5, "free", 2), J("Many", "cmd", 1, "n", 300, "steps", 20), J("Twisted", "cmd", 1), J("BalanceFiltered", "kind", 0, "depth", 2, "t", 2, "n", 2), J("BalanceShown", "kind", 1, "depth", 3), J("BalanceHiding", "kind", 0, "depth", 3), J("BalanceShown", "kind", 2, "depth", 2, "n", 2), J("BalanceShown", "kind", 0, "depth", 3, "t", 2, "n", 2),
			J("BalanceShown", "kind", 0, "depth", 5, "fixdepth", 1), J("BalanceShown", "kind", 0, "n", 4, "depth", 2)),
		Bounds:     "one transaction of 3 postings (3 levels) or two of 2 (2 levels) to accounts with free names (one of two letters at each level) and any digits as amounts, including all that cancel out, also as selected by account, payee and note filters; transactions that are unusual in one of 76 ways (as in C01); journals of 70 of something (transactions, payees, accounts, days, postings of one transaction, comments, words of a name; 40 levels of an account), with a free amount; every tree of five accounts with a free amount; every tree of four accounts with the rest posted to any of them",
		DeepBounds: "one transaction of up to 4 postings or two of 2 to accounts up to 3 levels deep (also 5) with free names and any digits as amounts, including all that cancel out, also as selected by account, payee and note filters; transactions that are unusual in one of 76 ways (as in C01); journals of 300 of something (transactions, payees, accounts, days, postings of one transaction, comments, words of a name; 40 levels of an account), with a free amount; every tree of five accounts with two free amounts; every tree of five accounts with the rest posted to any of them",
		Outside:    outsideJournals, Covers: []string{"end", "zero account shown"}},
	{ID: "C07",
		Quick: jobs(J("OddNames", "cmd", 2, "whats", 1), J("NearNames", "cmd", 2), J("Shapes", "free", 0), J("DeepTree"), J("DeepTree", "long", 30, "depth", 6), J("BalanceLayout", "kind", 1, "depth", 2), J("BalanceLayout", "kind", 3, "depth", 2, "n", 2), J("BalanceLayout", "kind", 0, "depth", 3), J("BalanceLayout", "kind", 0, "depth", 4, "fixdepth", 1),
			J("BalanceLayout", "kind", 0, "depth", 2, "zero", 0, "short", 1), J("BalanceFiltered", "kind", 0, "depth", 2, "n", 2)),
		Deep: jobs(J("OddNames", "cmd", 2, "whats", 1), J("NearNames", "cmd", 2), J("Shapes", "n", 7, "free", 0), J("Shapes", "free", 1, "zero", 1), J("DeepTree", "depth", 25), J("DeepTree", "long", 30), J("Twisted", "cmd", 1), J("BalanceFiltered", "kind", 0, "depth", 2), J("BalanceLayout", "kind", 1, "depth", 3), J("BalanceLayout", "kind", 2, "depth", 2, "n", 2), J("BalanceLayout", "kind", 3, "depth", 2), J("BalanceLayout", "kind", 0, "depth", 3, "zero", 0),
			J("BalanceLayout", "kind", 0, "depth", 6, "fixdepth", 1), J("BalanceLayout", "kind", 0, "n", 4, "depth", 3), J("BalanceLayout", "kind", 0, "t", 2, "n", 2, "depth", 3)),
		Bounds:     "one transaction of 3 postings to accounts up to 3 levels deep (also 4) with free names (one of two letters; any printable character up to 2 levels; names of one to three characters for two postings); the three layouts with and without --show-zero, also with filter arguments; two accounts of 14 levels that part at any level, and of 6 levels with names of 31 characters; every tree of six accounts; two names that part in or after a free character or of which one has a free character more; every two of 34 unusual names",
		DeepBounds: "one transaction of up to 4 postings or two of 2 to accounts up to 3 levels deep (also 6) with free names; the three layouts with and without --show-zero, also with filter arguments; accounts of 25 levels; transactions that are unusual in one of 76 ways (as in C01); every tree of seven accounts, and of six with a free amount; two names that part in or after a free character or of which one has a free character more; every two of 34 unusual names",
		Outside:    outsideJournals, Covers: []string{"end"}},
	{ID: "C08",
		Quick: jobs(J("OddNames", "cmd", 3), J("ManySame", "steps", 20, "cmd", 1), J("Many", "cmd", 0), J("Twisted", "cmd", 0), J("PrintMonths"), J("PrintFar"), J("PrintFields", "n", 2), J("PrintTrailing"), J("PrintOrder"), J("PrintOrder", "n", 30, "free", 2, "offs", 1), J("PrintDates", "n", 2), J("PrintPostings", "n", 3), J("PrintRepeats"), J("NearNames", "cmd", 3), J("LongLines")),
		Deep: jobs(J("OddNames", "cmd", 3), J("ManySame", "steps", 50, "n", 5000, "cmd", 1), J("Many", "cmd", 0, "n", 300, "steps", 20), J("Twisted", "cmd", 0, "pairs", 2), J("PrintMonths", "years", 5), J("PrintFar"), J("PrintFields", "n", 3), J("PrintTrailing", "n", 4), J("PrintOrder", "n", 14, "free", 4), J("PrintOrder", "n", 40, "free", 3, "offs", 2),
			J("PrintDates", "n", 3), J("PrintPostings", "n", 4), J("PrintRepeats", "letters", 3), J("NearNames", "cmd", 3), J("LongLines", "sizes", 2)),
		Bounds:     "two free characters in any text of a transaction, all combinations of states, notes and comments; up to 30 transactions of which two have free dates; two dates within 100 days; three postings with free amounts; transactions that are unusual in one of 76 ways (as in C01); any two days (up to the 28th) of any two months of two years, or of the first and last months of any two of 21 years from 1 to 9999; lines of 4094 to 4100 characters with a free one around the 4096th; journals of 70 of something (transactions, payees, accounts, days, postings of one transaction, comments, words of a name; 40 levels of an account), with a free amount; 2101 transactions of one account; every two of 34 unusual names",
		DeepBounds: "three free characters in any text of a transaction, all combinations of states, notes and comments; up to 40 transactions of which three have free dates; three dates within 100 days; four postings with free amounts; transactions that are unusual in two of 76 ways (as in C01); any two months of five years, or of the first and last months of any two of 21 years from 1 to 9999; lines around 4096 and 8192 characters; journals of 300 of something (transactions, payees, accounts, days, postings of one transaction, comments, words of a name; 40 levels of an account), with a free amount; 2101 transactions of one account; every two of 34 unusual names",
		Outside:    outsideJournals},
	{ID: "C09",
		Quick:      jobs(J("ManyRound"), J("TwistedRound"), J("RoundFields", "n", 2), J("RoundAmounts", "n", 2), J("RoundDates"), J("RoundFar")),
		Deep:       jobs(J("ManyRound", "n", 300, "steps", 20), J("TwistedRound", "pairs", 2), J("RoundFields", "n", 2), J("RoundFields", "n", 3, "lo", 9, "hi", 127), J("RoundFields", "n", 4, "lo", 32, "hi", 126), J("RoundAmounts", "n", 3), J("RoundDates"), J("RoundFar")),
		Bounds:     "two arbitrary bytes (no line ends) at 18 places of a journal; two amounts with free digits, commodities and payees; two transactions with free dates within 100 days; any day up to the 28th of 21 years from 1 to 9999; transactions that are unusual in one of 76 ways (as in C01); journals of 70 of something (transactions, payees, accounts, days, postings of one transaction, comments, words of a name; 40 levels of an account), with a free amount",
		DeepBounds: "two arbitrary bytes, or four printable ones, at 18 places of a journal; three amounts; transactions that are unusual in two of 76 ways (as in C01); journals of 300 of something (transactions, payees, accounts, days, postings of one transaction, comments, words of a name; 40 levels of an account), with a free amount",
		Outside:    outsideJournals + "; carriage returns within a line"},
	{ID: "C10",
		Quick: jobs(J("RangeFar"), each("DateRange", "cmd", 0, 5), J("DateRange", "cmd", 0, "zone", 1), J("DateRange", "cmd", 1, "zone", 2, "y", 2018, "m", 10),
			J("DateRange", "cmd", 2, "zone", 3, "y", 2020, "m", 3, "d", 1), J("DateForms"), J("TwistedSelect", "cmd", 0, "fill", 0)),
		Deep: jobs(each("RangeFar", "cmd", 0, 5), each("DateRange", "cmd", 0, 5, "zone", 1, "w", 100), J("DateRange", "cmd", 1, "zone", 2, "y", 2018, "m", 10), J("DateRange", "cmd", 0, "zone", 2, "y", 2018, "m", 10),
			J("DateRange", "cmd", 0, "zone", 3, "y", 2020, "m", 3, "d", 1), J("DateRange", "cmd", 0, "zone", 4, "y", 2011, "m", 12),
			J("DateRange", "cmd", 0, "y", 1, "m", 1, "d", 1), J("DateRange", "cmd", 0, "y", 9999, "m", 10, "d", 25), J("DateRange", "cmd", 1, "y", 1900, "m", 2), J("DateRange", "cmd", 1, "y", 2000, "m", 2),
			J("DateForms"), J("DateForms", "y", 2020), J("DateForms", "y", 1900), each("TwistedSelect", "cmd", 0, 2, "fill", 0)),
		Bounds:     "two transactions, one with any date within 60 days of December 2019 to February 2020, --begin and --end each any day of the same window; all commands; in UTC, in every offset from -16 to +16 hours (print), and in zones whose clocks change within the window; four ranges of dates, with eight lists of arguments, of three transactions of which one is unusual in one of 76 ways (as in C01); 21 transactions of years from 1 to 9999, and --begin and --end on or next to any two of these days",
		DeepBounds: "two transactions, one with any date within 100 days, --begin and --end each any day of the same window; all commands in every offset from -16 to +16 hours; several windows from year 1 to 9999; zones whose clocks change or that skip a day within the window; 21 transactions of years from 1 to 9999, and --begin and --end on or next to any two of these days",
		Outside:    "other windows of dates; more than two transactions", Covers: []string{"selected 0", "selected 1", "selected 2"}},
	{ID: "C11", Clock: true,
		Quick: jobs(J("CurrentFar"), each("Current", "cmd", 0, 4), J("Current", "cmd", 5, "zone", 0), J("Current", "cmd", 0, "zone", 2, "y", 2018, "m", 11, "d", 3), J("Current", "cmd", 0, "zone", 4, "y", 2011, "m", 12, "d", 28, "w", 4)),
		Deep: jobs(J("CurrentFar", "secs", 4, "also", 2), each("Current", "cmd", 0, 4, "w", 4), J("Current", "cmd", 0, "y", 2019, "m", 12, "d", 30, "w", 4), J("Current", "cmd", 0, "y", 2100, "m", 2, "d", 27, "w", 4), J("Current", "cmd", 5, "zone", 0, "w", 10),
			J("Current", "cmd", 0, "zone", 2, "y", 2018, "m", 11, "d", 3), J("Current", "cmd", 1, "zone", 3, "y", 2020, "m", 3, "d", 28, "w", 3), J("Current", "cmd", 0, "zone", 4, "y", 2011, "m", 12, "d", 28, "w", 4)),
		Bounds:     "every second of two days (28 and 29 February 2020) in every offset from -16 to +16 hours, a transaction dated three days before to three days after; with and without --begin and --end; all commands (statistics: four times of day, UTC); zones whose clocks change or that skip a day; 21 transactions of years from 1 to 9999 and the current day one of these days, or the day before",
		DeepBounds: "the same over four days, at the turn of a year and in a century year without a leap day; 21 transactions of years from 1 to 9999 and the current day one of these days, or the day before",
		Outside:    "other days", Covers: []string{"selected 0", "selected 1"}},
	{ID: "C12",
		Quick:      jobs(J("Filter"), J("Filters"), J("FilterLetters"), each("TwistedSelect", "cmd", 0, 2, "fill", 0)),
		Deep:       jobs(each("Filter", "field", 0, 13, "n", 3), J("Filter", "n", 4, "field", 0), J("Filters", "n", 2), J("Filters", "third", 1), J("FilterLetters", "n", 3, "m", 2), J("FilterLetters", "n", 3, "m", 3), each("TwistedSelect", "cmd", 0, 2)),
		Bounds:     "journals of three transactions with two free characters in one of fourteen texts (payees, notes, comments in several places, accounts); one argument out of 29 regular expressions as account, payee or note filter; every pair of 14 arguments; arguments of two free letters; print, balance and statistics; eight lists of arguments, with five ranges of dates, of three transactions of which one is unusual in one of 76 ways (as in C01)",
		DeepBounds: "three free characters (four in a payee), every three of 14 arguments, arguments of three free letters",
		Outside:    "regular expressions other than those used; " + outsideJournals, Covers: []string{"selected 0", "selected 1", "selected 2", "selected 3"}},
	{ID: "C13",
		Quick: jobs(J("OddNames", "cmd", 0), J("RangeFar", "cmd", 2), J("RangeFar", "cmd", 3), J("Many", "cmd", 2), J("Twisted", "cmd", 2), J("AccountNames"), J("PayeeNames"), J("AccountNames", "args", 1, "n", 2), J("PayeeNames", "args", 1, "n", 2), J("DateRange", "cmd", 2, "w", 20), J("DateRange", "cmd", 3, "w", 20), J("NearNames", "cmd", 0)),
		Deep: jobs(J("OddNames", "cmd", 0), J("RangeFar", "cmd", 2), J("RangeFar", "cmd", 3), J("Many", "cmd", 2, "n", 300, "steps", 20), J("Twisted", "cmd", 2, "pairs", 2), J("AccountNames", "n", 4, "kind", 0), J("AccountNames", "n", 3, "depth", 3), J("PayeeNames", "n", 4), J("PayeeNames", "n", 2, "m", 2), J("AccountNames", "args", 1, "n", 3), J("PayeeNames", "args", 1, "n", 3),
			J("DateRange", "cmd", 2), J("DateRange", "cmd", 3), J("NearNames", "cmd", 0)),
		Bounds:     "three account names of one or two levels of any printable character, three payees of up to one free character and a letter beyond ASCII; two of each with 13 lists of arguments; two transactions with free dates within 20 days and free --begin and --end; transactions that are unusual in one of 76 ways (as in C01); journals of 70 of something (transactions, payees, accounts, days, postings of one transaction, comments, words of a name; 40 levels of an account), with a free amount; 21 transactions of years from 1 to 9999, and --begin and --end on or next to any two of these days; every two of 34 unusual names",
		DeepBounds: "up to four account names or payees, names of up to three levels, payees of two free characters; three of each with arguments; dates within 60 days; transactions that are unusual in two of 76 ways (as in C01); journals of 300 of something (transactions, payees, accounts, days, postings of one transaction, comments, words of a name; 40 levels of an account), with a free amount; 21 transactions of years from 1 to 9999, and --begin and --end on or next to any two of these days; every two of 34 unusual names",
		Outside:    "more or longer names; other arguments", Covers: []string{"listed 0", "listed 1", "listed 2", "listed 3"}},
	{ID: "C14",
		Quick: jobs(J("Includes", "cmd", 0), J("Includes", "cmd", 1), J("Includes", "cmd", 2), J("Includes", "cmd", 4, "max", 1), J("Includes", "cmd", 5, "free", 1), J("Includes", "cmd", 5, "dirs", 4, "free", 1, "all", 3, "max", 1, "depth", 3), J("IncludeLine"), J("IncludeNames"), J("IncludeChain"), J("TwistedFiles", "fill", 0), J("ManyFiles", "steps", 5)),
		Deep: jobs(J("Includes", "cmd", 0, "depth", 3, "all", 3), J("Includes", "cmd", 3), J("Includes", "cmd", 1, "dirs", 4), J("Includes", "cmd", 4, "free", 0), J("Includes", "cmd", 5, "free", 1, "all", 3, "depth", 3, "dirs", 4),
			J("Includes", "cmd", 5, "max", 3, "all", 1, "free", 1), J("Includes", "cmd", 0, "max", 3, "all", 1), J("IncludeLine", "n", 3), J("IncludeNames"), J("IncludeChain", "n", 12), J("TwistedFiles"), J("TwistedFiles", "two", 1, "fill", 0), J("ManyFiles", "steps", 5), J("ManyFiles", "large", 1, "steps", 20)),
		Bounds:     "every tree of up to three files in two directories with up to two transactions and includes each, the days of the transactions free, with and without final newline or blank lines; chains of four files in four directories, and of six included one after another, also with the same name in directories below each other; names of included files with two free characters, and 30 unusual names of files and directories; all commands but payees; one of three transactions in an included file, the first unusual in one of 76 ways (as in C01); up to 33 files nested, side by side, or included more than once",
		DeepBounds: "trees of up to four files, three deep, in up to four directories; up to three transactions and includes in a file; names with three free characters, and 30 unusual names; all commands; up to 100 files nested, side by side, or included more than once",
		Outside:    "more files; absolute paths; symbolic links", Covers: []string{"included"}},
	{ID: "C15",
		Quick: jobs(J("ManyFault", "steps", 20), J("CrashBytes", "n", 2), J("CrashBytes", "n", 2, "opt", 1), J("CrashFile", "n", 3), J("CrashArgs", "n", 1), each("CrashArgs", "pos", 3, 6, "n", 2, "lo", 1, "hi", 127),
			J("CrashInclude"), J("CrashLines", "n", 2), J("LongLines"), each("ErrorLine", "cmd", 0, 5), J("TwistedFault", "fill", 0)),
		Deep: jobs(J("ManyFault", "steps", 60), J("CrashBytes", "n", 3), J("CrashBytes", "n", 3, "opt", 1), J("CrashBytes", "n", 4, "cmd", 1), J("CrashFile", "n", 5), each("CrashArgs", "pos", 3, 6, "n", 3), J("CrashArgs", "n", 2, "lo", 32, "hi", 126, "pos", 0),
			J("CrashInclude"), J("CrashLines", "n", 3), J("LongLines", "sizes", 2), each("ErrorLine", "cmd", 0, 5), J("TwistedFault")),
		Bounds:     "two arbitrary bytes at each of 17 places of a journal and as journals of their own (three), every command; arguments of one arbitrary byte, and dates of two; files that include one another or are missing; journals of two out of 21 lines; eleven faults after six beginnings in three files, with LF and CRLF line ends; lines around 4096 characters; four faults after a transaction that is unusual in one of 76 ways (as in C01); the line of an error behind 100 to 65536 lines",
		DeepBounds: "three arbitrary bytes at each of 17 places of a journal (four for balance), journals of five arbitrary bytes; arguments of two printable characters, and dates of three bytes; journals of three out of 21 lines; the line of an error behind 100 to 65536 lines",
		Outside:    "files that cannot be read; faults other than those listed", Covers: []string{"accepted", "rejected", "cycle or missing file"}},
	{ID: "C16",
		Quick:      jobs(each("Layout", "what", 0, 4, "n", 2), J("PostingLine"), J("PostingLine", "n", 3), J("PostingTail"), J("ForeignByte"), J("TwistedLayout", "fill", 0)),
		Deep:       jobs(each("Layout", "what", 0, 4, "n", 3), J("PostingLine", "n", 4), J("PostingLine", "n", 3), J("PostingTail", "n", 3), J("ForeignByte"), J("TwistedLayout")),
		Bounds:     "a journal of three entries with every run of one or two spaces and tabs as indentation or separator of any of its lines, any number up to three of blank lines, comment lines of up to two free characters at any place, LF and CRLF, four endings, all commands; indented lines of two and three free characters in and outside of a transaction; two free characters after an amount; any control character, or one of three unusual blanks, anywhere in a posting or in the first line of a transaction; seven layouts of three transactions of which one is unusual in one of 76 ways (as in C01)",
		DeepBounds: "the same with runs of up to three spaces and tabs, comments of three free characters, indented lines of four free characters and three after an amount",
		Outside:    "other journals; characters beyond ASCII", Covers: []string{"layout", "counts", "comment", "rejected", "tail accepted"}},
	{ID: "C17",
		Quick: jobs(J("OddNames", "cmd", 4), J("NearNames", "cmd", 4), J("HugeBudget"), J("BudgetFar"), J("Many", "cmd", 4, "steps", 5), J("Twisted", "cmd", 4), J("BudgetMonths"), J("Budget", "t", 1), J("Budget", "t", 2, "a", 1, "am", 2, "signs", 1, "kinds", 4, "orders", 1), J("Budget", "t", 0, "a", 2, "n", 2, "am", 2, "signs", 1, "orders", 1),
			J("Budget", "t", 1, "a", 2, "am", 2, "signs", 1, "orders", 1, "w", 70), J("Budget", "t", 1, "a", 0, "w", 200, "cmds", 3), J("Budget", "t", 2, "a", 0, "free", 2, "w", 40, "orders", 1, "signs", 1), J("Budget", "t", 1, "kind", 1, "signs", 1, "orders", 1),
			J("Budget", "t", 1, "kind", 3, "signs", 1, "orders", 1, "am", 1)),
		Deep: jobs(J("OddNames", "cmd", 4), J("NearNames", "cmd", 4), J("HugeBudget", "n", 3), J("BudgetFar"), J("BudgetFar", "n", 2), J("Many", "cmd", 4, "n", 150, "steps", 40), J("Twisted", "cmd", 4, "pairs", 2), J("BudgetMonths"), J("BudgetMonths", "y", 1999), J("BudgetMonths", "y", 1, "m", 1), J("BudgetMonths", "y", 9998, "m", 12), J("Budget", "t", 2, "a", 1, "signs", 1), J("Budget", "t", 3, "a", 1, "am", 1, "ad", 1, "signs", 1, "kinds", 4, "orders", 1),
			J("Budget", "t", 1, "a", 2, "n", 2, "am", 2, "signs", 1, "orders", 1), J("Budget", "t", 1, "kind", 1), J("Budget", "t", 2, "kind", 3, "am", 1, "ad", 1, "signs", 1, "orders", 1, "kinds", 4)),
		Bounds:     "up to two allocations (of one, or two envelopes) and up to two transactions, one or two with a free date within 40 to 250 days, with free amounts and free names of envelopes and sub-envelopes (one of two letters, a letter and more, or any printable character), in either order; transactions that are unusual in one of 96 ways (as in C01, and with allocations); journals of 70 of something (transactions, payees, accounts, days, postings of one transaction, comments, words of a name; 40 levels of an account), with a free amount, and 70 allocations; 21 transactions of years from 1 to 9999 and an allocation of any of these months, or the next; two allocations or transactions with amounts of up to 92233720368547758.07; two names that part in or after a free character or of which one has a free character more; every two of 34 unusual names",
		DeepBounds: "up to two allocations of two envelopes and up to three transactions; windows of 250 days in four centuries; transactions that are unusual in two of 96 ways (as in C01, and with allocations); journals of 150 of something (transactions, payees, accounts, days, postings of one transaction, comments, words of a name; 40 levels of an account), with a free amount, and 150 allocations; 21 transactions of years from 1 to 9999 and an allocation of any of these months, or the next; three of them with amounts of up to 92233720368547758.07; two names that part in or after a free character or of which one has a free character more; every two of 34 unusual names",
		Outside:    outsideJournals + "; allocations that leave an amount out; amounts of several commodities", Covers: []string{"months 0", "months 1", "months 2", "months 3"}},
	{ID: "C18",
		Quick: jobs(J("OddNames", "cmd", 1), J("StatisticsFar"), J("ManySame", "steps", 20, "cmd", 2), J("Many", "cmd", 3), J("Twisted", "cmd", 3), J("Statistics", "n", 1), J("Statistics", "n", 2), J("Statistics", "n", 3, "w", 10, "off", 4), J("StatisticsMany"), J("NearNames", "cmd", 1), J("Statistics", "n", 2, "y", 1, "m", 1, "off", 3500000, "w", 20)),
		Deep: jobs(J("OddNames", "cmd", 1), J("StatisticsFar"), J("ManySame", "steps", 50, "n", 5000, "cmd", 2), J("Many", "cmd", 3, "n", 300, "steps", 20), J("Twisted", "cmd", 3, "pairs", 2), J("Statistics", "n", 1, "w", 250), J("Statistics", "n", 2, "w", 200, "off", 90), J("NearNames", "cmd", 1), J("Statistics", "n", 3, "w", 60, "off", 20), J("Statistics", "n", 4, "w", 8, "off", 3, "modes", 2, "other", 1), J("StatisticsMany", "n", 70), J("Statistics", "n", 2, "y", 1, "m", 1, "off", 3500000, "w", 100),
			J("Statistics", "n", 2, "kind", 1, "w", 10, "off", 4)),
		Bounds:     "up to three transactions with free payees and accounts, any one of them with a free date in a window of 100 (10 for three) days; 30 transactions, the first or last with a free date; dates 9500 years apart; selected by payee and date; transactions that are unusual in one of 76 ways (as in C01); journals of 70 of something (transactions, payees, accounts, days, postings of one transaction, comments, words of a name; 40 levels of an account), with a free amount; 2101 transactions of one account; two transactions of any two of 21 years from 1 to 9999; every two of 34 unusual names",
		DeepBounds: "up to four transactions, windows of up to 250 days, 70 transactions; transactions that are unusual in two of 76 ways (as in C01); journals of 300 of something (transactions, payees, accounts, days, postings of one transaction, comments, words of a name; 40 levels of an account), with a free amount; 2101 transactions of one account; two transactions of any two of 21 years from 1 to 9999; every two of 34 unusual names",
		Outside:    outsideJournals + "; more than one free date at a time", Covers: []string{"selected 0", "selected 1", "selected 2", "selected 3"}},
	{ID: "C19",
		Quick:      jobs(J("Repeatable", "maps", 1), J("Repeatable", "maps", 1, "alike", 1, "n", 1), J("Repeatable", "maps", 10, "kinds", 1, "orders", 2), J("Repeatable", "maps", 10, "kinds", 1, "n", 1), J("Repeatable", "maps", 10, "kinds", 1, "n", 1, "orders", 2, "reject", 1), J("Again", "maps", 1), J("TwistedAgain", "maps", 1, "fill", 0)),
		Deep:       jobs(J("Repeatable", "maps", 1, "n", 3), J("Repeatable", "maps", 1, "alike", 1, "kinds", 4, "n", 1), J("Repeatable", "maps", 12, "n", 2), J("Repeatable", "maps", 12, "kinds", 1, "orders", 4), J("Again", "maps", 6, "orders", 2), J("TwistedAgain", "maps", 1)),
		Bounds:     "nineteen command lines on journals of up to seven transactions in four files with free names (letters, or names that differ in case only) and amounts, run twice, the second time with all hash maps iterated in reverse, and with any one of the first nine iterations in any order of its first two or three elements; journals with two arbitrary bytes at 17 places, with all hash maps reversed; transactions that are unusual in one of 76 ways (as in C01)",
		DeepBounds: "the same with any one of eleven iterations in any order of its first four elements, and with up to three transactions of free names",
		Outside:    "orders of two hash maps that change the output only together; sources of difference that the machine does not have: threads (the program starts none), addresses", Covers: []string{"repeated"}},
	{ID: "C20", API: true,
		Quick:      jobs(J("TreePaths", "n", 4, "depth", 3), J("TreePaths", "n", 3, "depth", 3, "kind", 1), J("TreePaths", "n", 2, "depth", 4, "kind", 3), J("TreePaths", "n", 2, "depth", 2, "kind", 2), J("TreePrune"), J("TreePrune", "n", 2, "depth", 5), J("TreeKeep"), J("TreeKeep", "n", 2, "depth", 4), J("TreeKeep", "n", 1, "depth", 2, "wide", 6), J("TreeKeep", "n", 1, "depth", 3, "wide", 70, "free", 2), J("TreePrune", "n", 2, "depth", 2, "wide", 8)),
		Deep:       jobs(J("TreePaths", "n", 5, "depth", 3), J("TreePaths", "n", 4, "depth", 4), J("TreePaths", "n", 4, "depth", 3, "kind", 1), J("TreePaths", "n", 3, "depth", 3, "kind", 3), J("TreePaths", "n", 2, "depth", 3, "kind", 2), J("TreePaths", "n", 2, "depth", 8), J("TreePrune", "n", 4, "depth", 4), J("TreeKeep", "n", 4), J("TreeKeep", "n", 3, "depth", 4), J("TreeKeep", "n", 1, "depth", 2, "wide", 6), J("TreeKeep", "n", 1, "depth", 3, "wide", 70, "free", 2), J("TreePrune", "n", 2, "depth", 2, "wide", 8)),
		Bounds:     "up to four accounts of up to three components (two of four, five), with free names: one of two letters, any byte, two free characters, or names close to each other; every depth of pruning; every set of matching accounts; up to eight (70, all of which match) more accounts next to or below the first; all accounts created again after removals",
		DeepBounds: "up to five accounts of up to four components (two of eight)",
		Outside:    "more or deeper accounts", Covers: []string{"left 0", "left 1", "left 2", "left 3"},
		Fallback:       jobs(J("DeepTree"), J("BalanceSums", "kind", 0, "depth", 3), J("BalanceFlat", "kind", 0, "depth", 2), J("BalanceLayout", "kind", 3, "depth", 2, "n", 2), J("BalanceHiding", "kind", 0, "depth", 2), J("NearNames", "cmd", 2)),
		FallbackBounds: "the account tree as balance reports show it: one transaction of up to 3 postings, accounts of up to 3 levels with free names; accounts of 14 levels"},
	{ID: "C21", Clock: true,
		Quick: jobs(J("SmartDate", "base", 1, "n", 2, "zone", 1, "turn", 1), J("SmartDate", "base", 3, "from", 5, "n", 5, "lo", 48, "hi", 57, "keep", 1), J("SmartDate", "base", 0, "bad", 1), J("SmartDate", "base", 0, "n", 2), J("SmartDate", "base", 0, "n", 2, "from", 2), J("SmartDate", "base", 1, "n", 5), J("SmartDate", "base", 5, "n", 5), J("SmartDate", "base", 2, "from", 4, "n", 3), J("SmartDate", "base", 2, "n", 5, "bad", 1),
			J("SmartDate", "base", 3, "n", 6, "from", 4, "bad", 1), J("SmartDate", "base", 3, "n", 3, "from", 4), J("SmartDate", "base", 3, "n", 3, "from", 7), J("SmartDate", "base", 4, "n", 4, "bad", 1), J("SmartDate", "base", 7, "n", 2, "from", 2),
			each("SmartDate", "base", 8, 9, "n", 3, "from", 7), each("SmartDate", "base", 10, 16, "bad", 1, "n", 5), each("SmartDate", "base", 17, 20, "bad", 1, "n", 5), each("SmartDate", "base", 17, 20, "bad", 1, "n", 5, "from", 4)),
		Deep: jobs(J("SmartDate", "base", 1, "n", 2, "zone", 1, "turn", 1), J("SmartDate", "base", 5, "n", 5, "zone", 1, "turn", 1), J("SmartDate", "base", 3, "from", 5, "n", 5, "lo", 48, "hi", 57, "keep", 1), J("SmartDate", "base", 0, "bad", 1), J("SmartDate", "base", 0, "n", 2), J("SmartDate", "base", 0, "n", 2, "from", 2), J("SmartDate", "base", 0, "n", 3, "from", 1), J("SmartDate", "base", 1, "n", 5), J("SmartDate", "base", 5, "n", 5), J("SmartDate", "base", 2, "from", 4, "n", 3), J("SmartDate", "base", 2, "n", 7, "bad", 1),
			J("SmartDate", "base", 3, "n", 6, "from", 4), J("SmartDate", "base", 3, "n", 8, "from", 2, "bad", 1), J("SmartDate", "base", 4, "n", 6, "from", 4), J("SmartDate", "base", 7, "n", 2, "from", 2), J("SmartDate", "base", 7, "n", 3, "from", 1),
			each("SmartDate", "base", 8, 9, "n", 6, "from", 4), each("SmartDate", "base", 10, 16, "bad", 1, "n", 7), each("SmartDate", "base", 17, 20, "bad", 1, "n", 7), each("SmartDate", "base", 17, 20, "bad", 1, "n", 7, "from", 4)),
		Bounds:     "--begin and --end texts made from eleven of the lengths 1 to 13 with windows of two to six arbitrary bytes: all texts of one to five bytes, the month, the day or both of longer ones, two of the four digits of a year; two transactions at and just before or after the date; two current years, one a leap year; every offset from UTC in the first and the last second of a year; all four digits of month and day",
		DeepBounds: "the same with windows of up to eight arbitrary bytes and three of the four digits of a year",
		Outside:    "texts longer than 13 bytes; texts whose free bytes are further apart", Covers: []string{"date", "not a date"}},
	{ID: "C22",
		Quick: jobs(J("HeaderDate", "bad", 1), J("HeaderDate", "from", 2, "bad", 1), J("HeaderDate", "from", 4), J("HeaderDate", "from", 5), J("HeaderDate", "from", 7), J("HeaderDate", "base", 1, "from", 2, "n", 2), each("HeaderDate", "base", 0, 2, "from", 5, "n", 5, "lo", 48, "hi", 57, "keep", 1), J("HeaderDate", "base", 5, "n", 2), J("HeaderDate", "base", 2, "n", 2, "from", 2),
			each("HeaderDate", "base", 6, 16, "bad", 1, "n", 3), each("HeaderDate", "base", 6, 8, "bad", 1, "n", 3, "from", 5), each("HeaderDate", "base", 11, 16, "bad", 1, "n", 3, "from", 6), each("HeaderDate", "base", 17, 18, "bad", 1, "n", 3, "from", 8), J("HeaderDate", "base", 12, "bad", 1, "n", 3, "from", 8), J("HeaderDate", "base", 15, "bad", 1, "n", 3, "from", 9), J("HeaderDays", "y", 2019), J("HeaderDays", "windows", 30, "y", 1), J("HeaderDays", "windows", 60, "y", 1980), J("HeaderDays", "windows", 20, "y", 9985),
			J("PeriodText", "bad", 1), J("PeriodText", "from", 5, "n", 2), J("PeriodText", "base", 3, "n", 2), J("PeriodText", "base", 3, "n", 3, "from", 3), J("PeriodText", "base", 7, "from", 4, "n", 1), J("PeriodText", "base", 8, "n", 3), J("PeriodText", "base", 9, "n", 3), J("PeriodText", "base", 10, "n", 3, "from", 7)),
		Deep: jobs(J("HeaderDate", "bad", 1, "n", 4), J("HeaderDate", "from", 3, "bad", 1, "n", 4), J("HeaderDate", "from", 4, "n", 4), J("HeaderDate", "from", 6, "n", 4, "bad", 1), J("HeaderDate", "base", 1, "n", 3, "from", 1), J("HeaderDate", "base", 2, "n", 2, "from", 2),
			each("HeaderDate", "base", 6, 16, "bad", 1, "n", 4), each("HeaderDate", "base", 11, 16, "bad", 1, "n", 4, "from", 6), each("HeaderDate", "base", 17, 18, "bad", 1, "n", 4, "from", 7), J("HeaderDate", "base", 15, "bad", 1, "n", 4, "from", 9), J("HeaderDays", "y", 1, "windows", 100, "wide", 64), J("HeaderDays", "y", 4381, "windows", 100, "wide", 64), J("HeaderDays", "y", 8761, "windows", 100, "wide", 18),
			J("PeriodText", "bad", 1), J("PeriodText", "from", 4), J("PeriodText", "base", 1, "from", 4), J("PeriodText", "base", 2, "from", 5, "n", 2), each("PeriodText", "base", 3, 6, "n", 4, "from", 2, "bad", 1), J("PeriodText", "base", 8, "n", 4), J("PeriodText", "base", 9, "n", 4), J("PeriodText", "base", 10, "n", 3, "from", 7)),
		Bounds:     "header dates with any two or three arbitrary bytes next to each other (the four digits of month and day), and 13 texts of other lengths; every day of 75 years in three notations; months of allocations with two or three arbitrary bytes next to each other",
		DeepBounds: "header dates with any three or four arbitrary bytes next to each other; every day from year 1 to the end of 9999 in three notations; months of allocations with up to four arbitrary bytes",
		Outside:    "headers whose free bytes are further apart", Covers: []string{"date", "not a date"}},
	{ID: "C23",
		Quick:      jobs(J("HugeAge"), J("AgeMany", "n", 24, "rich", 1), J("AgeFar"), J("AgeOfMoney", "fronts", 1), J("AgeOfMoney", "in", 2, "out", 1), J("AgeMany"), J("AgeDays"), J("AgeOfMoney", "far", 1, "in", 1, "out", 1), J("AgeOfMoney", "in", 0, "out", 2), J("AgeOfMoney", "in", 2, "out", 0), J("AgeOfMoney", "in", 2, "out", 3, "fronts", 1, "offs", 2)),
		Deep:       jobs(J("HugeAge"), J("AgeFar", "n", 3), J("AgeOfMoney", "offs", 5), J("AgeOfMoney", "in", 3, "out", 2, "fronts", 1), J("AgeOfMoney", "in", 2, "out", 3, "fronts", 1), J("AgeOfMoney", "in", 2, "out", 2, "fronts", 1, "dec", 2), J("AgeMany", "n", 24), J("AgeMany", "n", 30, "rich", 1), J("AgeDays", "w", 250), J("AgeOfMoney", "far", 1, "in", 2, "out", 2, "fronts", 1)),
		Bounds:     "up to two incomes and three expenses of free positive amounts on any of four days; 14 and 24 expenses, one with a free amount on any place, drawn from four incomes of which two are free; an income and an expense on any two days of a window of 120, and 2700 years apart; an income and an expense of any two of 21 years from 1 to 9999; three incomes or expenses of up to 92233720368547758.07",
		DeepBounds: "up to three incomes and three expenses, amounts with decimals, 24 expenses, a window of 250 days; an income and an expense of any two of 21 years from 1 to 9999; three incomes or expenses of up to 92233720368547758.07",
		Outside:    outsideJournals + "; days whose income or expenses are net negative or zero", Covers: []string{"draws 0", "draws 1", "draws 2", "draws 3", "age"}},
	{ID: "C24",
		Quick:      jobs(J("JournalSource"), J("JournalNames")),
		Deep:       jobs(J("JournalSource", "names", 20), J("JournalNames")),
		Bounds:     "two journals, the option (in five forms, at three places) and the variable each naming one with a free character (one of three), or absent or empty; other variables and files with usual names present; all commands; 34 unusual names of journals, in four forms of the option and as the variable",
		DeepBounds: "the same with names with any of 20 letters",
		Outside:    "files that exist but cannot be read; longer free names", Covers: []string{"read", "no journal"}},
	{ID: "C25", Clock: true,
		Quick:      jobs(J("Forms"), J("AllOptions")),
		Deep:       jobs(J("Forms", "all", 1, "filters", 2), J("AllOptions")),
		Bounds:     "every command and alias; --begin, --end (any day of ten), both, --current, and up to two of the flags of balance, each in all of its forms, before or after the command name and the filter argument; every set of options together, in three forms and four orders",
		DeepBounds: "the same with all pairs of forms and two filter arguments; every set of options together, in three forms and four orders",
		Outside:    "the aliases of help and completion commands; 'p', which two commands share", Covers: []string{"same", "options"}},
	{ID: "C26",
		Quick:   jobs(J("Allocations"), J("AllocationFiles"), J("TwistedBetween", "fill", 0)),
		Deep:    jobs(J("Allocations"), J("AllocationFiles"), J("TwistedBetween")),
		Bounds:  "a journal of four entries, one an included file, and an allocation of any month at any of seven places, with blank lines around it or without, of six kinds, with free accounts (five kinds) and amounts; nine command lines; three files with or without transactions and allocations; two kinds of allocations among three transactions of which one is unusual in one of 76 ways (as in C01)",
		Outside: outsideJournals, Covers: []string{"same", "files"}},
	{ID: "C27",
		Quick:      jobs(J("ReadOnly"), J("TwistedKept", "fill", 0), J("ManyKept")),
		Deep:       jobs(J("ReadOnly"), J("TwistedKept"), J("ManyKept", "n", 300, "steps", 20)),
		Bounds:     "sixteen journals (not balanced, with included and missing files, with and without final line ends, with a free byte, empty, ...) with free amounts, eighteen command lines, the journal named by option or variable; three transactions of which one is unusual in one of 76 ways (as in C01), and journals of 70 of something, under all commands",
		DeepBounds: "the same, and journals of 300 of something",
		Outside:    "changes outside of the directory of the journal, the home directory and the directory for temporary files; other processes", Covers: []string{"kept"}},
	{ID: "C28",
		Quick:      jobs(J("UnknownCommand"), J("UnknownOption"), J("MissingValue")),
		Deep:       jobs(J("UnknownCommand", "n", 3), J("UnknownOption"), J("MissingValue")),
		Bounds:     "names of commands of one and two free characters and those that differ from a name by one character (another, one more), cut short or in other letters; options of one letter and two, parts of the names of options, those with one other character, and 23 other forms; values that are not truth values; options without value; sixteen expressions that are not regular, with a free letter, among others; all commands",
		DeepBounds: "the same, and names of commands of three free characters",
		Outside:    "other names", Covers: []string{"refused"}},
}
