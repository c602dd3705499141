#!/usr/bin/env python3
# Regenerates properties.jsonl (kept as a script so the statements stay easy to edit).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=observe or ["stdout of the gledger binary"],hook_needed=None)))
m=lambda n,w:dict(name=n,where=w)
s=lambda n,me,w:dict(name=n,meaning=me,where=w)

p("C01","Only balanced transactions are accepted",
 "A transaction in which every posting has an amount is accepted exactly when its amounts sum to zero to the last hundredth. When a transaction does not balance and no posting leaves its amount out, every command that reads the journal prints an error saying so instead of a report, wherever in the journal (or at its end) the transaction stands. Amounts whose sum does not fit in 64 bits of hundredths are rejected, never accepted by wrap-around. In every accepted journal the grand total shown by an unfiltered balance report is 0.00.",
 ["inputs","histories"],"all journals: any number, sign, order and layout of postings and transactions",
 "No test parses a whole journal or closes a transaction; the sum condition ranges over all amounts, and being off by one hundredth is a needle in that space.",
 ["journal/transaction.go","parser/transactionbuilder.go","parser/parser.go"],
 [m("Transaction.Close sums the postings","journal/transaction.go"),m("transactionBuilder.endTransaction closes on blank line, next header, EOF","parser/transactionbuilder.go")],
 [s("postingWithElidedAmount","the posting whose amount is to be inferred","journal/transaction.go")])

p("C02","One posting may omit its amount and gets exactly the remainder",
 "If exactly one posting of a transaction omits its amount, it is given the negated sum of the other postings' amounts (zero included), in their commodity, whichever position it has. If more than one posting omits its amount the journal is rejected with an error. No posting of an accepted transaction is ever dropped.",
 ["inputs"],"all transactions with one or more amount-less postings, in any position, followed by any amount of trailing blank space or comment",
 "Tests never build a transaction with an omitted amount; the rule must hold for every position, every sum (including zero) and every number of postings.",
 ["journal/transaction.go","parser/transactionbuilder.go","parser/lexer.go"],
 [m("Transaction.AddPosting allows one elided posting","journal/transaction.go"),m("Transaction.Close fills it in","journal/transaction.go"),m("accountItem handling opens the next posting","parser/transactionbuilder.go")],
 [s("postingWithElidedAmount","the posting whose amount is to be inferred","journal/transaction.go")])

p("C03","Amount literals are read exactly or rejected",
 "A posting amount written as an optional sign, whole digits and optionally a point with one or two decimals is read as exactly that many hundredths (10.5 is ten and a half; 1.05 is one and five hundredths). Any other amount text (no digits, a second sign, a third decimal, letters, a value that does not fit in 64 bits of hundredths) is rejected with an error. It is never read as a different number.",
 ["inputs"],"all amount strings",
 "Five literals are tested; the space is every string, and wrong readings (one decimal digit, sign after the point, overflow) sit at boundaries no test samples.",
 ["parser/parser.go","parser/lexer.go","parser/transactionbuilder.go"],
 [m("parseAmount","parser/parser.go"),m("lexCommodity / takeToTabOrNextLineOrComment split commodity from amount","parser/lexer.go")])

p("C04","Amounts are displayed exactly",
 "Every amount from the smallest to the largest 64-bit number of hundredths is displayed as its sign, its whole part without leading zeros, a point and exactly two decimals, so reading the displayed text back gives the same amount. The sign is shown for every negative amount, also between -0.99 and -0.01. With the commodity requested, the text is the commodity as written followed by that number.",
 ["inputs"],"all 64-bit quantities and all commodities",
 "Five small quantities are tested; exactness must hold over 2^64 values, where floating point silently rounds above 2^52.",
 ["journal/amount.go"],
 [m("Amount.DisplayableQuantity","journal/amount.go")],None,["journal.Amount.DisplayableQuantity","stdout of the gledger binary"])

p("C05","An account's balance is the sum of its own and its descendants' postings",
 "In the balance report every account's amount equals the sum of all postings made to it and to any account below it, each posting counted once, and the grand total is the sum of all postings. This holds whatever the depth and order of the accounts, whether a parent is posted to before, after or without its children, and when different parents have children of the same name. Amounts whose sum does not fit in 64 bits of hundredths are refused with an error, never shown wrong.",
 ["inputs","histories"],"all sequences of postings to all account paths",
 "No test adds a posting to a journal; it must hold for every history of postings over every tree shape and all amounts.",
 ["journal/journal.go","journal/account.go","journal/amount.go"],
 [m("wireUpPosting adds to the account and walks its ancestors","journal/journal.go"),m("FindOrCreateAccount","journal/account.go"),m("Amount.Add","journal/amount.go")],
 [s("Account.Amount","running total of the subtree","journal/account.go"),s("Account.Children","name to child","journal/account.go")],
 ["gledger balance","journal.Journal.AddPosting then Account.Amount"])

p("C06","The balance report hides only what is zero",
 "By default the balance report shows every account that has a non-zero balance, together with its ancestors, even when an ancestor's own total is zero, and omits accounts that are zero with nothing non-zero below them. With --show-zero every account that has postings is shown. Hiding an account never changes the amount shown for another account or the grand total.",
 ["inputs","configurations"],"all journals, with and without --show-zero",
 "The balance command has no tests; the interesting states are sums that cancel at an inner node, which need particular combinations of amounts.",
 ["cmd/balance.go","journal/account.go"],
 [m("prepareBalance","cmd/balance.go"),m("RemoveEmptyChildren / RemoveChildren","journal/account.go")])

p("C07","Tree, collapsed and flat layouts show the account hierarchy faithfully",
 "The default layout prints one line per account, in alphabetical order within each parent, each name indented two spaces per level below its parent. With --collapse a chain of shown accounts that each have one shown child is joined into one line with ':', ending at the first account that has no or several children, whose amount is shown; what follows is indented below it. With --flatten there is one line per account that has no children, with its full path, in the same order.",
 ["inputs","configurations"],"all account trees, in the three layouts",
 "The tests of package reporting do not compile, so no layout is tested at all; the collapse state machine depends on every combination of siblings and only children.",
 ["reporting/tree.go","reporting/flattenedtree.go","cmd/common.go","journal/account.go"],
 [m("tree / treeContext","reporting/tree.go"),m("flattenedTree","reporting/flattenedtree.go"),m("SortedChildNames","journal/account.go"),m("CreatePath","journal/account.go")],
 None,["gledger balance [-C|-F]","reporting.Tree, reporting.FlattenedTree"])

p("C08","Print shows every transaction completely, by date, in stable order",
 "The print command shows every selected transaction exactly once, ordered by date, and transactions of the same date in the order they were read, however many there are. Each shows its date, its state (! or * or none), payee, header note, notes, and each posting in order with its account, commodity, amount and comments. Nothing of these is lost, truncated or moved to another transaction or posting.",
 ["inputs","histories"],"all journals, any number of transactions on equal or different dates",
 "print has no tests; an unstable sort shows only above a dozen equal dates, and text losses depend on the exact spacing around notes and comments.",
 ["cmd/print.go","journal/transaction.go","journal/posting.go","parser/lexer.go","parser/transactionbuilder.go"],
 [m("printJournal.prepare sorts","cmd/print.go"),m("Transaction.String, Posting.String","journal/transaction.go"),m("lexTransactionHeader, lexPosting","parser/lexer.go")])

p("C09","Printed output is a journal equivalent to the one read",
 "What print writes for an accepted journal is itself an accepted journal: printing it again gives the same text, and it has the same balances as the original. This holds for all dates, states, payees, notes, comments, commodities and amounts, including empty ones (carriage returns being part of line ends only).",
 ["inputs"],"all accepted journals",
 "A round trip over the whole space of texts; the tests never feed output back.",
 ["cmd/print.go","journal/transaction.go","journal/posting.go","journal/amount.go","parser/lexer.go","parser/parser.go"],
 [m("Transaction.String","journal/transaction.go"),m("lexer and transactionBuilder read it back","parser/lexer.go")])

p("C10","--begin is inclusive and --end exclusive, by calendar day, in every time zone",
 "With --begin D only transactions dated D or later are reported, and with --end D only those dated before D; with both, only those satisfying both. This holds for every command that reports transactions, for every date, and whatever the host's time zone is.",
 ["inputs","configurations"],"all transaction dates, all begin and end dates, all time-zone offsets, all commands that take them",
 "No test exercises the flags; the boundary days and the host's UTC offset are the cases that matter and tests run in one zone.",
 ["cmd/common.go","parser/dates.go","cmd/accounts.go","cmd/payees.go","cmd/stats.go","cmd/print.go","cmd/balance.go"],
 [m("withinDateRange","cmd/common.go"),m("ParseSmartDate","parser/dates.go")])

p("C11","--current reports exactly the transactions up to and including today",
 "With --current, transactions dated today or earlier are reported and transactions dated tomorrow or later are not, at every time of day and in every time zone of the host (today being the host's calendar day). --current overrides --begin and --end.",
 ["inputs","configurations"],"all instants of the clock, all time-zone offsets, all transaction dates",
 "Depends on the clock; a test sees one instant, while the property must hold at every time of day.",
 ["cmd/common.go"],
 [m("withinDateRange, current branch","cmd/common.go")])

p("C12","Filter arguments select exactly the matching transactions and postings",
 "An argument '@R' selects transactions whose payee matches the regular expression R, '=R' those whose header note or notes match (or else the postings whose own comments match), and any other R the postings whose account path matches; matching ignores case unless R has an upper-case letter, and several arguments select what any of them selects. Selecting by payee or transaction note selects all of a transaction's postings; balance sums exactly the selected postings, and print shows each transaction with a selected posting once.",
 ["inputs","configurations"],"all journals and all lists of filter arguments",
 "filter.go is only compiled by the tests; combinations of arguments, fields and case are unbounded.",
 ["reporting/filter.go","cmd/common.go","cmd/root.go","cmd/balance.go","cmd/print.go"],
 [m("NewFilter, MatchesTransactionHow","reporting/filter.go"),m("checkAgainstFilters","cmd/common.go")],
 None,["gledger balance/print ARGS","reporting.Filter"])

p("C13","accounts and payees list each used name once, sorted",
 "The accounts command prints exactly the account paths that appear in at least one transaction of the journal, and payees exactly the payees, each once and in ascending byte order. With arguments only the names that match at least one argument are printed (case ignored unless the argument has an upper-case letter), and with --begin/--end only names of transactions in the range.",
 ["inputs","configurations"],"all journals, argument lists and date ranges",
 "No command is tested; uniqueness and order must hold for all multisets of names.",
 ["cmd/accounts.go","cmd/payees.go"],
 [m("accountsJournal","cmd/accounts.go"),m("payeesJournal","cmd/payees.go")])

p("C14","include reads the named file in place, and transactions keep their file",
 "An 'include FILE' line makes every command report as if the transactions of FILE stood there, FILE being relative to the directory of the including file, to any nesting depth, and with more includes or transactions after it. A transaction standing just before an include line is complete and unaffected by it. The list of files that statistics shows contains exactly the files in which the reported transactions stand, including transactions that come after nested includes.",
 ["inputs","histories"],"all arrangements of transactions and (nested, repeated) includes",
 "No test includes a file; correctness depends on the history of entered and left files.",
 ["parser/parser.go","parser/lexer.go","cmd/stats.go"],
 [m("parseItem includeItem case","parser/parser.go"),m("lexIncludeDirective","parser/lexer.go")],
 [s("Parser.journalFiles","stack of files being read","parser/parser.go")])

p("C15","No journal and no argument makes gledger crash; errors say where",
 "Whatever bytes the journal contains and whatever filter and date arguments are given, every command ends with a report or an error message, never with a panic or an endless loop. When a journal is rejected nothing is reported, and the error names the file and the number of the line at which reading stopped, also in included files and when the fault is found at the end of the file.",
 ["inputs"],"all byte sequences as journals (lines up to the documented 4096-byte limit), all argument strings",
 "Tests feed well-formed fragments; crashes need malformed ones: short dates, empty amounts, comments or postings outside a transaction, headers without postings.",
 ["parser/lexer.go","parser/parser.go","parser/transactionbuilder.go","journal/journal.go","reporting/filter.go"],
 [m("lexer.lex wraps errors with location","parser/lexer.go"),m("parseDate, parseAmount","parser/parser.go"),m("transactionBuilder.build state checks","parser/transactionbuilder.go")])

p("C16","Every posting line counts or is rejected, whatever the layout of the journal",
 "The report does not depend on how a journal is laid out: postings indented by tabs or two or more spaces, amounts separated by tabs or any two or more spaces, lines ending in LF or CRLF, with or without a final newline, blank lines repeated or (before a header) missing, and comment lines anywhere between lines give the same report. An indented line that is neither blank, a comment nor a posting that is read in full up to its amount is rejected with an error, not skipped.",
 ["inputs"],"all journals and all layout variants of each",
 "A relation between arbitrarily many texts of the same journal; tests lex single lines in one layout.",
 ["parser/lexer.go","parser/transactionbuilder.go","parser/parser.go"],
 [m("lexLine, lexPosting, consumeSpace","parser/lexer.go"),m("endTransaction on blank line, header, EOF","parser/parser.go")])

p("C17","Budget months add up per envelope",
 "For each month the budget command shows, per top-level envelope, Budgeted = the sum of that month's '~ YYYY-MM' allocations to it, Activity = minus the sum of that month's postings to the Expenses account of that name, and Available = Budgeted plus Activity, sub-envelopes included in their parent; Funds is minus the month's Income postings. Every posting counts once and in the month of its own date, and months and envelopes appear in order, only for months that have some. A month with sums that do not fit in 64 bits of hundredths is refused with an error, never shown wrong.",
 ["inputs","histories"],"all journals of budget transactions, expenses and income over all months",
 "Budget has no tests; months, nesting and the order in which allocations and expenses arrive give an unbounded space of histories.",
 ["journal/budget.go","cmd/budget.go","parser/transactionbuilder.go","journal/periodictransaction.go"],
 [m("Budget.AddPosting","journal/budget.go"),m("budgetProcessor.report","cmd/budget.go"),m("parsePeriod, endNormalTransaction","parser/parser.go")],
 [s("Budget.Months","month to envelopes, expenses, income","journal/budget.go")])

p("C18","Statistics counts are exact",
 "Statistics reports the number of selected transactions, the number of distinct account paths and payees among them, the earliest and latest date whatever the order in the file, the days between the two, and the transactions per day (a journal within a single day counts as one day). When nothing is selected it says so instead.",
 ["inputs","histories"],"all journals, orders of transactions and filters",
 "The command has no tests; minimum, maximum and distinct counts must hold over every order and multiplicity.",
 ["cmd/stats.go"],
 [m("statisticsJournal.transactionHandler and report","cmd/stats.go")],
 [s("firstTransactionDate, lastTransactionDate, uniqueAccounts, uniquePayees","accumulators","cmd/stats.go")])

p("C19","The same journal and arguments always give the same output",
 "Every command's output is a function of the journal files, the arguments, the clock and the time zone only: running it again gives byte-identical output, whatever order the runtime iterates hash maps in.",
 ["schedules","inputs"],"all hash-map iteration orders, for all journals and arguments",
 "Go randomises map iteration, so a test run sees one order; the property quantifies over all of them.",
 ["cmd/common.go","cmd/stats.go","cmd/accounts.go","cmd/payees.go","journal/account.go","reporting/filter.go","cmd/budget.go"],
 [m("sorting of names before output","journal/account.go"),m("iteration over maps in checkAgainstFilters, statistics report, RemoveChildren","cmd/common.go")])

p("C20","The account tree stays consistent under every operation",
 "Finding or creating an account by path always gives the same account for the same path and different accounts for different paths, each linked to its parent under its own name and knowing its own full path and path components, regardless of which other accounts are created before or after (names that gledger reserves for its roots excepted). Pruning to a depth keeps exactly the accounts up to that depth, removing children by a matcher keeps exactly the matching accounts and their ancestors, and the leaves are exactly the accounts without children.",
 ["inputs","histories"],"all sequences of tree operations over all paths",
 "The tests build two fixed trees; aliasing between siblings' path components only shows from the fourth level on.",
 ["journal/account.go"],
 [m("FindOrCreateAccount, findChild, newAccountWithChildren","journal/account.go"),m("PruneChildren, RemoveChildren, Leaves, Unlink","journal/account.go")],
 [s("Account.Parent, Children, Path, PathComponents","tree links","journal/account.go")],
 ["exported methods of journal.Account"])

p("C21","Smart dates mean what they say or are rejected",
 "--begin and --end accept exactly YYYY, YYYY?MM, MM?DD and YYYY?MM?DD where ? is one of '/', '.', '-' used consistently, every field is all digits and the date exists in the calendar; they denote the first day of that year or month, that day of the current year, or that day. Any other text is an error, never another date, as soon as a transaction is compared with it.",
 ["inputs"],"all strings, and all current years",
 "About ten strings are tested; signs in place of digits, mixed separators, leap days and month lengths are boundaries of a space of all strings.",
 ["parser/dates.go","cmd/common.go"],
 [m("ParseSmartDate","parser/dates.go")],None,["parser.ParseSmartDate"])

p("C22","Journal dates are read as the calendar date written",
 "A transaction header starting with YYYY-MM-DD, YYYY/MM/DD or YYYY.MM.DD gives the transaction exactly that calendar date, shown as YYYY-MM-DD by print. A header whose date is not of that form, mixes separators or does not exist in the calendar (leap years included) makes the journal rejected with an error. In the same way an allocation header '~ PERIOD' is accepted exactly if PERIOD is a month written YYYY-MM, and is of that month.",
 ["inputs"],"all header date texts",
 "Six strings are tested; all others (short dates, leap days, mixed separators) are not.",
 ["parser/parser.go","parser/lexer.go","journal/transaction.go"],
 [m("parseDate","parser/parser.go"),m("lexTransactionHeader","parser/lexer.go")])

p("C23","Age of money follows first-in-first-out spending",
 "The age of money that statistics shows is the average, over the ten most recent draws, of the days between an expense and the income it is drawn from, where each day's expenses (in date order) are drawn from the earliest income not yet used up. It is never negative, and is 0 when nothing is drawn. (For journals whose income and expenses of each day are not net negative; a day whose income or expenses do not fit in 64 bits of hundredths is refused with an error.)",
 ["inputs","histories"],"all histories of income and expense amounts and dates",
 "Untested; how draws split over incomes depends on every combination of amounts.",
 ["cmd/stats.go"],
 [m("statisticsJournal.prepare","cmd/stats.go")],
 [s("incomeBuckets, expenseBuckets","amount per date","cmd/stats.go")])
p("C24","The journal that is read is the one asked for",
 "With --file (or -f) every command reads exactly that journal, whatever the environment; without it, or when its value is empty, the one that LEDGER_FILE names, and no other file or variable. If neither is given or the file does not exist, the command ends with an error and no report.",
 ["inputs","faults"],"all file names, environments and ways to give the option",
 "Untested; precedence and fallback depend on combinations of option, variable and existing files.",
 ["cmd/common.go","cmd/root.go"],
 [m("parse","cmd/common.go"),m("persistent flags","cmd/root.go")])

p("C25","Options and command names mean the same in every form",
 "A report depends only on which options are set and to what, not on how they are written (long or short, joined or apart, with '=' or without) or where they stand relative to the command name and the filter arguments; and the aliases of a command (bal and b, acc and a, pay, stats and s, bud and B) give the same report as its name.",
 ["inputs"],"all command lines made from the documented options, names and aliases",
 "Untested; the combinations of forms, places and values are too many to list.",
 ["cmd/root.go","cmd/balance.go","cmd/budget.go","cmd/accounts.go","cmd/payees.go","cmd/stats.go"],
 [m("flag and alias declarations","cmd/root.go"),m("balance flags","cmd/balance.go")])

p("C26","Budget allocations affect only the budget report",
 "A '~ YYYY-MM' allocation, wherever it stands in the journal and its included files and whatever accounts and amounts it names, changes nothing in the reports of balance, print, accounts, payees and statistics (the list of files included): they are those of the same journal without it.",
 ["inputs"],"all journals and all places and contents of allocations",
 "Untested; allocations are built by the same state machine as transactions, so what leaks depends on what stands before and after them.",
 ["parser/transactionbuilder.go","parser/parser.go","journal/journal.go","cmd/budget.go"],
 [m("endTransaction, beginTransaction","parser/transactionbuilder.go"),m("AddPeriodicTransaction","journal/journal.go")],
 [s("transactionBuilder.transactionType, currentPosting","what is being built","parser/transactionbuilder.go")])

p("C27","Reports only read",
 "No command, with whatever options, arguments and environment and whether the journal is accepted or rejected, creates, changes or removes a file: the journal, the files it includes and everything else in its directory are byte for byte, and with their attributes, as before.",
 ["inputs","histories"],"all journals, commands, options and arguments",
 "Untested; a write can depend on any part of the journal (a missing final newline, an error, its size) and of the command line.",
 ["cmd/common.go","parser/parser.go","cmd/root.go"],
 [m("parse","cmd/common.go"),m("Parser.parseItem (include)","parser/parser.go")])

p("C28","What gledger does not know is refused",
 "A command name that gledger does not have, an option that it or the command does not have, an option whose value is missing or (for --current, --flatten, --show-zero, --collapse) is no truth value, and an argument that is no regular expression make it end with an error, a failure status and no report. Abbreviations and misspellings are never taken for the command or option they resemble (except for the documented aliases).",
 ["inputs"],"all command lines",
 "Untested; there are endlessly many names that do not exist.",
 ["cmd/root.go","cmd/balance.go","cmd/budget.go","cmd/payees.go","reporting/filter.go"],
 [m("rootCmd, Execute","cmd/root.go"),m("NewFilter","reporting/filter.go")])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
