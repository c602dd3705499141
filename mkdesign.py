import json,glob,os,re,subprocess
head=r'''# Solver-based checking of gledger — design

gledger is a command-line accounting program in Go: it reads a plain-text journal (with
includes) and prints reports (balance, print, accounts, payees, statistics, budget). What its
users rely on is that the reports are *right for every journal*, so nearly all of the
properties are about the function from (journal files, arguments, environment, clock, time
zone) to (output, error). 28 properties are stated in `properties.jsonl`; all of them are
decided by the technique below, each within stated bounds. None is `not_applicable`.

Contents: 1 the method; 2 what is modelled and what is trusted; 3 how a check answers;
4 the properties one by one; 5 defects found and repaired; 6 false alarms and corrected
properties; 7 planted bugs and what catches them; 8 known limits.

## 1 The method

Go has no packaged symbolic engine, so `/verif/engine` is one (about 9000 lines of Go).

**The code that is executed is the real code.** On every run the engine loads `/repo`'s current
working tree, its dependencies (cobra, pflag, go-homedir …) and the standard library from source with
`golang.org/x/tools/go/ssa`, compiles the SSA to register code and executes it on a machine
whose scalars may be SMT terms. The entry point is the *whole program*: a harness builds
journal files whose contents have symbolic holes, arguments, environment, clock and time zone,
and `sym.Run` executes `main.main` — cobra's argument parsing, the lexer and parser, the journal,
the reports — until it returns, exits or panics. What is judged is what a user sees:
standard output, standard error, exit code. Checks therefore do not depend on how the code
is written; only C20 and one job of C04 call exported functions of package `journal`
directly, and if these are no longer there the checks fall back to the whole program and say so.

**What is symbolic.** Bytes of journal texts, names, payees, comments and arguments; digits and
signs of amounts (as 64-bit integers with a symbolic digit expansion); dates (as day
numbers, or as free digits); the current instant (every second of a day) and the offset of
the host from UTC (any number of seconds up to 16 h, or a zone with a transition); the contents of
environment variables; which files exist; and the iteration order of hash maps.
`sym.Choice` forks over a small finite structure (how many postings, which command, where a
comment stands); everything else is a solver variable.

**How it is decided.** Every branch on a symbolic condition is decided by the solver (Z3, one
incremental process per worker): one side infeasible → go on; both feasible → fork (depth
first with snapshots; idle workers are given decision prefixes). At each `sym.Assert` the
solver is asked for a value of all variables on this path that violates it; unsat means
it holds for all values on the path. A check *holds within its bounds* when all paths were explored and
no query was unknown; both numbers are in the evidence (`bound_exhausted`, `reductions`).
Panics of the program (index, nil, explicit), runaway recursion and exceeding a step limit
are results of a run like any other, and assertions say that they must not happen.

**What makes it fast enough** (each is exact, i.e. preserves the value of every term under every
assignment):
- hash-consed terms with simplification, linear normal forms, and interval analysis; a condition
  over one small variable is decided from the table of its values without the solver; functions
  of one small variable are tabulated;
- merging of side-effect-free branches into ite terms, so that e.g. character classes do
  not fork; symbolic indices into constant tables become table terms;
- linear queries without wrap-around are sent as integer arithmetic (`intsmt.go`) instead of bit
  vectors: interval analysis shows that no operation leaves its range, so both readings agree;
  sums of several amounts are decided in milliseconds rather than minutes;
- strings keep their pieces: a formatted number is a piece with a symbolic value, only
  expanded into digits when something looks at its bytes.

**Oracles.** A harness builds the journal *from a structured description* (postings with value in
hundredths, day numbers, names) and computes the wanted output from that description,
with its own code (its own calendar, its own digits, its own tree); no code of gledger is
used. Metamorphic properties (C09, C14, C16, C19, C25, C26) compare two runs.

## 2 What is modelled, what is trusted

Replaced by models in `harness/model` (Go code, executed by the machine too): the parts of `os` that touch the system
(Open, ReadFile, File.Read/Write/Stat, Exit, Getenv … over an in-memory file system
and environment), `fmt`'s formatting (a re-implementation of the verbs over symbolic
numbers and strings), `strconv.Format*` and `Quote`, `log`, `sync`'s
Once/Pool/Map/WaitGroup, `time.Now` and the local zone, `errors.Is/As`, cobra's help
template. Everything else of the standard library — bufio, strings, strconv.Parse*, regexp, sort, unicode,
time's calendar, path/filepath — runs from its source. Natives (engine/natives.go) stand for
assembly and runtime functions (IndexByte, memequal, bits, math).

Guards against a wrong model or engine:
- **Sample validation.** From every job, paths are sampled; the solver's model of the path is
  replayed against the binary built by `go build` from `/repo`, and all observed output must be byte-identical.
  `validated` in the evidence counts them; a difference is reported in
  `model_mismatches` and voids the claim of exhaustion.
- **Replay.** A counterexample is only a VIOLATION if running the real binary on the concrete
  input breaks the same assertion natively. Replay builds the time-dependent checks with an overlay of
  `time.Now` that reads the instant from the environment, and the host zone from a
  generated zoneinfo file. Candidates that do not reproduce are listed as `unconfirmed`.
- **Vacuity.** Witnesses (`sym.Cover`) that every harness must reach (accepted and rejected journals,
  0..3 selected transactions …) are counted, and missing ones are reported.
- **Second solver.** The thorough tier repeats a share of the jobs with cvc5 and compares paths and verdicts.
- **Self-test.** `engine try SelfTest k=0..31` runs many standard library functions in the machine on symbolic
  values and natively on the model's values and compares (development only, not part of a check).

Trusted: the Go compiler's SSA builder (x/tools), the engine's execution of it (guarded as
above), Z3. Not modelled: threads (the program starts none; goroutines and channels in /repo
would be reported as a reduction), reflection beyond what fmt and errors need, reading from directories.

## 3 How a check answers

`./run.sh check ID quick|thorough`. Exit 1 with `VIOLATION property=ID replay=FILE` for a
counterexample that reproduces against the real build (`build/engine replay FILE` runs it again); exit
0 otherwise. What could not be decided (solver unknown, time limit of 240 s / 600 s, an
operation the machine does not have) is never counted as success: it is listed under `reductions`,
and `bound_exhausted` is false. On the current tree every registered quick check exhausts its bounds.
Each check is registered with bounds at which it ends in well under two minutes on eight cores.

Known findings are read from `known-findings.txt` (`finding:` lines, none at present; `fixed:`
lines suppress nothing).
'''
per=r'''## 4 The properties one by one

For each: how it is asked, and the oracle. The bounds of both tiers are in `engine/checks.go` and
in every evidence file. Outside of all of them: journals with more transactions, postings or files
than stated, longer free texts. Why tests cannot settle them: each quantifies over all
amounts, names, dates, orders or bytes, and the failures found (section 5) sat in corners that no
sample had hit.

"Twists" (`harness/h/variety.go`) are 76 (for budget 96) ways in which a small journal can be
unusual at once or in pairs: other commodities, notes, comments in every place, repeated accounts, long, deep,
close or non-ASCII names, odd spacing, states, header forms, includes. `Twisted` asks one report
to be exactly right on each, with free amounts; most checks include it, so that a property is
not only asked of the plainest journals. `harness/h/cross.go` does the same for the checks whose own harness is not about one report: a
journal of three transactions, one of them twisted, under filters and ranges of dates (C10, C12), with one transaction in an
included file (C14), with a fault in a later line (C15), in seven layouts (C16), run twice (C19), and with an allocation in it (C26).
`harness/h/many.go` makes journals with 70 (thorough: 150-300) of something, the free amount early, in the middle or late.

| id | asked how | oracle |
|---|---|---|
| C01 | transactions of 2–4 postings with free amounts, at 7 places of a journal (first, last, before an include, in an included file, …), all commands; sums near ±2^63; twists | sum of the hundredths is zero ⇔ accepted; error otherwise; grand total 0.00 |
| C02 | the omitted amount at every position; two omitted; accounts repeating in every way within and across transactions | print's and balance's amounts equal the negated sum |
| C03 | amount texts of arbitrary bytes / characters / up to 18 digits | an independent reader of the grammar (also behind up to 300 leading zeros): value or rejection |
| C04 | amounts of every length incl. min/max int64, in print, balance (filtered, flat), budget, with wide names; commodities with `%`; the formatter itself (`Amount.DisplayableQuantity`, API) | independent digit writer |
| C05 | accounts with free names at each level, free amounts; 14–25 levels deep; names that differ in, before or after a free character | own tree sums |
| C06 | same journals, amounts that cancel; default against --show-zero | own tree pruned of zeros; amounts shown are equal in both |
| C07 | same journals, three layouts × show-zero, full text compared | own layout of the tree, byte by byte |
| C08 | free characters in every text of a transaction; up to 40 transactions of which up to 4 have free dates; months of any two years; repeated notes and comments; lines around the 4096-byte buffer | own printing of the description |
| C09 | print, then feed its output to print and balance | same text; same balances |
| C10 | two transactions, free dates; --begin/--end any day of the window; every host offset ±16 h, zones with transitions | comparison of day numbers |
| C11 | every second of 2–4 days, every host offset; transaction −3…+3 days; with and without --begin/--end | the host's calendar day computed from instant and offset |
| C12 | free characters in 12 texts; 19 regular expressions × @, =, none; pairs, triples; free letters in the expression | own matcher of the same expressions (written out per expression) |
| C13 | free names and payees, with arguments (also upper case beyond ASCII) and ranges | sorted set |
| C14 | all trees of up to 3–4 files in up to 4 directories, free days; include chains; free characters in file names | report of the flattened journal; own list of files |
| C15 | arbitrary bytes at 17 places × every command, journals of arbitrary bytes, arguments of arbitrary bytes, include cycles, 21² pairs of odd lines, 11 faults × 6 beginnings × 3 files × LF/CRLF | never a crash (panic, runaway recursion, step limit); error names file and line, computed while writing the journal |
| C16 | every indentation, separator, blank-line, comment-line, line-end variant; free indented lines | same output as the plain layout; otherwise rejection |
| C17 | up to two allocations and two/three transactions, free dates within 40–250 days, free envelope names; all month pairs; twists | own sums per month and envelope, full text |
| C18 | free dates (also thousands of years apart), payees and accounts close to each other, up to 70 transactions | own counts |
| C19 | 19 command lines, run twice; the second time with all maps iterated in reverse, or any one map in any order of its first elements | equal output |
| C20 | API harness (`harness/api`, tag verifapi): create up to 5 accounts with free names in any order, prune, remove, leaves | own tree |
| C21 | option texts of 1–13 bytes with windows of arbitrary bytes; dates compared with transactions one day around | own reading of the four forms and the calendar |
| C22 | header dates with free bytes; every day of years 1–9999 (75 years in the quick tier) in three notations; periods of allocations | own calendar |
| C23 | free amounts and days of incomes and expenses, up to 24 draws | own first-in-first-out queue |
| C24 | free file names, option forms and places, LEDGER_FILE present/absent/empty, other variables and default files present; 34 odd names (other home directories, variables, patterns, dots, options look-alikes) | which of the two journals is reported |
| C25 | every command and alias × the forms of every option × places | same output as the canonical form |
| C26 | an allocation of any month at 7 places, 6 kinds, free accounts, 9 command lines, 3 files | same output as without it |
| C27 | 16 kinds of journals × 18 command lines × option/variable, free bytes and amounts; twisted and large journals | the machine's file system (natively: a snapshot of the directory) before and after |
| C28 | names of commands and options: free characters, one character changed or added, cut short, other case; bad and missing values; irregular expressions | an error, exit status 1, nothing of the journal |
'''
fixes=[l[7:].strip() for l in open('/verif/known-findings.txt') if l.startswith('fixed:')]
fx="## 5 Defects found and repaired\n\n%d genuine defects of the pinned tree, each shown by a counterexample replayed against the real\nbinary, each one `fix:` commit in /repo (also in `known-findings.txt`):\n\n"%len(fixes)
for f in fixes:
    m=re.match(r'property=(\S+) (\S+) (.*)',f); fx+=f"- {m[1]} {m[2]}: {m[3]}\n"
fx+=r'''
No finding was left unrepaired.

## 6 False alarms met on the way, and corrected properties

- C09 with stray carriage returns inside a line: a CR at the end of a comment is part of the line end when read again. Property
  restricted to CR as part of line ends.
- C21: `--begin`/`--end` texts are only looked at when the first transaction is compared; an erroneous
  option with an empty journal gives an empty report. Property says "as soon as a transaction is compared with it".
- C20: accounts named `_root_`/`_budget_root_` are ambiguous by construction; excluded by name.
- C23 with days of net negative income: the first-in-first-out rule is not defined there; excluded.
- C05, C17, C23: a total that leaves 64 bits and comes back (or one over all envelopes, which is not shown) may be refused
  or shown; what is shown is exact.
- C17: an allocation that leaves an amount out: its elided posting is the (unnamed) source, not an envelope; outside.
- C25: `p` is an alias of both payees and print (cobra takes one of the two): left out.
- Machine faults found by sample validation and corrected in the machine, never in a check: rune decoding of invalid bytes,
  growth of slices (capacity after append), `%v` of structs, float formatting, init order of internal/strconv and math/big.

## 7 Planted bugs and what catches them

`seeded/` holds %NB% changes, written from the property texts and the code; each builds, passes the stable tests, and has a
demonstration. Rounds 1 and 2 were written without regard to the checks; 15 of 26 of round 2 were first
missed and led to wider harnesses (not to checks of those bugs): repeated accounts (ElidedNames), filtered totals (Columns), repeated
notes (PrintRepeats), more fields in Filter, arguments beyond ASCII, IncludeChain, names that part after a free character (NearNames),
wide trees, turn of the year in every zone, all four digits of month and day, more command lines in Repeatable.

%TABLE%
'''
tail=r'''
## 8 Known limits

Of the checks: everything in "outside" of the evidence; combinations of unusual features that no twist pairs;
regular expressions other than those listed; threads; performance; the help texts.

Of gledger (behaviour that no property claims, seen while checking; not defects against a stated guarantee):
exit code 0 on a parse error; journals with several commodities print "unhandled addition"; balance --flatten does not show
postings made directly to an account that has children; --collapse shows the amount of the deepest account of a chain; payees
and print share the alias `p`;
text after the two spaces that follow a period is ignored; a line of a single space is an error,
lines of two or more are blank; --begin/--end are only validated when the journal has a transaction; budget ignores filters and date
ranges for allocations; invalid UTF-8 becomes U+FFFD; commodities with inner spaces are rejected.

Layout: `engine/` the machine, `harness/h` the harnesses, `harness/api` those of C20, `harness/model` models, `harness/sym` the
vocabulary (with its native replay implementation), `mkprops.py`/`mkmanifest.py` write properties.jsonl/MANIFEST.json. No hook is needed in /repo.
'''
rows=[]
caught=json.load(open('/verif/caught.json')) if os.path.exists('/verif/caught.json') else {}
n=0
for d in sorted(glob.glob('/verif/seeded/*/')):
    i=os.path.basename(d[:-1]); m=json.load(open(d+'meta.json')); n+=1
    rows.append(f"| {i} | {m['what_it_breaks']} | {m['needs']} | {caught.get(i,'not yet run')} |")
tab="| bug | breaks | needs | caught by |\n|---|---|---|---|\n"+"\n".join(r.replace('\n',' ') for r in rows)
open('/verif/DESIGN.md','w').write(head+'\n'+per+'\n'+fx.replace('%NB%',str(n)).replace('%TABLE%',tab)+tail)
