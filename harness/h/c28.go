package h

import (
	"strings"

	"verif/harness/sym"
)

// refused says that the program ended with an error instead of a report.
func refused(r sym.Result) {
	shown := strings.Contains(r.Out, "Marker") || strings.Contains(r.Out, "------") || strings.Contains(r.Out, "ransactions")
	sym.Assert(r.Ok() && !shown && r.Out+r.Err != "" && r.Code == 1, "an error and no report")
	sym.Cover("refused")
}

var markerJournal = "2020-01-05 Marker  ; Marker\n    Marker:Food  £1\n    Marker:Job\n"

// names of commands that are not those of reports
var otherCommands = []string{"version", "help", "completion", "__complete", "__completeNoDesc"}

// UnknownCommand: commands that do not exist, some of them close to one that does.
func UnknownCommand() {
	known := [][]string{{"balance", "bal", "b"}, {"print", "p"}, {"accounts", "acc", "a"}, {"payees", "pay"}, {"statistics", "stats", "s"}, {"budget", "bud", "B"}, otherCommands}
	name := ""
	switch sym.Choice("kind", 5) {
	case 0: // free letters
		n := sym.Choice("n", sym.Param("n", 2)) + 1
		for i := 0; i < n; i++ {
			name += string([]byte{sym.Byte("c"+itoa(i), '0', 'z')})
		}
	case 1: // one letter is another
		k := known[sym.Choice("like", 6)]
		w := []byte(k[sym.Choice("which", 2)])
		w[sym.Choice("at", len(w))] = sym.Byte("c", '0', 'z')
		name = string(w)
	case 2: // one more
		k := known[sym.Choice("like", 6)]
		w := k[sym.Choice("which", 2)]
		at := sym.Choice("at", len(w)) + 1
		name = w[:at] + string([]byte{sym.Byte("c", '0', 'z')}) + w[at:]
	case 3: // the beginning
		w := known[sym.Choice("like", 6)][0]
		name = w[:sym.Choice("at", len(w)-1)+1]
	case 4: // other letters
		w := known[sym.Choice("like", 6)][0]
		name = []string{strings.ToUpper(w), strings.ToUpper(w[:1]) + w[1:], w + "s", " " + w, w + " ", "--" + w, "-x" + w, w + ".", "./" + w, w + "="}[sym.Choice("form", 10)]
	}
	for _, l := range known {
		for _, k := range l {
			sym.Assume(name != k)
		}
	}
	opts := [][]string{nil, {"-c"}, {"-b", "2019"}}[sym.Choice("opts", 3)]
	args := append([]string{"--file=" + main}, opts...)
	args = append(args, name)
	if sym.Choice("filter", 2) == 1 {
		args = append(args, "food")
	}
	refused(sym.Run(sym.Cmd{Args: args, Files: []sym.File{{Name: main, Data: markerJournal}}}))
}

// UnknownOption: options that do not exist, that the command does not have, or that lack a proper value.
func UnknownOption() {
	cmd := commands[sym.Choice("cmd", len(commands))]
	layout := cmd == "balance" || cmd == "budget"
	letter := sym.Byte("c", '0', 'z')
	c := string([]byte{letter})
	opt := ""
	switch sym.Choice("kind", 8) {
	case 0: // letters
		for _, k := range "fbech" {
			sym.Assume(c != string(k))
		}
		sym.Assume(!layout || c != "F" && c != "Z" && c != "C")
		opt = "-" + c
	case 1: // letters among others
		for _, k := range "fbech" {
			sym.Assume(c != string(k))
		}
		sym.Assume(!layout || c != "F" && c != "Z" && c != "C")
		sym.Assume(c != "=")
		opt = "-c" + c
	case 2: // short words
		opt = "--" + c + string([]byte{sym.Byte("d", '0', 'z')})
		sym.Assume(letter != '=')
	case 3: // parts of names
		w := []string{"file", "begin", "end", "current", "help", "flatten", "show-zero", "collapse"}[sym.Choice("like", 8)]
		opt = "--" + w[:sym.Choice("at", len(w)-1)+1]
		if sym.Choice("value", 2) == 1 {
			opt += "=2019"
		}
	case 4: // names with another letter
		w := []byte([]string{"file", "begin", "end", "current", "help", "flatten", "show-zero", "collapse"}[sym.Choice("like", 8)])
		at := sym.Choice("at", len(w))
		sym.Assume(letter != w[at] && letter != '=')
		w[at] = letter
		opt = "--" + string(w)
	case 5: // other forms of names
		opt = []string{"--no-current", "--Current", "--current-", "--CURRENT", "--showzero", "--show_zero", "--show", "--zero", "--begin-date=2019", "--start=2019", "--from=2019", "--to=2019", "--verbose", "--debug", "--flat", "--tree", "--journal=j", "--version", "-v", "---current", "--=2019", "--budget", "-B"}[sym.Choice("form", 23)]
	case 6: // values that are not of their kind
		sym.Assume(c != "0" && c != "1" && c != "t" && c != "f" && c != "T" && c != "F")
		opt = []string{"--current=", "-c="}[sym.Choice("form", 2)] + []string{c, "yes", "no", "tRUE", "2" + c, "true" + c}[sym.Choice("value", 6)]
	case 7: // of the other commands
		sym.Assume(!layout)
		opt = []string{"-F", "--flatten", "-Z", "--show-zero", "-C", "--collapse", "-ZF", "--show-zero=true", "-cF"}[sym.Choice("form", 9)]
	}
	var args []string
	switch sym.Choice("place", 3) {
	case 0:
		args = []string{"-f", main, opt, cmd}
	case 1:
		args = []string{"-f", main, cmd, opt}
	case 2:
		args = []string{cmd, "food", opt, "--file=" + main, "job"}
	}
	refused(sym.Run(sym.Cmd{Args: args, Files: []sym.File{{Name: main, Data: markerJournal}}}))
}

// MissingValue: options without their value, and arguments that are no regular expressions.
func MissingValue() {
	cmd := pick("cmd", commands)
	args := []string{"--file=" + main, cmd}
	switch sym.Choice("kind", 2) {
	case 0:
		args = append(args, [][]string{{"-b"}, {"--begin"}, {"-e"}, {"--end"}, {"-f"}, {"--file"}, {"-ce"}, {"food", "--end"}}[sym.Choice("opt", 8)]...)
	case 1:
		c := string([]byte{sym.Byte("c", 'a', 'z')})
		bad := []string{"(", "[" + c, "*" + c, "+", "?", "(" + c, c + ")", c + "**", "\\", c + "{2,1}", "[" + c + "-A]", "(?" + c + "<x", "\\8" + c, c + "{1001}", "\xff" + c, "(?P<>" + c + ")"}[sym.Choice("bad", 16)]
		arg := []string{"", "@", "="}[sym.Choice("what", 3)] + bad
		l := [][]string{{arg}, {"food", arg}, {arg, "food"}}[sym.Choice("among", 3)]
		args = append(args, l...)
	}
	refused(sym.Run(sym.Cmd{Args: args, Files: []sym.File{{Name: main, Data: markerJournal}}}))
}
