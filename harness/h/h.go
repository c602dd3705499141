// Package h holds the harnesses: one exported function per question asked of gledger.
package h

import (
	_ "verif/harness/model"
	"verif/harness/sym"
)

func Smoke() {
	b := sym.Byte("b", '0', '9')
	j := "2020-01-01 * Payee\n    Assets:Cash  1" + string([]byte{b}) + ".00\n    Income:Job\n"
	r := sym.Run(sym.Cmd{Args: []string{"-f", "j.dat", "balance"}, Files: []sym.File{{"j.dat", j}}})
	sym.Observe("out", r.Out)
	sym.Observe("crash", r.Crash)
	sym.Assert(r.Ok(), "ends")
	sym.Cover("end")
}

func SmokeBytes() {
	n := sym.Param("n", 3)
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.Byte("b"+string(rune('0'+i)), 0, 255)
	}
	j := "2020-01-01 * Payee\n    Assets:Cash  1" + string(b) + "\n    Income:Job\n"
	r := sym.Run(sym.Cmd{Args: []string{"-f", "j.dat", "balance"}, Files: []sym.File{{"j.dat", j}}})
	sym.Observe("out", r.Out)
	sym.Observe("crash", r.Crash)
	sym.Assert(r.Ok(), "ends")
	sym.Cover("end")
}
