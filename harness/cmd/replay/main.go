// Replay runs harnesses natively, with given values for their variables, against the real
// program. It reads a JSON list of requests and writes a JSON list of results.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"

	"verif/harness/h"
	"verif/harness/sym"
)

type req struct {
	Harness string
	Params  map[string]int64
	Values  map[string]uint64
}

type res struct {
	Failures []string
	Crash    string
	Covers   []string
	Observed []string
}

func main() {
	bin := flag.String("bin", "", "")
	clocked := flag.String("clocked", "", "")
	scratch := flag.String("scratch", "", "")
	flag.Parse()
	sym.Binary, sym.Clocked = *bin, *clocked
	var rs []req
	if err := json.NewDecoder(os.Stdin).Decode(&rs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	out := []res{}
	for i, r := range rs {
		f := h.All[r.Harness]
		if f == nil {
			fmt.Fprintln(os.Stderr, "no harness", r.Harness)
			os.Exit(1)
		}
		sym.Values, sym.Params = r.Values, r.Params
		sym.Failures, sym.Covers, sym.Observed = nil, nil, nil
		sym.Differs(nil)
		sym.Scratch = filepath.Join(*scratch, fmt.Sprint(i))
		os.MkdirAll(sym.Scratch, 0o755)
		crash := sym.Replay(f)
		out = append(out, res{sym.Failures, crash, sym.Covers, sym.Observed})
		os.RemoveAll(sym.Scratch)
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
