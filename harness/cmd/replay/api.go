//go:build verifapi

package main

import (
	"verif/harness/api"
	"verif/harness/h"
)

func init() {
	for n, f := range api.All {
		h.All[n] = f
	}
}
