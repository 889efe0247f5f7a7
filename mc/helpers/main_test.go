// Package helpers checks the conversion helpers (P10) and the optional parameter list (P11).
package helpers

import (
	"os"
	"testing"
	"testing/synctest"

	"github.com/hrygo/log"

	"verif/mc/lib"
)

var checks = map[string]struct {
	level, rule string
	f           func(*lib.R)
}{
	"P10": {"exploration", "every Unicode scalar value alone and beside representatives of every encoding class, all digit strings to a length, all 16 bit numbers and boundary patterns of wider ones, all widths and lengths of the octet helpers, every second of a year for the clock renderings", P10},
	"P11": {"exploration", "every history of list operations to a depth against a plain slice, every encoded list cut in every way into reads, truncated after every octet, written to writers failing after every octet", P11},
}

func TestMC(t *testing.T) {
	log.ResetDefault(log.New(os.Stderr, log.FatalLevel))
	id := os.Getenv("MC_PROP")
	c, ok := checks[id]
	if !ok {
		t.Fatalf("no check for %q here", id)
	}
	r := lib.New(id, c.level, c.rule)
	var p any
	code := r.Run(func() {
		synctest.Test(t, func(t *testing.T) {
			defer func() { p = recover() }()
			c.f(r)
		})
		if p != nil {
			panic(p)
		}
	})
	if code != 0 {
		os.Exit(code)
	}
}
