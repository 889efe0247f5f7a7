package codecs

import (
	"os"
	"testing"
	"testing/synctest"

	"github.com/hrygo/log"

	"verif/mc/lib"
)

var checks = map[string]struct {
	level, rule string
	f           func(*lib.R)
}{
	"P02": {"exploration", "as P01 for SGIP: every field alone and in pairs, constructors over accounts, destinations, texts, report states", P02},
	"P03": {"exploration", "as P01 for SMGP: every field alone and in pairs, optional parameter lists to a depth, constructors over accounts, destinations, texts, a thousand seconds of reports", P03},
	"P04": {"exploration", "payloads of every length up to 255 segments (quick: away from segment boundaries only up to 3500 octets) and texts of five classes through the three constructors, put together again by an independent reassembler", P04},
	"P05": {"fault_enumeration", "every packet type in up to 61 shapes (lists of up to 255 entries): truncated after every octet, extended, every octet changed to boundary values (first shape: to all 256), uniform bodies; both with and without stale octets behind the body", P05},
	"P06": {"exploration", "every request type of the three protocols x sequence numbers x result codes, response compared octet by octet with the layout and read back", P06},
	"P07": {"exploration", "login packets: versions 0..255, timestamps, id and secret lengths, every single digest bit, digests of other inputs; a year of client generated logins under virtual time", P07},
	"P08": {"exploration", "option calls: each over its domain, subsets of all thirteen, ordered pairs, option records; four protocol variants", P08},
	"P01": {"exploration", "CMPP packets built from independent layout tables: every field over its whole small domain alone, every pair of fields over boundary values, constructors over every account field, destination count and text length; a case is non-trivial when it is a distinct packet or call", P01},
}

func TestMC(t *testing.T) {
	log.ResetDefault(log.New(os.Stderr, log.FatalLevel))
	id := os.Getenv("MC_PROP")
	c, ok := checks[id]
	if !ok {
		t.Fatalf("no check for %q here", id)
	}
	r := lib.New(id, c.level, c.rule)
	code := r.Run(func() {
		if id == "P04" {
			P04raw(r)
		}
		bubble(t, func() { c.f(r) })
	})
	if code != 0 {
		os.Exit(code)
	}
}

// bubble runs f under virtual time and carries panics out.
func bubble(t *testing.T, f func()) {
	var p any
	synctest.Test(t, func(t *testing.T) {
		defer func() { p = recover() }()
		f()
	})
	if p != nil {
		panic(p)
	}
}
