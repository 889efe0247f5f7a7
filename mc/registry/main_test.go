// Package registry checks the event registry (P27) and the account store (P28) under all schedules.
package registry

import (
	"os"
	"testing"

	"github.com/hrygo/log"

	"verif/mc/sched"
)

var checks = map[string]sched.Check{
	"P27": {Rule: "every history of registry operations to a depth against a map, every schedule of concurrent operations with a linearizability check against the same map",
		Scenarios: p27, Quick: 3, Thorough: 6},
	"P28": {Rule: "every subset of account files and every reload with changed contents, every schedule of reloads and lookups",
		Scenarios: p28, Setup: p28setup, Extra: p28mongo, Quick: 4, Thorough: 8},
}

func TestMC(t *testing.T) {
	log.ResetDefault(log.New(os.Stderr, log.FatalLevel))
	sched.Main(t, checks)
}
