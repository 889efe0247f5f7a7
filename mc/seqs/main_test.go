// Package seqs checks the id generators (P09) under all schedules.
package seqs

import (
	"os"
	"testing"

	"github.com/hrygo/log"

	"verif/mc/sched"
)

var checks = map[string]sched.Check{
	"P09": {Rule: "every schedule up to the stated number of deviations of two or three callers of each generator, started from fresh and nearly rolled over counters with the clock standing, moving between calls or jumping while callers are between two steps; every node number, the complete period of the counters, every second of a day and minute of a year in sequence",
		Scenarios: p09, Setup: p09setup, Quick: 4, Thorough: 9},
}

func TestMC(t *testing.T) {
	log.ResetDefault(log.New(os.Stderr, log.FatalLevel))
	sched.Main(t, checks)
}
