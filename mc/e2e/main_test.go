// Package e2e runs the client against the server (P26) under all schedules, both in one process, the network between them
// replaced by connections of the scheduler.
package e2e

import (
	"os"
	"testing"
	"time"

	"github.com/hrygo/log"

	"verif/mc/sched"
)

var checks = map[string]sched.Check{}

// the id generators need a time after their epoch
func setup() { time.Sleep(27 * 365 * 24 * time.Hour) }

func TestMC(t *testing.T) {
	log.ResetDefault(log.New(os.Stderr, log.FatalLevel))
	sched.Main(t, checks)
}
