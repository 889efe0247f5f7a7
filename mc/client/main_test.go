// Package client checks the client's sessions and its factories (P21-P25) under all schedules, with the network replaced by
// connections of the scheduler.
package client

import (
	"os"
	"testing"
	"time"

	"github.com/hrygo/log"

	"verif/mc/sched"
)

var checks = map[string]sched.Check{}

// the id generators need a time after their epoch
func setup() { time.Sleep(27 * 365 * 24 * time.Hour) }

func TestMC(t *testing.T) {
	log.ResetDefault(log.New(os.Stderr, log.FatalLevel))
	sched.Main(t, checks)
}
