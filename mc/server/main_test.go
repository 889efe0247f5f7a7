// Package server checks the gateway (P12-P20) under all schedules, with gnet replaced by event loops of the scheduler.
package server

import (
	"os"
	"testing"
	"time"

	"github.com/hrygo/log"

	"verif/mc/sched"
)

var checks = map[string]sched.Check{}

// the id generators need a time after their epoch
func setup() { time.Sleep(27 * 365 * 24 * time.Hour) }

func TestMC(t *testing.T) {
	log.ResetDefault(log.New(os.Stderr, log.FatalLevel))
	sched.Main(t, checks)
}
