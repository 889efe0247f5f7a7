// Package goroutine stands for gnet's pool package in instrumented code.
package goroutine

import (
	"time"

	"verif/mc/rt/ants"
)

const (
	DefaultAntsPoolSize = 1 << 18
	ExpiryDuration      = 10 * time.Second
	Nonblocking         = true
)

type Pool = ants.Pool

func Default() *Pool {
	p, _ := ants.NewPool(DefaultAntsPoolSize, ants.WithOptions(ants.Options{ExpiryDuration: ExpiryDuration, Nonblocking: Nonblocking}))
	return p
}
