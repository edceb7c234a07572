// Package vdep stands in for "sync" in the broker client libraries: channel based like
// vsync, and its Pool keeps nothing (timers cannot move between synctest bubbles).
package vdep

import (
	"net"

	"github.com/kataras/neffos/vsched/vsync"
)

type (
	Mutex     = vsync.Mutex
	RWMutex   = vsync.RWMutex
	WaitGroup = vsync.WaitGroup
	Once      = vsync.Once
	Cond      = vsync.Cond
	Locker    = vsync.Locker
	Map       = vsync.Map
)

func NewCond(l Locker) *Cond { return vsync.NewCond(l) }

type Pool struct{ New func() any }

func (p *Pool) Get() any {
	if p.New == nil {
		return nil
	}
	return p.New()
}
func (p *Pool) Put(any) {}

// Dial connects to the broker of the running scenario.
var Dial func(network, addr string) (net.Conn, error)

// OnPool is told about each connection pool.
var OnPool = func(close func() error) {}
