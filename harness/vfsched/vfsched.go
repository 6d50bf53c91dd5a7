// Package vfsched perturbs the schedule of instrumented code. The build overlay
// made by cmd/instr inserts a call of Y before every statement of goji.
//
// Nothing in here may synchronise goroutines: an atomic counter would create
// happens-before edges that hide data races from the race detector. That is why
// the state is plain memory accessed by functions excluded from race
// instrumentation, and why it is only ever set while no workload is running.
package vfsched

import (
	"math/rand/v2"
	"runtime"
	"time"
	_ "unsafe"
)

const MaxSite = 4096

type config struct {
	on     bool
	gosch  uint32 // chance of yielding, out of 65536
	sleep  uint32 // chance of a short sleep, out of 65536
	target int    // site to delay, -1 for none
	tprob  uint32 // chance of delaying at the target, out of 65536
	tdur   time.Duration
	count  bool
}

var cfg config
var hits [MaxSite]uint64

// Set changes the perturbation. Only call it while no instrumented code runs.
//
//go:norace
func Set(gosch, sleep uint32, target int, tprob uint32, tdur time.Duration) {
	cfg = config{on: gosch|sleep != 0 || target >= 0, gosch: gosch, sleep: sleep, target: target, tprob: tprob, tdur: tdur, count: true}
}

// Off stops all perturbation.
//
//go:norace
func Off() { cfg = config{} }

//go:norace
func Y(site int) {
	if !cfg.on {
		return
	}
	hits[site&(MaxSite-1)]++
	r := rand.Uint32()
	if site == cfg.target && r&0xffff < cfg.tprob {
		time.Sleep(cfg.tdur)
		return
	}
	r >>= 16
	if r < cfg.gosch {
		runtime.Gosched()
	} else if r < cfg.gosch+cfg.sleep {
		time.Sleep(time.Duration(1+r&127) * time.Microsecond)
	}
}

// Hits returns how many distinct sites were executed, and how often in total.
//
//go:norace
func Hits() (sites int, total uint64) {
	for _, h := range hits {
		if h != 0 {
			sites++
			total += h
		}
	}
	return
}

// HitSites lists the sites executed so far.
//
//go:norace
func HitSites() (l []int) {
	for i, h := range hits {
		if h != 0 {
			l = append(l, i)
		}
	}
	return
}
