package main

import (
	"math/rand/v2"
	"runtime"
	"sync/atomic"
	"time"
)

// How many of 1024 lockings, unlockings and operations of channels are delayed. All of the process's are, since what runs
// concurrently with the code under test has to be disturbed too.
var perturbRate atomic.Int32

// The longest delay in the virtual time of a case; 0 for delays in real time.
var perturbSpan atomic.Int64

// The number of delays so far.
var perturbations atomic.Int64

func perturb() {
	rate := uint32(perturbRate.Load())
	if rate == 0 {
		return
	}
	n := rand.Uint64()
	if uint32(n)%1024 >= rate {
		return
	}
	if span := perturbSpan.Load(); span > 0 {
		if !bubbled() {
			return
		}
		perturbations.Add(1)
		// Of any order of magnitude. Whatever can run meanwhile does.
		time.Sleep(time.Duration(1 + (n>>20)%uint64(span)>>(n>>10%40)))
		return
	}
	perturbations.Add(1)
	if n>>10&3 == 0 {
		time.Sleep(time.Duration(n>>12&127) * time.Microsecond)
	} else {
		for i := n >> 12 & 7; ; i-- {
			runtime.Gosched()
			if i == 0 {
				break
			}
		}
	}
}

// Runs the families with delays at some of the synchronizing operations.
func (r *run) perturbed(rate int32, f func()) { r.perturbedVirtually(rate, 0, f) }

// The same in virtual time, where a delay can be as long as one likes.
func (r *run) perturbedVirtually(rate int32, span time.Duration, f func()) {
	perturbSpan.Store(int64(span))
	perturbRate.Store(rate)
	before := perturbations.Load()
	f()
	perturbRate.Store(0)
	perturbSpan.Store(0)
	name := "lock_perturbations"
	if span > 0 {
		name = "virtual_delays"
	}
	r.mu.Lock()
	r.counters[name] += perturbations.Load() - before
	r.mu.Unlock()
}
