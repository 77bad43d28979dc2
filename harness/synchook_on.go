//go:build verifsync

package main

import (
	"runtime"
	"sync"
)

func init() {
	sync.VerifSetSched(perturb)
	runtime.VerifSched = perturb
}

const syncHooked = true

func inBubble(f func()) { sync.VerifBubble(f) }

func bubbled() bool { return sync.VerifInBubble() }
