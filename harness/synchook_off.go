//go:build !verifsync

package main

const syncHooked = false

func inBubble(f func()) { panic("the virtual clock isn't built in") }

func bubbled() bool { return false }
