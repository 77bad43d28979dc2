//go:build !verifos

package main

const osHooked = false
