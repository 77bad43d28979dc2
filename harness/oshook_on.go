//go:build verifos

package main

import "os"

func init() {
	os.VerifHook = func(op string, name string, size int, flag int) (int, error) {
		return dispatchFS(op, name, size, flag)
	}
}

const osHooked = true
