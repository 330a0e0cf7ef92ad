//go:build observe

package main

import "syscall"

// seenByLibrary is what of its surroundings was read with the library on the stack.
func seenByLibrary() ([]string, bool) { return syscall.VerifSeen(), true }
