//go:build !observe

package main

func seenByLibrary() ([]string, bool) { return nil, false }
