package main

import "sort"

func toolMain(name string, args []string) {
	if name == "crash-child" {
		crashChild(args)
	}
	if name == "inspect-cli" {
		inspectCLI(args)
	}
	if name == "make-golden" {
		makeGolden(args)
	}
}

func sortU64Slow(v []uint64) { sort.Slice(v, func(i, j int) bool { return v[i] < v[j] }) }
