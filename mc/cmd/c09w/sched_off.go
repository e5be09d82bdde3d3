//go:build !verifsched

package main

// Without the instrumented build there are no scheduling points.
const instrumented = false

func setHook(f func(level int)) {}
