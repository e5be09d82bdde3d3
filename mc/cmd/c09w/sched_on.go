//go:build verifsched

package main

import "uniswap-simulator/lib/verifsched"

const instrumented = true

func setHook(f func(level int)) { verifsched.Hook, verifsched.Wait = f, waiting }
