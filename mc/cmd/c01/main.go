// C01: pool histories reproduce the Uniswap v3 pool contract.
package main

import (
	"encoding/json"

	"verifmc/ex"
	"verifmc/hist"
	"verifmc/scn"
)

func engine(c *ex.Ctx) *hist.Engine {
	return &hist.Engine{C: c, Scns: scn.C01(c.Thorough), Step: hist.Conform}
}

func main() {
	ex.Run("C01", "model_checking", func(c *ex.Ctx) {
		e := engine(c)
		e.Trees()
		e.Breadth()
	}, func(c *ex.Ctx, raw json.RawMessage) string { return engine(c).Replay(raw) })
}
