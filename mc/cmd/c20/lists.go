package main

import (
	"bytes"
	"encoding/json"
	"fmt"

	"uniswap-simulator/lib/transaction"
	"verifmc/ex"
)

// ListCase: N transactions encoded as one list, each held individually as well.
type ListCase struct{ From, N int }

// list compares the encoding of many transactions at once with their encodings one by one
// (which are judged on their own), and those with what they were when they were made.
func list(cases []Case, k ListCase, beat func()) (msg string) {
	if e := ex.Protect(func() {
		var ts []transaction.Transaction
		var one, was [][]byte
		for i := 0; i < k.N; i++ {
			if i%1000 == 0 {
				beat()
			}
			t := toTrans(cases[(k.From+i*7)%len(cases)])
			b, err := t.MarshalJSON()
			if err != nil {
				msg = fmt.Sprintf("transaction %d: %v", i, err)
				return
			}
			ts = append(ts, t)
			one = append(one, b)
			was = append(was, append([]byte{}, b...))
		}
		out, err := json.Marshal(ts)
		if err != nil {
			msg = err.Error()
			return
		}
		beat()
		var objs []json.RawMessage
		if err := json.Unmarshal(out, &objs); err != nil || len(objs) != k.N {
			msg = fmt.Sprintf("a list of %d transactions reads as %d: %v", k.N, len(objs), err)
			return
		}
		for i := range objs {
			if !bytes.Equal(one[i], was[i]) {
				msg = fmt.Sprintf("the encoding of transaction %d of %d, %s, became %s", i, k.N, was[i], one[i])
				return
			}
			var a, b bytes.Buffer
			if json.Compact(&a, objs[i]) != nil || json.Compact(&b, was[i]) != nil {
				msg = fmt.Sprintf("transaction %d of %d: not JSON: %s, %s", i, k.N, objs[i], was[i])
				return
			}
			var x, y transaction.TransactionInput
			if json.Unmarshal(a.Bytes(), &x) != nil || json.Unmarshal(b.Bytes(), &y) != nil || x != y {
				msg = fmt.Sprintf("transaction %d of %d is encoded as %s in the list, as %s alone", i, k.N, objs[i], was[i])
				return
			}
		}
	}); e != "" {
		return "panic: " + e
	}
	return
}

func lists(c *ex.Ctx, cases []Case) {
	var ks []ListCase
	for _, n := range []int{2, 3, 17, 100, 257, 1001} {
		for f := 0; f < 40; f++ {
			ks = append(ks, ListCase{f * 37, n})
		}
	}
	ks = append(ks, ListCase{1, 5000}, ListCase{2, 70000})
	c.Par(len(ks), func(w, i int) {
		k := ks[len(ks)-1-i]
		if m := list(cases, k, func() { c.Beat(w, func() interface{} { return k }) }); m != "" {
			c.Fail(k, m)
		}
		c.Evals.Add(int64(k.N))
		c.Class("transactions encoded in lists", int64(k.N))
		c.Idle(w)
	})
}
