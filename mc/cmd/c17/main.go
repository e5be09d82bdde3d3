// C17: conversions and encodings of 256-bit integers round-trip.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"strings"

	ui "uniswap-simulator/uint256"
	"verifmc/drv"
	"verifmc/ex"
	"verifmc/fx"
	"verifmc/ref"
)

type B = *big.Int

func dirty() *ui.Int {
	return &ui.Int{0x1234567890abcdef, 0xfedcba0987654321, 0x5555aaaa5555aaaa, 0x8000000000000001}
}

func signed(x B) B {
	if x.BitLen() == 256 {
		return ref.Sub(x, ref.Q256)
	}
	return x
}

func be(x B, n int) []byte { // low n bytes, big endian
	b := make([]byte, n)
	t := new(big.Int).And(x, ref.Sub(ref.Pow2(uint(8*n)), ref.One))
	t.FillBytes(b)
	return b
}

var setBytesN = map[int]func(*ui.Int, []byte) *ui.Int{
	1: (*ui.Int).SetBytes1, 2: (*ui.Int).SetBytes2, 3: (*ui.Int).SetBytes3, 4: (*ui.Int).SetBytes4, 5: (*ui.Int).SetBytes5, 6: (*ui.Int).SetBytes6, 7: (*ui.Int).SetBytes7, 8: (*ui.Int).SetBytes8,
	9: (*ui.Int).SetBytes9, 10: (*ui.Int).SetBytes10, 11: (*ui.Int).SetBytes11, 12: (*ui.Int).SetBytes12, 13: (*ui.Int).SetBytes13, 14: (*ui.Int).SetBytes14, 15: (*ui.Int).SetBytes15, 16: (*ui.Int).SetBytes16,
	17: (*ui.Int).SetBytes17, 18: (*ui.Int).SetBytes18, 19: (*ui.Int).SetBytes19, 20: (*ui.Int).SetBytes20, 21: (*ui.Int).SetBytes21, 22: (*ui.Int).SetBytes22, 23: (*ui.Int).SetBytes23, 24: (*ui.Int).SetBytes24,
	25: (*ui.Int).SetBytes25, 26: (*ui.Int).SetBytes26, 27: (*ui.Int).SetBytes27, 28: (*ui.Int).SetBytes28, 29: (*ui.Int).SetBytes29, 30: (*ui.Int).SetBytes30, 31: (*ui.Int).SetBytes31, 32: (*ui.Int).SetBytes32,
}

// bytesIn checks reading a byte string.
func bytesIn(in []byte) string {
	w := new(big.Int).SetBytes(in)
	if len(in) > 32 {
		w.SetBytes(in[len(in)-32:])
	}
	cp := append([]byte{}, in...)
	z := dirty()
	if pan := ex.Protect(func() { z.SetBytes(in) }); pan != "" {
		return fmt.Sprintf("SetBytes(%x) panicked: %s", cp, pan)
	}
	if !drv.Same(z, w) || !bytes.Equal(cp, in) {
		return fmt.Sprintf("SetBytes(%x) = %v, want %v", cp, drv.G(z), w)
	}
	for n := 1; n <= 32; n++ {
		z := dirty()
		pan := ex.Protect(func() { setBytesN[n](z, in) })
		if n > len(in) {
			if pan == "" {
				return fmt.Sprintf("SetBytes%d accepted %d bytes", n, len(in))
			}
			continue
		}
		if pan != "" {
			return fmt.Sprintf("SetBytes%d(%x) panicked: %s", n, cp, pan)
		}
		if !drv.Same(z, new(big.Int).SetBytes(in[:n])) || !bytes.Equal(cp, in) {
			return fmt.Sprintf("SetBytes%d(%x) = %v", n, cp, drv.G(z))
		}
	}
	return ""
}

func rlp(x B) []byte {
	if x.Sign() == 0 {
		return []byte{0x80}
	}
	b := x.Bytes()
	if len(b) == 1 && b[0] < 0x80 {
		return b
	}
	return append([]byte{0x80 + byte(len(b))}, b...)
}

var verbs = []string{"%d", "%x", "%X", "%b", "%o", "%O", "%s", "%v", "%+d", "% d", "%#x", "%080d", "%-80dE", "%90x", "%.70d"}

// value checks every encoding of one value and reading it back.
func value(x B) string {
	z := drv.U(x)
	orig := *z
	var msg string
	pan := ex.Protect(func() { msg = value1(x, z) })
	if pan != "" {
		return fmt.Sprintf("encoding %v panicked: %s", x, pan)
	}
	if msg == "" && *z != orig {
		msg = fmt.Sprintf("encoding changed %v to %v", x, drv.G(z))
	}
	return msg
}

func value1(x B, z *ui.Int) string {
	bad := func(what string, got, want interface{}) string {
		return fmt.Sprintf("%s of %v is %v, want %v", what, x, got, want)
	}
	// big integers
	if g := z.ToBig(); g.Cmp(x) != 0 {
		return bad("ToBig", g, x)
	} else {
		g.Sub(g, ref.One) // belongs to the caller
		g.SetInt64(77)
	}
	if g := z.SToBig(); g.Cmp(signed(x)) != 0 {
		return bad("SToBig", g, signed(x))
	}
	for _, b := range []B{x, signed(x), ref.Neg(x), ref.Add(x, ref.Q256), ref.Neg(ref.Add(x, ref.Q256)),
		ref.Add(x, ref.Lsh(ref.One, 320)), ref.Sub(x, ref.Lsh(ref.One, 511)), ref.Lsh(x, 64), ref.Lsh(x, 65), ref.Lsh(x, 256), ref.Neg(ref.Lsh(x, 320))} {
		cp := new(big.Int).Set(b)
		g, ov := ui.FromBig(b)
		if !drv.Same(g, b) {
			return fmt.Sprintf("FromBig(%v) = %v", b, drv.G(g))
		}
		if ov != (b.BitLen() > 256) {
			return fmt.Sprintf("FromBig(%v) reports overflow=%v", b, ov)
		}
		d := dirty()
		if ov2 := d.SetFromBig(b); ov2 != ov || !drv.Same(d, b) {
			return fmt.Sprintf("SetFromBig(%v) = %v, overflow=%v", b, drv.G(d), ov2)
		}
		if b.Cmp(cp) != 0 {
			return fmt.Sprintf("FromBig changed its argument from %v to %v", cp, b)
		}
	}
	// bytes
	b32 := z.Bytes32()
	if !bytes.Equal(b32[:], be(x, 32)) {
		return bad("Bytes32", b32, be(x, 32))
	}
	b20 := z.Bytes20()
	if !bytes.Equal(b20[:], be(x, 20)) {
		return bad("Bytes20", b20, be(x, 20))
	}
	bs := z.Bytes()
	if !bytes.Equal(bs, x.Bytes()) {
		return bad("Bytes", bs, x.Bytes())
	}
	for i := range bs {
		bs[i] = 0x5a
	}
	var a32 [32]byte
	var a20 [20]byte
	for i := range a32 {
		a32[i] = 0xa5
	}
	for i := range a20 {
		a20[i] = 0xa5
	}
	z.WriteToArray32(&a32)
	z.WriteToArray20(&a20)
	if !bytes.Equal(a32[:], be(x, 32)) || !bytes.Equal(a20[:], be(x, 20)) {
		return bad("WriteToArray", fmt.Sprintf("%x/%x", a32, a20), be(x, 32))
	}
	for n := 0; n <= 40; n++ {
		p := z.PaddedBytes(n)
		w := be(x, 32)
		if n <= 32 {
			w = w[32-n:]
		} else {
			w = append(make([]byte, n-32), w...)
		}
		if !bytes.Equal(p, w) {
			return bad(fmt.Sprintf("PaddedBytes(%d)", n), p, w)
		}
		d := make([]byte, n)
		for i := range d {
			d[i] = 0xa5
		}
		z.WriteToSlice(d)
		k := n
		if k > 32 {
			k = 32
		}
		if !bytes.Equal(d[:k], be(x, 32)[32-k:]) {
			return bad(fmt.Sprintf("WriteToSlice of %d", n), d, be(x, 32))
		}
		for i := 32; i < n; i++ {
			if d[i] != 0xa5 {
				return bad(fmt.Sprintf("WriteToSlice of %d", n), d, "end untouched")
			}
		}
	}
	if m := bytesIn(be(x, 32)); m != "" {
		return m
	}
	if m := bytesIn(x.Bytes()); m != "" {
		return m
	}
	// text
	h := "0x" + x.Text(16)
	if g := z.Hex(); g != h {
		return bad("Hex", g, h)
	}
	if g := z.String(); g != h {
		return bad("String", g, h)
	}
	t, err := z.MarshalText()
	if err != nil || string(t) != h {
		return bad("MarshalText", string(t), h)
	}
	j, err := json.Marshal(struct{ A *ui.Int }{z})
	if err != nil || string(j) != `{"A":"`+h+`"}` {
		return bad("JSON", string(j), h)
	}
	for _, s := range []string{h, "0X" + x.Text(16), "0x" + strings.ToUpper(x.Text(16))} {
		if m := hexIn(s); m != "" {
			return m
		}
	}
	back := struct{ A *ui.Int }{dirty()}
	if err := json.Unmarshal(j, &back); err != nil || !drv.Same(back.A, x) {
		return bad("JSON round trip", back.A, x)
	}
	// RLP
	var buf bytes.Buffer
	if err := z.EncodeRLP(&buf); err != nil || !bytes.Equal(buf.Bytes(), rlp(x)) {
		return bad("EncodeRLP", fmt.Sprintf("%x", buf.Bytes()), fmt.Sprintf("%x", rlp(x)))
	}
	if err := z.EncodeRLP(failing{}); err == nil {
		return bad("EncodeRLP to a failing writer", "no error", "an error")
	}
	for _, v := range verbs {
		if g, w := fmt.Sprintf(v, z), fmt.Sprintf(v, signed(x)); g != w {
			return bad("format "+v, g, w)
		}
	}
	return ""
}

type failing struct{}

func (failing) Write(p []byte) (int, error) { return 0, errors.New("write fails") }

// hexIn checks reading a hexadecimal string.
func hexIn(s string) string {
	var defects []error
	digits := ""
	switch {
	case len(s) == 0:
		defects = append(defects, ui.ErrEmptyString)
	case len(s) < 2 || s[0] != '0' || (s[1] != 'x' && s[1] != 'X'):
		defects = append(defects, ui.ErrMissingPrefix)
	case len(s) == 2:
		defects = append(defects, ui.ErrEmptyNumber)
	default:
		digits = s[2:]
		if len(digits) > 1 && digits[0] == '0' {
			defects = append(defects, ui.ErrLeadingZero)
		}
		if len(digits) > 64 {
			defects = append(defects, ui.ErrBig256Range)
		}
		for _, c := range []byte(digits) {
			if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
				defects = append(defects, ui.ErrSyntax)
				break
			}
		}
	}
	var want B
	if len(defects) == 0 {
		want, _ = new(big.Int).SetString(digits, 16)
	}
	try := func(name string, f func() (*ui.Int, error)) string {
		var z *ui.Int
		var err error
		if pan := ex.Protect(func() { z, err = f() }); pan != "" {
			return fmt.Sprintf("%s(%q) panicked: %s", name, s, pan)
		}
		if len(defects) == 0 {
			if err != nil {
				return fmt.Sprintf("%s(%q) failed: %v", name, s, err)
			}
			if !drv.Same(z, want) {
				return fmt.Sprintf("%s(%q) = %v, want %v", name, s, drv.G(z), want)
			}
			return ""
		}
		if err == nil {
			return fmt.Sprintf("%s(%q) accepted as %v", name, s, drv.G(z))
		}
		if len(defects) == 1 && !errors.Is(err, defects[0]) {
			return fmt.Sprintf("%s(%q) failed with %q, documented %q", name, s, err, defects[0])
		}
		return ""
	}
	if m := try("FromHex", func() (*ui.Int, error) { return ui.FromHex(s) }); m != "" {
		return m
	}
	if m := try("UnmarshalText", func() (*ui.Int, error) { z := new(ui.Int); return z, z.UnmarshalText([]byte(s)) }); m != "" {
		return m
	}
	if m := try("UnmarshalText over an old value", func() (*ui.Int, error) { z := dirty(); return z, z.UnmarshalText([]byte(s)) }); m != "" {
		return m
	}
	return try("UnmarshalJSON", func() (*ui.Int, error) { z := dirty(); return z, z.UnmarshalJSON([]byte(`"` + s + `"`)) })
}

// rawJSON checks inputs that are not strings.
func rawJSON(s string) string {
	if len(s) >= 2 && s[0] == '"' && s[len(s)-1] == '"' {
		return "" // judged by hexIn
	}
	var err error
	z := new(ui.Int)
	if pan := ex.Protect(func() { err = z.UnmarshalJSON([]byte(s)) }); pan != "" {
		return fmt.Sprintf("UnmarshalJSON(%s) panicked: %s", s, pan)
	}
	if !errors.Is(err, ui.ErrNonString) {
		return fmt.Sprintf("UnmarshalJSON(%s) returned %v, documented %v", s, err, ui.ErrNonString)
	}
	return ""
}

func eval(f, a string) string {
	switch f {
	case "value":
		return value(fx.Nums([]string{a})[0])
	case "hex":
		return hexIn(a)
	case "json":
		return rawJSON(a)
	case "bytes":
		return bytesIn([]byte(a))
	}
	return ""
}

func main() {
	ex.Run("C17", "exploration", explore, func(c *ex.Ctx, raw json.RawMessage) string {
		var k struct {
			F string
			A []byte
		}
		json.Unmarshal(raw, &k)
		return eval(k.F, string(k.A))
	})
}

type cas struct {
	F string
	A []byte
}

func explore(c *ex.Ctx) {
	c.Rule = "every value whose four words come from the stated alphabet, all powers of two and their neighbours and all values below 70000 through every encoding and back; every string up to the stated length over the alphabet " + "{0 x X 1 9 a F g / : @ ` space - \"}" + " plus every single-character defect in every position of numbers of 1 to 70 digits through every reader; byte strings of every length 0 to 40 with every non-zero position. Distinct by input; non-trivial: all"
	limbs := []uint64{0, 1, 0x7f, 0x80, 1<<63 - 1, 1 << 63, ^uint64(0)}
	maxLen := 5
	if c.Thorough {
		limbs = append(limbs, 0xff, 0x0123456789abcdef)
		maxLen = 6
	}
	c.Extra["limbs"], c.Extra["max_string_length"] = fmt.Sprintf("%x", limbs), maxLen
	var vals []B
	k := len(limbs)
	for i := 0; i < k*k*k*k; i++ {
		vals = append(vals, drv.G(&ui.Int{limbs[i%k], limbs[i/k%k], limbs[i/k/k%k], limbs[i/k/k/k]}))
	}
	for e := uint(0); e < 256; e++ {
		vals = append(vals, ref.Pow2(e), ref.Sub(ref.Pow2(e), ref.One), ref.Add(ref.Pow2(e), ref.One), ref.Sub(ref.Q256, ref.Pow2(e)))
	}
	small := 3000
	if c.Thorough {
		small = 70000
	}
	for i := 0; i < small; i++ {
		vals = append(vals, ref.N(int64(i)))
	}
	do := func(w int, f, a string) {
		if m := eval(f, a); m != "" {
			c.Fail(cas{f, []byte(a)}, m)
		}
		c.Evals.Add(1)
		c.Distinct.Add(1)
	}
	c.Par(len(vals), func(w, i int) {
		c.Beat(w, func() interface{} { return cas{"value", []byte(vals[i].String())} })
		do(w, "value", vals[i].String())
	})
	c.Class("values", int64(len(vals)))
	alpha := []byte("0xX19aFg/:@` -\"")
	n := 1
	var counts []int
	for l := 0; l <= maxLen; l++ {
		counts = append(counts, n)
		n *= len(alpha)
	}
	for l := 0; l <= maxLen; l++ {
		cnt := counts[l]
		c.Par((cnt+999)/1000, func(w, ch int) {
			c.Beat(w, func() interface{} { return cas{"hex", []byte{byte(l)}} })
			buf := make([]byte, l)
			for i := ch * 1000; i < cnt && i < (ch+1)*1000; i++ {
				for j, x := 0, i; j < l; j++ {
					buf[j] = alpha[x%len(alpha)]
					x /= len(alpha)
				}
				do(w, "hex", string(buf))
				if l+2 <= maxLen+1 && l > 0 {
					do(w, "hex", "0x"+string(buf))
				}
				if l <= 4 {
					do(w, "json", string(buf))
				}
			}
		})
		c.Class("short strings", int64(cnt))
	}
	c.Par(70, func(w, i int) {
		l := i + 1
		c.Beat(w, func() interface{} { return cas{"hex", []byte{byte(l)}} })
		d := make([]byte, l)
		for _, fill := range []byte("17aFf") {
			for j := range d {
				d[j] = fill
			}
			do(w, "hex", "0x"+string(d))
			do(w, "hex", "0X"+string(d))
			for j := range d {
				for b := 0; b < 256; b++ {
					if fill != '7' && b >= 48 && b < 128 {
						continue
					}
					d[j] = byte(b)
					do(w, "hex", "0x"+string(d))
				}
				d[j] = fill
			}
		}
		if l <= 41 {
			b := make([]byte, l-1)
			do(w, "bytes", string(b))
			for j := range b {
				for _, v := range []byte{1, 0x7f, 0x80, 0xff} {
					b[j] = v
					do(w, "bytes", string(b))
				}
				b[j] = 0
			}
			for j := range b {
				b[j] = byte(0x11 + 3*j)
			}
			do(w, "bytes", string(b))
		}
	})
	var nilInt *ui.Int
	var buf bytes.Buffer
	if pan := ex.Protect(func() { nilInt.EncodeRLP(&buf) }); pan != "" || !bytes.Equal(buf.Bytes(), []byte{0x80}) {
		c.Fail(cas{"rlpnil", nil}, fmt.Sprintf("RLP of nil is %x %s", buf.Bytes(), pan))
	}
	c.Sample("value " + vals[len(vals)/3].String())
	c.Sample(`hex "0x0g"`)
}
