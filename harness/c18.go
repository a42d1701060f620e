package main

// Base64 VLQ: every integer of magnitude below 2^30 against the definition in the source map specification.

import (
	"fmt"

	"github.com/stephen/cssc/internal/printer"
)

// refVLQ writes the canonical encoding.
func refVLQ(buf []byte, v int64) []byte {
	n := v << 1
	if v < 0 {
		n = -v<<1 | 1
	}
	for {
		d := n & 31
		n >>= 5
		if n > 0 {
			d |= 32
		}
		buf = append(buf, b64digits[d])
		if n == 0 {
			return buf
		}
	}
}

// vlq checks one integer.
func vlq(x *X, v int64, rest string, buf []byte) bool {
	want := refVLQ(buf[:0], v)
	got := printer.VLQEncode(int32(v))
	if string(got) != string(want) {
		x.Fail("%d is encoded as %q instead of %q", v, got, want)
		return false
	}
	if n, length := printer.VLQDecode(got); int64(n) != v || int(length) != len(want) {
		x.Fail("%q is decoded as %d with length %d instead of %d", got, n, length, v)
		return false
	}
	with := append(want, rest...)
	if n, length := printer.VLQDecode(with); int64(n) != v || int(length) != len(want) {
		x.Fail("%q is decoded as %d with length %d instead of %d with length %d", with, n, length, v, len(want))
		return false
	}
	x.w.Stats.Validated++
	return true
}

func init() {
	const limit = 1 << 30
	const chunk = 1 << 18
	all := func(from int64) func(x *X) {
		return func(x *X) {
			c := int64(x.Free(2*int(from)/chunk)) * chunk
			x.Case(fmt.Sprintf("%d to %d", c-from, c-from+chunk-1))
			var buf [32]byte
			for v := c - from; v < c-from+chunk; v++ {
				if v == -limit {
					continue
				}
				if !vlq(x, v, b64digits[v&63:v&63+1]+"A", buf[:]) {
					return
				}
			}
			x.Outcome(fmt.Sprint(c))
		}
	}
	register(&Check{
		ID:   "C18",
		Rule: "every integer with magnitude below 2^30 in the thorough tier; in the quick tier all below 2^26, all patterns of 7 base64 digits out of eight, and all pairs of an encoding with following data; cases are chunks of 2^18 integers",
		Parts: []Part{
			{Name: "all below 2^26", Dev: [2]int{0, 0}, Body: all(1 << 26)},
			{Name: "all below 2^30", Thorough: true, Body: all(limit)},
			{Name: "digit patterns", Dev: [2]int{0, 0}, Body: func(x *X) {
				// The first digit holds the sign, so the patterns are of the whole number.
				set := []int64{0, 1, 2, 15, 16, 17, 30, 31}
				a, b := x.Free(8), x.Free(8)
				x.Case(fmt.Sprint(a, b))
				var buf [32]byte
				for i := 0; i < 8*8*8*8*32; i++ {
					n := set[a] | set[b]<<5 | set[i&7]<<10 | set[i>>3&7]<<15 | set[i>>6&7]<<20 | set[i>>9&7]<<25 | int64(i>>12&1)<<30
					v := n >> 1
					if n&1 == 1 {
						v = -v
					}
					if v <= -limit || v >= limit {
						continue
					}
					if !vlq(x, v, "", buf[:]) {
						return
					}
				}
			}},
			{Name: "following data", Dev: [2]int{0, 0}, Body: func(x *X) {
				rests := []string{"", "A", "AA", "g", "gA", "/", "//", "////////", "D", "CAAC", "gggggggg"}
				r := x.Free(64)
				x.Case(fmt.Sprint(r))
				var buf [64]byte
				for v := int64(-5000); v < 5000; v++ {
					for _, rest := range append(rests, b64digits[r:r+1], b64digits[r:r+1]+"A", "A"+b64digits[r:r+1]) {
						if !vlq(x, v, rest, buf[:]) || !vlq(x, v*214748, rest, buf[:]) {
							return
						}
					}
				}
			}},
		},
	})
}
