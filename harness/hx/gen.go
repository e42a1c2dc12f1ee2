package hx

import (
	"fmt"

	"pgregory.net/rapid"
)

// Q renders bytes briefly for traces.
func Q(b []byte) string {
	if b == nil {
		return "nil"
	}
	if len(b) > 24 {
		return fmt.Sprintf("%q..(%d)", b[:16], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// QS renders a string briefly for traces.
func QS(s string) string { return Q([]byte(s)) }

// alphabet of bytes that makes prefixes, 0xFF runs and zero bytes collide often
var keyBytes = []byte{0x00, 0x01, 'a', 'b', 'c', 0x7f, 0x80, 0xfe, 0xff}

// Key draws a non-empty key from a small adversarial universe.
func Key(rt *rapid.T, label string) []byte {
	switch rapid.IntRange(0, 9).Draw(rt, label+"Kind") {
	case 0:
		return rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(rt, label)
	case 1:
		return append([]byte{0xff}, rapid.SliceOfN(rapid.SampledFrom([]byte{0xff, 0xfe, 0}), 0, 3).Draw(rt, label)...)
	default:
		return rapid.SliceOfN(rapid.SampledFrom(keyBytes), 1, 4).Draw(rt, label)
	}
}

// SmallKey draws from a universe of a few dozen keys so that histories revisit keys.
func SmallKey(rt *rapid.T, label string) []byte {
	return rapid.SliceOfN(rapid.SampledFrom([]byte{'a', 0xff, 0x00}), 1, 3).Draw(rt, label)
}

// Value draws a value: often empty or nil, sometimes large.
func Value(rt *rapid.T, label string) []byte {
	switch rapid.IntRange(0, 11).Draw(rt, label+"Kind") {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		n := rapid.SampledFrom([]int{31, 32, 33, 127, 128, 129, 255, 256, 1000, 4096}).Draw(rt, label+"Len")
		return Fill(n, rapid.Byte().Draw(rt, label+"Fill"))
	case 3:
		return rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, label)
	default:
		return []byte(fmt.Sprintf("v%d", rapid.IntRange(0, 999).Draw(rt, label)))
	}
}

// Fill makes n bytes that depend on position and b.
func Fill(n int, b byte) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = b + byte(i*7)
	}
	return out
}

// Int64 draws integers with boundary bias.
func Int64(rt *rapid.T, label string) int64 {
	if rapid.IntRange(0, 3).Draw(rt, label+"Kind") == 0 {
		return rapid.SampledFrom([]int64{0, 1, -1, 127, 128, -128, -129, 255, 256, 1 << 31, -(1 << 31), 1<<63 - 1, -(1 << 63), -(1 << 63) + 1, 1 << 62}).Draw(rt, label)
	}
	return rapid.Int64().Draw(rt, label)
}

// Uint64 draws unsigned integers with boundary bias.
func Uint64(rt *rapid.T, label string) uint64 {
	if rapid.IntRange(0, 3).Draw(rt, label+"Kind") == 0 {
		return rapid.SampledFrom([]uint64{0, 1, 127, 128, 255, 256, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}).Draw(rt, label)
	}
	return rapid.Uint64().Draw(rt, label)
}

// Mutated hands out a private copy of b and later scribbles over it, to catch retained references.
func Copy(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

// Uniform draws from [0,n) without the bias towards small values that rapid's ranges have.
func Uniform(rt *rapid.T, label string, n int) int {
	v := rapid.Uint32().Draw(rt, label)
	v = (v ^ v>>15) * 0x2c1b3c6d
	v = (v ^ v>>12) * 0x297a2d39
	v ^= v >> 15
	return int(v % uint32(n))
}

// Count draws from [min,max] with a bias towards long histories; it shrinks to min.
func Count(rt *rapid.T, label string, min, max int) int {
	n := min
	for i := 0; i < 3; i++ {
		if x := rapid.IntRange(min, max).Draw(rt, label); x > n {
			n = x
		}
	}
	return n
}
