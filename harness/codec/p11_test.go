package codec

import (
	"bytes"
	"fmt"
	"math"
	"testing"

	mc "github.com/zhiqiangxu/mondis/kv/memcomparable"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

func sign(n int) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

// related draws two values that are often equal, adjacent, or prefixes of each other.
func relatedBytes(rt *rapid.T) (a, b []byte) {
	n := rapid.OneOf(rapid.SampledFrom([]int{0, 1, 7, 8, 9, 15, 16, 17, 24, 64, 255, 256, 300, 2048}), rapid.IntRange(0, 40)).Draw(rt, "len")
	pool := rapid.SampledFrom([][]byte{{0}, {0, 1}, {0xff}, {0xff, 0xfe, 0}, {'a', 0, 0xff}, nil}).Draw(rt, "pool")
	gen := rapid.Byte()
	if pool != nil {
		gen = rapid.SampledFrom(pool)
	}
	a = rapid.SliceOfN(gen, n, n).Draw(rt, "a")
	switch rapid.IntRange(0, 5).Draw(rt, "rel") {
	case 0:
		b = hx.Copy(a)
	case 1: // a prefix
		b = hx.Copy(a[:rapid.IntRange(0, len(a)).Draw(rt, "cut")])
	case 2: // extended
		b = append(hx.Copy(a), rapid.SliceOfN(gen, 1, 10).Draw(rt, "ext")...)
	case 3: // one byte changed
		b = hx.Copy(a)
		if len(b) > 0 {
			i := rapid.IntRange(0, len(b)-1).Draw(rt, "at")
			b[i] += byte(rapid.SampledFrom([]int{1, 255, 128}).Draw(rt, "by"))
		}
	default:
		b = rapid.SliceOfN(gen, 0, 40).Draw(rt, "b")
	}
	return
}

// buffer draws an existing buffer to append to: nil, empty, dirty, with or without spare capacity.
func buffer(rt *rapid.T) (buf []byte, kind string) {
	n := rapid.SampledFrom([]int{0, 0, 1, 3, 8, 9, 30}).Draw(rt, "bufLen")
	spare := rapid.SampledFrom([]int{0, 0, 1, 5, 9, 16, 64, 400}).Draw(rt, "bufSpare")
	if n == 0 && spare == 0 {
		if rapid.Bool().Draw(rt, "bufNil") {
			return nil, "nil buffer"
		}
		return []byte{}, "empty buffer"
	}
	full := hx.Fill(n+spare, rapid.Byte().Draw(rt, "bufFill"))
	return full[: n : n+spare], "dirty buffer"
}

// a codec of one value kind
type codec struct {
	name string
	desc bool
	enc  func(b []byte) []byte
	dec  func(b []byte) (left []byte, same bool, err error)
}

// checkCodec checks one encoding of one value: appends, inverts, self-delimits, rejects truncation.
func checkCodec(rt *rapid.T, c *hx.Case, cd codec) []byte {
	e := cd.enc(nil)
	buf, kind := buffer(rt)
	c.Class(kind)
	keep := hx.Copy(buf)
	out := cd.enc(buf)
	if !bytes.Equal(buf, keep) {
		rt.Fatalf("%s: encoding altered the bytes of the buffer it was given: %x -> %x", cd.name, keep, buf)
	}
	if !bytes.Equal(out, append(hx.Copy(keep), e...)) {
		rt.Fatalf("%s: encoding into buffer %x gives %x, want it followed by %x", cd.name, keep, out, e)
	}
	var trail []byte
	switch rapid.IntRange(0, 3).Draw(rt, "trailKind") {
	case 0:
	case 1:
		trail = rapid.SliceOfN(rapid.SampledFrom([]byte{0, 0xff, 0xf7, 8}), 1, 20).Draw(rt, "trail")
	default:
		trail = rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(rt, "trail")
	}
	c.ClassIf(len(trail) > 0, "trailing bytes")
	in := append(hx.Copy(e), trail...)
	keepIn := hx.Copy(in)
	left, same, err := cd.dec(in)
	if err != nil {
		rt.Fatalf("%s: %x followed by %x does not decode: %v", cd.name, e, trail, err)
	}
	if !same {
		rt.Fatalf("%s: %x followed by %x decodes to another value", cd.name, e, trail)
	}
	if !bytes.Equal(left, trail) {
		rt.Fatalf("%s: %x followed by %x leaves %x", cd.name, e, trail, left)
	}
	if !bytes.Equal(in, keepIn) {
		rt.Fatalf("%s: decoding altered its input", cd.name)
	}
	if len(e) > 0 {
		cut := rapid.IntRange(0, len(e)-1).Draw(rt, "cut")
		short := make([]byte, cut)
		copy(short, e)
		if _, _, err := cd.dec(short); err == nil {
			rt.Fatalf("%s: truncated encoding %x of %x decodes without error", cd.name, short, e)
		}
		// truncated, with the missing bytes still readable behind the slice
		if _, _, err := cd.dec(hx.Copy(e)[:cut]); err == nil {
			rt.Fatalf("%s: decoding %x reads behind its input", cd.name, short)
		}
	}
	return e
}

func TestP11_Bytes(t *testing.T) {
	hx.Run(t, hx.N{Quick: 90000}, "two different byte strings of which at least one is not empty",
		func(rt *rapid.T, c *hx.Case) {
			a, b := relatedBytes(rt)
			c.Step("%s %s", hx.Q(a), hx.Q(b))
			c.NonTrivialIf(!bytes.Equal(a, b))
			c.ClassIf(bytes.HasPrefix(a, b) || bytes.HasPrefix(b, a), "prefix related")
			c.ClassIf(len(a)%8 == 0, "whole groups")
			want := bytes.Compare(a, b)
			mk := func(name string, desc bool, enc func(b, d []byte) []byte, dec func(b, buf []byte) ([]byte, []byte, error)) func(v []byte) codec {
				return func(v []byte) codec {
					keep := hx.Copy(v)
					return codec{name, desc, func(buf []byte) []byte {
						out := enc(buf, v)
						if !bytes.Equal(v, keep) {
							rt.Fatalf("%s: encoding altered the value", name)
						}
						return out
					}, func(in []byte) ([]byte, bool, error) {
						db, _ := buffer(rt)
						l, d, err := dec(in, db)
						if err == nil && rapid.Bool().Draw(rt, "decodeOther") {
							// what was decoded stays while something else is
							other := append(mc.EncodeBytes(nil, hx.Fill(len(v)+1, 0xa5)), 1)
							if desc {
								other = append(mc.EncodeBytesDesc(nil, hx.Fill(len(v)+1, 0xa5)), 1)
							}
							lk := hx.Copy(l)
							if _, _, err := dec(other, nil); err != nil {
								rt.Fatalf("%s: %x does not decode: %v", name, other, err)
							}
							if !bytes.Equal(l, lk) {
								rt.Fatalf("%s: decoding another value changes what was left of %x", name, in)
							}
						}
						return l, bytes.Equal(d, keep), err
					}}
				}
			}
			asc := mk("EncodeBytes", false, mc.EncodeBytes, mc.DecodeBytes)
			des := mk("EncodeBytesDesc", true, mc.EncodeBytesDesc, mc.DecodeBytesDesc)
			ea, eb := checkCodec(rt, c, asc(a)), checkCodec(rt, c, asc(b))
			if sign(bytes.Compare(ea, eb)) != want {
				rt.Fatalf("EncodeBytes: %q vs %q: encodings order %d, values %d", a, b, bytes.Compare(ea, eb), want)
			}
			if l := mc.EncodedBytesLength(len(a)); l != len(ea) {
				rt.Fatalf("EncodedBytesLength(%d)=%d but the encoding has %d bytes", len(a), l, len(ea))
			}
			da, db := checkCodec(rt, c, des(a)), checkCodec(rt, c, des(b))
			if sign(bytes.Compare(da, db)) != -want {
				rt.Fatalf("EncodeBytesDesc: %q vs %q: encodings order %d, values %d", a, b, bytes.Compare(da, db), want)
			}
			if len(da) != len(ea) {
				rt.Fatalf("descending encoding has %d bytes, announced %d", len(da), len(ea))
			}
			// order also holds when followed by arbitrary bytes (self-delimiting)
			if want != 0 {
				s1 := append(hx.Copy(ea), 0xff, 0xff)
				s2 := append(hx.Copy(eb), 0x00)
				if sign(bytes.Compare(s1, s2)) != want {
					rt.Fatalf("EncodeBytes: order of %q and %q changes with what follows", a, b)
				}
			}
		})
}

func relatedInt(rt *rapid.T) (a, b int64) {
	a = hx.Int64(rt, "a")
	switch rapid.IntRange(0, 3).Draw(rt, "rel") {
	case 0:
		b = a + int64(rapid.IntRange(-2, 2).Draw(rt, "delta"))
	case 1:
		b = a ^ (1 << uint(rapid.IntRange(0, 63).Draw(rt, "bit")))
	default:
		b = hx.Int64(rt, "b")
	}
	return
}

func cmpI(a, b int64) int {
	if a < b {
		return -1
	} else if a > b {
		return 1
	}
	return 0
}
func cmpU(a, b uint64) int {
	if a < b {
		return -1
	} else if a > b {
		return 1
	}
	return 0
}
func cmpF(a, b float64) int {
	if a < b {
		return -1
	} else if a > b {
		return 1
	}
	return 0
}

func ordered(rt *rapid.T, name string, ea, eb []byte, want int, desc bool, a, b interface{}) {
	if desc {
		want = -want
	}
	if sign(bytes.Compare(ea, eb)) != want {
		rt.Fatalf("%s: %v -> %x and %v -> %x order %d, want %d", name, a, ea, b, eb, bytes.Compare(ea, eb), want)
	}
}

func TestP11_Integers(t *testing.T) {
	hx.Run(t, hx.N{Quick: 90000}, "two different integers",
		func(rt *rapid.T, c *hx.Case) {
			a, b := relatedInt(rt)
			c.Step("%d %d", a, b)
			c.NonTrivialIf(a != b)
			c.ClassIf((a < 0) != (b < 0), "signs differ")
			ic := func(name string, enc func([]byte, int64) []byte, dec func([]byte) ([]byte, int64, error), v int64) codec {
				return codec{name: name, enc: func(b []byte) []byte { return enc(b, v) }, dec: func(b []byte) ([]byte, bool, error) {
					l, g, err := dec(b)
					return l, g == v, err
				}}
			}
			uc := func(name string, enc func([]byte, uint64) []byte, dec func([]byte) ([]byte, uint64, error), v uint64) codec {
				return codec{name: name, enc: func(b []byte) []byte { return enc(b, v) }, dec: func(b []byte) ([]byte, bool, error) {
					l, g, err := dec(b)
					return l, g == v, err
				}}
			}
			bc := func(name string, enc func([]byte, uint8) []byte, dec func([]byte) ([]byte, uint8, error), v uint8) codec {
				return codec{name: name, enc: func(b []byte) []byte { return enc(b, v) }, dec: func(b []byte) ([]byte, bool, error) {
					l, g, err := dec(b)
					return l, g == v, err
				}}
			}
			ordered(rt, "Int64", checkCodec(rt, c, ic("Int64", mc.EncodeInt64, mc.DecodeInt64, a)), checkCodec(rt, c, ic("Int64", mc.EncodeInt64, mc.DecodeInt64, b)), cmpI(a, b), false, a, b)
			ordered(rt, "Int64Desc", checkCodec(rt, c, ic("Int64Desc", mc.EncodeInt64Desc, mc.DecodeInt64Desc, a)), checkCodec(rt, c, ic("Int64Desc", mc.EncodeInt64Desc, mc.DecodeInt64Desc, b)), cmpI(a, b), true, a, b)
			ua, ub := uint64(a), uint64(b)
			ordered(rt, "Uint64", checkCodec(rt, c, uc("Uint64", mc.EncodeUint64, mc.DecodeUint64, ua)), checkCodec(rt, c, uc("Uint64", mc.EncodeUint64, mc.DecodeUint64, ub)), cmpU(ua, ub), false, ua, ub)
			ordered(rt, "Uint64Desc", checkCodec(rt, c, uc("Uint64Desc", mc.EncodeUint64Desc, mc.DecodeUint64Desc, ua)), checkCodec(rt, c, uc("Uint64Desc", mc.EncodeUint64Desc, mc.DecodeUint64Desc, ub)), cmpU(ua, ub), true, ua, ub)
			ba, bb := uint8(a), uint8(b)
			ordered(rt, "Uint8", checkCodec(rt, c, bc("Uint8", mc.EncodeUint8, mc.DecodeUint8, ba)), checkCodec(rt, c, bc("Uint8", mc.EncodeUint8, mc.DecodeUint8, bb)), cmpU(uint64(ba), uint64(bb)), false, ba, bb)
			ordered(rt, "Uint8Desc", checkCodec(rt, c, bc("Uint8Desc", mc.EncodeUint8Desc, mc.DecodeUint8Desc, ba)), checkCodec(rt, c, bc("Uint8Desc", mc.EncodeUint8Desc, mc.DecodeUint8Desc, bb)), cmpU(uint64(ba), uint64(bb)), true, ba, bb)
			if g := mc.DecodeUint64ToInt64(mc.EncodeInt64ToUint64(a)); g != a {
				rt.Fatalf("EncodeInt64ToUint64 does not invert: %d -> %d", a, g)
			}
			if sign(cmpU(mc.EncodeInt64ToUint64(a), mc.EncodeInt64ToUint64(b))) != cmpI(a, b) {
				rt.Fatalf("EncodeInt64ToUint64 does not keep the order of %d and %d", a, b)
			}
		})
}

func drawFloat(rt *rapid.T, label string) float64 {
	f := rapid.OneOf(
		rapid.SampledFrom([]float64{0, math.Copysign(0, -1), 1, -1, math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64,
			math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, 2.2250738585072014e-308, -2.2250738585072014e-308, 0.1, -0.1, 1 << 53, math.Pi}),
		rapid.Float64(),
		rapid.Custom(func(rt *rapid.T) float64 { return math.Float64frombits(rapid.Uint64().Draw(rt, "bits")) }),
	).Draw(rt, label)
	if math.IsNaN(f) {
		f = 1.5
	}
	return f
}

func TestP11_Floats(t *testing.T) {
	hx.Run(t, hx.N{Quick: 90000}, "two floats that are not equal",
		func(rt *rapid.T, c *hx.Case) {
			a := drawFloat(rt, "a")
			b := drawFloat(rt, "b")
			switch rapid.IntRange(0, 3).Draw(rt, "rel") {
			case 0:
				b = math.Nextafter(a, math.Inf(1))
			case 1:
				b = -a
			}
			c.Step("%v %v", a, b)
			c.NonTrivialIf(a != b)
			c.ClassIf((a < 0) != (b < 0), "signs differ")
			c.ClassIf(math.IsInf(a, 0) || math.IsInf(b, 0), "infinite")
			fc := func(name string, enc func([]byte, float64) []byte, dec func([]byte) ([]byte, float64, error), v float64) codec {
				return codec{name: name, enc: func(b []byte) []byte { return enc(b, v) }, dec: func(b []byte) ([]byte, bool, error) {
					l, g, err := dec(b)
					return l, g == v, err
				}}
			}
			ea := checkCodec(rt, c, fc("Float64", mc.EncodeFloat64, mc.DecodeFloat64, a))
			eb := checkCodec(rt, c, fc("Float64", mc.EncodeFloat64, mc.DecodeFloat64, b))
			da := checkCodec(rt, c, fc("Float64Desc", mc.EncodeFloat64Desc, mc.DecodeFloat64Desc, a))
			db := checkCodec(rt, c, fc("Float64Desc", mc.EncodeFloat64Desc, mc.DecodeFloat64Desc, b))
			c.ClassIf(a == 0 && b == 0 && math.Signbit(a) != math.Signbit(b), "the two zeros") // equal, so their encodings are
			ordered(rt, "Float64", ea, eb, cmpF(a, b), false, a, b)
			ordered(rt, "Float64Desc", da, db, cmpF(a, b), true, a, b)
		})
}

// Arbitrary bytes: a byte-string decoder accepts exactly the encodings it produces.
func TestP11_Malformed(t *testing.T) {
	hx.Run(t, hx.N{Quick: 150000}, "at least nine bytes that are not an unmodified encoding",
		func(rt *rapid.T, c *hx.Case) {
			desc := rapid.Bool().Draw(rt, "desc")
			enc, dec := mc.EncodeBytes, mc.DecodeBytes
			if desc {
				enc, dec = mc.EncodeBytesDesc, mc.DecodeBytesDesc
			}
			var in []byte
			if rapid.IntRange(0, 3).Draw(rt, "raw") == 0 {
				in = rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom([]byte{0, 0xff, 0xf7, 0xfe, 8, 7, 9, 0xf8, 0xf6}), rapid.Byte()), 0, 40).Draw(rt, "in")
			} else {
				v := rapid.SliceOfN(rapid.SampledFrom([]byte{0, 1, 'a', 0xff, 0xfe}), 0, 26).Draw(rt, "v")
				in = enc(nil, v)
				for n := rapid.IntRange(1, 3).Draw(rt, "n"); n > 0; n-- {
					i := rapid.IntRange(0, len(in)-1).Draw(rt, "i")
					if rapid.Bool().Draw(rt, "marker") {
						i = i/9*9 + 8
					}
					in[i] = rapid.OneOf(rapid.SampledFrom([]byte{0, 0xff, 1, 0xfe, 0xf7, 0xf6, 8, 9, 0x7f, 0x80}), rapid.Byte()).Draw(rt, "x")
				}
				if rapid.IntRange(0, 3).Draw(rt, "trunc") == 0 {
					in = in[:rapid.IntRange(0, len(in)).Draw(rt, "to")]
				}
			}
			keep := hx.Copy(in)
			c.Step("desc=%v %x", desc, in)
			c.NonTrivialIf(len(in) >= 9)
			db, _ := buffer(rt)
			left, v, err := dec(in, db)
			if !bytes.Equal(in, keep) {
				rt.Fatalf("decoding altered its input")
			}
			if err != nil {
				c.Class("rejected")
				return
			}
			c.Class("accepted")
			again := append(enc(nil, v), left...)
			if !bytes.Equal(again, keep) {
				rt.Fatalf("desc=%v: malformed %x decodes to %x with %x left, whose encoding is %x", desc, keep, v, left, again)
			}
		})
}

// Many values concatenated decode one after the other, and tuples order lexicographically.
func TestP11_Tuples(t *testing.T) {
	type elem struct {
		kind int
		i    int64
		b    []byte
		f    float64
	}
	encode := func(es []elem) []byte {
		var buf []byte
		for _, e := range es {
			switch e.kind {
			case 0:
				buf = mc.EncodeBytes(buf, e.b)
			case 1:
				buf = mc.EncodeBytesDesc(buf, e.b)
			case 2:
				buf = mc.EncodeInt64(buf, e.i)
			case 3:
				buf = mc.EncodeInt64Desc(buf, e.i)
			case 4:
				buf = mc.EncodeFloat64(buf, e.f)
			case 5:
				buf = mc.EncodeUint8Desc(buf, uint8(e.i))
			}
		}
		return buf
	}
	cmp := func(x, y elem) int {
		switch x.kind {
		case 0:
			return bytes.Compare(x.b, y.b)
		case 1:
			return -bytes.Compare(x.b, y.b)
		case 2:
			return cmpI(x.i, y.i)
		case 3:
			return -cmpI(x.i, y.i)
		case 4:
			return cmpF(x.f, y.f)
		default:
			return -cmpU(uint64(uint8(x.i)), uint64(uint8(y.i)))
		}
	}
	hx.Run(t, hx.N{Quick: 36000}, "tuples of at least two elements that differ",
		func(rt *rapid.T, c *hx.Case) {
			n := rapid.IntRange(1, 5).Draw(rt, "n")
			x, y := make([]elem, n), make([]elem, n)
			want := 0
			for i := range x {
				k := rapid.IntRange(0, 5).Draw(rt, "kind")
				x[i].kind = k
				x[i].b, y[i].b = relatedBytes(rt)
				x[i].i, y[i].i = relatedInt(rt)
				x[i].f, y[i].f = drawFloat(rt, "fa"), drawFloat(rt, "fb")
				if x[i].f == 0 {
					x[i].f = 2
				}
				if y[i].f == 0 {
					y[i].f = -2
				}
				if rapid.IntRange(0, 2).Draw(rt, "same") > 0 {
					y[i] = x[i]
				}
				y[i].kind = k
				if want == 0 {
					want = sign(cmp(x[i], y[i]))
				}
			}
			c.Step("%v | %v", fmt.Sprint(x), fmt.Sprint(y))
			c.NonTrivialIf(n >= 2 && want != 0)
			ex, ey := encode(x), encode(y)
			if sign(bytes.Compare(ex, ey)) != want {
				rt.Fatalf("tuples %v and %v order %d, their encodings %d", x, y, want, bytes.Compare(ex, ey))
			}
			left := ex
			for i, e := range x {
				var err error
				ok := false
				switch e.kind {
				case 0, 1:
					var v []byte
					if e.kind == 0 {
						left, v, err = mc.DecodeBytes(left, nil)
					} else {
						left, v, err = mc.DecodeBytesDesc(left, nil)
					}
					ok = bytes.Equal(v, e.b)
				case 2, 3:
					var v int64
					if e.kind == 2 {
						left, v, err = mc.DecodeInt64(left)
					} else {
						left, v, err = mc.DecodeInt64Desc(left)
					}
					ok = v == e.i
				case 4:
					var v float64
					left, v, err = mc.DecodeFloat64(left)
					ok = v == e.f
				case 5:
					var v uint8
					left, v, err = mc.DecodeUint8Desc(left)
					ok = v == uint8(e.i)
				}
				if err != nil || !ok {
					rt.Fatalf("element %d of %v does not decode back: %v", i, x, err)
				}
			}
			if len(left) != 0 {
				rt.Fatalf("decoding %v leaves %x", x, left)
			}
		})
}
