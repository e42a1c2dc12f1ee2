package codec

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"strconv"
	"testing"

	"github.com/zhiqiangxu/mondis/kv/compact"
	"github.com/zhiqiangxu/mondis/kv/numeric"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

// refUvarint is the reference decoder: little-endian base 128 of an unsigned 64-bit value.
// ok is false when the input is truncated or does not fit 64 bits.
func refUvarint(b []byte) (v uint64, n int, ok bool) {
	x := new(big.Int)
	for i, c := range b {
		if i == 10 {
			return 0, 0, false
		}
		x.Or(x, new(big.Int).Lsh(big.NewInt(int64(c&0x7f)), uint(7*i)))
		if c < 0x80 {
			if !x.IsUint64() {
				return 0, 0, false
			}
			return x.Uint64(), i + 1, true
		}
	}
	return 0, 0, false
}

func refVarint(b []byte) (v int64, n int, ok bool) {
	u, n, ok := refUvarint(b)
	v = int64(u >> 1)
	if u&1 == 1 {
		v = ^v
	}
	return v, n, ok
}

func trailer(rt *rapid.T) []byte {
	return rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom([]byte{0, 0x80, 0xff, 1}), rapid.Byte()), 0, 15).Draw(rt, "trail")
}

func TestP12_RoundTrip(t *testing.T) {
	hx.Run(t, hx.N{Quick: 120000}, "a value other than zero or empty",
		func(rt *rapid.T, c *hx.Case) {
			i := hx.Int64(rt, "i")
			if rapid.Bool().Draw(rt, "shifted") {
				i >>= uint(rapid.IntRange(0, 63).Draw(rt, "shift"))
			}
			u := uint64(i)
			data := hx.Value(rt, "data")
			c.Step("%d %s", i, hx.Q(data))
			c.NonTrivialIf(i != 0 && len(data) > 0)
			mk := func(name string, enc func(b []byte) []byte, dec func(b []byte) ([]byte, bool, error)) {
				checkCodec(rt, c, codec{name: name, enc: enc, dec: dec})
			}
			mk("Varint", func(b []byte) []byte { return compact.EncodeVarint(b, i) }, func(b []byte) ([]byte, bool, error) {
				l, g, err := compact.DecodeVarint(b)
				return l, g == i, err
			})
			mk("Uvarint", func(b []byte) []byte { return compact.EncodeUvarint(b, u) }, func(b []byte) ([]byte, bool, error) {
				l, g, err := compact.DecodeUvarint(b)
				return l, g == u, err
			})
			keep := hx.Copy(data)
			mk("compact.Bytes", func(b []byte) []byte { return compact.EncodeBytes(b, data) }, func(b []byte) ([]byte, bool, error) {
				l, g, err := compact.DecodeBytes(b)
				return l, bytes.Equal(g, keep), err
			})
			if !bytes.Equal(keep, data) {
				rt.Fatalf("compact.EncodeBytes altered the value")
			}
			// fixed binary appends to its buffer and decodes exactly
			buf, _ := buffer(rt)
			pre := hx.Copy(buf)
			out := numeric.Encode2Binary(u, buf)
			if len(out) != len(pre)+8 || !bytes.Equal(out[:len(pre)], pre) || !bytes.Equal(buf, pre) {
				rt.Fatalf("Encode2Binary(%d, %x) = %x", u, pre, out)
			}
			if g, err := numeric.DecodeFromBinary(out[len(pre):]); err != nil || g != u {
				rt.Fatalf("binary %x decodes to %d, %v; want %d", out[len(pre):], g, err, u)
			}
			h, b8, bc := numeric.Encode2Human(i), numeric.Encode2Binary(u, nil), compact.EncodeBytes(nil, data)
			_, dc, _ := compact.DecodeBytes(hx.Copy(bc))
			h0, b80, bc0 := hx.Copy(h), hx.Copy(b8), hx.Copy(bc)
			// what was returned stays when other values are encoded and decoded
			h2, b82, bc2 := numeric.Encode2Human(^i), numeric.Encode2Binary(^u, nil), compact.EncodeBytes(nil, append(hx.Copy(data), 'x'))
			_, dc2, err := compact.DecodeBytes(bc2)
			if !bytes.Equal(h, h0) || !bytes.Equal(b8, b80) || !bytes.Equal(bc, bc0) || !bytes.Equal(dc, data) {
				rt.Fatalf("encoding or decoding other values (%x %x %x %x %v) turns %x %x %x %x into %x %x %x %x", h2, b82, bc2, dc2, err, h0, b80, bc0, data, h, b8, bc, dc)
			}
			if g, err := numeric.DecodeFromHuman(hx.Copy(h)); err != nil || g != i {
				rt.Fatalf("human form %q of %d decodes to %d, %v", h, i, g, err)
			}
			if w := strconv.FormatInt(i, 10); string(h) != w {
				rt.Fatalf("human form of %d is %q", i, h)
			}
		})
}

func TestP12_Malformed(t *testing.T) {
	hx.Run(t, hx.N{Quick: 240000}, "non-empty input that is not one canonical encoding on its own",
		func(rt *rapid.T, c *hx.Case) {
			var in []byte
			switch rapid.IntRange(0, 4).Draw(rt, "source") {
			case 0:
				in = rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(rt, "raw")
			case 1: // runs of continuation bytes
				in = bytes.Repeat([]byte{rapid.SampledFrom([]byte{0x80, 0xff, 0x81}).Draw(rt, "cont")}, rapid.IntRange(0, 12).Draw(rt, "run"))
				in = append(in, trailer(rt)...)
			case 2: // a claimed length with some bytes behind
				in = binary.AppendVarint(nil, rapid.OneOf(rapid.Int64Range(-5, 30), rapid.SampledFrom([]int64{1<<63 - 1, -(1 << 63), 1 << 31, 1 << 32, -1, 1<<32 + 3})).Draw(rt, "claim"))
				in = append(in, trailer(rt)...)
			case 3: // ten bytes with a last byte near the 64-bit limit
				in = append(bytes.Repeat([]byte{0xff}, 9), rapid.SampledFrom([]byte{0, 1, 2, 3, 0x7f, 0x80, 0x81}).Draw(rt, "last"))
				in = append(in, trailer(rt)...)
			case 4:
				in = []byte(rapid.OneOf(
					rapid.SampledFrom([]string{"", "-", "+", "0", "-0", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999", "1 ", " 1", "1e3", "0x10", "1_000", "１", "12a", "-12", "1.0", "\x00", "007", "1\x00"}),
					rapid.StringMatching(`[-+]?[0-9]{0,22}[ a-fx_.]?`)).Draw(rt, "text"))
			}
			c.Step("%x", in)
			keep := hx.Copy(in)
			if keep == nil {
				keep = []byte{}
			}
			in = append(make([]byte, 0, len(keep)), keep...)

			// variable-length integers against the reference
			wu, n, ok := refUvarint(keep)
			c.NonTrivialIf(len(keep) > 0 && !(ok && n == len(keep)))
			c.ClassIf(ok, "varint readable")
			c.ClassIf(!ok, "varint malformed")
			left, gu, err := compact.DecodeUvarint(in)
			if ok != (err == nil) {
				rt.Fatalf("DecodeUvarint(%x): error %v, but the input is well formed: %v", keep, err, ok)
			}
			if ok && (gu != wu || !bytes.Equal(left, keep[n:])) {
				rt.Fatalf("DecodeUvarint(%x) = %d leaving %x, want %d leaving %x", keep, gu, left, wu, keep[n:])
			}
			wi, n, ok := refVarint(keep)
			left, gi, err := compact.DecodeVarint(in)
			if ok != (err == nil) {
				rt.Fatalf("DecodeVarint(%x): error %v, but the input is well formed: %v", keep, err, ok)
			}
			if ok && (gi != wi || !bytes.Equal(left, keep[n:])) {
				rt.Fatalf("DecodeVarint(%x) = %d leaving %x, want %d leaving %x", keep, gi, left, wi, keep[n:])
			}
			// compact bytes
			wantOK := ok && wi >= 0 && wi <= int64(len(keep)-n)
			c.ClassIf(wantOK, "bytes readable")
			c.ClassIf(ok && wi < 0, "negative length")
			c.ClassIf(ok && wi > int64(len(keep)-n), "length beyond input")
			left, data, err := compact.DecodeBytes(in)
			if wantOK != (err == nil) {
				rt.Fatalf("compact.DecodeBytes(%x): error %v, but the input is well formed: %v (claimed length %d)", keep, err, wantOK, wi)
			}
			if wantOK && (!bytes.Equal(data, keep[n:n+int(wi)]) || !bytes.Equal(left, keep[n+int(wi):])) {
				rt.Fatalf("compact.DecodeBytes(%x) = %x leaving %x", keep, data, left)
			}
			// the same input with readable bytes behind it
			long := append(append(make([]byte, 0, len(keep)+32), keep...), hx.Fill(32, 1)...)[:len(keep)]
			if _, d2, err := compact.DecodeBytes(long); (err == nil) != wantOK || wantOK && !bytes.Equal(d2, data) {
				rt.Fatalf("compact.DecodeBytes(%x) depends on bytes behind the input: %x, %v", keep, d2, err)
			}
			// fixed binary
			gb, err := numeric.DecodeFromBinary(in)
			if (err == nil) != (len(keep) == 8) {
				rt.Fatalf("DecodeFromBinary(%x): %v", keep, err)
			}
			if err == nil && gb != binary.BigEndian.Uint64(keep) {
				rt.Fatalf("DecodeFromBinary(%x) = %d", keep, gb)
			}
			// human readable
			wh, okh := refHuman(keep)
			gh, err := numeric.DecodeFromHuman(in)
			if err == nil && !okh {
				rt.Fatalf("DecodeFromHuman(%q) = %d without error", keep, gh)
			}
			if err == nil && gh != wh {
				rt.Fatalf("DecodeFromHuman(%q) = %d, want %d", keep, gh, wh)
			}
			if err != nil && okh && canonicalHuman(keep, wh) {
				rt.Fatalf("DecodeFromHuman(%q): %v", keep, err)
			}
			if _, err := numeric.DecodeFromHuman(nil); err == nil {
				rt.Fatalf("DecodeFromHuman(nil) succeeds")
			}
			if !bytes.Equal(in, keep) {
				rt.Fatalf("decoding altered its input")
			}
		})
}

// refHuman reads a decimal with an optional sign.
func refHuman(b []byte) (int64, bool) {
	s := string(b)
	if s == "" {
		return 0, false
	}
	d := s
	if d[0] == '-' || d[0] == '+' {
		d = d[1:]
	}
	if d == "" {
		return 0, false
	}
	for i := 0; i < len(d); i++ {
		if d[i] < '0' || d[i] > '9' {
			return 0, false
		}
	}
	x, ok := new(big.Int).SetString(d, 10)
	if !ok {
		return 0, false
	}
	if s[0] == '-' {
		x.Neg(x)
	}
	if !x.IsInt64() {
		return 0, false
	}
	return x.Int64(), true
}

func canonicalHuman(b []byte, v int64) bool { return string(b) == fmt.Sprint(v) }
