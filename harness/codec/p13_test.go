package codec

import (
	"bytes"
	"encoding/hex"
	"testing"

	"github.com/zhiqiangxu/mondis/kv"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

// refPrefixNext adds one to the key read as a big-endian number of its length; an empty or all
// 0xFF key gets the plain successor.
func refPrefixNext(k []byte) []byte {
	n := append([]byte{}, k...)
	for i := len(n) - 1; i >= 0; i-- {
		if n[i] != 0xff {
			n[i]++
			return n
		}
		n[i] = 0
	}
	return append(append([]byte{}, k...), 0)
}

func drawKey13(rt *rapid.T, label string) []byte {
	gen := rapid.SampledFrom([]byte{0, 1, 0x7f, 0x80, 0xfe, 0xff})
	return rapid.OneOf(
		rapid.SliceOfN(gen, 0, 6),
		rapid.Custom(func(rt *rapid.T) []byte {
			return append(rapid.SliceOfN(gen, 0, 3).Draw(rt, "head"), bytes.Repeat([]byte{0xff}, rapid.SampledFrom([]int{0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31}).Draw(rt, "ff"))...)
		}),
		rapid.SliceOfN(rapid.Byte(), 0, 12),
	).Draw(rt, label)
}

func TestP13_Successors(t *testing.T) {
	hx.Run(t, hx.N{Quick: 120000}, "a non-empty key (the other key being related to it in half of the cases)",
		func(rt *rapid.T, c *hx.Case) {
			k := drawKey13(rt, "k")
			o := drawKey13(rt, "o")
			switch rapid.IntRange(0, 5).Draw(rt, "rel") {
			case 0:
				o = append(hx.Copy(k), o...)
			case 1:
				o = hx.Copy(k[:rapid.IntRange(0, len(k)).Draw(rt, "cut")])
			case 2:
				o = hx.Copy(k)
			}
			c.Step("%x %x", k, o)
			c.NonTrivialIf(len(k) > 0)
			c.ClassIf(len(k) > 0 && bytes.Count(k, []byte{0xff}) == len(k), "all 0xFF")
			c.ClassIf(len(k) > 1 && k[len(k)-1] == 0xff, "carry")
			// with spare capacity behind the key, so that sharing shows
			full := append(hx.Copy(k), 0xAB, 0xCD)
			key := kv.Key(full[:len(k)])
			keep := hx.Copy(full)
			untouched := func(what string) {
				if !bytes.Equal(full, keep) {
					rt.Fatalf("%s modified the key or the bytes behind it: %x -> %x", what, keep, full)
				}
			}
			private := func(what string, got []byte) {
				for i := range got {
					got[i] ^= 0x55
				}
				untouched("writing to the result of " + what)
				for i := range full {
					full[i] ^= 0x33
				}
				snap := hx.Copy(got)
				for i := range full {
					full[i] ^= 0x33
				}
				if !bytes.Equal(snap, got) {
					rt.Fatalf("%s shares memory with the key", what)
				}
				_ = append(got, 1, 2, 3)
				untouched("appending to the result of " + what)
			}
			next := key.Next()
			untouched("Next")
			if !bytes.Equal(next, append(hx.Copy(k), 0)) {
				rt.Fatalf("Next(%x) = %x", k, next)
			}
			if bytes.Compare(o, k) > 0 && bytes.Compare(o, next) < 0 {
				rt.Fatalf("%x lies between %x and its successor %x", o, k, next)
			}
			private("Next", next)

			pn := key.PrefixNext()
			untouched("PrefixNext")
			want := refPrefixNext(k)
			if !bytes.Equal(pn, want) {
				rt.Fatalf("PrefixNext(%x) = %x, want %x", k, pn, want)
			}
			if len(pn) == len(k) && bytes.HasPrefix(o, k) && bytes.Compare(o, pn) >= 0 {
				rt.Fatalf("%x has prefix %x but is not below PrefixNext %x", o, k, pn)
			}
			private("PrefixNext", pn)

			cl := key.Clone()
			untouched("Clone")
			if !bytes.Equal(cl, k) {
				rt.Fatalf("Clone(%x) = %x", k, cl)
			}
			private("Clone", cl)

			// what was returned stays when the other key's are computed
			h := []kv.Key{key.Next(), key.PrefixNext(), key.Clone()}
			for i, g := range []kv.Key{kv.Key(o).Next(), kv.Key(o).PrefixNext(), kv.Key(o).Clone()} {
				if w := [][]byte{append(hx.Copy(k), 0), want, k}[i]; !bytes.Equal(h[i], w) {
					rt.Fatalf("a result of %x turns from %x into %x when those of %x are computed (%x)", k, w, []byte(h[i]), o, []byte(g))
				}
			}

			if g := key.Cmp(kv.Key(o)); sign(g) != bytes.Compare(k, o) {
				rt.Fatalf("Cmp(%x,%x)=%d", k, o, g)
			}
			if g := key.HasPrefix(kv.Key(o)); g != bytes.HasPrefix(k, o) {
				rt.Fatalf("HasPrefix(%x,%x)=%v", k, o, g)
			}
			if g := kv.Key(o).HasPrefix(key); g != bytes.HasPrefix(o, k) {
				rt.Fatalf("HasPrefix(%x,%x)=%v", o, k, g)
			}
			if g := key.String(); g != hex.EncodeToString(k) {
				rt.Fatalf("String(%x)=%s", k, g)
			}
			untouched("comparing")
		})
}

func TestP13_Ranges(t *testing.T) {
	hx.Run(t, hx.N{Quick: 180000}, "a range whose end is at most one byte longer than its start",
		func(rt *rapid.T, c *hx.Case) {
			s := drawKey13(rt, "start")
			var e []byte
			switch rapid.IntRange(0, 6).Draw(rt, "end") {
			case 0:
				e = append(hx.Copy(s), 0)
			case 1:
				e = refPrefixNext(s)
			case 2:
				e = append(hx.Copy(s), rapid.Byte().Draw(rt, "x"))
			case 3:
				e = hx.Copy(s)
			case 4:
				e = drawKey13(rt, "e")
			default:
				e = refPrefixNext(s)
				if len(e) > 0 {
					i := rapid.IntRange(0, len(e)-1).Draw(rt, "i")
					e[i] = rapid.SampledFrom([]byte{0, 1, 0xff, 0xfe, e[i] + 1, e[i] - 1}).Draw(rt, "v")
				}
			}
			c.Step("%x..%x", s, e)
			c.NonTrivialIf(len(e) == len(s) && len(s) > 0 || len(e) == len(s)+1)
			want := bytes.Equal(e, append(hx.Copy(s), 0)) || (len(e) == len(s) && bytes.Equal(e, refPrefixNext(s)))
			c.ClassIf(want, "point")
			c.ClassIf(!want, "not a point")
			ks, ke := hx.Copy(s), hx.Copy(e)
			r := kv.KeyRange{StartKey: ks, EndKey: ke}
			if g := r.IsPoint(); g != want {
				rt.Fatalf("range %x..%x: IsPoint=%v want %v", s, e, g, want)
			}
			if !bytes.Equal(ks, s) || !bytes.Equal(ke, e) {
				rt.Fatalf("IsPoint modified the range")
			}
		})
}
