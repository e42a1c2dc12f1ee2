package codec

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/zhiqiangxu/mondis/document"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/document/keyspace"
	"github.com/zhiqiangxu/mondis/kv"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

// named is what a storage key names.
type named struct {
	kind   string // doc, iname, columns, seq, cname, index
	cid    int64
	n      int64  // document or index id
	s      string // name or keyword
	fields []document.IndexField
}

// ident is equal for two things exactly when they are the same thing.
func (x named) ident() string {
	switch x.kind {
	case "doc":
		return fmt.Sprintf("doc %d %d", x.cid, x.n)
	case "iname":
		return fmt.Sprintf("iname %d %q", x.cid, x.s)
	case "columns":
		fs := append([]document.IndexField{}, x.fields...)
		sort.Slice(fs, func(i, j int) bool {
			return fs[i].Name < fs[j].Name || fs[i].Name == fs[j].Name && !fs[i].Desc && fs[j].Desc
		})
		s := fmt.Sprintf("columns %d", x.cid)
		for _, f := range fs {
			s += fmt.Sprintf(" %q", f.Name)
			if f.Desc && len(fs) > 1 {
				s += "desc"
			}
		}
		return s
	case "seq":
		return fmt.Sprintf("seq %q", x.s)
	case "cname":
		return fmt.Sprintf("cname %q", x.s)
	default:
		return fmt.Sprintf("index %d", x.n)
	}
}

type keyAPI struct {
	name       string
	docPrefix  func([]byte, int64) kv.Key
	doc        func([]byte, int64, int64) kv.Key
	ixPrefix   func([]byte, int64) kv.Key
	seq        func([]byte, []byte) kv.Key
	cname      func([]byte, string) kv.Key
	index      func([]byte, int64) kv.Key
	inPrefix   func([]byte, int64) kv.Key
	iname      func([]byte, int64, string) kv.Key
	decIname   func(kv.Key) (int64, []byte, error)
	hasColumns bool
	hasDecDoc  bool
}

var keyAPIs = []keyAPI{
	{"dml", dml.AppendCollectionDocumentPrefix, dml.EncodeCollectionDocumentKey, dml.AppendCollectionIndexDataPrefix, dml.EncodeMetaSequenceKey,
		dml.EncodeMetaCollectionName2IDKey, dml.EncodeMetaIndexKey, dml.AppendCollectionIndexNamePrefix, dml.EncodeCollectionIndexName2IDKey, dml.DecodeCollectionIndexName2IDKey, false, true},
	{"document", document.AppendCollectionDocumentPrefix, document.EncodeCollectionDocumentKey, document.AppendCollectionIndexDataPrefix, document.EncodeMetaSequenceKey,
		document.EncodeMetaCollectionName2IDKey, document.EncodeMetaIndexKey, document.AppendCollectionIndexNamePrefix, document.EncodeCollectionIndexName2IDKey, document.DecodeCollectionIndexName2IDKey, true, false},
}

func (a keyAPI) encode(buf []byte, x named) kv.Key {
	switch x.kind {
	case "doc":
		return a.doc(buf, x.cid, x.n)
	case "iname":
		return a.iname(buf, x.cid, x.s)
	case "columns":
		return document.EncodeCollectionColumnsIndexedKey(buf, x.cid, x.fields)
	case "seq":
		return a.seq(buf, []byte(x.s))
	case "cname":
		return a.cname(buf, x.s)
	default:
		return a.index(buf, x.n)
	}
}

func smallID(rt *rapid.T, label string) int64 {
	if rapid.IntRange(0, 2).Draw(rt, label+"Kind") > 0 {
		return rapid.SampledFrom([]int64{0, 1, 2, 255, 256, -1, 1 << 56, 0x5f64, 0x5f69645f}).Draw(rt, label)
	}
	return hx.Int64(rt, label)
}

var nameGen = rapid.OneOf(
	rapid.SampledFrom([]string{"", "a", "ab", "a\x00", "\x00", "\xff", "_d", "_in", "_ci", "abcdefgh", "abcdefghi", "collection", "index", "id", "_cn2id", "n"}),
	rapid.Map(rapid.SliceOfN(rapid.Byte(), 0, 18), func(b []byte) string { return string(b) }),
)

func drawFields(rt *rapid.T) []document.IndexField {
	names := rapid.SliceOfNDistinct(rapid.OneOf(rapid.SampledFrom([]string{"a", "b", "ab", "", "\x01a", "c"}), nameGen), 1, 4, func(s string) string { return s }).Draw(rt, "columns")
	fs := make([]document.IndexField, 0, len(names)+2)
	for _, n := range names {
		fs = append(fs, document.IndexField{Name: n, Desc: rapid.Bool().Draw(rt, "desc")})
	}
	if len(fs) > 1 && hx.Uniform(rt, "again", 4) == 0 { // a column may be named more than once
		fs = append(fs, document.IndexField{Name: fs[0].Name, Desc: rapid.Bool().Draw(rt, "desc")})
	}
	return fs
}

func drawNamed(rt *rapid.T, a keyAPI) named {
	kinds := []string{"doc", "iname", "seq", "cname", "index"}
	if a.hasColumns {
		kinds = append(kinds, "columns", "columns")
	}
	x := named{kind: rapid.SampledFrom(kinds).Draw(rt, "kind"), cid: smallID(rt, "cid"), n: smallID(rt, "n"), s: nameGen.Draw(rt, "s")}
	if x.kind == "columns" {
		x.fields = drawFields(rt)
	}
	return x
}

func TestP26_KeysDistinct(t *testing.T) {
	hx.Run(t, hx.N{Quick: 120000}, "two different named things (often of different kinds, or differing in one part)",
		func(rt *rapid.T, c *hx.Case) {
			a := keyAPIs[rapid.IntRange(0, len(keyAPIs)-1).Draw(rt, "api")]
			x := drawNamed(rt, a)
			y := drawNamed(rt, a)
			if rapid.IntRange(0, 3).Draw(rt, "sameKind") == 0 { // differ in one part at most
				y = x
				switch rapid.IntRange(0, 3).Draw(rt, "part") {
				case 0:
					y.cid = smallID(rt, "cid2")
				case 1:
					y.n = smallID(rt, "n2")
				case 2:
					y.s = x.s + nameGen.Draw(rt, "more")
				case 3:
					if x.fields != nil {
						y.fields = rapid.Permutation(x.fields).Draw(rt, "perm")
						if rapid.Bool().Draw(rt, "flip") {
							y.fields = append([]document.IndexField{}, y.fields...)
							y.fields[0].Desc = !y.fields[0].Desc
						}
					}
				}
			}
			if x.fields != nil {
				x.fields = append([]document.IndexField{}, x.fields...)
			}
			ix, iy := x.ident(), y.ident()
			c.Step("%s: %s | %s", a.name, ix, iy)
			c.NonTrivialIf(ix != iy)
			c.Class(x.kind + "/" + y.kind)

			fx := append([]document.IndexField{}, x.fields...)
			sx := x.s
			buf, kind := buffer(rt)
			c.Class(kind)
			pre := hx.Copy(buf)
			kx := a.encode(nil, x)
			if len(x.fields) > 0 && !reflect.DeepEqual(fx, x.fields) {
				rt.Fatalf("building the key of %s changed the caller's column list: %v -> %v", ix, fx, x.fields)
			}
			ky := a.encode(nil, y)
			if (ix == iy) != bytes.Equal(kx, ky) {
				rt.Fatalf("%s and %s: keys %x and %x", ix, iy, kx, ky)
			}
			into := a.encode(buf, x)
			if !bytes.Equal(buf, pre) || !bytes.Equal(into, append(hx.Copy(pre), kx...)) {
				rt.Fatalf("building the key of %s in buffer %x gives %x, want it followed by %x", ix, pre, into, kx)
			}
			if x.s != sx {
				rt.Fatalf("building a key changed the caller's name")
			}

			// collections' and metadata keys stay in their own key spaces
			for _, z := range []struct {
				n named
				k kv.Key
			}{{x, kx}, {y, ky}} {
				own, other := keyspace.MetaPrefix, keyspace.CollectionPrefix
				if z.n.kind == "doc" || z.n.kind == "iname" || z.n.kind == "columns" {
					own, other = other, own
				}
				if !strings.HasPrefix(string(z.k), own) || strings.HasPrefix(string(z.k), other) {
					rt.Fatalf("%s: key %q is not (only) in the key space %q", z.n.ident(), z.k, own)
				}
			}
			for _, f := range []func([]byte, int64) kv.Key{a.docPrefix, a.inPrefix, a.ixPrefix} {
				p, q := f(nil, x.cid), f(nil, y.cid)
				if !strings.HasPrefix(string(p), keyspace.CollectionPrefix) || strings.HasPrefix(string(p), keyspace.MetaPrefix) {
					rt.Fatalf("prefix %q of collection %d is not in the collections' key space", p, x.cid)
				}
				if (x.cid == y.cid) != bytes.Equal(p, q) || x.cid != y.cid && (bytes.HasPrefix(p, q) || bytes.HasPrefix(q, p)) {
					rt.Fatalf("collections %d and %d have prefixes %x and %x", x.cid, y.cid, p, q)
				}
			}

			// prefixes: exactly the collection's own documents and index names lie under them
			for _, cid := range []int64{x.cid, y.cid} {
				dp, np, xp := a.docPrefix(nil, cid), a.inPrefix(nil, cid), a.ixPrefix(nil, cid)
				for _, z := range []struct {
					n named
					k kv.Key
				}{{x, kx}, {y, ky}} {
					if got, want := bytes.HasPrefix(z.k, dp), z.n.kind == "doc" && z.n.cid == cid; got != want {
						rt.Fatalf("%s: key %x under the document prefix of collection %d: %v", z.n.ident(), z.k, cid, got)
					}
					if got, want := bytes.HasPrefix(z.k, np), z.n.kind == "iname" && z.n.cid == cid; got != want {
						rt.Fatalf("%s: key %x under the index-name prefix of collection %d: %v", z.n.ident(), z.k, cid, got)
					}
					if bytes.HasPrefix(z.k, xp) {
						rt.Fatalf("%s: key %x under the index-data prefix of collection %d", z.n.ident(), z.k, cid)
					}
				}
				for i, p := range []kv.Key{dp, np, xp} {
					for j, q := range []kv.Key{dp, np, xp} {
						if i != j && bytes.HasPrefix(p, q) {
							rt.Fatalf("prefix %x lies under prefix %x", p, q)
						}
					}
				}
				pb, _ := buffer(rt)
				pp := hx.Copy(pb)
				for i, f := range []func([]byte, int64) kv.Key{a.docPrefix, a.inPrefix, a.ixPrefix} {
					want := []kv.Key{dp, np, xp}[i]
					if got := f(pb, cid); !bytes.Equal(got, append(hx.Copy(pp), want...)) || !bytes.Equal(pb, pp) {
						rt.Fatalf("prefix into buffer %x gives %x", pp, got)
					}
				}
			}
			if x.kind == "doc" && y.kind == "doc" && x.cid == y.cid && bytes.Compare(kx, ky) != cmpI(x.n, y.n) {
				rt.Fatalf("documents %d and %d of one collection: keys order %d", x.n, y.n, bytes.Compare(kx, ky))
			}
		})
}

func TestP26_KeysDecode(t *testing.T) {
	hx.Run(t, hx.N{Quick: 180000}, "a key that was corrupted, truncated, extended or is of another kind",
		func(rt *rapid.T, c *hx.Case) {
			a := keyAPIs[rapid.IntRange(0, len(keyAPIs)-1).Draw(rt, "api")]
			x := drawNamed(rt, a)
			if rapid.Bool().Draw(rt, "decodable") {
				x.kind = rapid.SampledFrom([]string{"doc", "iname"}).Draw(rt, "kind2")
			}
			k := []byte(a.encode(nil, x))
			intact := rapid.IntRange(0, 3).Draw(rt, "intact") == 0
			if !intact {
				switch rapid.IntRange(0, 4).Draw(rt, "damage") {
				case 0:
					k = k[:rapid.IntRange(0, len(k)-1).Draw(rt, "cut")]
				case 1:
					k = append(k, rapid.SliceOfN(rapid.Byte(), 1, 9).Draw(rt, "more")...)
				case 2:
					k[rapid.IntRange(0, len(k)-1).Draw(rt, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
				case 3:
					k = append([]byte("_md_c"), rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "raw")...)
				case 4:
					i := rapid.IntRange(0, len(k)-1).Draw(rt, "del")
					k = append(k[:i:i], k[i+1:]...)
				}
			}
			k = append(make([]byte, 0, len(k)), k...)
			keep := hx.Copy(k)
			c.Step("%s %s %x", a.name, x.kind, k)
			c.NonTrivialIf(!intact || x.kind != "doc" && x.kind != "iname")
			check := func(what string, kind string, err error, again func() []byte) {
				if !bytes.Equal(k, keep) {
					rt.Fatalf("%s modified the key", what)
				}
				if intact && x.kind == kind && err != nil {
					rt.Fatalf("%s(%x): %v", what, keep, err)
				}
				if intact && x.kind != kind && err == nil {
					rt.Fatalf("%s accepts %x, the key of %s", what, keep, x.ident())
				}
				if err == nil {
					c.Class("accepted " + kind)
					if g := again(); !bytes.Equal(g, keep) {
						rt.Fatalf("%s accepts %x, which is not a key: the parts it returns have key %x", what, keep, g)
					}
				} else {
					c.Class("rejected")
				}
			}
			if a.hasDecDoc {
				cid, did, err := dml.DecodeCollectionDocumentKey(k)
				check("DecodeCollectionDocumentKey", "doc", err, func() []byte { return a.doc(nil, cid, did) })
				if intact && x.kind == "doc" && (cid != x.cid || did != x.n) {
					rt.Fatalf("document key of %d/%d decodes to %d/%d", x.cid, x.n, cid, did)
				}
			}
			cid, in, err := a.decIname(k)
			check("DecodeCollectionIndexName2IDKey", "iname", err, func() []byte { return a.iname(nil, cid, string(in)) })
			if intact && x.kind == "iname" && (cid != x.cid || string(in) != x.s) {
				rt.Fatalf("index-name key of %d/%q decodes to %d/%q", x.cid, x.s, cid, in)
			}
			if err == nil { // the name stays when another one is decoded
				was, other := hx.Copy(in), nameGen.Draw(rt, "other")
				if _, _, err := a.decIname(a.iname(nil, cid, other)); err != nil {
					rt.Fatalf("the index-name key of %d/%q does not decode: %v", cid, other, err)
				}
				if !bytes.Equal(in, was) {
					rt.Fatalf("the decoded name %q turns into %q when %q is decoded", was, in, other)
				}
			}
		})
}
