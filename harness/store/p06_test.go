package store

import (
	"fmt"
	"testing"

	"github.com/zhiqiangxu/mondis"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

// Small batches among other writes, committed or discarded.
func p06(t *testing.T, kind string, n hx.N) {
	l := openLive(t, kind)
	hx.Run(t, n, "a committed batch sets and deletes, with at least two operations on one key",
		func(rt *rapid.T, c *hx.Case) {
			l.fresh(300)
			model := map[string][]byte{}
			used := map[string]bool{}
			defer func() { l.clear(rt, used) }()
			key := func() string {
				if len(used) > 0 && rapid.IntRange(0, 2).Draw(rt, "known") > 0 {
					return rapid.SampledFrom(sortedKeys(used)).Draw(rt, "which")
				}
				k := string(hx.Key(rt, "k"))
				used[k] = true
				return k
			}
			same := func(where string) {
				got, err := scanAll(l.db, mondis.ProviderScanOption{}, 0)
				if err != nil {
					rt.Fatalf("scan: %v", err)
				}
				if d := diffPairs(got, wantScan(model, mondis.ProviderScanOption{}, 0)); d != "" {
					rt.Fatalf("%s %s: %s\nhistory: %s", kind, where, d, c.Trace())
				}
				for _, k := range sortedKeys(used) {
					v, ok := model[k]
					checkKey(rt, kind+" "+where, l.db, k, v, ok)
				}
			}
			direct := func() {
				k := key()
				if rapid.IntRange(0, 3).Draw(rt, "ddel") == 0 {
					c.Step("del %s", hx.QS(k))
					if err := l.db.Delete([]byte(k)); err != nil {
						rt.Fatal(err)
					}
					delete(model, k)
					return
				}
				v := hx.Value(rt, "dv")
				c.Step("set %s=%s", hx.QS(k), hx.Q(v))
				if err := l.db.Set([]byte(k), hx.Copy(v), nil); err != nil {
					rt.Fatal(err)
				}
				model[k] = v
			}
			for i := rapid.IntRange(0, 4).Draw(rt, "before"); i > 0; i-- {
				direct()
			}
			for b := rapid.IntRange(1, 3).Draw(rt, "batches"); b > 0; b-- {
				wb := l.db.WriteBatch()
				type bop struct {
					k   string
					v   []byte
					del bool
				}
				var ops []bop
				seen := map[string]int{}
				dels, sets, rep := 0, 0, false
				for i := rapid.IntRange(0, 12).Draw(rt, "ops"); i > 0; i-- {
					if rapid.IntRange(0, 9).Draw(rt, "meanwhile") == 0 {
						direct()
						c.Class("other writes meanwhile")
					}
					o := bop{k: key(), del: rapid.IntRange(0, 2).Draw(rt, "del") == 0}
					var err error
					if o.del {
						c.Step("batch del %s", hx.QS(o.k))
						err = wb.Delete([]byte(o.k))
						dels++
					} else {
						o.v = hx.Value(rt, "v")
						c.Step("batch set %s=%s", hx.QS(o.k), hx.Q(o.v))
						err = wb.Set([]byte(o.k), hx.Copy(o.v))
						sets++
					}
					if err != nil {
						rt.Fatalf("batch operation: %v", err)
					}
					seen[o.k]++
					rep = rep || seen[o.k] > 1
					ops = append(ops, o)
				}
				if rapid.IntRange(0, 2).Draw(rt, "look") == 0 {
					same("before the commit of a batch")
				}
				if rapid.IntRange(0, 3).Draw(rt, "discard") == 0 {
					c.Step("discard")
					c.Class("discard")
					wb.Discard()
					same("after a discarded batch")
					continue
				}
				c.Step("commit")
				if err := wb.Commit(); err != nil {
					rt.Fatalf("batch commit: %v", err)
				}
				for _, o := range ops {
					if o.del {
						delete(model, o.k)
					} else {
						model[o.k] = o.v
					}
				}
				same("after a committed batch")
				if rapid.Bool().Draw(rt, "discardAfter") {
					wb.Discard()
					same("after a discard that comes too late")
				}
				c.NonTrivialIf(rep && dels > 0 && sets > 0)
			}
			if rapid.IntRange(0, 20).Draw(rt, "reopen") == 20 {
				l.reopen(rt)
				same("after reopen")
				c.Class("reopen")
			}
		})
}

func TestP06_Badger(t *testing.T)  { p06(t, "badger", hx.N{Quick: 3000}) }
func TestP06_LevelDB(t *testing.T) { p06(t, "leveldb", hx.N{Quick: 6000}) }

// Batches beyond what one transaction of the store, or its write buffer, holds.
func p06Big(t *testing.T, kind string, n hx.N) {
	l := openLive(t, kind)
	hx.Run(t, n, "a batch beyond one store transaction or write buffer",
		func(rt *rapid.T, c *hx.Case) {
			used := map[string]bool{"keep": true}
			defer func() { l.clear(rt, used) }()
			if err := l.db.Set([]byte("keep"), []byte("kept"), nil); err != nil {
				rt.Fatal(err)
			}
			klen := rapid.SampledFrom([]int{2000, 10000, 60000}).Draw(rt, "klen")
			// total between 1 MB and 25 MB; one badger transaction takes about 10 MB
			nops := (rapid.SampledFrom([]int{1, 5, 9, 11, 13, 20, 25}).Draw(rt, "mb")<<20 + rapid.IntRange(0, 1<<20).Draw(rt, "bytes")) / klen
			distinct := rapid.IntRange(1, nops).Draw(rt, "distinct")
			pad := string(hx.Fill(60000, 'k'))
			salt := rapid.IntRange(1, 1<<20).Draw(rt, "salt")
			vlen := rapid.SampledFrom([]int{0, 1, 40, 3000}).Draw(rt, "vlen")
			c.Step("%d operations on %d keys of %d bytes, values of %d, salt %d", nops, distinct, klen, vlen, salt)
			c.NonTrivialIf(nops*klen > 11<<20)
			c.ClassIf(nops*klen > 11<<20, "more than one transaction")
			wb := l.db.WriteBatch()
			model := map[string]string{"keep": "kept"}
			x := uint32(salt)
			for i := 0; i < nops; i++ {
				x = x*1664525 + 1013904223
				k := fmt.Sprintf("%06d", int(x>>8)%distinct)
				var err error
				if x>>28 < 4 {
					err = wb.Delete([]byte(k + pad[:klen]))
					delete(model, k)
				} else {
					v := fmt.Sprint("v", i)
					if vlen == 0 {
						v = ""
					}
					full := make([]byte, len(v), len(v)+vlen)
					copy(full, v)
					err = wb.Set([]byte(k+pad[:klen]), append(full, pad[:vlen]...))
					model[k] = v + pad[:vlen]
				}
				used[k+pad[:klen]] = true
				if err != nil {
					rt.Fatalf("operation %d: %v", i, err)
				}
			}
			if err := wb.Commit(); err != nil {
				rt.Fatalf("commit: %v", err)
			}
			check := func(where string) {
				n := 0
				if err := l.db.Scan(mondis.ProviderScanOption{}, func(k, v []byte, _ mondis.VMetaResp) bool {
					n++
					want, ok := model[string(k[:min(6, len(k))])]
					if !ok || want != string(v) {
						rt.Fatalf("%s %s: %s=%s, want %s (%v)", kind, where, hx.Q(k), hx.Q(v), hx.QS(want), ok)
					}
					return true
				}); err != nil {
					rt.Fatal(err)
				}
				if n != len(model) {
					rt.Fatalf("%s %s: %d keys, want %d", kind, where, n, len(model))
				}
			}
			check("after a big batch")
			if rapid.IntRange(0, 2).Draw(rt, "reopen") == 0 {
				l.reopen(rt)
				check("after a big batch and a reopen")
				c.Class("reopen")
			}
		})
}

func TestP06_BigBadger(t *testing.T)  { p06Big(t, "badger", hx.N{Quick: 15, Thorough: 120}) }
func TestP06_BigLevelDB(t *testing.T) { p06Big(t, "leveldb", hx.N{Quick: 20, Thorough: 150}) }

// Batches of many small operations that fit one transaction of the store: committed entirely or,
// when discarded, not at all.
func p06Many(t *testing.T, kind string, n hx.N) {
	l := openLive(t, kind)
	hx.Run(t, n, "a batch of more than a thousand operations",
		func(rt *rapid.T, c *hx.Case) {
			used := map[string]bool{}
			defer func() { l.clear(rt, used) }()
			nops := rapid.SampledFrom([]int{50, 300, 999, 1000, 1001, 1024, 2048, 4100, 8200, 16400}).Draw(rt, "nops") + hx.Uniform(rt, "more", 60)
			distinct := rapid.SampledFrom([]int{7, 400, 100000}).Draw(rt, "distinct")
			delEvery := rapid.SampledFrom([]int{2, 5, 1 << 20}).Draw(rt, "delEvery")
			vlen := rapid.SampledFrom([]int{0, 5, 300}).Draw(rt, "vlen")
			commit := rapid.Bool().Draw(rt, "commit")
			x := uint32(hx.Uniform(rt, "salt", 1<<20))
			c.Step("%d operations on up to %d keys, a deletion every %d, values of %d bytes, commit %v", nops, distinct, delEvery, vlen, commit)
			c.NonTrivialIf(nops > 1000)
			c.ClassIf(!commit, "discard")
			model, before := map[string]string{}, map[string]string{}
			for i := 0; i < 5; i++ {
				k := fmt.Sprintf("k%06d", i)
				used[k] = true
				before[k], model[k] = "before", "before"
				if err := l.db.Set([]byte(k), []byte("before"), nil); err != nil {
					rt.Fatal(err)
				}
			}
			wb := l.db.WriteBatch()
			for i := 0; i < nops; i++ {
				x = x*1664525 + 1013904223
				k := fmt.Sprintf("k%06d", int(x>>8)%distinct)
				used[k] = true
				var err error
				if i%delEvery == delEvery-1 {
					err = wb.Delete([]byte(k))
					delete(model, k)
				} else {
					v := fmt.Sprintf("%d.%s", i, hx.Fill(vlen, 'v'))
					err = wb.Set([]byte(k), []byte(v))
					model[k] = v
				}
				if err != nil {
					rt.Fatalf("operation %d: %v", i, err)
				}
			}
			check := func(where string, model map[string]string) {
				n := 0
				if err := l.db.Scan(mondis.ProviderScanOption{}, func(k, v []byte, _ mondis.VMetaResp) bool {
					n++
					want, ok := model[string(k)]
					if !ok || want != string(v) {
						rt.Fatalf("%s %s: %s=%s, want %s (%v)", kind, where, hx.Q(k), hx.Q(v), hx.QS(want), ok)
					}
					return true
				}); err != nil {
					rt.Fatal(err)
				}
				if n != len(model) {
					rt.Fatalf("%s %s: %d keys, want %d", kind, where, n, len(model))
				}
			}
			if commit {
				if err := wb.Commit(); err != nil {
					rt.Fatalf("commit: %v", err)
				}
				check("after a batch", model)
			} else {
				wb.Discard()
				check("after a discarded batch", before)
			}
		})
}

func TestP06_ManyBadger(t *testing.T)  { p06Many(t, "badger", hx.N{Quick: 40, Thorough: 500}) }
func TestP06_ManyLevelDB(t *testing.T) { p06Many(t, "leveldb", hx.N{Quick: 60, Thorough: 800}) }
