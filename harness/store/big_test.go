package store

import (
	"fmt"
	"testing"

	"github.com/zhiqiangxu/mondis"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

// p01Big uses long keys that differ in their last bytes only, and values of up to some MB.
func p01Big(t *testing.T, kind string, n hx.N) {
	l := openLive(t, kind)
	hx.Run(t, n, "at least three keys of more than 100 bytes or values of more than 64 KB are there at once",
		func(rt *rapid.T, c *hx.Case) {
			l.fresh(25)
			model := map[string][]byte{}
			used := map[string]bool{}
			defer func() { l.clear(rt, used) }()
			base := hx.Fill(rapid.SampledFrom([]int{1, 60, 127, 128, 253, 254, 255, 256, 257, 1000, 4095, 4096, 20000, 64990}).Draw(rt, "base"), rapid.Byte().Draw(rt, "fill"))
			base[0] = 'k' // badger keeps a prefix to itself
			var keys []string
			for _, s := range []string{"", "\x00", "a", "a\xff", "b", "\xff", "\xff\xff"} {
				keys = append(keys, string(base)+s)
			}
			keys = append(keys, string(base[:(len(base)+1)/2]), "short")
			c.Step("keys of about %d bytes", len(base))
			for k := rapid.IntRange(3, 12).Draw(rt, "steps"); k > 0; k-- {
				key := keys[hx.Uniform(rt, "key", len(keys))]
				used[key] = true
				switch op := hx.Uniform(rt, "op", 10); {
				case op < 6:
					sizes := []int{0, 1, 32, 33, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 100000, 1<<20 - 1, 1 << 20, 1<<20 + 1, 3 << 20}
					v := hx.Fill(sizes[hx.Uniform(rt, "size", len(sizes))], rapid.Byte().Draw(rt, "value"))
					kb, vb := []byte(key), hx.Copy(v)
					if err := l.db.Set(kb, vb, nil); err != nil {
						rt.Fatalf("set %s, %d bytes: %v", hx.QS(key), len(v), err)
					}
					scribble(kb)
					scribble(vb)
					model[key] = v
					c.Step("set ..%q, %d bytes", key[len(key)-1:], len(v))
				case op < 8:
					if err := l.db.Delete([]byte(key)); err != nil {
						rt.Fatalf("delete %s: %v", hx.QS(key), err)
					}
					delete(model, key)
					c.Step("delete ..%q", key[len(key)-1:])
				case op == 8:
					l.reopen(rt)
					c.Step("reopen")
					c.Class("reopen")
				}
				checkKey(rt, kind, l.db, key, model[key], has(model, key))
			}
			big := 0
			for k, v := range model {
				if len(k) > 100 || len(v) > 65536 {
					big++
				}
			}
			c.NonTrivialIf(big >= 3)
			for _, k := range keys {
				checkKey(rt, kind, l.db, k, model[k], has(model, k))
			}
			got, err := scanAll(l.db, mondis.ProviderScanOption{}, 0)
			if err != nil {
				rt.Fatalf("scan: %v", err)
			}
			if d := diffPairs(got, wantScan(model, mondis.ProviderScanOption{}, 0)); d != "" {
				rt.Fatalf("%s holds something else than was written: %.1000s", kind, d)
			}
		})
}

func has(m map[string][]byte, k string) bool { _, ok := m[k]; return ok }

func TestP01_BigBadger(t *testing.T)  { p01Big(t, "badger", hx.N{Quick: 150}) }
func TestP01_BigLevelDB(t *testing.T) { p01Big(t, "leveldb", hx.N{Quick: 250}) }

// p02Big scans stores of up to thousands of keys, in several tables, with hundreds of pending writes.
func p02Big(t *testing.T, kind string, n hx.N) {
	l := openLive(t, kind)
	hx.Run(t, n, "more than two hundred entries are visited, and some left out",
		func(rt *rapid.T, c *hx.Case) {
			l.fresh(6)
			used := map[string]bool{}
			defer func() { l.clear(rt, used) }()
			model := map[string][]byte{}
			x := uint32(hx.Uniform(rt, "salt", 1<<20))
			next := func(n int) int {
				x = x*1664525 + 1013904223
				return int(x>>8) % n
			}
			count := rapid.SampledFrom([]int{150, 300, 1100, 3000}).Draw(rt, "count")
			size := rapid.SampledFrom([]int{1, 30, 400, 1500}).Draw(rt, "size")
			key := func() string {
				i := next(count)
				return fmt.Sprintf("%c%c%03d", "ab\xff"[i%3], "\x00m\xff"[(i/3)%3], i)
			}
			c.Step("%d keys, values of %d bytes, salt %d", count, size, x)
			write := func(set func(k, v []byte) error, del func(k []byte) error, n int) {
				for ; n > 0; n-- {
					k := key()
					used[k] = true
					var err error
					if next(4) == 0 {
						err = del([]byte(k))
						delete(model, k)
					} else {
						v := hx.Fill(1+next(size), byte(n))
						err = set([]byte(k), v)
						model[k] = v
					}
					if err != nil {
						rt.Fatalf("filling: %v", err)
					}
				}
			}
			wb := l.db.WriteBatch()
			write(wb.Set, wb.Delete, 2*count)
			if err := wb.Commit(); err != nil {
				rt.Fatalf("batch: %v", err)
			}
			if rapid.IntRange(0, 3).Draw(rt, "reopen") == 0 {
				l.reopen(rt)
				c.Class("reopen")
			}
			write(func(k, v []byte) error { return l.db.Set(k, v, nil) }, l.db.Delete, rapid.SampledFrom([]int{0, 20, 300}).Draw(rt, "more"))
			var db reader = l.db
			where := kind
			if kind == "badger" && rapid.Bool().Draw(rt, "inTxn") {
				txn := l.db.NewTransaction(true)
				defer txn.Discard()
				write(func(k, v []byte) error { return txn.Set(k, v, nil) }, func(k []byte) error { return txn.Delete(k) },
					rapid.SampledFrom([]int{0, 10, 500}).Draw(rt, "pending"))
				db, where = txn, "transaction"
				c.Class("in transaction")
			}
			for n := rapid.IntRange(2, 6).Draw(rt, "scans"); n > 0; n-- {
				o := mondis.ProviderScanOption{Reverse: kind == "badger" && rapid.Bool().Draw(rt, "reverse")}
				part := func(label string) []byte {
					k := []byte(key())
					return k[:rapid.SampledFrom([]int{1, 1, 2, 2, 3, len(k)}).Draw(rt, label)]
				}
				if rapid.Bool().Draw(rt, "hasPrefix") {
					o.Prefix = part("prefix")
				}
				if rapid.Bool().Draw(rt, "hasOffset") {
					o.Offset = part("offset")
				}
				limit := rapid.SampledFrom([]int{0, 0, 0, 99, 100, 101, 500}).Draw(rt, "limit")
				c.Step("scan %s limit %d", optString(o), limit)
				got, err := scanAll(db, o, limit)
				if err != nil {
					rt.Fatalf("%s: scan %s: %v", where, optString(o), err)
				}
				want := wantScan(model, o, limit)
				if d := diffPairs(got, want); d != "" {
					rt.Fatalf("%s: scan %s limit %d of %d keys: %.1000s\nhistory: %s", where, optString(o), limit, len(model), d, c.Trace())
				}
				c.NonTrivialIf(len(want) > 200 && len(want) < len(model))
			}
		})
}

func TestP02_BigBadger(t *testing.T)  { p02Big(t, "badger", hx.N{Quick: 40}) }
func TestP02_BigLevelDB(t *testing.T) { p02Big(t, "leveldb", hx.N{Quick: 60}) }
