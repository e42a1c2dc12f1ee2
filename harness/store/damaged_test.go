package store

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"testing"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/provider"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

// A leveldb directory is damaged while it is closed. leveldb checks what it reads, so every read
// ends with an error or with what was written.
func damaged(t *testing.T, rule string, n hx.N, look func(rt *rapid.T, c *hx.Case, db mondis.KVDB, model map[string][]byte) (failed, fine bool)) {
	hx.Run(t, n, rule,
		func(rt *rapid.T, c *hx.Case) {
			dir := hx.Scratch(t, "damaged")
			defer os.RemoveAll(dir)
			open := func() (mondis.KVDB, error) {
				db := provider.NewLevelDB()
				return db, db.Open(mondis.KVOption{Dir: dir})
			}
			model := map[string][]byte{}
			groups := rapid.IntRange(1, 3).Draw(rt, "opens")
			for g := 0; g < groups; g++ {
				db, err := open()
				if err != nil {
					rt.Fatalf("open: %v", err)
				}
				for i := rapid.IntRange(1, 300).Draw(rt, "entries"); i > 0; i-- {
					k := fmt.Sprintf("%c%04d", 'a'+i%3, i*7+g)
					v := []byte(fmt.Sprintf("%d.%d.%0*d", g, i, i%97, i))
					if err := db.Set([]byte(k), hx.Copy(v), nil); err != nil {
						rt.Fatalf("set: %v", err)
					}
					model[k] = v
				}
				if err := db.Close(); err != nil {
					rt.Fatalf("close: %v", err)
				}
			}
			// what is in the log becomes a table when the store is opened
			db, err := open()
			if err != nil {
				rt.Fatalf("open: %v", err)
			}
			if err := db.Close(); err != nil {
				rt.Fatalf("close: %v", err)
			}
			tables, _ := filepath.Glob(filepath.Join(dir, "*.ldb"))
			if len(tables) == 0 {
				c.Class("no table")
				return
			}
			sort.Strings(tables)
			f := rapid.SampledFrom(tables).Draw(rt, "table")
			b, err := os.ReadFile(f)
			if err != nil {
				hx.Infra("read: %v", err)
			}
			for n := rapid.IntRange(1, 3).Draw(rt, "flips"); n > 0; n-- {
				at := rapid.IntRange(0, len(b)-1).Draw(rt, "at")
				b[at] ^= byte(rapid.IntRange(1, 255).Draw(rt, "xor"))
				c.Step("%s of %d bytes damaged at %d", filepath.Base(f), len(b), at)
			}
			if err := os.WriteFile(f, b, 0644); err != nil {
				hx.Infra("write: %v", err)
			}
			db, err = open()
			if err != nil {
				c.Class("not opened")
				return
			}
			defer db.Close()
			failed, fine := look(rt, c, db, model)
			c.ClassIf(failed, "reads that fail")
			c.ClassIf(fine, "reads that succeed")
			c.NonTrivialIf(failed)
		})
}

func TestP02_DamagedLevelDB(t *testing.T) {
	damaged(t, "a scan meets the damage", hx.N{Quick: 300, Thorough: 4000},
		func(rt *rapid.T, c *hx.Case, db mondis.KVDB, model map[string][]byte) (failed, fine bool) {
			keys := sortedKeys(model)
			for i := rapid.IntRange(2, 6).Draw(rt, "scans"); i > 0; i-- {
				o := mondis.ProviderScanOption{}
				if rapid.Bool().Draw(rt, "prefixed") {
					o.Prefix = []byte(rapid.SampledFrom([]string{"a", "b", "c", "a0", "zz"}).Draw(rt, "prefix"))
				}
				if rapid.Bool().Draw(rt, "from") {
					o.Offset = []byte(rapid.SampledFrom(keys).Draw(rt, "offset"))
				}
				limit := rapid.SampledFrom([]int{0, 0, 0, 3, 50}).Draw(rt, "limit")
				c.Step("scan %s limit %d", optString(o), limit)
				got, err := scanAll(db, o, limit)
				want := wantScan(model, o, limit)
				if err != nil {
					failed = true
					if len(got) > len(want) {
						rt.Fatalf("a failing scan %s visits %d entries, there are %d", optString(o), len(got), len(want))
					}
					want = want[:len(got)]
				} else {
					fine = true
				}
				if d := diffPairs(got, want); d != "" {
					rt.Fatalf("scan %s limit %d of a damaged store (error %v): %s", optString(o), limit, err, d)
				}
			}
			return
		})
}

func TestP01_DamagedLevelDB(t *testing.T) {
	damaged(t, "a read meets the damage", hx.N{Quick: 300, Thorough: 4000},
		func(rt *rapid.T, c *hx.Case, db mondis.KVDB, model map[string][]byte) (failed, fine bool) {
			for _, k := range append(sortedKeys(model), "absent", "a", "zz") {
				want, ok := model[k]
				v, _, err := db.Get([]byte(k))
				switch {
				case err == nil && ok && string(v) == string(want):
					fine = true
				case err == kv.ErrKeyNotFound && !ok:
				case err != nil && err != kv.ErrKeyNotFound:
					failed = true
				default:
					rt.Fatalf("a damaged store answers get %s with %s, %v, want %s (there: %v)", k, hx.Q(v), err, hx.Q(want), ok)
				}
				if e, err := db.Exists([]byte(k)); err == nil && e != ok {
					rt.Fatalf("a damaged store answers exists %s with %v", k, e)
				} else if err == kv.ErrKeyNotFound {
					rt.Fatalf("a damaged store answers exists %s with %v", k, err)
				}
			}
			return
		})
}
