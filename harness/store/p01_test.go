package store

import (
	"fmt"
	"sync"
	"testing"

	"github.com/zhiqiangxu/mondis"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

func p01(t *testing.T, kind string, n hx.N, reopenOdds int) {
	l := openLive(t, kind)
	hx.Run(t, n, "a history that overwrites a key, deletes a present key and reads keys sharing a prefix",
		func(rt *rapid.T, c *hx.Case) {
			l.fresh(500)
			model := map[string][]byte{}
			used := map[string]bool{}
			defer func() { l.clear(rt, used) }()
			over, del, empty := false, false, false
			for steps := rapid.IntRange(1, 30).Draw(rt, "steps"); steps > 0; steps-- {
				k := string(hx.Key(rt, "k"))
				if len(used) > 0 && rapid.IntRange(0, 2).Draw(rt, "known") > 0 {
					ks := make([]string, 0, len(used))
					for u := range used {
						ks = append(ks, u)
					}
					k = rapid.SampledFrom(sorted(ks)).Draw(rt, "which")
				}
				switch op := rapid.IntRange(0, 9).Draw(rt, "op"); {
				case op < 5:
					v := hx.Value(rt, "v")
					kb, vb := []byte(k), hx.Copy(v)
					_, had := model[k]
					over = over || had
					empty = empty || len(v) == 0
					used[k] = true
					if err := l.db.Set(kb, vb, nil); err != nil {
						rt.Fatalf("Set(%s,%s): %v", hx.QS(k), hx.Q(v), err)
					}
					if string(kb) != k || string(vb) != string(v) {
						rt.Fatalf("Set changed the caller's slices")
					}
					scribble(kb)
					scribble(vb)
					model[k] = v
					c.Step("set %s=%s", hx.QS(k), hx.Q(v))
				case op < 7:
					_, had := model[k]
					del = del || had
					used[k] = true
					kb := []byte(k)
					if err := l.db.Delete(kb); err != nil {
						rt.Fatalf("Delete(%s): %v", hx.QS(k), err)
					}
					scribble(kb)
					delete(model, k)
					c.Step("del %s", hx.QS(k))
				case op == 7 && rapid.IntRange(0, reopenOdds).Draw(rt, "reopen") == reopenOdds:
					l.reopen(rt)
					c.Step("reopen")
					c.Class("reopen")
				default:
					c.Step("get %s", hx.QS(k))
				}
				v, ok := model[k]
				checkKey(rt, kind, l.db, k, v, ok)
				if rapid.IntRange(0, 4).Draw(rt, "all") == 0 || steps == 1 {
					for _, u := range sortedKeys(used) {
						v, ok := model[u]
						checkKey(rt, kind, l.db, u, v, ok)
					}
				}
			}
			got, err := scanAll(l.db, mondis.ProviderScanOption{}, 0)
			if err != nil {
				rt.Fatalf("scan: %v", err)
			}
			if d := diffPairs(got, wantScan(model, mondis.ProviderScanOption{}, 0)); d != "" {
				rt.Fatalf("%s holds something else than was written: %s", kind, d)
			}
			c.NonTrivialIf(over && del)
			c.ClassIf(empty, "empty values")
		})
}

func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0x5a
	}
}

func TestP01_Badger(t *testing.T)  { p01(t, "badger", hx.N{Quick: 3000}, 12) }
func TestP01_LevelDB(t *testing.T) { p01(t, "leveldb", hx.N{Quick: 6000}, 6) }

// Goroutines working on their own keys, which share prefixes, never affect each other.
func p01Concurrent(t *testing.T, kind string, n hx.N) {
	l := openLive(t, kind)
	type op struct {
		k, v string
		del  bool
	}
	hx.Run(t, n, "at least three goroutines that each overwrite or delete one of their keys",
		func(rt *rapid.T, c *hx.Case) {
			used := map[string]bool{}
			defer func() { l.clear(rt, used) }()
			nw := rapid.IntRange(2, 6).Draw(rt, "workers")
			plans := make([][]op, nw)
			final := map[string]*string{}
			busy := 0
			for w := range plans {
				seen := map[string]bool{}
				rep := false
				for n := rapid.IntRange(1, 8).Draw(rt, "ops"); n > 0; n-- {
					o := op{k: string(hx.SmallKey(rt, "k")) + fmt.Sprint(w), v: string(hx.Value(rt, "v")), del: rapid.IntRange(0, 3).Draw(rt, "del") == 0}
					rep = rep || seen[o.k]
					seen[o.k] = true
					used[o.k] = true
					plans[w] = append(plans[w], o)
					if o.del {
						final[o.k] = nil
					} else {
						v := o.v
						final[o.k] = &v
					}
				}
				if rep {
					busy++
				}
				c.Step("worker %d: %q", w, fmt.Sprint(plans[w]))
			}
			c.NonTrivialIf(nw >= 3 && busy > 0)
			errs := make(chan error, nw)
			var wg sync.WaitGroup
			for w := range plans {
				wg.Add(1)
				go func(plan []op) {
					defer wg.Done()
					for _, o := range plan {
						if o.del {
							if err := l.db.Delete([]byte(o.k)); err != nil {
								errs <- fmt.Errorf("delete %q: %v", o.k, err)
								return
							}
							if ok, err := l.db.Exists([]byte(o.k)); ok || err != nil {
								errs <- fmt.Errorf("%q exists after its delete (%v)", o.k, err)
								return
							}
							continue
						}
						if err := l.db.Set([]byte(o.k), []byte(o.v), nil); err != nil {
							errs <- fmt.Errorf("set %q: %v", o.k, err)
							return
						}
						if v, _, err := l.db.Get([]byte(o.k)); err != nil || string(v) != o.v {
							errs <- fmt.Errorf("%q reads %q, %v after writing %q", o.k, v, err, o.v)
							return
						}
					}
				}(plans[w])
			}
			wg.Wait()
			close(errs)
			for err := range errs {
				rt.Fatalf("%s: %v", kind, err)
			}
			for k, v := range final {
				if v == nil {
					checkKey(rt, kind, l.db, k, nil, false)
				} else {
					checkKey(rt, kind, l.db, k, []byte(*v), true)
				}
			}
		})
}

func TestP01_ConcurrentBadger(t *testing.T)  { p01Concurrent(t, "badger", hx.N{Quick: 150}) }
func TestP01_ConcurrentLevelDB(t *testing.T) { p01Concurrent(t, "leveldb", hx.N{Quick: 300}) }
