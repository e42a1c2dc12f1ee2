package seqs

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

type docHolder struct {
	*owner
	s *document.Sequence
}

func p18(t *testing.T, n hx.N, badger bool) {
	var shared mondis.KVDB
	if badger {
		db, done := badgerDB(t)
		defer done()
		shared = db
	}
	run := 0
	hx.Run(t, n, "identifiers are handed out by more than one holder of a keyword, or after a restart, a release or a failed commit",
		func(rt *rapid.T, c *hx.Case) {
			run++
			var mem *hx.MemKV
			db := shared
			keys := []string{"k", "kk", "k\x00", "\xff", "idx"}
			if badger {
				for i := range keys {
					keys[i] = fmt.Sprintf("%d-%s", run, keys[i])
				}
			} else {
				mem = hx.NewMemKV()
				db = mem
			}
			type nameT struct {
				key  string
				l    *ledger
				live []*docHolder
			}
			var names []*nameT
			for _, k := range keys[:rapid.IntRange(1, len(keys)).Draw(rt, "names")] {
				names = append(names, &nameT{key: k, l: newLedger()})
			}
			owners := func(n *nameT) (out []*owner) {
				for _, h := range n.live {
					out = append(out, h.owner)
				}
				return
			}
			failing := 0
			hook := func() {
				if mem != nil {
					mem.Hook = func(op hx.Op, _ []byte) error {
						if failing > 0 && op != hx.OpBegin && op != hx.OpDiscard && op != hx.OpAfterCommit {
							if failing--; failing == 0 {
								c.Class("failed " + op.String())
								return hx.ErrInjected
							}
						}
						return nil
					}
				}
			}
			hook()
			events := 0
			for steps := rapid.IntRange(3, 40).Draw(rt, "steps"); steps > 0; steps-- {
				n := names[rapid.IntRange(0, len(names)-1).Draw(rt, "name")]
				op := rapid.IntRange(0, 15).Draw(rt, "op")
				injected := false
				failing = 0
				if mem != nil && rapid.IntRange(0, 5).Draw(rt, "fail") == 5 {
					failing, injected = 1+rapid.IntRange(0, 4).Draw(rt, "failOp"), true
				}
				judge := func(what string, err error) bool {
					hit := injected && failing == 0
					failing = 0
					if (err != nil) != hit {
						rt.Fatalf("%s of %q: %v (commit failed: %v)\nhistory: %s", what, n.key, err, hit, c.Trace())
					}
					if hit {
						c.Class("failed commit")
						c.Step("(commit fails)")
						events++
					}
					return err == nil
				}
				if len(n.live) == 0 || (op == 0 && len(n.live) < 3) {
					bw := uint64(rapid.SampledFrom([]int{1, 1, 2, 3, 5, 10}).Draw(rt, "bandwidth"))
					c.Step("open %q bandwidth %d", n.key, bw)
					s, err := document.NewSequence(db, []byte(n.key), bw)
					if !judge("open", err) {
						continue
					}
					if len(n.live) > 0 {
						events++
						c.Class("several holders")
					}
					n.live = append(n.live, &docHolder{owner: n.l.open(owners(n)), s: s})
					continue
				}
				i := rapid.IntRange(0, len(n.live)-1).Draw(rt, "holder")
				h := n.live[i]
				switch {
				case op < 10:
					id, err := h.s.Next()
					c.Step("next of %q = %d", n.key, id)
					if judge("Next", err) {
						n.l.take(rt, c, h.owner, int64(id), false)
					}
				case op < 13:
					c.Step("release %q", n.key)
					if judge("ReleaseRemaining", h.s.ReleaseRemaining()) {
						h.released = true
						events++
						c.ClassIf(len(n.live) > 1, "released next to another holder")
						c.ClassIf(h.sole, "released by the only holder")
					}
				case op == 13:
					c.Step("holder of %q gone (released %v)", n.key, h.released)
					n.live = append(n.live[:i:i], n.live[i+1:]...)
					n.l.gone(h.owner, false, owners(n))
					events++
				default:
					if mem == nil {
						continue
					}
					c.Step("restart")
					c.Class("restart")
					mem = mem.Restart()
					db = mem
					hook()
					for _, n := range names {
						exp := int64(0)
						if len(n.live) == 1 && n.live[0].released && n.live[0].sole {
							exp = n.live[0].exp
						} else if len(n.live) == 0 {
							exp = n.l.expect
						}
						n.live, n.l.expect = nil, exp
					}
					events++
				}
			}
			c.NonTrivialIf(events >= 2)
		})
}

func TestP18_Histories(t *testing.T) { p18(t, hx.N{Quick: 60000}, false) }
func TestP18_Badger(t *testing.T)    { p18(t, hx.N{Quick: 800}, true) }

func TestP18_Invalid(t *testing.T) {
	hx.Run(t, hx.N{Quick: 2000}, "keyword or bandwidth is invalid",
		func(rt *rapid.T, c *hx.Case) {
			key := rapid.SliceOfN(rapid.Byte(), 0, 2).Draw(rt, "key")
			bw := uint64(rapid.IntRange(0, 2).Draw(rt, "bandwidth"))
			c.Step("keyword %q bandwidth %d", key, bw)
			mem := hx.NewMemKV()
			_, err := document.NewSequence(mem, key, bw)
			bad := len(key) == 0 || bw == 0
			c.NonTrivialIf(bad)
			if bad != (err != nil) {
				rt.Fatalf("keyword %q, bandwidth %d: %v", key, bw, err)
			}
			if bad && len(mem.Dump()) > 0 {
				rt.Fatalf("a refused sequence writes to the store")
			}
		})
}

func p18Concurrent(t *testing.T, n hx.N, badger bool) {
	var shared mondis.KVDB
	if badger {
		db, done := badgerDB(t)
		defer done()
		shared = db
	}
	run := 0
	hx.Run(t, n, "at least two holders of one keyword with at least two goroutines each",
		func(rt *rapid.T, c *hx.Case) {
			run++
			key := fmt.Sprintf("c%d", run)
			failEvery := int64(rapid.SampledFrom([]int{0, 0, 2, 3, 7}).Draw(rt, "failEvery"))
			var commits atomic.Int64
			mem := hx.NewMemKV()
			issued := map[uint64]string{}
			var mu sync.Mutex
			problem := ""
			for life := rapid.IntRange(1, 3).Draw(rt, "lives"); life > 0; life-- {
				nh := rapid.IntRange(1, 3).Draw(rt, "holders")
				ng := rapid.IntRange(1, 3).Draw(rt, "goroutines")
				c.NonTrivialIf(nh > 1 && ng > 1)
				var db mondis.KVDB = shared
				if !badger {
					mem = mem.Restart()
					mem.Hook = func(op hx.Op, _ []byte) error {
						if op == hx.OpCommit && failEvery > 0 && commits.Add(1)%failEvery == 0 {
							return hx.ErrInjected
						}
						return nil
					}
					db = mem
				}
				var wg sync.WaitGroup
				for i := 0; i < nh; i++ {
					bw := uint64(rapid.SampledFrom([]int{1, 2, 3, 10}).Draw(rt, "bandwidth"))
					var s *document.Sequence
					var err error
					for try := 0; try < 3000; try++ {
						backoff(try)
						if s, err = document.NewSequence(db, []byte(key), bw); err == nil {
							break
						}
					}
					if err != nil {
						rt.Fatalf("open: %v", err)
					}
					for g := 0; g < ng; g++ {
						k := rapid.IntRange(1, 15).Draw(rt, "requests")
						who := fmt.Sprintf("life %d holder %d goroutine %d", life, i, g)
						c.Step("%s bandwidth %d, %d requests, fail every %d", who, bw, k, failEvery)
						wg.Add(1)
						go func() {
							defer wg.Done()
							last := uint64(0)
							for ; k > 0; k-- {
								ok := false
								for try := 0; try < 3000 && !ok; try++ {
									backoff(try)
									id, err := s.Next()
									if err != nil {
										continue
									}
									ok = true
									mu.Lock()
									if id <= last && problem == "" {
										problem = fmt.Sprintf("%s got %d after %d", who, id, last)
									}
									if w, dup := issued[id]; dup && problem == "" {
										problem = fmt.Sprintf("%s and %s both got %d", w, who, id)
									}
									last = id
									issued[id] = who
									mu.Unlock()
								}
								if !ok {
									mu.Lock()
									problem = who + ": requests keep failing"
									mu.Unlock()
								}
							}
						}()
					}
				}
				wg.Wait()
				if problem != "" {
					rt.Fatalf("%s\nhistory: %s", problem, c.Trace())
				}
			}
		})
}

func TestP18_Concurrent(t *testing.T)       { p18Concurrent(t, hx.N{Quick: 6000}, false) }
func TestP18_ConcurrentBadger(t *testing.T) { p18Concurrent(t, hx.N{Quick: 500}, true) }
