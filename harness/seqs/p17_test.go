package seqs

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document/keyspace"
	"github.com/zhiqiangxu/mondis/document/meta/sequence"
	"github.com/zhiqiangxu/mondis/structure"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

// seqAPI is what the two kinds of sequences share.
type seqAPI interface {
	Next() (int64, error)
	NextN(n int64) ([]sequence.IDRange, error)
	ReNew() error
	PutBack(...int64)
	ReleaseRemaining() error
	Close(bool) error
	Clear() error
}

func openSeq(db mondis.KVDB, hash bool, key, field string, bandwidth int64) (seqAPI, error) {
	if hash {
		s, err := sequence.NewHash(db, []byte(key), []byte(field), bandwidth)
		if err != nil {
			return nil, err
		}
		return s, nil
	}
	s, err := sequence.NewString(db, []byte(key), bandwidth)
	if err != nil {
		return nil, err
	}
	return s, nil
}

type holder struct {
	*owner
	s         seqAPI
	bandwidth int64
}

type seqName struct {
	hash       bool
	key, field string
	l          *ledger
	live       []*holder
}

func (n *seqName) owners(except *holder) (out []*owner) {
	for _, h := range n.live {
		if h != except {
			out = append(out, h.owner)
		}
	}
	return
}

func (n *seqName) drop(h *holder) {
	for i := range n.live {
		if n.live[i] == h {
			n.live = append(n.live[:i:i], n.live[i+1:]...)
			return
		}
	}
}

func (n *seqName) String() string {
	if n.hash {
		return "hash " + n.key + "." + n.field
	}
	return "string " + n.key
}

// bystanders is data that sequences must leave alone.
func putBystanders(rt *rapid.T, db mondis.KVDB) {
	txn := db.NewTransaction(true)
	defer txn.Discard()
	st := structure.New(txn, keyspace.MetaPrefixBytes)
	_ = st.HSet([]byte("k"), []byte("other"), []byte("untouched"))
	_ = st.Set([]byte("kk"), []byte("untouched"))
	_ = st.RPush([]byte("k"), []byte("untouched"))
	if err := txn.Commit(); err != nil {
		rt.Fatal(err)
	}
}

func checkBystanders(rt *rapid.T, c *hx.Case, db mondis.KVDB) {
	txn := db.NewTransaction(false)
	defer txn.Discard()
	st := structure.New(txn, keyspace.MetaPrefixBytes)
	a, e1 := st.HGet([]byte("k"), []byte("other"))
	b, e2 := st.Get([]byte("kk"))
	d, e3 := st.LIndex([]byte("k"), 0)
	if string(a) != "untouched" || string(b) != "untouched" || string(d) != "untouched" {
		rt.Fatalf("sequences changed other data: %q %v, %q %v, %q %v\nhistory: %s", a, e1, b, e2, d, e3, c.Trace())
	}
}

// Histories of one or more holders per sequence, with failing commits, restarts and clears.
func p17(t *testing.T, n hx.N, badger bool) {
	var shared mondis.KVDB
	if badger {
		db, done := badgerDB(t)
		defer done()
		shared = db
	}
	run := 0
	hx.Run(t, n, "identifiers are handed out by more than one holder of a name, or after a restart, a release or a failed commit",
		func(rt *rapid.T, c *hx.Case) {
			var mem *hx.MemKV
			db := shared
			prefix := ""
			if !badger {
				mem = hx.NewMemKV()
				db = mem
			} else {
				run++
				prefix = fmt.Sprintf("%d-", run)
			}
			putBystanders(rt, db)
			names := []*seqName{
				{hash: false, key: prefix + "k"},
				{hash: true, key: prefix + "k", field: "f"},
				{hash: true, key: prefix + "k", field: "ff"},
				{hash: true, key: prefix + "kk", field: "f"},
			}
			if !badger { // next to the bystanders
				names[1].key, names[2].key = "k", "k"
			}
			names = names[:rapid.IntRange(1, len(names)).Draw(rt, "names")]
			for _, n := range names {
				n.l = newLedger()
			}
			failing := 0
			hook := func() {
				if mem != nil {
					mem.Hook = func(op hx.Op, _ []byte) error {
						if failing > 0 && op != hx.OpBegin && op != hx.OpDiscard && op != hx.OpAfterCommit {
							if failing--; failing == 0 {
								c.Class("failed " + op.String())
								return hx.ErrInjected
							}
						}
						return nil
					}
				}
			}
			hook()
			events := 0
			fail := func(format string, a ...interface{}) {
				rt.Fatalf(format+"\nhistory: %s", append(a, c.Trace())...)
			}
			for steps := rapid.IntRange(3, 45).Draw(rt, "steps"); steps > 0; steps-- {
				n := names[rapid.IntRange(0, len(names)-1).Draw(rt, "name")]
				op := rapid.IntRange(0, 23).Draw(rt, "op")
				injected := false
				failing = 0
				if mem != nil && rapid.IntRange(0, 5).Draw(rt, "fail") == 5 {
					failing, injected = 1+rapid.IntRange(0, 4).Draw(rt, "failOp"), true
				}
				// judge tells whether an operation succeeded; it may only fail when the commit was made to
				judge := func(what string, err error) bool {
					hit := injected && failing == 0
					failing = 0
					if err != nil && !hit {
						fail("%s of %v: %v", what, n, err)
					}
					if err == nil && hit {
						fail("%s of %v reports no error though its commit failed", what, n)
					}
					if hit {
						c.Class("failed commit")
						c.Step("(commit fails)")
						events++
					}
					return err == nil
				}
				if len(n.live) == 0 || (op == 0 && len(n.live) < 3) {
					bw := int64(rapid.SampledFrom([]int{1, 1, 2, 3, 5, 10}).Draw(rt, "bandwidth"))
					c.Step("open %v bandwidth %d", n, bw)
					s, err := openSeq(db, n.hash, n.key, n.field, bw)
					if !judge("open", err) {
						continue
					}
					if len(n.live) > 0 {
						events++
						c.Class("several holders")
					}
					n.live = append(n.live, &holder{owner: n.l.open(n.owners(nil)), s: s, bandwidth: bw})
					continue
				}
				h := n.live[rapid.IntRange(0, len(n.live)-1).Draw(rt, "holder")]
				switch {
				case op < 12:
					id, err := h.s.Next()
					c.Step("next of %v = %d", n, id)
					if judge("Next", err) {
						n.l.take(rt, c, h.owner, id, true)
					}
				case op < 16:
					k := int64(rapid.SampledFrom([]int{0, 1, 2, 3, 5, 9, 20}).Draw(rt, "n"))
					rs, err := h.s.NextN(k)
					c.Step("nextN(%d) of %v = %v", k, n, rs)
					if judge("NextN", err) {
						if k > 0 && (len(rs) < 1 || len(rs) > 2) {
							fail("NextN(%d) of %v gives %d ranges", k, n, len(rs))
						}
						total := int64(0)
						for _, r := range rs {
							if r.End < r.Start || r.End-r.Start > k {
								fail("NextN(%d) of %v gives the range (%d,%d]", k, n, r.Start, r.End)
							}
							for id := r.Start + 1; id <= r.End; id++ {
								n.l.take(rt, c, h.owner, id, false)
								total++
							}
						}
						if total != k {
							fail("NextN(%d) of %v gives %d identifiers", k, n, total)
						}
						c.ClassIf(len(rs) == 2, "range over a renewal")
					} else if len(rs) > 0 {
						fail("a failed NextN hands out %v", rs)
					}
				case op < 18:
					if len(h.mine) == 0 {
						continue
					}
					var ids []int64
					for k := 1 + rapid.SampledFrom([]int{0, 0, 0, 1, 2, 5}).Draw(rt, "backs"); k > 0 && len(h.mine) > 0; k-- {
						i := rapid.IntRange(0, len(h.mine)-1).Draw(rt, "which")
						id := h.mine[i]
						h.mine = append(h.mine[:i:i], h.mine[i+1:]...)
						ids = append(ids, id)
						n.l.returned[id] = h.owner
					}
					c.Step("put back %v to %v", ids, n)
					h.s.PutBack(ids...)
					for i := range ids { // the caller's to use again
						ids[i] = -1000 - int64(i)
					}
				case op == 18:
					c.Step("renew %v", n)
					if judge("ReNew", h.s.ReNew()) {
						h.exp = 0
						h.released = false
						events++
					}
				case op == 19:
					c.Step("release %v", n)
					if judge("ReleaseRemaining", h.s.ReleaseRemaining()) {
						events++
						h.released = true
						c.ClassIf(len(n.live) > 1, "released next to another holder")
					}
				case op == 20:
					release := rapid.Bool().Draw(rt, "release")
					c.Step("close(%v) %v", release, n)
					ok := judge("Close", h.s.Close(release))
					n.drop(h)
					n.l.gone(h.owner, ok && release, n.owners(nil))
					events++
					if !ok {
						continue
					}
					// a closed sequence refuses to issue
					if id, err := h.s.Next(); err == nil {
						fail("a closed sequence hands out %d", id)
					}
					if rs, err := h.s.NextN(1); err == nil || len(rs) > 0 {
						fail("a closed sequence hands out %v", rs)
					}
					if err := h.s.Close(false); err == nil {
						fail("a closed sequence closes again")
					}
					c.Class("closed")
				case op == 21:
					if len(n.live) != 1 {
						continue
					}
					c.Step("clear %v", n)
					if judge("Clear", h.s.Clear()) {
						first := n.l.first
						n.l = newLedger()
						n.l.first = first
						n.l.expect = 0
						*h.owner = owner{sole: true, exp: -1, released: true}
						events++
						c.Class("cleared")
						checkBystanders(rt, c, db)
					}
				case op == 22:
					c.Step("crash of a holder of %v", n)
					n.drop(h)
					n.l.gone(h.owner, false, n.owners(nil))
					if len(n.live) > 0 {
						n.l.expect = 0
					}
					c.Class("holder lost")
					events++
				default:
					if mem == nil {
						continue
					}
					c.Step("restart")
					mem = mem.Restart()
					db = mem
					hook()
					for _, n := range names {
						released := len(n.live) == 1 && n.live[0].released && n.live[0].sole
						exp := int64(0)
						if released {
							exp = n.live[0].exp
						} else if len(n.live) == 0 {
							exp = n.l.expect
						}
						n.live = nil
						n.l.expect = exp
					}
					c.Class("restart")
					events++
				}
			}
			failing = 0
			checkBystanders(rt, c, db)
			c.NonTrivialIf(events >= 2)
		})
}

func TestP17_Histories(t *testing.T) { p17(t, hx.N{Quick: 60000}, false) }
func TestP17_Badger(t *testing.T)    { p17(t, hx.N{Quick: 800}, true) }

// Goroutines share holders, holders share names, commits fail and conflict.
func p17Concurrent(t *testing.T, n hx.N, badger bool) {
	var shared mondis.KVDB
	if badger {
		db, done := badgerDB(t)
		defer done()
		shared = db
	}
	run := 0
	hx.Run(t, n, "at least two holders of one name with at least two goroutines each",
		func(rt *rapid.T, c *hx.Case) {
			run++
			hash := rapid.Bool().Draw(rt, "hash")
			key := fmt.Sprintf("c%d", run)
			lives := rapid.IntRange(1, 3).Draw(rt, "lives")
			failEvery := int64(rapid.SampledFrom([]int{0, 0, 2, 3, 7}).Draw(rt, "failEvery"))
			var commits atomic.Int64
			mem := hx.NewMemKV()
			issued := map[int64]string{}
			var mu sync.Mutex
			problem := ""
			note := func(format string, a ...interface{}) {
				mu.Lock()
				defer mu.Unlock()
				if problem == "" {
					problem = fmt.Sprintf(format, a...)
				}
			}
			for life := 0; life < lives; life++ {
				nh := rapid.IntRange(1, 3).Draw(rt, "holders")
				ng := rapid.IntRange(1, 3).Draw(rt, "goroutines")
				c.NonTrivialIf(nh > 1 && ng > 1)
				c.Step("life %d: %d holders, %d goroutines, fail every %d", life, nh, ng, failEvery)
				var db mondis.KVDB = shared
				if !badger {
					mem = mem.Restart()
					mem.Hook = func(op hx.Op, _ []byte) error {
						if op == hx.OpCommit && failEvery > 0 && commits.Add(1)%failEvery == 0 {
							return hx.ErrInjected
						}
						return nil
					}
					db = mem
				}
				var wg sync.WaitGroup
				for i := 0; i < nh; i++ {
					bw := int64(rapid.SampledFrom([]int{1, 2, 3, 10}).Draw(rt, "bandwidth"))
					var s seqAPI
					var err error
					for try := 0; try < 3000; try++ {
						backoff(try)
						if s, err = openSeq(db, hash, key, "f", bw); err == nil {
							break
						}
					}
					if err != nil {
						rt.Fatalf("open: %v", err)
					}
					for g := 0; g < ng; g++ {
						plan := rapid.SliceOfN(rapid.IntRange(0, 6), 1, 12).Draw(rt, "plan")
						who := fmt.Sprintf("life %d holder %d goroutine %d", life, i, g)
						c.Step("%s bandwidth %d %v", who, bw, plan)
						wg.Add(1)
						go func() {
							defer wg.Done()
							last := int64(-1)
							take := func(id int64) {
								if id <= last {
									note("%s got %d after %d", who, id, last)
								}
								last = id
								mu.Lock()
								defer mu.Unlock()
								if w, dup := issued[id]; dup && problem == "" {
									problem = fmt.Sprintf("%s and %s both got %d", w, who, id)
								}
								issued[id] = who
							}
							for _, p := range plan {
								ok := false
								for try := 0; try < 3000 && !ok; try++ {
									backoff(try)
									if p == 0 {
										p = 1
									}
									if p < 4 {
										id, err := s.Next()
										if err == nil {
											take(id)
											ok = true
										}
									} else {
										rs, err := s.NextN(int64(p))
										if err == nil {
											for _, r := range rs {
												for id := r.Start + 1; id <= r.End; id++ {
													take(id)
												}
											}
											ok = true
										}
									}
								}
								if !ok {
									note("%s: requests keep failing", who)
								}
							}
						}()
					}
				}
				wg.Wait()
				if problem != "" {
					rt.Fatalf("%s\nhistory: %s", problem, c.Trace())
				}
			}
		})
}

func TestP17_Concurrent(t *testing.T)       { p17Concurrent(t, hx.N{Quick: 6000}, false) }
func TestP17_ConcurrentBadger(t *testing.T) { p17Concurrent(t, hx.N{Quick: 500}, true) }
