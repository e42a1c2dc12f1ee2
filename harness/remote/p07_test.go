package remote

import (
	"fmt"
	"math"
	"net"
	"sync/atomic"
	"testing"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/pb"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

// clearing empties a store by deleting what a case may have left.
func clearing(db mondis.KVDB) {
	es, err := dump(db)
	if err != nil {
		hx.Infra("dump: %v", err)
	}
	for _, e := range es {
		if err := db.Delete(e.Key); err != nil {
			hx.Infra("delete: %v", err)
		}
	}
}

func p07(t *testing.T, n hx.N, kind string) {
	addr, srv := startServer(t)
	clients := []mondis.Client{newClient(addr), newClient(addr)}
	var real, twin mondis.KVDB
	switch kind {
	case "badger":
		real, twin = badgerDB(t), badgerDB(t)
	case "leveldb":
		real, twin = levelDB(t), levelDB(t)
	}
	hx.Run(t, n, "some write is read back through another client or by a scan, or a store failure is injected",
		func(rt *rapid.T, c *hx.Case) {
			a, b := real, twin
			var mem *hx.MemKV
			var failOp atomic.Int64 // the kind of operation that fails next
			failOp.Store(-1)
			if kind == "mem" {
				mem = hx.NewMemKV()
				if rapid.IntRange(0, 14).Draw(rt, "many") == 0 {
					c.Class("more than the maximum of a scan")
					fillMany(mem, rapid.IntRange(990, 1300).Draw(rt, "count"))
				}
				a, b = mem, mem.Clone()
				mem.Hook = func(op hx.Op, _ []byte) error {
					if int64(op) == failOp.Load() {
						failOp.Store(-1)
						return hx.ErrInjected
					}
					return nil
				}
			} else {
				clearing(a)
				clearing(b)
			}
			srv.set(a)
			type step struct {
				o      op
				client int
				fail   hx.Op
				inject bool
			}
			var plan []step
			for k := rapid.IntRange(1, 20).Draw(rt, "steps"); k > 0; k-- {
				s := step{o: drawOp(rt, kind != "leveldb" || rapid.IntRange(0, 9).Draw(rt, "refused") == 0, kind != "leveldb" || rapid.IntRange(0, 9).Draw(rt, "refusedReverse") == 0),
					client: rapid.IntRange(0, 1).Draw(rt, "client")}
				if s.o.kind == kSet && rapid.IntRange(0, 60).Draw(rt, "big") == 0 {
					s.o.v = hx.Fill(rapid.IntRange(100000, 1000000).Draw(rt, "bigLen"), 7)
					c.Class("large value")
				}
				if mem != nil && rapid.IntRange(0, 9).Draw(rt, "inject") == 0 {
					s.inject = true
					s.fail = map[opKind]hx.Op{kSet: hx.OpSet, kGet: hx.OpGet, kExists: hx.OpExists, kDelete: hx.OpDelete, kScan: hx.OpScan}[s.o.kind]
					if (s.o.kind == kSet || s.o.kind == kDelete) && rapid.Bool().Draw(rt, "atCommit") {
						s.fail = hx.OpCommit
					}
				}
				plan = append(plan, s)
			}
			lastWriter := map[string]int{}
			problem := guarded(func() {
				for _, s := range plan {
					c.Step("client %d: %v", s.client, s.o)
					if s.inject && !(s.o.kind == kScan && s.o.scan.Limit <= 0) {
						c.Step("(the store fails)")
						c.Class("store failure")
						c.NonTrivial()
						failOp.Store(int64(s.fail))
						r := s.o.onRemote(clients[s.client])
						failOp.Store(-1)
						if r.err == nil || r.err == kv.ErrKeyNotFound || r.err == kv.ErrTxnTooBig {
							hx.Failf("%v with a failing store returns %v", s.o, r)
						}
						if len(r.v)+len(r.entries) > 0 || r.exists {
							hx.Failf("%v with a failing store returns %v", s.o, r)
						}
						continue
					}
					r := s.o.onRemote(clients[s.client])
					l := s.o.onLocal(b)
					if msg := sameResult(r, l); msg != "" {
						hx.Failf("%v: %s", s.o, msg)
					}
					c.ClassIf(r.err == kv.ErrKeyNotFound, "not found")
					switch s.o.kind {
					case kSet, kDelete:
						if r.err == nil {
							lastWriter[string(s.o.k)] = s.client + 1
						} else {
							c.Class("refused")
						}
					default:
						w := lastWriter[string(s.o.k)]
						c.NonTrivialIf(w != 0 && w != s.client+1 || s.o.kind == kScan && len(r.entries) > 0)
						// exactly what the served store says
						if x := s.o.onLocal(a); x.err == nil && (r.meta != x.meta || !sameEntries(r.entries, x.entries)) {
							hx.Failf("%v: remote %v, local %v", s.o, r, x)
						}
						c.ClassIf(r.err == nil && r.meta.ExpiresAt != 0, "expiry read")
						c.ClassIf(len(r.entries) > 1, "scan of several")
					}
				}
				da, e1 := dump(a)
				db, e2 := dump(b)
				if msg := sameResult(result{entries: da, err: e1}, result{entries: db, err: e2}); msg != "" {
					hx.Failf("the served store differs from one with the same local calls: %s", msg)
				}
			})
			if problem != "" {
				rt.Fatalf("%s\nhistory: %s", problem, c.Trace())
			}
		})
}

func fillMany(db mondis.KVDB, n int) {
	txn := db.NewTransaction(true)
	defer txn.Discard()
	for i := 0; i < n; i++ {
		if err := txn.Set([]byte(fmt.Sprintf("a%05d", i)), []byte(fmt.Sprint(i)), nil); err != nil {
			hx.Infra("fill: %v", err)
		}
	}
	if err := txn.Commit(); err != nil {
		hx.Infra("fill: %v", err)
	}
}

func TestP07_Mem(t *testing.T)     { p07(t, hx.N{Quick: 2500}, "mem") }
func TestP07_Badger(t *testing.T)  { p07(t, hx.N{Quick: 400}, "badger") }
func TestP07_LevelDB(t *testing.T) { p07(t, hx.N{Quick: 400}, "leveldb") }

// Scan requests at the level of the protocol: the limit counts whoever asks.
func TestP07_WireLimit(t *testing.T) {
	addr, srv := startServer(t)
	con, err := net.Dial("tcp", addr)
	if err != nil {
		hx.Infra("dial: %v", err)
	}
	defer con.Close()
	id := uint64(1)
	mem := hx.NewMemKV()
	fillMany(mem, 1500)
	srv.set(mem)
	hx.Run(t, hx.N{Quick: 400}, "the limit is not positive or beyond the maximum",
		func(rt *rapid.T, c *hx.Case) {
			limit := rapid.OneOf(rapid.SampledFrom([]int32{0, -1, math.MinInt32, math.MaxInt32, 999, 1000, 1001, 1}), rapid.Int32Range(-2000, 2000)).Draw(rt, "limit")
			inTxn := rapid.Bool().Draw(rt, "inTxn")
			reverse := rapid.Bool().Draw(rt, "reverse")
			c.NonTrivialIf(limit <= 0 || limit > 1000)
			c.Step("limit %d in a transaction %v reverse %v", limit, inTxn, reverse)
			req := pb.ScanRequest{ProviderScanOption: &pb.ProviderScanOption{Reverse: reverse}, Limit: limit}
			body, _ := req.Marshal()
			id += 2
			flags := byte(flagNB)
			if inTxn {
				flags = flagStream
			}
			if _, err := con.Write(frame(id, flags, 12, body)); err != nil {
				rt.Fatalf("write: %v", err)
			}
			f, err := readFrame(con, hang)
			if err != nil || f.id != id || f.cmd != 13 {
				rt.Fatalf("limit %d: answer %+v, %v", limit, f, err)
			}
			if inTxn {
				if _, err := con.Write(frame(id, flagStream|flagEnd, 10, nil)); err != nil {
					rt.Fatalf("write: %v", err)
				}
				if _, err := readFrame(con, hang); err != nil {
					rt.Fatalf("discard: %v", err)
				}
			}
			var resp pb.ScanResponse
			if err := resp.Unmarshal(f.payload); err != nil || resp.Code != 0 {
				rt.Fatalf("limit %d: code %d, %v", limit, resp.Code, err)
			}
			want := int(limit)
			if want < 0 {
				want = 0
			}
			if want > mondis.MaxEntry {
				want = mondis.MaxEntry
			}
			if len(resp.Entries) != want {
				rt.Fatalf("limit %d gives %d entries", limit, len(resp.Entries))
			}
			for i, e := range resp.Entries {
				j := i
				if reverse {
					j = 1499 - i
				}
				if string(e.Key) != fmt.Sprintf("a%05d", j) {
					rt.Fatalf("limit %d: entry %d is %q", limit, i, e.Key)
				}
			}
		})
}
