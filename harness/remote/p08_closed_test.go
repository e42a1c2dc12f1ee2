package remote

import (
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/zhiqiangxu/mondis"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

// spoiler passes frames on to the server, and after a number of them a malformed one of its own.
type spoiler struct {
	addr    string
	ln      net.Listener
	after   int64
	passed  int64
	swallow bool // what the client sends later never arrives
	mu      sync.Mutex
	cons    []net.Conn
}

func newSpoiler(target string, after int, swallow bool) *spoiler {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		hx.Infra("listen: %v", err)
	}
	s := &spoiler{addr: ln.Addr().String(), ln: ln, after: int64(after), swallow: swallow}
	go func() {
		for first := true; ; first = false {
			a, err := ln.Accept()
			if err != nil {
				return
			}
			if !first { // a connection is spoiled once, the client does not get another one
				_ = a.Close()
				continue
			}
			b, err := net.Dial("tcp", target)
			if err != nil {
				_ = a.Close()
				continue
			}
			s.mu.Lock()
			s.cons = append(s.cons, a, b)
			s.mu.Unlock()
			var wmu sync.Mutex // for writing to a
			answered := map[uint64]bool{}
			go func() {
				defer a.Close()
				for {
					f, err := readFrame(b, time.Hour)
					if err != nil {
						return
					}
					wmu.Lock()
					answered[f.id] = true
					_, err = a.Write(frame(f.id, f.flags, f.cmd, f.payload))
					wmu.Unlock()
					if err != nil {
						return
					}
				}
			}()
			go func() {
				defer b.Close()
				for {
					f, err := readFrame(a, time.Hour)
					if err != nil {
						return
					}
					n := atomic.AddInt64(&s.passed, 1)
					if s.swallow && n > s.after {
						// a server that shuts down discards the transaction and says so
						wmu.Lock()
						if answered[f.id] {
							_, _ = a.Write(frame(f.id, flagStream|flagEnd, cmdDiscard|1, nil))
						}
						wmu.Unlock()
						continue
					}
					if _, err := b.Write(frame(f.id, f.flags, f.cmd, f.payload)); err != nil {
						return
					}
					if n == s.after {
						if s.swallow { // let what is on its way be answered
							time.Sleep(2 * time.Millisecond)
						}
						_, _ = b.Write(frame(1<<50|1, flagNB, cmdGet, []byte{0xff}))
					}
				}
			}()
		}
	}()
	return s
}

func (s *spoiler) close() {
	_ = s.ln.Close()
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.cons {
		_ = c.Close()
	}
}

// TestP08_Closed lets the server close a connection on which many transactions are under way: whatever
// reports success is true, and what was acknowledged is there.
func TestP08_Closed(t *testing.T) {
	addr, srv := startServer(t)
	hx.Run(t, hx.N{Quick: 400}, "at least ten transactions end with an error because the connection is closed",
		func(rt *rapid.T, c *hx.Case) {
			mem := hx.NewMemKV()
			_ = mem.Set([]byte("a"), []byte("1"), nil)
			srv.set(mem)
			type peer struct {
				txns, after, reads int
				swallow            bool
			}
			var peers []peer
			for n := rapid.IntRange(1, 3).Draw(rt, "connections"); n > 0; n-- {
				p := peer{txns: rapid.IntRange(1, 60).Draw(rt, "transactions"), reads: rapid.IntRange(0, 6).Draw(rt, "reads")}
				p.after = 1 + hx.Uniform(rt, "after", p.txns*(p.reads+3)*2)
				p.swallow = rapid.Bool().Draw(rt, "swallow")
				peers = append(peers, p)
				c.Step("connection: %d transactions at a time with %d reads each, closed after %d requests (the later ones never arrive: %v)", p.txns, p.reads, p.after, p.swallow)
			}
			var mu sync.Mutex
			acked, tried := map[string]bool{}, map[string]bool{}
			failed := 0
			problem := guarded(func() {
				var all sync.WaitGroup
				bad := make(chan string, 1000)
				for ci, p := range peers {
					s := newSpoiler(addr, p.after, p.swallow)
					defer s.close()
					cl := newClient(s.addr)
					for g := 0; g < p.txns; g++ {
						ci, g, p := ci, g, p
						all.Add(1)
						go func() {
							defer all.Done()
							for i := 0; i < 200; i++ {
								key := fmt.Sprintf("c%d.%d.%d", ci, g, i)
								mu.Lock()
								tried[key] = true
								mu.Unlock()
								wrong := ""
								err := cl.Update(func(txn mondis.Txn) error {
									for r := 0; r < p.reads; r++ {
										switch (r + g) % 3 {
										case 0:
											v, _, err := txn.Get([]byte("a"))
											if err == nil && string(v) != "1" {
												wrong = fmt.Sprintf("a transaction reads %q instead of 1", v)
											}
											if err != nil {
												return err
											}
										case 1:
											ok, err := txn.Exists([]byte("a"))
											if err == nil && !ok {
												wrong = "a transaction does not see a key that is there"
											}
											if err != nil {
												return err
											}
										case 2:
											es, err := txn.Scan(mondis.ScanOption{ProviderScanOption: mondis.ProviderScanOption{Prefix: []byte("a")}, Limit: 3})
											if err == nil && len(es) != 1 {
												wrong = fmt.Sprintf("a transaction scans %s", showEntries(es))
											}
											if err != nil {
												return err
											}
										}
									}
									return txn.Set([]byte(key), []byte(key), nil)
								})
								if wrong != "" {
									bad <- wrong
									return
								}
								mu.Lock()
								if err == nil {
									acked[key] = true
								} else {
									failed++
								}
								mu.Unlock()
								if err != nil {
									return
								}
							}
						}()
					}
				}
				all.Wait()
				select {
				case m := <-bad:
					hx.Failf("%s", m)
				default:
				}
				// the server may still be at work on what the peers sent last
				es, err := dump(mem)
				if err != nil {
					hx.Infra("dump: %v", err)
				}
				have := map[string]bool{}
				for _, e := range es {
					have[string(e.Key)] = true
					if k := string(e.Key); k != "a" && (!tried[k] || string(e.Value) != k) {
						hx.Failf("the store holds %q = %q", e.Key, e.Value)
					}
				}
				for k := range acked {
					if !have[k] {
						hx.Failf("the commit of the transaction that wrote %s was reported to have succeeded, it is not in the store", k)
					}
				}
			})
			if problem != "" {
				rt.Fatalf("%s\nhistory: %s", problem, c.Trace())
			}
			c.NonTrivialIf(failed >= 10)
			c.ClassIf(len(acked) > 50, "more than 50 transactions committed")
		})
}
