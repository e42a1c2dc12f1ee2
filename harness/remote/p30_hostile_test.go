package remote

import (
	"net"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/harness/hx"
)

type move struct {
	slot  int // which of the connection's transactions
	flags byte
	cmd   uint32
	body  []byte
	what  string
	raw   []byte
	read  bool
	end   bool // the transaction ends with this
}

// However a peer leaves its transactions - committed, given up, reset, broken by a malformed request, or with its
// connection - and whatever the store refuses, the server lets go of them.
func TestP30_Connections(t *testing.T) {
	addr, srv := startServer(t)
	id := uint64(1)
	hx.Run(t, hx.N{Quick: 2500}, "a transaction neither committed nor given up properly, or a store failure in it",
		func(rt *rapid.T, c *hx.Case) {
			mem := hx.NewMemKV()
			_ = mem.Set([]byte("a"), []byte("1"), nil)
			_ = mem.Set([]byte("aa"), []byte("2"), nil)
			mem.MaxTxnOps = rapid.SampledFrom([]int{0, 0, 2}).Draw(rt, "maxOps")
			var fail, ops atomic.Int64
			fail.Store(-1)
			if rapid.IntRange(0, 2).Draw(rt, "fails") == 0 {
				fail.Store(int64(rapid.IntRange(0, 8).Draw(rt, "at")))
			}
			mem.Hook = func(hx.Op, []byte) error {
				if ops.Add(1) == fail.Load()+1 {
					return hx.ErrInjected
				}
				return nil
			}
			srv.set(mem)
			improper := false
			draw := func() (cmd uint32, b []byte) {
				o := drawOp(rt, true, true)
				cmd, b = body(o, rapid.IntRange(0, 9).Draw(rt, "opts") > 0)
				if rapid.IntRange(0, 5).Draw(rt, "bad") == 0 {
					b = badBody(rt, b)
				}
				return
			}
			var conns [][]move
			var orderly []bool
			for k := rapid.IntRange(1, 3).Draw(rt, "connections"); k > 0; k-- {
				var ms []move
				slots := rapid.IntRange(1, 3).Draw(rt, "transactions")
				began := make([]bool, slots)
				for j := rapid.IntRange(1, 8).Draw(rt, "moves"); j > 0; j-- {
					s := rapid.IntRange(0, slots-1).Draw(rt, "slot")
					if !began[s] {
						cmd, b := draw()
						if rapid.Bool().Draw(rt, "write") {
							cmd |= 1 << 16
						}
						ms = append(ms, move{slot: s, flags: flagStream, cmd: cmd, body: b, what: "begin", read: rapid.IntRange(0, 4).Draw(rt, "read") > 0})
						began[s] = true
						continue
					}
					m := move{slot: s, flags: flagStream}
					switch rapid.IntRange(0, 9).Draw(rt, "then") {
					case 0, 1, 2, 3:
						m.cmd, m.body = draw()
						m.what, m.read = "continue", rapid.IntRange(0, 4).Draw(rt, "read") > 0
					case 4:
						m.cmd, m.flags, m.what, m.read, m.end = cmdCommit, flagStream|flagEnd, "commit", true, true
					case 5:
						m.cmd, m.flags, m.what, m.end = cmdDiscard, flagStream|flagEnd, "discard", true
					case 6:
						m.raw, m.what, m.end = []byte{}, "reset", true
						m.flags = flagRst
					case 7:
						m.cmd, m.body = draw()
						m.flags |= flagEnd
						m.what, m.end = "last request", true
					case 8:
						m.cmd, m.what, m.read = rapid.SampledFrom([]uint32{14, 99, 3, 13, cmdCommit, cmdDiscard}).Draw(rt, "cmd"), "odd", false
					default:
						m.cmd, m.body = draw()
						m.body, m.what, m.read = badBody(rt, m.body), "malformed", true
					}
					ms = append(ms, m)
				}
				conns = append(conns, ms)
				orderly = append(orderly, rapid.IntRange(0, 3).Draw(rt, "orderly") > 0)
			}
			problem := guarded(func() {
				for i, ms := range conns {
					c.Step("connect")
					con, err := net.Dial("tcp", addr)
					if err != nil {
						hx.Failf("the server does not accept connections: %v", err)
					}
					ids := map[int]uint64{}
					open := map[int]bool{}
					for _, m := range ms {
						if _, ok := ids[m.slot]; !ok {
							id += 2
							ids[m.slot] = id
						}
						open[m.slot] = !m.end
						c.Step("%s %d: command %d flags %d body %x", m.what, m.slot, m.cmd, m.flags, m.body)
						c.Class(m.what)
						if m.what == "malformed" || m.what == "reset" || m.what == "odd" || m.what == "last request" {
							improper = true
						}
						b := frame(ids[m.slot], m.flags, m.cmd, m.body)
						if _, err := con.Write(b); err != nil {
							break
						}
						if m.end {
							id += 2
							ids[m.slot] = id
						}
						if m.read {
							// anything may come, also nothing: only what stays open is judged here
							if _, err := readFrame(con, 20*time.Millisecond); err == errClosed {
								c.Class("connection closed by the server")
								break
							}
						}
					}
					for _, o := range open {
						if o {
							c.Class("connection lost in a transaction")
							improper = true
						}
					}
					if tc := con.(*net.TCPConn); orderly[i] {
						// the server has seen everything when it closes too
						_ = tc.CloseWrite()
						for {
							if _, err := readFrame(con, 500*time.Millisecond); err != nil {
								break
							}
						}
					}
					_ = con.Close()
				}
				c.ClassIf(fail.Load() >= 0 && ops.Load() > fail.Load(), "store failure")
				c.NonTrivialIf(improper || c.Has("store failure"))
				for deadline := time.Now().Add(20 * time.Second); mem.Live() > 0; time.Sleep(time.Millisecond) {
					if time.Now().After(deadline) {
						hx.Failf("every connection has ended and the server still keeps %d transactions open", mem.Live())
					}
				}
			})
			if problem != "" {
				rt.Fatalf("%s\nhistory: %s", problem, c.Trace())
			}
		})
}
