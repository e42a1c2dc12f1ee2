package remote

import (
	"fmt"
	"net"
	"sync"
	"testing"

	"github.com/zhiqiangxu/mondis"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

// burstFrame is one of the frames a peer sends without waiting for answers.
type burstFrame struct {
	id    uint64
	cmd   uint32
	flags byte
	body  []byte
	good  bool // it is answered with exp, unless the connection is closed
	o     op
	end   bool // of a transaction
}

// TestP09_Burst sends requests without waiting for the answers, malformed ones among them: the
// server answers or closes the connection, and goes on serving everybody else.
func TestP09_Burst(t *testing.T) {
	addr, srv := startServer(t)
	other := newClient(addr)
	var mu sync.Mutex
	open := 0
	id := uint64(1)
	hx.Run(t, hx.N{Quick: 1500}, "a malformed or unknown request is among those sent without waiting",
		func(rt *rapid.T, c *hx.Case) {
			mem := hx.NewMemKV()
			_ = mem.Set([]byte("a"), []byte("1"), nil)
			_ = mem.Set([]byte("aa"), []byte("2"), &mondis.VMetaReq{Tag: 3})
			_ = mem.Set([]byte("\xff"), nil, nil)
			ref := mem.Clone()
			srv.set(&countKV{MemKV: mem, mu: &mu, open: &open})

			read := func() op {
				return op{kind: rapid.SampledFrom([]opKind{kGet, kExists, kScan}).Draw(rt, "kind"),
					k: rapid.SampledFrom([][]byte{[]byte("a"), []byte("aa"), []byte("zz")}).Draw(rt, "key"), scan: mondis.ScanOption{Limit: 3}}
			}
			plan := make([][]burstFrame, rapid.IntRange(1, 3).Draw(rt, "connections"))
			for k := range plan {
				id += 2
				txnID, inTxn := id, false
				for n := rapid.IntRange(2, 24).Draw(rt, "requests"); n > 0; n-- {
					id += 2
					o := read()
					cmd, b := body(o, true)
					switch rapid.IntRange(0, 15).Draw(rt, "what") {
					case 0, 1, 2, 3, 4:
						f := burstFrame{id: txnID, cmd: cmd, flags: flagStream, body: b, good: true, o: o}
						if inTxn && rapid.IntRange(0, 4).Draw(rt, "end") == 0 {
							f = burstFrame{id: txnID, cmd: cmdDiscard, flags: flagStream | flagEnd, end: true, good: true}
						}
						plan[k] = append(plan[k], f)
						inTxn = !f.end
						if f.end {
							txnID = id
						}
					case 5:
						bad := [][]byte{{0x0a, 0xff}, {0xff}, {0x0a, 5, 1}}
						f := burstFrame{id: id, cmd: cmd, flags: flagNB, body: rapid.SampledFrom(bad).Draw(rt, "bad")}
						if inTxn && rapid.Bool().Draw(rt, "inTxn") {
							f.id, f.flags = txnID, flagStream
						}
						plan[k] = append(plan[k], f)
					case 6:
						f := burstFrame{id: id, cmd: rapid.SampledFrom([]uint32{1, 8, 10, 14, 99, 0xffff}).Draw(rt, "unknown"), flags: flagNB, body: b}
						if inTxn && rapid.Bool().Draw(rt, "inTxn") && f.cmd != 8 && f.cmd != 10 {
							f.id, f.flags = txnID, flagStream
						}
						plan[k] = append(plan[k], f)
					default:
						plan[k] = append(plan[k], burstFrame{id: id, cmd: cmd, flags: flagNB, body: b, good: true, o: o})
					}
				}
				id += 2
			}
			together := rapid.Bool().Draw(rt, "together")
			for k, p := range plan {
				for _, f := range p {
					c.Step("connection %d: id %d command %d flags %d body %x", k, f.id, f.cmd, f.flags, f.body)
				}
			}

			drive := func(k int) (problem string) {
				con, err := net.Dial("tcp", addr)
				if err != nil {
					return fmt.Sprintf("the server does not accept connections: %v", err)
				}
				defer con.Close()
				var all []byte
				expect := make(map[uint64][]burstFrame)
				left, bad := 0, false
				for _, f := range plan[k] {
					all = append(all, frame(f.id, f.flags, f.cmd, f.body)...)
					if f.good {
						expect[f.id] = append(expect[f.id], f)
						left++
					} else {
						bad = true
					}
				}
				go func() { _, _ = con.Write(all) }()
				for left > 0 {
					f, err := readFrame(con, hang/2)
					if err == errClosed && bad {
						return
					}
					if err != nil {
						return fmt.Sprintf("connection %d: %d of %d requests are not answered (malformed ones among them: %v): %v", k, left, len(plan[k]), bad, err)
					}
					q := expect[f.id]
					if len(q) == 0 || (bad && f.flags&flagRst != 0) {
						if !bad {
							return fmt.Sprintf("connection %d: an answer to %d, which does not expect one", k, f.id)
						}
						continue // to a malformed one
					}
					if bad && f.cmd != q[0].cmd+1 {
						continue // the same
					}
					expect[f.id] = q[1:]
					left--
					if q[0].end {
						continue
					}
					got, code, aerr := answer(q[0].cmd, f)
					if code != 0 && bad && code != 4 {
						continue // a malformed request of the transaction comes first
					}
					if aerr != nil {
						return fmt.Sprintf("connection %d: %v: %v", k, q[0].o, aerr)
					}
					if msg := sameResult(got, q[0].o.onLocal(ref)); msg != "" {
						return fmt.Sprintf("connection %d: %v: %s", k, q[0].o, msg)
					}
				}
				return
			}
			for _, p := range plan {
				for _, f := range p {
					if !f.good {
						c.NonTrivial()
						c.ClassIf(f.flags == flagNB, "a malformed or unknown request among others")
						c.ClassIf(f.flags != flagNB, "a malformed or unknown request in a transaction among others")
					}
				}
			}
			c.ClassIf(together && len(plan) > 1, "several connections together")
			problem := guarded(func() {
				if together {
					res := make([]string, len(plan))
					var wg sync.WaitGroup
					for k := range plan {
						wg.Add(1)
						go func(k int) { defer wg.Done(); res[k] = drive(k) }(k)
					}
					wg.Wait()
					for _, r := range res {
						if r != "" {
							hx.Failf("%s", r)
						}
					}
				} else {
					for k := range plan {
						if r := drive(k); r != "" {
							hx.Failf("%s", r)
						}
					}
				}
				if got, _, err := other.Get([]byte("aa")); err != nil || string(got) != "2" {
					hx.Failf("another client reads %q, %v instead of %q", got, err, "2")
				}
				if n := waitNone(&mu, &open); n > 0 {
					hx.Failf("%d transactions stay open after their connections ended", n)
				}
				da, _ := dump(mem)
				db, _ := dump(ref)
				if msg := sameResult(result{entries: da}, result{entries: db}); msg != "" {
					hx.Failf("the stored data: %s", msg)
				}
			})
			if problem != "" {
				mu.Lock()
				open = 0
				mu.Unlock()
				rt.Fatalf("%s\nhistory: %s", problem, c.Trace())
			}
		})
}
