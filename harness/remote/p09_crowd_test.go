package remote

import (
	"fmt"
	"net"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"verif/harness/hx"
)

// TestP09_Crowd closes connections that have many transactions open, with a malformed request or by
// going away: all of them end, and the server goes on serving everybody else.
func TestP09_Crowd(t *testing.T) {
	addr, srv := startServer(t)
	other := newClient(addr)
	var mu sync.Mutex
	open := 0
	id := uint64(1)
	hx.Run(t, hx.N{Quick: 1500}, "at least 4 transactions are open when the connection is closed",
		func(rt *rapid.T, c *hx.Case) {
			mem := hx.NewMemKV()
			_ = mem.Set([]byte("a"), []byte("1"), nil)
			srv.set(&countKV{MemKV: mem, mu: &mu, open: &open})
			type peer struct {
				first, txns int
				last        []string // what each transaction is sent along with the end of the connection
				how         string
			}
			var peers []peer
			for n := rapid.IntRange(1, 4).Draw(rt, "connections"); n > 0; n-- {
				p := peer{txns: rapid.IntRange(1, 40).Draw(rt, "transactions"),
					how: rapid.SampledFrom([]string{"malformed request", "malformed request", "malformed in a transaction", "unknown command in a transaction", "gone"}).Draw(rt, "closed by")}
				p.first = int(id)
				lasts := []string{"nothing"}
				switch rapid.IntRange(0, 3).Draw(rt, "last requests") {
				case 0:
					lasts = append(lasts, "reset")
				case 1:
					lasts = append(lasts, "reset", "commit", "discard", "read", "commit, stream left open", "read and end")
				case 2:
					lasts = append(lasts, "commit, stream left open", "commit", "read")
				}
				for i := 0; i < p.txns; i++ {
					p.last = append(p.last, rapid.SampledFrom(lasts).Draw(rt, "last"))
				}
				if p.how != "malformed request" && p.how != "gone" {
					p.last[p.txns-1] = "nothing"
				}
				id += 2 * uint64(p.txns+1)
				peers = append(peers, p)
				c.Step("connection with transactions %v, closed by: %s", p.last, p.how)
				if p.txns >= 4 {
					c.NonTrivial()
				}
				c.Class("closed by: " + p.how)
				for _, l := range p.last {
					c.Class("at that moment: " + l)
				}
			}
			get := append([]byte{0x0a}, append([]byte{1}, 'a')...)
			drive := func(p peer) string {
				con, err := net.Dial("tcp", addr)
				if err != nil {
					return fmt.Sprintf("the server does not accept connections: %v", err)
				}
				defer con.Close()
				var all []byte
				for i := 0; i < p.txns; i++ {
					all = append(all, frame(uint64(p.first+2*i), flagStream, cmdGet, get)...)
				}
				if _, err := con.Write(all); err != nil {
					return fmt.Sprintf("sending: %v", err)
				}
				for i := 0; i < p.txns; i++ {
					f, err := readFrame(con, hang/2)
					if err != nil {
						return fmt.Sprintf("%d of %d transactions are not answered: %v", p.txns-i, p.txns, err)
					}
					if r, code, err := answer(cmdGet, f); err != nil || code != 0 || string(r.v) != "1" {
						return fmt.Sprintf("a transaction reads %q, code %d, %v instead of %q", r.v, code, err, "1")
					}
				}
				all = all[:0]
				for i, l := range p.last {
					fid := uint64(p.first + 2*i)
					switch l {
					case "reset":
						all = append(all, frame(fid, flagRst, 0, nil)...)
					case "commit":
						all = append(all, frame(fid, flagStream|flagEnd, cmdCommit, nil)...)
					case "commit, stream left open": // the stream stays open
						all = append(all, frame(fid, flagStream, cmdCommit, nil)...)
					case "discard":
						all = append(all, frame(fid, flagStream|flagEnd, cmdDiscard, nil)...)
					case "read":
						all = append(all, frame(fid, flagStream, cmdGet, get)...)
					case "read and end":
						all = append(all, frame(fid, flagStream|flagEnd, cmdGet, get)...)
					}
				}
				last := uint64(p.first + 2*p.txns)
				switch p.how {
				case "malformed request":
					all = append(all, frame(last, flagNB, cmdGet, []byte{0xff})...)
				case "malformed in a transaction":
					all = append(all, frame(last-2, flagStream, cmdGet, []byte{0xff})...)
				case "unknown command in a transaction":
					all = append(all, frame(last-2, flagStream, 99, nil)...)
				}
				_, _ = con.Write(all)
				if p.how == "gone" {
					return ""
				}
				for {
					_, err := readFrame(con, hang/2)
					if err == errClosed {
						return ""
					}
					if err != nil {
						return fmt.Sprintf("the connection is not closed after a %s: %v", p.how, err)
					}
				}
			}
			problem := guarded(func() {
				res := make([]string, len(peers))
				var wg sync.WaitGroup
				for k := range peers {
					wg.Add(1)
					go func(k int) { defer wg.Done(); res[k] = drive(peers[k]) }(k)
				}
				wg.Wait()
				for k, r := range res {
					if r != "" {
						hx.Failf("connection %d: %s", k, r)
					}
				}
				if got, _, err := other.Get([]byte("a")); err != nil || string(got) != "1" {
					hx.Failf("another client reads %q, %v instead of %q", got, err, "1")
				}
				if n := waitNone(&mu, &open); n > 0 {
					hx.Failf("%d transactions stay open after their connections ended", n)
				}
			})
			if problem != "" {
				mu.Lock()
				open = 0
				mu.Unlock()
				rt.Fatalf("%s\nhistory: %s", problem, c.Trace())
			}
		})
}
