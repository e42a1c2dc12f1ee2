package remote

import (
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/harness/hx"
)

// Whatever a remote transaction or call ends with, the server lets go of the transactions it began for it.
func TestP30_Remote(t *testing.T) {
	addr, srv := startServer(t)
	c1, c2 := newClient(addr), newClient(addr)
	hx.Run(t, hx.N{Quick: 1200}, "a transaction that fails, is given up or conflicts",
		func(rt *rapid.T, c *hx.Case) {
			a, b := hx.NewMemKV(), hx.NewMemKV()
			var failA, failB atomic.Int64
			failA.Store(-1)
			failB.Store(-1)
			hook := func(f *atomic.Int64) func(op hx.Op, _ []byte) error {
				return func(op hx.Op, _ []byte) error {
					if int64(op) == f.Load() {
						f.Store(-1)
						return hx.ErrInjected
					}
					return nil
				}
			}
			a.Hook, b.Hook = hook(&failA), hook(&failB)
			srv.set(a)
			var plans []txnPlan
			for k := rapid.IntRange(1, 3).Draw(rt, "transactions"); k > 0; k-- {
				plans = append(plans, drawTxn(rt, true))
			}
			problem := guarded(func() {
				for _, p := range plans {
					runTxn(c, p, a, b, c1, c2, &failA, &failB)
					for deadline := time.Now().Add(20 * time.Second); a.Live() > 0; time.Sleep(time.Millisecond) {
						if time.Now().After(deadline) {
							hx.Failf("the transaction has ended and the server still keeps %d open", a.Live())
						}
					}
				}
			})
			c.NonTrivialIf(c.Has("failed commit") || c.Has("conflict") || c.Has("store failure inside") || c.Has("given up"))
			if problem != "" {
				rt.Fatalf("%s\nhistory: %s", problem, c.Trace())
			}
		})
}
