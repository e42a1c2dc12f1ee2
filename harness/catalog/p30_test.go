package catalog

import (
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/harness/hx"
)

// Whatever schema requests, jobs and refreshes end with, the transactions they began end: once no
// request is under way, none is open at some moment.
func TestP30_SchemaRequests(t *testing.T) {
	hx.Run(t, hx.N{Quick: 400}, "a store operation fails", func(rt *rapid.T, c *hx.Case) {
		p := drawPlan(rt, c, true)
		for i := range p.epochs {
			p.epochs[i].crashAt = 0
		}
		p.describe(c)
		p.atEnd = func(r *ddlRun, kv *hx.MemKV) {
			least := kv.Live()
			for i := 0; i < 2000 && least > 0; i++ {
				time.Sleep(37 * time.Millisecond)
				least = min(least, kv.Live())
			}
			if least > 0 {
				hx.Failf("%d transactions were begun and stay open", least)
			}
		}
		problem := p.execute(t, c, func(r *ddlRun, data *hx.MemKV) {})
		c.NonTrivialIf(c.Has("failed commit") || c.Has("failed get") || c.Has("failed set") || c.Has("failed scan") || c.Has("failed exists"))
		if problem != "" {
			rt.Fatalf("%s\nhistory: %s", problem, c.Trace())
		}
	})
}
