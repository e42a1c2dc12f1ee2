package docs

import (
	"testing"

	"github.com/zhiqiangxu/mondis/document/config"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

const openRule = "operations that begin transactions of their own, some of which fail or are refused"

// Whatever a document operation ends with, the transactions it began have ended.
func TestP30_Documents(t *testing.T) {
	hx.Run(t, hx.N{Quick: 6000}, openRule, func(rt *rapid.T, c *hx.Case) {
		lease := config.Load().Lease
		w := newDocWorld(rt, c, hx.NewMemKV(), "")
		w.audit = true
		defer func() { w.failAfter = 0; w.drop(); config.Load().Lease = lease }()
		w.run(hx.Count(rt, "steps", 5, 45), 3)
		c.NonTrivialIf(c.Has("given up after writing") || c.Has("failed commit") || c.Has("failed set") || c.Has("failed scan") || c.Has("failed get"))
	})
}

func TestP30_Legacy(t *testing.T) {
	hx.Run(t, hx.N{Quick: 4000}, openRule, func(rt *rapid.T, c *hx.Case) {
		w := newLegWorld(rt, c, hx.NewMemKV(), "")
		w.audit = true
		w.run(hx.Count(rt, "steps", 5, 50))
		c.NonTrivialIf(c.Has("failed commit") || c.Has("failed set") || c.Has("failed scan") || c.Has("failed get"))
	})
}
