package seqs

import (
	"testing"

	"github.com/zhiqiangxu/mondis/document"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

// Whatever an operation on a sequence ends with, the transactions it
// began have ended.
func TestP30_Sequences(t *testing.T) {
	hx.Run(t, hx.N{Quick: 8000}, "a store operation fails under a sequence", func(rt *rapid.T, c *hx.Case) {
		mem := hx.NewMemKV()
		failAfter, fired := 0, false
		mem.Hook = func(op hx.Op, _ []byte) error {
			if op == hx.OpBegin || op == hx.OpDiscard || op == hx.OpAfterCommit {
				return nil
			}
			if failAfter > 0 {
				if failAfter--; failAfter == 0 {
					fired = true
					c.Class("failed " + op.String())
					return hx.ErrInjected
				}
			}
			return nil
		}
		kind := hx.Uniform(rt, "kind", 3)
		type seq interface{ ReleaseRemaining() error }
		var s seq
		var doc *document.Sequence
		var ms seqAPI
		steps := hx.Count(rt, "steps", 2, 25)
		for ; steps > 0; steps-- {
			fired, failAfter = false, 0
			if hx.Uniform(rt, "storeFails", 3) == 0 {
				failAfter = 1 + hx.Uniform(rt, "at", 5)
			}
			var err error
			what := ""
			switch {
			case s == nil && kind == 2:
				what = "open"
				if doc, err = document.NewSequence(mem, []byte("k"), uint64(1+hx.Uniform(rt, "bandwidth", 4))); err == nil {
					s = doc
				}
			case s == nil:
				what = "open"
				if ms, err = openSeq(mem, kind == 1, "k", "f", int64(1+hx.Uniform(rt, "bandwidth", 4))); err == nil {
					s = ms
				}
			default:
				op := hx.Uniform(rt, "op", 10)
				switch {
				case op == 0:
					what = "release"
					err = s.ReleaseRemaining()
				case kind == 2:
					what = "next"
					_, err = doc.Next()
				case op == 1:
					what = "renew"
					err = ms.ReNew()
				case op == 2:
					what = "clear"
					err = ms.Clear()
				case op == 3:
					what = "close"
					err = ms.Close(hx.Uniform(rt, "release", 2) == 0)
					s = nil
				case op < 7:
					what = "nextN"
					_, err = ms.NextN(int64(hx.Uniform(rt, "n", 12)))
				default:
					what = "next"
					_, err = ms.Next()
				}
			}
			failAfter = 0
			c.Step("%s = %v (the store failed: %v)", what, err, fired)
			c.NonTrivialIf(fired)
			if n := mem.Live(); n != 0 {
				rt.Fatalf("%s leaves %d transactions open\nhistory: %s", what, n, c.Trace())
			}
		}
	})
}
