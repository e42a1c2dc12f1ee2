package docs

import (
	"testing"

	"pgregory.net/rapid"

	"verif/harness/hx"
)

// More documents than one lease of identifiers has, from several goroutines, in several lives.
func TestP22_Lease(t *testing.T) {
	hx.Run(t, hx.N{Quick: 300}, "more than 1000 documents in one life, inserted by two or more goroutines", func(rt *rapid.T, c *hx.Case) {
		names := []string{"a", "b"}[:1+hx.Uniform(rt, "cols", 2)]
		cids := []int64{21, 22}[:len(names)]
		data := hx.NewMemKV()
		w := &insertWorld{rt: rt, c: c}
		defer dropAll(cids)
		for n := 1 + hx.Uniform(rt, "lives", 3); n > 0; n-- {
			kv := data.Restart()
			bw := []int64{0, 0, 100, 1000, 5000}[hx.Uniform(rt, "bandwidth", 5)]
			h, err := setup(kv, 1, cids, names, bw)
			if err != nil {
				rt.Fatalf("%v\nhistory: %s", err, c.Trace())
			}
			x := uint32(hx.Uniform(rt, "salt", 1<<20))
			next := func(n int) int {
				x = x*1664525 + 1013904223
				return int(x>>8) % n
			}
			failOne := 0
			if hx.Uniform(rt, "failing", 2) == 0 {
				failOne = []int{2, 10, 300}[hx.Uniform(rt, "failEvery", 3)]
			}
			ops := 0
			kv.Hook = func(op hx.Op, key []byte) error {
				if op != hx.OpCommit || failOne == 0 {
					return nil
				}
				w.mu.Lock()
				defer w.mu.Unlock()
				if ops++; ops%failOne == 0 {
					return hx.ErrInjected
				}
				return nil
			}
			var plans [][]task
			total := 0
			target := []int{100, 1100, 2300, 6000}[hx.Uniform(rt, "documents", 4)]
			g := 1 + hx.Uniform(rt, "goroutines", 4)
			for i := 0; i < g; i++ {
				var plan []task
				for count := 0; count < target/g; {
					tk := task{kind: next(3), yield: next(8) == 0}
					m := 1
					if tk.kind != 0 {
						m = 1 + next(60)
					}
					if tk.kind != 2 {
						total += m
					}
					for ; m > 0; m-- {
						tk.cols = append(tk.cols, next(len(cids)))
						count++
					}
					plan = append(plan, tk)
				}
				plans = append(plans, plan)
			}
			c.Step("life: bandwidth %d, %d goroutines, %d documents, salt %d, one of %d commits fails", bw, g, total, x, failOne)
			c.NonTrivialIf(g > 1 && total > 1000)
			w.life(n, kv, h, cids, names, plans, kv.Killed)
			kv.Hook = nil
			if hx.Uniform(rt, "clean", 2) == 0 {
				c.Step("(the sequences are released)")
				dropAll(cids)
			} else {
				kv.Kill()
				dropAll(cids)
			}
			if msg := w.judge(data.Restart(), h, cids, names); msg != "" {
				rt.Fatalf("%s\nhistory: %s", msg, c.Trace())
			}
		}
		c.ClassIf(len(w.all) > 3000, "more than 3000 attempts")
	})
}
