package docs

import (
	"fmt"
	"os"
	"runtime"
	"sync"
	"testing"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/document/txn"
	"go.mongodb.org/mongo-driver/bson"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

// Goroutines insert, upsert and update under few chosen identifiers at once, alone or within
// transactions. Nothing is deleted, so each identifier is created at most once among the calls that
// report success, and what is stored in the end is what one of them wrote.

type chosenOp struct {
	kind int // 0: insert, 1: upsert, 2: update
	id   int64
}

type chosenTask struct {
	mode  int // 0: each operation alone, 1: a transaction that commits, 2: one that is discarded
	ops   []chosenOp
	yield bool
}

func drawChosen(rt *rapid.T, c *hx.Case, base int64) (plans [][]chosenTask) {
	ids := []int64{base, base + 1, base + 2}[:1+hx.Uniform(rt, "ids", 3)]
	for g := 2 + hx.Uniform(rt, "goroutines", 4); g > 0; g-- {
		var plan []chosenTask
		s := ""
		for n := 1 + hx.Uniform(rt, "tasks", 4); n > 0; n-- {
			tk := chosenTask{mode: hx.Uniform(rt, "mode", 3), yield: rapid.Bool().Draw(rt, "yield")}
			m := 1
			if tk.mode > 0 {
				m = 1 + hx.Uniform(rt, "ops", 3)
			}
			s += " " + []string{"alone", "commit", "discard"}[tk.mode]
			for ; m > 0; m-- {
				op := chosenOp{kind: []int{0, 0, 0, 1, 2}[hx.Uniform(rt, "op", 5)], id: ids[hx.Uniform(rt, "id", len(ids))]}
				tk.ops = append(tk.ops, op)
				s += fmt.Sprintf(" %s %d", []string{"insert", "upsert", "update"}[op.kind], op.id)
			}
			plan = append(plan, tk)
		}
		plans = append(plans, plan)
		c.Step("goroutine:%s", s)
	}
	return
}

func runChosen(rt *rapid.T, c *hx.Case, kv mondis.KVDB, cid int64, plans [][]chosenTask) {
	h, err := setup(kv, 1, []int64{cid}, []string{"a"}, 5)
	if err != nil {
		rt.Fatalf("%v\nhistory: %s", err, c.Trace())
	}
	var mu sync.Mutex
	bad := ""
	note := func(format string, a ...interface{}) {
		mu.Lock()
		if bad == "" {
			bad = fmt.Sprintf(format, a...)
		}
		mu.Unlock()
	}
	created := map[int64][]string{}        // by whom, as reported
	written := map[int64]map[string]bool{} // by successful calls
	saw := map[int64]string{}              // successful calls that found the document, though not their own
	exists, conflicts := 0, 0
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g, plan := range plans {
		g, plan := g, plan
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					note("panic: %v", hx.FailureText(e))
				}
			}()
			db, err := dml.NewDB("x", kv, h)
			if err != nil {
				note("NewDB: %v", err)
				return
			}
			col, err := db.Collection("a")
			if err != nil {
				note("Collection: %v", err)
				return
			}
			<-start
			for step, tk := range plan {
				if tk.yield {
					runtime.Gosched()
				}
				var t *txn.Txn
				if tk.mode > 0 {
					t = txn.NewTxn(h, true, kv)
				}
				type effect struct {
					id              int64
					text            string
					isNew, wr, seen bool
				}
				var effects []effect
				own := map[int64]bool{} // identifiers this transaction wrote
				failed := false
				for k, op := range tk.ops {
					e := effect{id: op.id, text: fmt.Sprintf("goroutine %d step %d.%d", g, step, k)}
					doc := bson.D{{Key: "t", Value: e.text}}
					var err error
					switch op.kind {
					case 0:
						err = col.InsertOneManaged(op.id, doc, t)
						if err == dml.ErrDocExists {
							mu.Lock()
							exists++
							if !own[op.id] && t == nil {
								saw[op.id] = e.text
							}
							mu.Unlock()
							if !own[op.id] {
								effects = append(effects, effect{id: op.id, text: e.text, seen: true})
							}
							continue
						}
						if err == nil && own[op.id] {
							note("%q inserts %d again within the same transaction", e.text, op.id)
							return
						}
						e.isNew, e.wr = true, true
					case 1:
						e.isNew, err = col.UpsertOne(op.id, doc, t)
						e.wr = true
						e.seen = !e.isNew && !own[op.id]
					default:
						var ex bool
						ex, err = col.UpdateOne(op.id, doc, t)
						e.wr = ex
						e.seen = ex && !own[op.id]
					}
					if err != nil {
						if err != hx.ErrConflict && !isBadgerConflict(err) {
							note("%q ends with %v", e.text, err)
							return
						}
						mu.Lock()
						conflicts++
						mu.Unlock()
						failed = true
						break
					}
					if e.wr {
						own[op.id] = true
					}
					effects = append(effects, e)
				}
				if t != nil {
					ok := false
					if tk.mode == 1 && !failed {
						err := t.Commit()
						ok = err == nil
						if err != nil && err != hx.ErrConflict && !isBadgerConflict(err) {
							note("committing ends with %v", err)
							return
						}
						if err != nil {
							mu.Lock()
							conflicts++
							mu.Unlock()
						}
					}
					t.Discard()
					if !ok {
						continue
					}
				}
				mu.Lock()
				for _, e := range effects {
					if e.isNew {
						created[e.id] = append(created[e.id], e.text)
					}
					if e.wr {
						if written[e.id] == nil {
							written[e.id] = map[string]bool{}
						}
						written[e.id][e.text] = true
					}
					if e.seen {
						saw[e.id] = e.text
					}
				}
				mu.Unlock()
			}
		}()
	}
	close(start)
	wg.Wait()
	fail := func(format string, a ...interface{}) {
		rt.Fatalf("%s\nhistory: %s", fmt.Sprintf(format, a...), c.Trace())
	}
	if bad != "" {
		fail("%s", bad)
	}
	for id, by := range created {
		if len(by) > 1 {
			fail("document %d was created by each of %q", id, by)
		}
	}
	for id, by := range saw {
		if len(created[id]) == 0 {
			fail("%q found document %d, which nobody created", by, id)
		}
	}
	db, err := dml.NewDB("x", kv, h)
	if err != nil {
		fail("NewDB: %v", err)
	}
	col, err := db.Collection("a")
	if err != nil {
		fail("Collection: %v", err)
	}
	n := 0
	for id := range written {
		n++
		var one struct{ T string }
		if err := col.GetOne(id, &one, nil); err != nil || !written[id][one.T] {
			fail("document %d reads %q, %v; it was written by %v", id, one.T, err, written[id])
		}
		if len(created[id]) == 0 {
			fail("document %d was written by %v, though nobody created it", id, written[id])
		}
	}
	if got, err := col.Count(nil); err != nil || got != n {
		fail("the collection holds %d documents, %v; %d were created", got, err, n)
	}
	c.ClassIf(exists > 0, "a chosen identifier was taken")
	c.ClassIf(conflicts > 0, "a conflict")
	c.NonTrivialIf(exists+conflicts > 0)
}

const chosenRule = "at least one operation finds its identifier taken or conflicts"

func TestP22_Chosen(t *testing.T) {
	hx.Run(t, hx.N{Quick: 3000}, chosenRule, func(rt *rapid.T, c *hx.Case) {
		kv := hx.NewMemKV()
		defer dropAll([]int64{11})
		yields := rapid.Uint64().Draw(rt, "yields")
		var mu sync.Mutex
		ops := 0
		kv.Hook = func(op hx.Op, key []byte) error {
			mu.Lock()
			ops++
			y := yields>>(ops%64)&1 == 1
			mu.Unlock()
			if y {
				runtime.Gosched()
			}
			return nil
		}
		runChosen(rt, c, kv, 11, drawChosen(rt, c, 1<<40))
	})
}

func TestP22_ChosenBadger(t *testing.T) {
	dir := hx.Scratch(t, "docs")
	defer os.RemoveAll(dir)
	kv := openBadger(dir)
	defer func() { _ = kv.Close() }()
	cid := int64(100)
	hx.Run(t, hx.N{Quick: 600}, chosenRule, func(rt *rapid.T, c *hx.Case) {
		cid++
		defer dropAll([]int64{cid})
		runChosen(rt, c, kv, cid, drawChosen(rt, c, 1<<40))
	})
}
