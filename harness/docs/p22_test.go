package docs

import (
	"context"
	"fmt"
	"os"
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document/config"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/document/schema"
	"github.com/zhiqiangxu/mondis/document/txn"
	"go.mongodb.org/mongo-driver/bson"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

// task is what one goroutine does next.
type task struct {
	kind  int // 0: insert alone, 1: transaction committed, 2: transaction discarded, 3: delete an own document, 4: refresh the schema
	cols  []int
	yield bool
}

// insertion is one attempt to insert.
type insertion struct {
	cid, id int64
	text    string
	settled bool // the outcome is known
	ok      bool
	deleted bool // acknowledged, then deleted (or possibly deleted)
}

type insertWorld struct {
	rt   *rapid.T
	c    *hx.Case
	mu   sync.Mutex
	all  []*insertion
	bad  string
	fail map[int]bool
	n    int
	kill int
}

func (w *insertWorld) note(format string, a ...interface{}) {
	w.mu.Lock()
	if w.bad == "" {
		w.bad = fmt.Sprintf(format, a...)
	}
	w.mu.Unlock()
}

func (w *insertWorld) started(cid int64, text string) *insertion {
	in := &insertion{cid: cid, text: text}
	w.mu.Lock()
	w.all = append(w.all, in)
	w.mu.Unlock()
	return in
}

func (w *insertWorld) settle(in *insertion, ok bool) {
	w.mu.Lock()
	in.settled, in.ok = true, ok
	w.mu.Unlock()
}

// life runs goroutines against one life of the store.
func (w *insertWorld) life(n int, kv mondis.KVDB, h *schema.Handle, cids []int64, names []string, plans [][]task, killed func() bool) {
	var wg sync.WaitGroup
	var refreshMu sync.Mutex
	for g, plan := range plans {
		wg.Add(1)
		g, plan := g, plan
		go func() {
			defer wg.Done()
			ended := false
			defer func() {
				if e := recover(); e != nil {
					w.note("panic: %v", hx.FailureText(e))
				} else if !ended && !killed() {
					w.note("the goroutine ended")
				}
			}()
			db, err := dml.NewDB("x", kv, h)
			if err != nil {
				w.note("NewDB: %v", err)
				return
			}
			var mine []*insertion
			for step, tk := range plan {
				if tk.yield {
					runtime.Gosched()
				}
				var t *txn.Txn
				var ins []*insertion
				switch tk.kind {
				case 3:
					if len(mine) == 0 {
						continue
					}
					in := mine[step%len(mine)]
					w.mu.Lock()
					in.deleted = true
					w.mu.Unlock()
					col, err := db.Collection(names[indexOf(cids, in.cid)])
					if err != nil {
						w.note("Collection: %v", err)
						return
					}
					_ = col.DeleteOne(in.id, nil)
					continue
				case 4:
					refreshMu.Lock()
					cache := h.Get().Clone()
					diff := &model.SchemaDiff{Version: cache.Version() + 1, Type: model.ActionCreateSchema, CollectionIDs: []int64{cids[tk.cols[0]]}, Arg: &model.DBInfo{Name: fmt.Sprintf("r%d_%d_%d", n, g, step)}}
					_, _ = diff.Encode()
					err := cache.ApplyDiffs([]*model.SchemaDiff{diff})
					if err == nil {
						ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
						err = h.Update(ctx, cache)
						cancel()
					}
					refreshMu.Unlock()
					if err != nil {
						w.note("refreshing the schema: %v", err)
						return
					}
					continue
				case 1, 2:
					t = txn.NewTxn(h, true, kv)
				}
				for k, ci := range tk.cols {
					col, err := db.Collection(names[ci])
					if err != nil {
						w.note("Collection: %v", err)
						return
					}
					in := w.started(cids[ci], fmt.Sprintf("life %d goroutine %d step %d.%d", n, g, step, k))
					id, err := col.InsertOne(bson.D{{Key: "t", Value: in.text}}, t)
					if err != nil {
						w.settle(in, false)
						if err != hx.ErrInjected && err != hx.ErrConflict && !killed() && !isBadgerConflict(err) {
							w.note("inserting ends with %v", err)
							return
						}
						continue
					}
					w.mu.Lock()
					in.id = id
					w.mu.Unlock()
					if tk.kind == 0 {
						w.settle(in, true)
						mine = append(mine, in)
						break
					}
					ins = append(ins, in)
				}
				if t == nil {
					continue
				}
				ok := false
				if tk.kind == 1 {
					err := t.Commit()
					ok = err == nil
					if err != nil && err != hx.ErrInjected && err != hx.ErrConflict && err != txn.ErrDDLConflict && !killed() && !isBadgerConflict(err) {
						w.note("committing ends with %v", err)
						return
					}
				}
				t.Discard()
				for _, in := range ins {
					w.settle(in, ok)
				}
				if ok {
					mine = append(mine, ins...)
				}
			}
			ended = true
		}()
	}
	wg.Wait()
}

func isBadgerConflict(err error) bool { return err.Error() == hx.ErrConflict.Error() }

func indexOf(l []int64, v int64) int {
	for i, x := range l {
		if x == v {
			return i
		}
	}
	return -1
}

// judge compares what is stored with what was acknowledged.
func (w *insertWorld) judge(kv mondis.KVDB, h *schema.Handle, cids []int64, names []string) string {
	if w.bad != "" {
		return w.bad
	}
	type ck struct{ cid, id int64 }
	owner := map[ck]*insertion{}
	texts := map[string]*insertion{}
	for _, in := range w.all {
		texts[fmt.Sprint(in.cid, in.text)] = in
		if !in.settled || !in.ok {
			continue
		}
		k := ck{in.cid, in.id}
		if o := owner[k]; o != nil {
			return fmt.Sprintf("%q and %q were both inserted under identifier %d of collection %d", o.text, in.text, in.id, in.cid)
		}
		owner[k] = in
	}
	db, err := dml.NewDB("x", kv, h)
	if err != nil {
		return err.Error()
	}
	for i, cid := range cids {
		col, err := db.Collection(names[i])
		if err != nil {
			return err.Error()
		}
		var got []struct{ T string }
		if err := col.GetAll(&got, nil); err != nil {
			return fmt.Sprintf("reading all: %v", err)
		}
		for _, d := range got {
			in := texts[fmt.Sprint(cid, d.T)]
			if in == nil {
				return fmt.Sprintf("collection %d holds %q, which nobody inserted", cid, d.T)
			}
			if in.settled && !in.ok {
				return fmt.Sprintf("collection %d holds %q, whose insert failed or was discarded", cid, d.T)
			}
		}
		for k, in := range owner {
			if k.cid != cid || in.deleted {
				continue
			}
			var one struct{ T string }
			if err := col.GetOne(k.id, &one, nil); err != nil || one.T != in.text {
				return fmt.Sprintf("document %d of collection %d was inserted as %q and reads %q, %v", k.id, cid, in.text, one.T, err)
			}
		}
	}
	return ""
}

func drawTasks(rt *rapid.T, c *hx.Case, ncol int, refresh bool) (plans [][]task) {
	for g := 1 + hx.Uniform(rt, "goroutines", 5); g > 0; g-- {
		var plan []task
		for n := 1 + hx.Uniform(rt, "tasks", 12); n > 0; n-- {
			tk := task{yield: rapid.Bool().Draw(rt, "yield")}
			switch k := hx.Uniform(rt, "task", 12); {
			case k < 4:
			case k < 8:
				tk.kind = 1
			case k < 10:
				tk.kind = 2
			case k == 10:
				tk.kind = 3
			case refresh:
				tk.kind = 4
			}
			m := 1
			if tk.kind == 1 || tk.kind == 2 {
				m = 1 + hx.Uniform(rt, "inserts", 4)
			}
			for ; m > 0; m-- {
				tk.cols = append(tk.cols, hx.Uniform(rt, "col", ncol))
			}
			plan = append(plan, tk)
		}
		plans = append(plans, plan)
		s := ""
		for _, tk := range plan {
			s += fmt.Sprintf(" %s%v", []string{"insert", "commit", "discard", "delete", "refresh"}[tk.kind], tk.cols)
		}
		c.Step("goroutine:%s", s)
	}
	return
}

const insertRule = "at least two goroutines insert into one collection"

func setup(kv mondis.KVDB, ver int64, cids []int64, names []string, bw int64) (*schema.Handle, error) {
	info := &model.DBInfo{ID: 7, Name: "x", Collections: map[string]*model.CollectionInfo{}}
	for i, cid := range cids {
		info.Collections[names[i]] = &model.CollectionInfo{ID: cid, Name: names[i]}
		info.CollectionOrder = append(info.CollectionOrder, names[i])
		if err := dml.CreateSequence(kv, 7, cid, bw); err != nil {
			return nil, fmt.Errorf("CreateSequence: %v", err)
		}
	}
	h := schema.NewHandle()
	return h, h.Update(context.Background(), schema.NewMetaCache(ver, []*model.DBInfo{info}))
}

func dropAll(cids []int64) {
	for _, cid := range cids {
		cid := cid
		done := make(chan struct{})
		go func() { // closing the sequence of a dead store ends the goroutine
			defer close(done)
			_ = dml.DropSequenceIfExists(cid)
		}()
		<-done
	}
}

func TestP22_Mem(t *testing.T) {
	hx.Run(t, hx.N{Quick: 4000}, insertRule, func(rt *rapid.T, c *hx.Case) {
		lease := config.Load().Lease
		defer func() { config.Load().Lease = lease }()
		names := []string{"a", "b", "c"}[:1+hx.Uniform(rt, "cols", 3)]
		cids := []int64{11, 12, 13}[:len(names)]
		data := hx.NewMemKV()
		w := &insertWorld{rt: rt, c: c}
		defer dropAll(cids)
		for n := 1 + hx.Uniform(rt, "lives", 3); n > 0; n-- {
			kv := data.Restart()
			config.Load().Lease = []time.Duration{0, time.Second}[hx.Uniform(rt, "lease", 2)]
			h, err := setup(kv, 1, cids, names, int64(1+hx.Uniform(rt, "bandwidth", 5)))
			if err != nil {
				rt.Fatalf("%v\nhistory: %s", err, c.Trace())
			}
			failing := map[int]bool{}
			for k := hx.Uniform(rt, "failures", 8); k > 0; k-- {
				failing[1+hx.Uniform(rt, "at", 60)] = true
			}
			killAt := 0
			if hx.Uniform(rt, "killed", 3) == 0 {
				killAt = 1 + hx.Uniform(rt, "killAt", 100)
			}
			killOp := []hx.Op{hx.OpCommit, hx.OpAfterCommit, hx.OpSet}[hx.Uniform(rt, "killOp", 3)]
			yields := rapid.Uint64().Draw(rt, "yields")
			var mu sync.Mutex
			ops, kills := 0, 0
			kv.Hook = func(op hx.Op, key []byte) error {
				mu.Lock()
				defer mu.Unlock()
				if op == killOp {
					kills++
					if kills == killAt {
						c.Class("killed at " + op.String())
						kv.Kill()
						return nil
					}
				}
				if op == hx.OpCommit || op == hx.OpSet {
					ops++
					if yields>>(ops%64)&1 == 1 {
						mu.Unlock()
						runtime.Gosched()
						mu.Lock()
					}
					if failing[ops] {
						c.Class("failed " + op.String())
						return hx.ErrInjected
					}
				}
				return nil
			}
			c.Step("life: failures at %v, killed at %v %d", keysOf(failing), killOp, killAt)
			plans := drawTasks(rt, c, len(cids), true)
			c.NonTrivialIf(len(plans) > 1)
			w.life(n, kv, h, cids, names, plans, kv.Killed)
			if !kv.Killed() && hx.Uniform(rt, "clean", 2) == 0 {
				kv.Hook = nil
				dropAll(cids)
			} else {
				kv.Kill()
				dropAll(cids)
			}
			check := data.Restart()
			if msg := w.judge(check, h, cids, names); msg != "" {
				rt.Fatalf("%s\nhistory: %s", msg, c.Trace())
			}
		}
		ok := 0
		for _, in := range w.all {
			if in.ok {
				ok++
			}
		}
		c.ClassIf(ok > 10, "more than ten acknowledged inserts")
	})
}

func keysOf(m map[int]bool) (out []int) {
	for i := 0; i < 100; i++ {
		if m[i] {
			out = append(out, i)
		}
	}
	return
}

func TestP22_Badger(t *testing.T) {
	hx.Run(t, hx.N{Quick: 80}, insertRule, func(rt *rapid.T, c *hx.Case) {
		lease := config.Load().Lease
		defer func() { config.Load().Lease = lease }()
		names := []string{"a", "b", "c"}[:1+hx.Uniform(rt, "cols", 3)]
		cids := []int64{11, 12, 13}[:len(names)]
		dir := hx.Scratch(t, "docs")
		defer os.RemoveAll(dir)
		w := &insertWorld{rt: rt, c: c}
		kv := openBadger(dir)
		defer func() { dropAll(cids); _ = kv.Close() }()
		for n := 1 + hx.Uniform(rt, "lives", 3); n > 0; n-- {
			config.Load().Lease = []time.Duration{0, time.Second}[hx.Uniform(rt, "lease", 2)]
			h, err := setup(kv, 1, cids, names, int64(1+hx.Uniform(rt, "bandwidth", 5)))
			if err != nil {
				rt.Fatalf("%v\nhistory: %s", err, c.Trace())
			}
			c.Step("life")
			plans := drawTasks(rt, c, len(cids), true)
			c.NonTrivialIf(len(plans) > 1)
			w.life(n, kv, h, cids, names, plans, func() bool { return false })
			dropAll(cids)
			if err := kv.Close(); err != nil {
				rt.Fatalf("closing: %v\nhistory: %s", err, c.Trace())
			}
			kv = openBadger(dir)
			if msg := w.judge(kv, h, cids, names); msg != "" {
				rt.Fatalf("%s\nhistory: %s", msg, c.Trace())
			}
		}
	})
}
