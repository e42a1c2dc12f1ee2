package catalog

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document/config"
	"github.com/zhiqiangxu/mondis/document/ddl"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/document/domain"
	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/document/schema"
	"github.com/zhiqiangxu/mondis/document/txn"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/util/osc"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

const patience = 10 * time.Second

var (
	dbNames  = []string{"d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "名", ""}
	colNames = []string{"c0", "c1", "c2", "c3"}
	idxNames = []string{"i0", "i1", "i2"}
)

// visible tells the first difference between what two caches show.
func visible(a, b *schema.MetaCache, extra []string) string {
	if a.Version() != b.Version() {
		return fmt.Sprintf("version %d, want %d", a.Version(), b.Version())
	}
	for _, d := range append(append([]string{}, dbNames...), extra...) {
		if x, y := a.CheckDBExists(d), b.CheckDBExists(d); x != y {
			return fmt.Sprintf("CheckDBExists(%q)=%v, want %v", d, x, y)
		}
		for _, cn := range colNames {
			if x, y := a.CheckCollectionExists(d, cn), b.CheckCollectionExists(d, cn); x != y {
				return fmt.Sprintf("CheckCollectionExists(%q,%q)=%v, want %v", d, cn, x, y)
			}
			if x := hx.Same(a.CollectionInfo(d, cn), b.CollectionInfo(d, cn)); x != "" {
				return fmt.Sprintf("CollectionInfo(%q,%q) differs: %s", d, cn, x)
			}
			for _, in := range idxNames {
				if x, y := a.CheckIndexExists(d, cn, in), b.CheckIndexExists(d, cn, in); x != y {
					return fmt.Sprintf("CheckIndexExists(%q,%q,%q)=%v, want %v", d, cn, in, x, y)
				}
			}
		}
	}
	return ""
}

// schemaWorld is the catalog's side: databases by version.
type schemaWorld struct {
	next    int64
	version int64
	dbs     []*model.DBInfo
	diffs   []*model.SchemaDiff // diffs[v-1] made version v
	touched [][]int64
	taken   map[string]bool
}

func (w *schemaWorld) id() int64 { w.next++; return w.next }

func (w *schemaWorld) newDB(rt *rapid.T, name string) *model.DBInfo {
	db := &model.DBInfo{ID: w.id(), Name: name, State: osc.StatePublic, Collections: map[string]*model.CollectionInfo{}}
	for _, cn := range colNames[:hx.Uniform(rt, "ncol", len(colNames)+1)] {
		ci := &model.CollectionInfo{ID: w.id(), Name: cn, State: osc.StatePublic, Indices: map[string]*model.IndexInfo{}}
		for _, in := range idxNames[:hx.Uniform(rt, "nidx", len(idxNames)+1)] {
			ci.Indices[in] = &model.IndexInfo{ID: w.id(), Name: in, Columns: []string{cn, in}, Unique: w.next%2 == 0, State: osc.StatePublic}
			ci.IndexOrder = append(ci.IndexOrder, in)
		}
		db.Collections[cn] = ci
		db.CollectionOrder = append(db.CollectionOrder, cn)
	}
	return db
}

// stored returns what the diff looks like after storing and reading it.
func stored(rt *rapid.T, d *model.SchemaDiff) *model.SchemaDiff {
	c := *d
	b, err := c.Encode()
	if err != nil {
		rt.Fatalf("encode: %v", err)
	}
	out := &model.SchemaDiff{}
	if err := out.Decode(b); err != nil {
		rt.Fatalf("decode: %v", err)
	}
	return out
}

// grow creates one more database; ids are the collections the change is said to touch.
func (w *schemaWorld) grow(rt *rapid.T, name string, touch []int64) {
	db := w.newDB(rt, name)
	w.version++
	ids := append([]int64(nil), touch...)
	for _, ci := range db.Collections {
		ids = append(ids, ci.ID)
	}
	w.dbs = append(w.dbs, db)
	w.taken[name] = true
	w.diffs = append(w.diffs, stored(rt, &model.SchemaDiff{Version: w.version, Type: model.ActionCreateSchema, CollectionIDs: ids, Arg: db}))
	w.touched = append(w.touched, ids)
}

func (w *schemaWorld) freeName(rt *rapid.T) string {
	n := dbNames[hx.Uniform(rt, "dbname", len(dbNames))]
	if w.taken[n] {
		n = fmt.Sprintf("more%d", w.version)
	}
	return n
}

func (w *schemaWorld) extra() (out []string) {
	for n := range w.taken {
		out = append(out, n)
	}
	return
}

// copies of diffs, as read from the catalog for one use
func (w *schemaWorld) span(rt *rapid.T, from, to int64) (out []*model.SchemaDiff) {
	for v := from; v <= to; v++ {
		out = append(out, stored(rt, w.diffs[v-1]))
	}
	return
}

// Applying diffs step by step equals loading afresh; inconsistent diffs are refused.
func TestP23_Diffs(t *testing.T) {
	hx.Run(t, hx.N{Quick: 2500}, "at least two batches of diffs are applied and one inconsistent batch refused",
		func(rt *rapid.T, c *hx.Case) {
			w := &schemaWorld{taken: map[string]bool{}}
			for n := hx.Uniform(rt, "before", 4) + 1; n > 0; n-- {
				w.grow(rt, w.freeName(rt), nil)
			}
			given := make([]*model.DBInfo, len(w.dbs))
			for i, d := range w.dbs {
				given[i] = d.Clone()
			}
			cache := schema.NewMetaCache(w.version, given)
			// what the cache was made from is the caller's
			for _, d := range given {
				for _, ci := range d.Collections {
					for _, ii := range ci.Indices {
						ii.Name, ii.ID = "scribbled", -1
						for i := range ii.Columns {
							ii.Columns[i] = "scribbled"
						}
					}
					ci.Indices = nil
					ci.Name, ci.ID = "scribbled", -1
				}
				d.Name, d.Collections = "scribbled", nil
			}
			// before anything is loaded nothing exists
			var none *schema.MetaCache
			for _, d := range w.dbs {
				for _, cn := range colNames {
					if none.CheckDBExists(d.Name) || none.CheckCollectionExists(d.Name, cn) || none.CollectionInfo(d.Name, cn) != nil || none.CheckIndexExists(d.Name, cn, idxNames[0]) {
						rt.Fatalf("%q/%q exists before anything is loaded", d.Name, cn)
					}
				}
				if _, err := dml.NewDB(d.Name, nil, schema.NewHandle()); err != dml.ErrDBNotExists {
					rt.Fatalf("database %q before anything is loaded: %v", d.Name, err)
				}
			}
			applied, refused := 0, 0
			for n := hx.Count(rt, "steps", 1, 8); n > 0; n-- {
				from := w.version
				k := 1 + hx.Uniform(rt, "batch", 4)
				if hx.Uniform(rt, "long", 20) == 0 {
					k = 30 + hx.Uniform(rt, "longBatch", 80)
					c.Class("long batch")
				}
				save := *w
				save.dbs, save.diffs, save.touched = w.dbs[:len(w.dbs):len(w.dbs)], w.diffs[:len(w.diffs):len(w.diffs)], w.touched[:len(w.touched):len(w.touched)]
				save.taken = map[string]bool{}
				for x := range w.taken {
					save.taken[x] = true
				}
				for i := 0; i < k; i++ {
					w.grow(rt, w.freeName(rt), nil)
				}
				ds := w.span(rt, from+1, w.version)
				bad := ""
				switch hx.Uniform(rt, "bad", 12) {
				case 0:
					bad = "a gap before"
					w.grow(rt, w.freeName(rt), nil)
					ds = w.span(rt, from+2, w.version)
				case 1:
					if k > 1 {
						bad = "a gap inside"
						at := 1 + hx.Uniform(rt, "at", k-1)
						w.grow(rt, w.freeName(rt), nil)
						ds = append(w.span(rt, from+1, from+int64(at)), w.span(rt, from+int64(at)+2, w.version)...)
					}
				case 2:
					bad = "a version that was applied before"
					ds = append(w.span(rt, from, from), ds...)
				case 3:
					bad = "an unknown kind of change"
					d := ds[hx.Uniform(rt, "at", len(ds))]
					d.Type = []model.ActionType{model.ActionNone, 77}[hx.Uniform(rt, "kind", 2)]
				case 4:
					if len(save.dbs) > 0 {
						bad = "a database that exists"
						old := save.dbs[hx.Uniform(rt, "which", len(save.dbs))]
						at := hx.Uniform(rt, "at", len(ds))
						ds[at] = stored(rt, &model.SchemaDiff{Version: ds[at].Version, Type: model.ActionCreateSchema, Arg: old})
					}
				case 5:
					if k > 1 {
						bad = "the same database twice"
						d := stored(rt, ds[len(ds)-2])
						d.Version = ds[len(ds)-1].Version
						ds[len(ds)-1] = d
					}
				case 6:
					bad = "an undecodable argument"
					ds[hx.Uniform(rt, "at", len(ds))].RawArg = []byte(`[1]`)
				case 7:
					if k > 1 {
						bad = "versions out of order"
						ds[0], ds[1] = ds[1], ds[0]
					}
				}
				next := cache.Clone()
				if d := visible(next, cache, save.extra()); d != "" {
					rt.Fatalf("a copy of the cache shows %s\nhistory: %s", d, c.Trace())
				}
				err := next.ApplyDiffs(ds)
				c.Step("apply %d from %d (%s): %v", len(ds), from, bad, err)
				if bad != "" {
					if err == nil {
						rt.Fatalf("diffs with %s are accepted\nhistory: %s", bad, c.Trace())
					}
					refused++
					c.Class("refused: " + bad)
					*w = save
				} else {
					if err != nil {
						rt.Fatalf("consistent diffs are refused: %v\nhistory: %s", err, c.Trace())
					}
					applied++
					// the old cache is still in use by transactions
					if d := visible(cache, schema.NewMetaCache(save.version, save.dbs), w.extra()); d != "" {
						rt.Fatalf("applying diffs to a copy changed the original: %s\nhistory: %s", d, c.Trace())
					}
					cache = next
				}
				if d := visible(cache, schema.NewMetaCache(w.version, w.dbs), w.extra()); d != "" {
					rt.Fatalf("the cache shows %s\nhistory: %s", d, c.Trace())
				}
			}
			c.NonTrivialIf(applied > 1 && refused > 0)
		})
}

type openTxn struct {
	t        *txn.Txn
	start    *schema.MetaCache
	startV   int64
	refs     map[int64]bool
	key      string
	cancels  []int
	update   bool
	overlaps bool
}

// verdict: +1 must commit, -1 must be refused, 0 either.
func verdict(w *schemaWorld, reloadedAt int64, start, cur *schema.MetaCache, startV int64, refs map[int64]bool) int {
	if start == cur {
		return 1
	}
	if start == nil {
		return 0
	}
	for v := startV + 1; v <= w.version; v++ {
		for _, id := range w.touched[v-1] {
			if refs[id] {
				return -1
			}
		}
	}
	if w.version-startV > 100 || reloadedAt > startV {
		return 0
	}
	return 1
}

func TestP23_Commit(t *testing.T) {
	hx.Run(t, hx.N{Quick: 4000}, "a transaction is refused because of a change and one commits across a change",
		func(rt *rapid.T, c *hx.Case) {
			db := hx.NewMemKV()
			failNext := false
			db.Hook = func(op hx.Op, key []byte) error {
				if op == hx.OpCommit && failNext {
					failNext = false
					return errors.New("injected")
				}
				return nil
			}
			h := schema.NewHandle()
			w := &schemaWorld{taken: map[string]bool{}}
			reloadedAt := int64(0)
			fail := func(format string, a ...interface{}) {
				rt.Fatalf("%s\nhistory: %s", fmt.Sprintf(format, a...), c.Trace())
			}
			within := func(what string, f func()) {
				ended, msg := hx.Within(patience, f)
				if !ended {
					fail("%s blocks", what)
				}
				if msg != "" {
					fail("%s: %s", what, msg)
				}
			}
			update := func(cache *schema.MetaCache) {
				within("updating the schema", func() {
					ctx, cancel := context.WithTimeout(context.Background(), patience/2)
					defer cancel()
					if err := h.Update(ctx, cache); err != nil {
						hx.Failf("update: %v", err)
					}
				})
				if h.Get() != cache {
					fail("the handle does not return the updated schema")
				}
			}
			if hx.Uniform(rt, "empty", 6) > 0 {
				for n := 1 + hx.Uniform(rt, "before", 3); n > 0; n-- {
					w.grow(rt, w.freeName(rt), nil)
				}
				update(schema.NewMetaCache(w.version, w.dbs))
				reloadedAt = w.version
			}
			var open []*openTxn
			serial := 0
			refusedN, crossedN := 0, 0
			someID := func() int64 {
				if w.next == 0 || hx.Uniform(rt, "idKind", 8) == 0 {
					return 1 << 40
				}
				return 1 + int64(hx.Uniform(rt, "id", int(w.next)))
			}
			finish := func(i int) {
				o := open[i]
				open = append(open[:i:i], open[i+1:]...)
				for _, other := range open {
					other.overlaps = true
				}
				ran := make([]int, len(o.cancels))
				for k := range o.cancels {
					k := k
					if o.update {
						o.t.AddCancelFunc(func() { ran[k]++ })
					}
				}
				if !o.update {
					within("committing a read-only transaction", func() {
						if err := o.t.Commit(); err != nil {
							hx.Failf("commit: %v", err)
						}
					})
					o.t.Discard()
					return
				}
				if hx.Uniform(rt, "abandon", 8) == 0 {
					o.t.Discard()
					c.Step("discard %s", o.key)
					if ok, _ := db.Exists([]byte(o.key)); ok {
						fail("a discarded transaction wrote")
					}
					return
				}
				v := verdict(w, reloadedAt, o.start, h.Get(), o.startV, o.refs)
				injected := hx.Uniform(rt, "fail", 6) == 0
				failNext = injected
				var err error
				within("committing", func() { err = o.t.Commit() })
				reached := injected && !failNext // the store was asked to commit
				failNext = false
				o.t.Discard()
				c.Step("commit %s from %d at %d refs %v: %v", o.key, o.startV, w.version, o.refs, err)
				written, _ := db.Exists([]byte(o.key))
				if written != (err == nil) {
					fail("commit ends with %v, but written=%v", err, written)
				}
				wantRan := 0
				if err != nil {
					wantRan = 1
				}
				for k := range ran {
					if ran[k] != wantRan {
						fail("commit ends with %v, cancel function %d ran %d times", err, k, ran[k])
					}
				}
				switch {
				case v < 0 && err != txn.ErrDDLConflict:
					fail("commit ends with %v although a referred collection changed", err)
				case v > 0 && !injected && err != nil:
					fail("commit ends with %v although nothing referred to changed", err)
				case v > 0 && injected && (!reached || err == nil || err == txn.ErrDDLConflict):
					fail("commit ends with %v when the store fails", err)
				case err == txn.ErrDDLConflict:
					refusedN++
					c.Class("refused")
					c.ClassIf(v == 0, "refused because it can't be told")
					c.ClassIf(w.version-o.startV == 100, "refused after exactly 100 changes")
				case err == nil && o.start != h.Get():
					crossedN++
					c.Class("committed across changes")
					c.ClassIf(w.version-o.startV == 100, "committed after exactly 100 changes")
				}
			}
			for n := hx.Count(rt, "steps", 1, 30); n > 0; n-- {
				switch hx.Uniform(rt, "op", 6) {
				case 0, 1: // begin
					serial++
					o := &openTxn{start: h.Get(), startV: w.version, refs: map[int64]bool{}, key: fmt.Sprintf("k%d", serial), update: hx.Uniform(rt, "ro", 8) > 0}
					o.t = txn.NewTxn(h, o.update, db)
					if o.t.StartMetaCache() != o.start {
						fail("the transaction does not start from the current schema")
					}
					if o.update {
						if err := o.t.Set([]byte(o.key), []byte("v"), nil); err != nil {
							fail("set: %v", err)
						}
					}
					o.cancels = make([]int, hx.Uniform(rt, "ncancel", 3))
					for k := hx.Uniform(rt, "nref", 4); k > 0; k-- {
						id := someID()
						o.refs[id] = true
						o.t.ReferredCollections(id)
					}
					open = append(open, o)
					c.Step("begin %s at %d refs %v", o.key, o.startV, o.refs)
				case 2: // change by diffs
					if h.Get() == nil {
						continue
					}
					k := 1 + hx.Uniform(rt, "batch", 3)
					switch hx.Uniform(rt, "long", 10) {
					case 0:
						k = 40
					case 1:
						// up to the edge of what is remembered for some transaction
						if len(open) > 0 {
							if d := open[hx.Uniform(rt, "whom", len(open))]; w.version-d.startV < 100 {
								k = int(100-(w.version-d.startV)) + hx.Uniform(rt, "edge", 3) - 1
							}
						}
					}
					from := w.version
					for i := 0; i < k; i++ {
						var touch []int64
						for j := hx.Uniform(rt, "ntouch", 3) - 1; j > 0; j-- {
							touch = append(touch, someID())
						}
						w.grow(rt, w.freeName(rt), touch)
					}
					next := h.Get().Clone()
					if k > 0 {
						if err := next.ApplyDiffs(w.span(rt, from+1, w.version)); err != nil {
							fail("apply: %v", err)
						}
					}
					c.Step("change %d to %d", k, w.version)
					update(next)
				case 3: // full reload
					if hx.Uniform(rt, "reload", 3) > 0 {
						continue
					}
					if hx.Uniform(rt, "grow", 3) > 0 {
						w.grow(rt, w.freeName(rt), nil)
					}
					if w.version == 0 {
						continue
					}
					c.Step("reload %d", w.version)
					update(schema.NewMetaCache(w.version, w.dbs))
					reloadedAt = w.version
				default:
					if len(open) > 0 {
						finish(hx.Uniform(rt, "which", len(open)))
					}
				}
			}
			for len(open) > 0 {
				finish(len(open) - 1)
			}
			// neither outcome blocks what follows
			if h.Get() != nil {
				w.grow(rt, w.freeName(rt), nil)
				next := h.Get().Clone()
				if err := next.ApplyDiffs(w.span(rt, w.version, w.version)); err != nil {
					fail("apply: %v", err)
				}
				update(next)
			}
			o := txn.NewTxn(h, true, db)
			_ = o.Set([]byte("last"), nil, nil)
			within("the last commit", func() {
				if err := o.Commit(); err != nil {
					hx.Failf("commit: %v", err)
				}
			})
			c.NonTrivialIf(refusedN > 0 && crossedN > 0)
		})
}

// Transactions and updates at the same time: every verdict is one that holds at some moment of the
// commit, and everybody gets done.
func TestP23_Concurrent(t *testing.T) {
	hx.Run(t, hx.N{Quick: 400}, "some transactions are refused and some commit", func(rt *rapid.T, c *hx.Case) {
		db := hx.NewMemKV()
		h := schema.NewHandle()
		w := &schemaWorld{taken: map[string]bool{}}
		w.grow(rt, "d0", nil)
		w.next += 8
		nUpd := 1 + hx.Uniform(rt, "updates", 60)
		ncol := 4
		for i := 0; i < nUpd; i++ {
			var touch []int64
			if hx.Uniform(rt, "touches", 3) == 0 {
				touch = []int64{int64(1000 + hx.Uniform(rt, "touch", ncol))}
			}
			w.grow(rt, fmt.Sprintf("m%d", i), touch)
		}
		cache := schema.NewMetaCache(1, w.dbs[:1])
		if err := h.Update(context.Background(), cache); err != nil {
			rt.Fatalf("update: %v", err)
		}
		workers := 2 + hx.Uniform(rt, "workers", 4)
		per := 10 + hx.Uniform(rt, "per", 30)
		c.Step("%d workers x %d transactions, %d updates", workers, per, nUpd)
		var mu sync.Mutex
		var bad string
		refused, committed := 0, 0
		note := func(format string, a ...interface{}) {
			mu.Lock()
			if bad == "" {
				bad = fmt.Sprintf(format, a...)
			}
			mu.Unlock()
		}
		done := make(chan struct{})
		go func() {
			defer close(done)
			var wg sync.WaitGroup
			wg.Add(1)
			go func() {
				defer wg.Done()
				cur := cache
				for v := int64(2); v <= w.version; v++ {
					next := cur.Clone()
					if err := next.ApplyDiffs([]*model.SchemaDiff{w.diffs[v-1]}); err != nil {
						note("apply: %v", err)
						return
					}
					if err := h.Update(context.Background(), next); err != nil {
						note("update: %v", err)
						return
					}
					cur = next
					if v%3 == 0 {
						time.Sleep(20 * time.Microsecond)
					}
				}
			}()
			for g := 0; g < workers; g++ {
				g := g
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < per; i++ {
						ref := int64(1000 + (g+i)%ncol)
						t := txn.NewTxn(h, true, db)
						vs := t.StartMetaCache().Version()
						t.ReferredCollections(ref)
						key := []byte(fmt.Sprintf("%d-%d", g, i))
						_ = t.Set(key, nil, nil)
						if i%2 == 0 {
							time.Sleep(10 * time.Microsecond)
						}
						before := h.Get().Version()
						err := t.Commit()
						after := h.Get().Version()
						t.Discard()
						touched := func(to int64) bool {
							for v := vs + 1; v <= to; v++ {
								for _, id := range w.touched[v-1] {
									if id == ref {
										return true
									}
								}
							}
							return false
						}
						switch err {
						case nil:
							if touched(before) {
								note("a transaction from version %d committed at %d although collection %d changed", vs, before, ref)
							}
						case txn.ErrDDLConflict:
							if !touched(after) {
								note("a transaction from version %d is refused at %d although collection %d did not change", vs, after, ref)
							}
						default:
							note("commit: %v", err)
						}
						_, _, gerr := db.Get(key)
						if (err == nil) != (gerr == nil) || gerr != nil && gerr != kv.ErrKeyNotFound {
							note("commit ends with %v, reading gives %v", err, gerr)
						}
						mu.Lock()
						if err == nil {
							committed++
						} else {
							refused++
						}
						mu.Unlock()
					}
				}()
			}
			wg.Wait()
		}()
		select {
		case <-done:
		case <-time.After(patience):
			rt.Fatalf("transactions and schema updates block each other: %s", c.Trace())
		}
		if bad != "" {
			rt.Fatalf("%s (%s)", bad, c.Trace())
		}
		c.NonTrivialIf(refused > 0 && committed > 0)
	})
}

// What a running domain shows, refreshed change by change while schemas are created, is what loading
// the same store afresh shows.
func TestP23_Domain(t *testing.T) {
	hx.Run(t, hx.N{Quick: 400}, "at least two schemas are created, one with an index", func(rt *rapid.T, c *hx.Case) {
		p := &plan{lease: []time.Duration{0, 100 * time.Millisecond, 900 * time.Millisecond}[hx.Uniform(rt, "lease", 3)]}
		nep := 1 + hx.Uniform(rt, "lives", 3)
		for i := 0; i < nep; i++ {
			p.epochs = append(p.epochs, epoch{length: time.Duration(20+hx.Uniform(rt, "length", 60)) * time.Second})
		}
		for n := hx.Count(rt, "requests", 1, 10); n > 0; n-- {
			q := &request{epoch: hx.Uniform(rt, "inLife", nep), at: time.Duration(hx.Uniform(rt, "at", 50)) * 100 * time.Millisecond}
			q.in, q.invalid = drawInput(rt, len(ddlDBs))
			p.reqs = append(p.reqs, q)
		}
		p.epochs = append(p.epochs, epoch{length: time.Second})
		p.describe(c)
		compared := 0
		p.atEnd = func(r *ddlRun, kv *hx.MemKV) {
			view(r.do.DB, ddlDBs, true)
			got := view(r.do.DB, ddlDBs, true)
			want := loaded(kv, ddlDBs)
			if d := hx.Same(got, want); d != "" {
				hx.Failf("the running domain shows\n%q\nthe store holds\n%q", got, want)
			}
			idx, n := false, 0
			for _, s := range want {
				idx = idx || strings.Contains(s, " index ")
				if !strings.Contains(s, " collection ") {
					n++
				}
			}
			if n > 1 && idx {
				compared++
			}
		}
		problem := p.execute(t, c, func(r *ddlRun, data *hx.MemKV) {})
		c.NonTrivialIf(compared > 0)
		if problem != "" {
			rt.Fatalf("%s\nhistory: %s", problem, c.Trace())
		}
	})
}

// loaded is the view loading the store afresh gives.
func loaded(kv *hx.MemKV, dbs []string) []string {
	t := kv.Begin(false)
	defer t.Discard()
	m := meta.NewMeta(t)
	v, err := m.GetSchemaVersion()
	if err != nil {
		hx.Failf("GetSchemaVersion: %v", err)
	}
	infos, err := m.ListDatabases()
	if err != nil {
		hx.Failf("ListDatabases: %v", err)
	}
	h := schema.NewHandle()
	if err := h.Update(context.Background(), schema.NewMetaCache(v, infos)); err != nil {
		hx.Failf("Update: %v", err)
	}
	return view(func(name string) (*dml.DB, error) { return dml.NewDB(name, kv, h) }, dbs, true)
}

// A domain that could not read the store for any number of changes catches up when it can again.
func TestP23_Outage(t *testing.T) {
	hx.Run(t, hx.N{Quick: 30, Thorough: 300}, "at least ten changes were missed in one outage", func(rt *rapid.T, c *hx.Case) {
		conf := config.Load()
		old := *conf
		defer func() { *conf = old }()
		conf.Lease = 100 * time.Millisecond
		var outages [][]ddl.CreateSchemaInput
		var names []string
		for n := 1 + hx.Uniform(rt, "outages", 3); n > 0; n-- {
			k := hx.Uniform(rt, "short", 5)
			if hx.Uniform(rt, "long", 2) == 0 {
				k = 90 + hx.Uniform(rt, "changes", 25)
				c.NonTrivial()
			}
			var l []ddl.CreateSchemaInput
			for i := 0; i < k; i++ {
				in := ddl.CreateSchemaInput{DB: fmt.Sprintf("o%d_%d", len(outages), i), Collections: []string{"c0"}}
				if i%7 == 0 {
					in.Indices = map[string][]ddl.IndexInfo{"c0": {{Name: "i0", Columns: []string{"a"}}}}
				}
				names = append(names, in.DB)
				l = append(l, in)
			}
			c.Step("%d changes", k)
			c.ClassIf(k > 100, "more changes than are loaded one by one")
			outages = append(outages, l)
		}
		problem := hx.Bubble(t, func() {
			a := hx.NewMemKV()
			b := a.Restart()
			defer func() {
				a.Kill()
				b.Kill()
				time.Sleep(30 * time.Second)
				forget()
			}()
			var dark atomic.Bool
			b.Hook = func(op hx.Op, key []byte) error {
				if dark.Load() && op == hx.OpGet {
					return hx.ErrInjected
				}
				return nil
			}
			da, db := domain.NewDomain(a), domain.NewDomain(b)
			if err := da.Init(); err != nil {
				hx.Failf("init: %v", err)
			}
			if err := db.Init(); err != nil {
				hx.Failf("init: %v", err)
			}
			for _, l := range outages {
				dark.Store(true)
				for _, in := range l {
					ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
					if _, err := da.DDL().CreateSchema(ctx, in); err != nil {
						hx.Failf("CreateSchema(%q): %v", in.DB, err)
					}
					cancel()
				}
				dark.Store(false)
				time.Sleep(5 * time.Second)
				want := loaded(a.Restart(), names)
				for who, do := range map[string]*domain.Domain{"the changing domain": da, "the other domain": db} {
					if got := view(do.DB, names, true); hx.Same(got, want) != "" {
						hx.Failf("%s shows\n%q\nthe store holds\n%q", who, got, want)
					}
				}
			}
		})
		if problem != "" {
			rt.Fatalf("%s\nhistory: %s", problem, c.Trace())
		}
	})
}

// heldKV holds up some views of the store after they began.
type heldKV struct {
	*hx.MemKV
	one, longest, salt uint64
	n                  atomic.Uint64
}

func (h *heldKV) NewTransaction(update bool) mondis.ProviderTxn {
	t := h.MemKV.NewTransaction(update)
	if !update {
		x := (h.n.Add(1) + h.salt) * 0x9e3779b97f4a7c15
		switch d := x >> 20 % 1000; {
		case x>>40%h.one == 0: // for so long that others come first
			time.Sleep(time.Duration(d*h.longest) * time.Microsecond)
		case x>>50%2 == 0: // a little
			time.Sleep(time.Duration(2*d) * time.Microsecond)
		}
	}
	return t
}

// Refreshes of a running domain that overtake one another never take back what was visible.
func TestP23_Overtaken(t *testing.T) {
	hx.Run(t, hx.N{Quick: 30, Thorough: 300}, "at least ten schemas are created while views of the store are held up", func(rt *rapid.T, c *hx.Case) {
		conf := config.Load()
		old := *conf
		defer func() { *conf = old }()
		conf.Lease = time.Duration(1+hx.Uniform(rt, "lease", 2)) * time.Millisecond
		n := 4 + hx.Uniform(rt, "schemas", 16)
		slow := uint64(2 + hx.Uniform(rt, "one in", 4))
		longest := uint64(10 + hx.Uniform(rt, "longest", 40))
		salt := rapid.Uint64().Draw(rt, "salt")
		c.Step("lease %v, %d schemas, one view in %d held up for up to %d ms, %d", conf.Lease, n, slow, longest, salt)
		c.NonTrivialIf(n >= 10)
		kv := hx.NewMemKV()
		held := &heldKV{MemKV: kv, one: slow, longest: longest, salt: salt}
		do := domain.NewDomain(held)
		if err := do.Init(); err != nil {
			rt.Fatalf("init: %v", err)
		}
		defer func() {
			kv.Kill()
			time.Sleep(20 * time.Millisecond)
			forget()
		}()
		name := func(i int) string { return fmt.Sprintf("s%d", i) }
		visible := func(i int) bool { _, err := do.DB(name(i)); return err == nil }
		errs := make(chan string, 2*n+2)
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				ctx, cancel := context.WithTimeout(context.Background(), 12*patience)
				defer cancel()
				_, err := do.DDL().CreateSchema(ctx, ddl.CreateSchemaInput{DB: name(i), Collections: []string{"c"}})
				for transient(err) {
					_, err = do.DDL().CreateSchema(ctx, ddl.CreateSchemaInput{DB: name(i), Collections: []string{"c"}})
				}
				if err != nil {
					errs <- fmt.Sprintf("CreateSchema(%q): %v", name(i), err)
				} else if !visible(i) {
					errs <- fmt.Sprintf("%q is not visible when CreateSchema returns", name(i))
				}
			}(i)
		}
		stop := make(chan struct{})
		watched := make(chan struct{})
		go func() {
			defer close(watched)
			seen := make([]bool, n)
			for {
				for i := range seen {
					v := visible(i)
					if seen[i] && !v {
						errs <- fmt.Sprintf("%q was visible and is no more", name(i))
						return
					}
					seen[i] = v
				}
				select {
				case <-stop:
					return
				case <-time.After(100 * time.Microsecond):
				}
			}
		}()
		wg.Wait()
		time.Sleep(time.Duration(longest)*time.Millisecond + 5*conf.Lease)
		close(stop)
		<-watched
		close(errs)
		for e := range errs {
			rt.Fatalf("%s (%s)", e, c.Trace())
		}
		for i := 0; i < n; i++ {
			if !visible(i) {
				rt.Fatalf("%q is not visible at the end (%s)", name(i), c.Trace())
			}
		}
	})
}

// slowKV holds up single operations of some views of the store.
type slowKV struct {
	*hx.MemKV
	one, longest, salt uint64
	n                  *atomic.Uint64
}

type slowTxn struct {
	mondis.ProviderTxn
	h *slowKV
}

func (h *slowKV) hold() {
	x := (h.n.Add(1) + h.salt) * 0x9e3779b97f4a7c15
	if x>>40%h.one == 0 {
		time.Sleep(time.Duration(x>>20%1000*h.longest) * time.Microsecond)
	}
}

func (h *slowKV) NewTransaction(update bool) mondis.ProviderTxn {
	t := h.MemKV.NewTransaction(update)
	if update {
		return t
	}
	h.hold()
	return &slowTxn{ProviderTxn: t, h: h}
}

func (t *slowTxn) Get(k []byte) ([]byte, mondis.VMetaResp, error) {
	v, m, err := t.ProviderTxn.Get(k)
	t.h.hold()
	return v, m, err
}

func (t *slowTxn) Discard() {
	t.ProviderTxn.Discard()
	t.h.hold()
}

// Domains that begin to run while others make changes show, once these are over, what the store holds,
// and what they showed once they keep showing, wherever their looks at the store are held up.  (Without
// collections: the identifiers of these are kept per process.)
func TestP23_Late(t *testing.T) {
	hx.Run(t, hx.N{Quick: 40, Thorough: 400}, "at least two domains begin while at least five schemas are created", func(rt *rapid.T, c *hx.Case) {
		conf := config.Load()
		old := *conf
		defer func() { *conf = old }()
		conf.Lease = time.Duration(1+hx.Uniform(rt, "lease", 2)) * time.Millisecond
		n := 2 + hx.Uniform(rt, "schemas", 10)
		one := uint64(2 + hx.Uniform(rt, "one in", 6))
		longest := uint64(5 + hx.Uniform(rt, "longest", 30))
		salt := rapid.Uint64().Draw(rt, "salt")
		// the domain begins when so many schemas exist
		late := make([]int, 1+hx.Uniform(rt, "domains", 4))
		for i := range late {
			late[i] = hx.Uniform(rt, "begins after", n)
		}
		c.Step("lease %v, %d schemas, domains begin after %v, one operation in %d held up for up to %d ms, %d", conf.Lease, n, late, one, longest, salt)
		c.NonTrivialIf(n >= 5 && len(late) >= 2)
		kvs := []*hx.MemKV{hx.NewMemKV()}
		do := domain.NewDomain(kvs[0])
		if err := do.Init(); err != nil {
			rt.Fatalf("init: %v", err)
		}
		defer func() {
			for _, kv := range kvs {
				kv.Kill()
			}
			time.Sleep(20 * time.Millisecond)
			forget()
		}()
		var names []string
		for i := 0; i < n; i++ {
			names = append(names, fmt.Sprintf("s%d", i))
		}
		errs := make(chan string, 100)
		stop := make(chan struct{})
		var all []*domain.Domain
		var mu sync.Mutex
		var inits, watchers sync.WaitGroup
		for i := 0; i < n; i++ {
			for _, l := range late {
				if l != i {
					continue
				}
				kv := kvs[0].Restart()
				kvs = append(kvs, kv)
				d := domain.NewDomain(&slowKV{MemKV: kv, one: one, longest: longest, salt: salt, n: new(atomic.Uint64)})
				inits.Add(1)
				exist := append([]string(nil), names[:i]...)
				go func() {
					defer inits.Done()
					err := d.Init()
					for transient(err) {
						err = d.Init()
					}
					if err != nil {
						errs <- fmt.Sprintf("init: %v", err)
						return
					}
					for _, x := range exist {
						if _, err := d.DB(x); err != nil {
							errs <- fmt.Sprintf("%q existed when the domain began and is not visible: %v", x, err)
						}
					}
					mu.Lock()
					all = append(all, d)
					mu.Unlock()
					watchers.Add(1)
					go func() {
						defer watchers.Done()
						seen := map[string]bool{}
						for {
							for _, x := range names {
								_, err := d.DB(x)
								if seen[x] && err != nil {
									errs <- fmt.Sprintf("%q was visible and is no more: %v", x, err)
									return
								}
								seen[x] = err == nil
							}
							select {
							case <-stop:
								return
							case <-time.After(200 * time.Microsecond):
							}
						}
					}()
				}()
			}
			ctx, cancel := context.WithTimeout(context.Background(), 12*patience)
			_, err := do.DDL().CreateSchema(ctx, ddl.CreateSchemaInput{DB: names[i]})
			for transient(err) {
				_, err = do.DDL().CreateSchema(ctx, ddl.CreateSchemaInput{DB: names[i]})
			}
			cancel()
			if err != nil {
				rt.Fatalf("CreateSchema(%q): %v (%s)", names[i], err, c.Trace())
			}
		}
		ended, _ := hx.Within(12*patience, inits.Wait)
		if !ended {
			rt.Fatalf("a domain does not begin (%s)", c.Trace())
		}
		// one change more
		want := loaded(kvs[0].Restart(), names)
		deadline := time.Now().Add(patience)
		var problem string
		for {
			problem = ""
			for i, d := range all {
				if got := view(d.DB, names, true); hx.Same(got, want) != "" {
					problem = fmt.Sprintf("domain %d shows\n%q\nthe store holds\n%q", i, got, want)
				}
			}
			if problem == "" || len(errs) > 0 || time.Now().After(deadline) {
				break
			}
			time.Sleep(time.Millisecond)
		}
		close(stop)
		watchers.Wait()
		close(errs)
		for e := range errs {
			rt.Fatalf("%s (%s)", e, c.Trace())
		}
		if problem != "" {
			rt.Fatalf("%s (%s)", problem, c.Trace())
		}
	})
}
