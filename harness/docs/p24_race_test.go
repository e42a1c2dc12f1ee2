package docs

import (
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/zhiqiangxu/mondis/document"
	"go.mongodb.org/mongo-driver/bson"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

// raceTask is one operation of a goroutine.
type raceTask struct {
	col  string
	kind int // 0 insert, 1 create index, 2 drop index, 3 upsert of the goroutine's own document, 4 delete it, 5 list
	idef document.IndexDefinition
}

func (k raceTask) text() string {
	switch k.kind {
	case 1:
		return fmt.Sprintf("create %s on %s", indexText(k.idef), k.col)
	case 2:
		return fmt.Sprintf("drop %q of %s", k.idef.Name, k.col)
	}
	return []string{"insert into ", "", "", "upsert in ", "delete from ", "list "}[k.kind] + k.col
}

// Goroutines create and drop indexes and write documents at once, with commits that fail and goroutines
// held up around theirs. After each round the handle lists exactly what the store holds, which is what
// the successful operations can have left in some order, and every document is there.
func TestP24_Racing(t *testing.T) {
	hx.Run(t, hx.N{Quick: 1500}, "two goroutines work on one index name or column set, one of them dropping", func(rt *rapid.T, c *hx.Case) {
		data := hx.NewMemKV()
		names := []string{"a", "b"}[:1+hx.Uniform(rt, "ncol", 2)]
		state := map[string]map[string]document.IndexDefinition{}
		docs := map[string]map[int64]string{}
		auto := map[string]map[int64]bool{}
		iids := map[int64]bool{}
		for _, n := range names {
			state[n], docs[n], auto[n] = map[string]document.IndexDefinition{}, map[int64]string{}, map[int64]bool{}
		}
		var mu sync.Mutex
		kv := data.Restart()
		db := document.NewDB(kv)
		rounds := 1 + hx.Uniform(rt, "rounds", 6)
		for r := 0; r < rounds; r++ {
			if hx.Uniform(rt, "reopen", 4) == 0 {
				kv.Hook = nil
				db.Close()
				kv = data.Restart()
				db = document.NewDB(kv)
				c.Step("reopen")
			}
			ng := 2 + hx.Uniform(rt, "goroutines", 3)
			plans := make([][]raceTask, ng)
			dropped, touched := map[string]map[int]bool{}, map[string]map[int]bool{}
			note := func(m map[string]map[int]bool, k string, g int) {
				if m[k] == nil {
					m[k] = map[int]bool{}
				}
				m[k][g] = true
			}
			for g := range plans {
				for n := 1 + hx.Uniform(rt, "tasks", 4); n > 0; n-- {
					k := raceTask{col: names[hx.Uniform(rt, "col", len(names))], kind: []int{0, 1, 1, 1, 2, 2, 2, 3, 4, 5}[hx.Uniform(rt, "kind", 10)]}
					k.idef.Name = []string{"i", "j"}[hx.Uniform(rt, "iname", 2)]
					k.idef.Fields = []document.IndexField{{Name: []string{"x", "y"}[hx.Uniform(rt, "field", 2)]}}
					k.idef.Option.Unique = rapid.Bool().Draw(rt, "unique")
					plans[g] = append(plans[g], k)
					switch k.kind {
					case 1:
						note(touched, k.col+k.idef.Name, g)
					case 2:
						note(dropped, k.col+k.idef.Name, g)
					}
					c.Step("%d: %s", g, k.text())
				}
			}
			for k, by := range dropped {
				for g := range by {
					for o := range touched[k] {
						c.NonTrivialIf(o != g)
					}
				}
			}
			failing, parks := map[int]bool{}, map[int]bool{}
			for n := hx.Uniform(rt, "failures", 3); n > 0; n-- {
				failing[1+hx.Uniform(rt, "failAt", 20)] = true
			}
			for n := hx.Uniform(rt, "parks", 4); n > 0; n-- {
				parks[1+hx.Uniform(rt, "parkAt", 12)] = true
			}
			parkOp := []hx.Op{hx.OpAfterCommit, hx.OpCommit, hx.OpSet}[hx.Uniform(rt, "parkOp", 3)]
			c.Step("failing commits %v, goroutines held at %v %v", keysOf(failing), parkOp, keysOf(parks))
			commits, seen := 0, 0
			move := make(chan struct{}, 1000)
			kv.Hook = func(op hx.Op, key []byte) error {
				if op == hx.OpBegin || op == hx.OpDiscard {
					return nil
				}
				mu.Lock()
				held := false
				if op == parkOp {
					seen++
					held = parks[seen]
				}
				failed := false
				if op == hx.OpCommit {
					commits++
					failed = failing[commits]
				}
				mu.Unlock()
				if held {
					late := time.After(2 * time.Millisecond)
					for n := 0; n < 2; n++ {
						select {
						case <-move:
						case <-late:
							n = 2
						}
					}
				} else if op == hx.OpAfterCommit {
					select {
					case move <- struct{}{}:
					default:
					}
				}
				runtime.Gosched()
				if failed {
					return hx.ErrInjected
				}
				return nil
			}
			made, gone := map[string]int{}, map[string]int{}
			created := map[string][]document.IndexDefinition{}
			bad := ""
			fail := func(format string, a ...interface{}) {
				if bad == "" {
					bad = fmt.Sprintf(format, a...)
				}
			}
			start := make(chan struct{})
			var wg sync.WaitGroup
			for g := range plans {
				g := g
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					for i, k := range plans[g] {
						col, err := db.Collection(k.col)
						if err != nil {
							if !spurious(err) {
								mu.Lock()
								fail("opening %q: %v", k.col, err)
								mu.Unlock()
							}
							continue
						}
						text := fmt.Sprintf("%d/%d/%d", r, g, i)
						own := int64(-1000 - g)
						switch k.kind {
						case 0:
							id, err := col.InsertOne(bson.M{"t": text}, nil)
							mu.Lock()
							if err == nil {
								if auto[k.col][id] {
									fail("identifier %d of %q given twice", id, k.col)
								}
								auto[k.col][id] = true
								docs[k.col][id] = text
							} else if !spurious(err) {
								fail("inserting: %v", err)
							}
							mu.Unlock()
						case 1:
							iid, err := col.CreateIndex(k.idef)
							mu.Lock()
							if err == nil {
								made[k.col+"\x00"+k.idef.Name]++
								created[k.col] = append(created[k.col], k.idef)
								if iids[iid] {
									fail("index identifier %d given twice", iid)
								}
								iids[iid] = true
							} else if !spurious(err) && !strings.Contains(err.Error(), "already exists") {
								fail("%s: %v", k.text(), err)
							}
							mu.Unlock()
						case 2:
							exists, err := col.DropIndex(k.idef.Name)
							mu.Lock()
							if err == nil && exists {
								gone[k.col+"\x00"+k.idef.Name]++
							} else if err != nil && !spurious(err) {
								fail("%s: %v", k.text(), err)
							}
							mu.Unlock()
						case 3:
							_, err := col.UpsertOne(own, bson.M{"t": text}, nil)
							mu.Lock()
							if err == nil {
								docs[k.col][own] = text
							} else if !spurious(err) {
								fail("upserting: %v", err)
							}
							mu.Unlock()
						case 4:
							err := col.DeleteOne(own, nil)
							mu.Lock()
							if err == nil {
								delete(docs[k.col], own)
							} else if !spurious(err) {
								fail("deleting: %v", err)
							}
							mu.Unlock()
						case 5:
							sets := map[string]bool{}
							for _, d := range col.GetIndexes() {
								if len(d.Fields) != 1 || sets[d.Name] {
									mu.Lock()
									fail("%q lists %v", k.col, d)
									mu.Unlock()
								}
								sets[d.Name] = true
							}
						}
					}
				}()
			}
			close(start)
			ended, _ := hx.Within(60*time.Second, wg.Wait)
			if !ended {
				rt.Fatalf("operations do not end\nhistory: %s", c.Trace())
			}
			kv.Hook = nil
			if bad != "" {
				rt.Fatalf("%s\nhistory: %s", bad, c.Trace())
			}
			// what the handle lists is what a fresh one reads, and possible
			fresh := document.NewDB(kv)
			for _, n := range names {
				col, err := db.Collection(n)
				if err != nil {
					rt.Fatalf("opening %q: %v\nhistory: %s", n, err, c.Trace())
				}
				fcol, err := fresh.Collection(n)
				if err != nil {
					rt.Fatalf("opening %q afresh: %v\nhistory: %s", n, err, c.Trace())
				}
				got, want := listing(col), listing(fcol)
				if got != want {
					rt.Fatalf("%q lists indexes %s, the store holds %s\nhistory: %s", n, got, want, c.Trace())
				}
				now := map[string]document.IndexDefinition{}
				sets := map[string]string{}
				for _, d := range fcol.GetIndexes() {
					now[d.Name] = d
					if o, dup := sets[columnSet(d)]; dup {
						rt.Fatalf("%q has indexes %s and %s on the same columns\nhistory: %s", n, o, d.Name, c.Trace())
					}
					sets[columnSet(d)] = d.Name
				}
				for _, in := range []string{"i", "j"} {
					k := n + "\x00" + in
					_, before := state[n][in]
					_, after := now[in]
					if count(before)+made[k]-gone[k] != count(after) {
						rt.Fatalf("%q: index %q there before: %v, created %d times, dropped %d times, there now: %v\nhistory: %s", n, in, before, made[k], gone[k], after, c.Trace())
					}
					if after {
						ok := before && gone[k] == 0 && indexText(state[n][in]) == indexText(now[in])
						for _, d := range created[n] {
							ok = ok || indexText(d) == indexText(now[in])
						}
						if !ok {
							rt.Fatalf("%q: index %q is %s, which nobody created\nhistory: %s", n, in, indexText(now[in]), c.Trace())
						}
					}
				}
				state[n] = now
				if k, err := col.Count(nil); err != nil || k != len(docs[n]) {
					rt.Fatalf("%q counts %d, %v, want %d\nhistory: %s", n, k, err, len(docs[n]), c.Trace())
				}
				for id, text := range docs[n] {
					if d, err := col.GetOne(id, nil); err != nil || d["t"] != text {
						rt.Fatalf("document %d of %q reads %v, %v, want %q\nhistory: %s", id, n, d, err, text, c.Trace())
					}
				}
			}
		}
	})
}

func spurious(err error) bool {
	return errors.Is(err, hx.ErrInjected) || errors.Is(err, hx.ErrConflict)
}

func count(b bool) int {
	if b {
		return 1
	}
	return 0
}

func listing(col *document.Collection) string {
	var l []string
	for _, d := range col.GetIndexes() {
		l = append(l, indexText(d))
	}
	sort.Strings(l)
	return fmt.Sprint(l)
}
