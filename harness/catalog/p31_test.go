package catalog

import (
	"context"
	"fmt"
	"sync/atomic"
	"testing"
	"time"

	"github.com/zhiqiangxu/mondis/document/config"
	"github.com/zhiqiangxu/mondis/document/ddl"
	"github.com/zhiqiangxu/mondis/document/domain"
	"go.mongodb.org/mongo-driver/bson"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

// Domains that start on a store that fails now and then.
func TestP31_Start(t *testing.T) {
	hx.Run(t, hx.N{Quick: 1200}, "a start fails after the schemas were read, and one succeeds afterwards with collections",
		func(rt *rapid.T, c *hx.Case) {
			conf := config.Load()
			old := *conf
			defer func() { *conf = old }()
			conf.Lease = []time.Duration{0, 100 * time.Millisecond}[hx.Uniform(rt, "lease", 2)]
			type life struct {
				fails  []int // the operations of the starts that fail, counted on from one start to the next
				again  bool  // whether the domain that did not start is started again, or another one
				create []ddl.CreateSchemaInput
				wait   []ddl.CreateSchemaInput // requested just before the end, carried out in this life or in the next
				clean  bool
			}
			var lives []life
			serial := 0
			for n := 2 + hx.Uniform(rt, "lives", 4); n > 0; n-- {
				l := life{again: hx.Uniform(rt, "again", 2) == 0, clean: hx.Uniform(rt, "clean", 2) == 0}
				for k := hx.Uniform(rt, "failures", 4); k > 0; k-- {
					l.fails = append(l.fails, 1+hx.Uniform(rt, "at", 40))
				}
				draw := func() ddl.CreateSchemaInput {
					in := ddl.CreateSchemaInput{DB: fmt.Sprintf("db%03d", serial), Indices: map[string][]ddl.IndexInfo{}}
					serial++
					for j := hx.Uniform(rt, "collections", 4); j > 0; j-- {
						cn := fmt.Sprintf("c%d", j)
						in.Collections = append(in.Collections, cn)
						if hx.Uniform(rt, "index", 3) == 0 {
							in.Indices[cn] = []ddl.IndexInfo{{Name: "i0", Columns: []string{"col0"}, Unique: hx.Uniform(rt, "unique", 2) == 0}}
						}
					}
					return in
				}
				for k := hx.Uniform(rt, "creates", 3); k > 0; k-- {
					l.create = append(l.create, draw())
				}
				if hx.Uniform(rt, "wait", 2) == 0 {
					for k := 1 + hx.Uniform(rt, "waiting", 3); k > 0; k-- {
						l.wait = append(l.wait, draw())
					}
				}
				c.Step("life: operations %v of the starts fail, same domain again %v, creates %d, then %d more", l.fails, l.again, len(l.create), len(l.wait))
				lives = append(lives, l)
			}
			late, started := false, false
			problem := hx.Bubble(t, func() {
				data := hx.NewMemKV()
				type place struct{ db, col string }
				docs := map[place]map[int64]string{}
				var names []string
				var made, waiting []ddl.CreateSchemaInput
				done := func(in ddl.CreateSchemaInput) {
					names, made = append(names, in.DB), append(made, in)
					for _, cn := range in.Collections {
						docs[place{in.DB, cn}] = map[int64]string{}
					}
				}
				var kv *hx.MemKV
				end := func() {
					kv.Kill()
					time.Sleep(30 * time.Second)
					forget()
				}
				defer func() {
					if r := recover(); r != nil {
						end()
						panic(r)
					}
				}()
				for _, l := range lives {
					kv = data.Restart()
					var starting atomic.Bool
					n := 0
					failed := hx.Op(-1)
					kv.Hook = func(op hx.Op, key []byte) error {
						if !starting.Load() || op == hx.OpBegin || op == hx.OpDiscard || op == hx.OpAfterCommit {
							return nil
						}
						n++
						for _, at := range l.fails {
							if at == n {
								failed = op
								return hx.ErrInjected
							}
						}
						return nil
					}
					do := domain.NewDomain(kv)
					for try := 0; ; try++ {
						failed = -1
						begun := n
						starting.Store(true)
						err := do.Init()
						starting.Store(false)
						if err == nil {
							// a lease that can't be taken now is taken later
							break
						}
						if failed < 0 {
							hx.Failf("start %d fails with %v though the store did not", try+1, err)
						}
						c.Class(fmt.Sprintf("start fails in a %v", failed))
						if n-begun > 4 {
							late = true
						}
						if do.DDL() != nil {
							hx.Failf("the domain that did not start takes requests")
						}
						if !l.again {
							do = domain.NewDomain(kv)
						}
					}
					if len(waiting) > 0 {
						c.Class("jobs of an earlier life wait")
						if hx.Same(view(do.DB, names, false), wantedAll(made)) != "" {
							hx.Failf("started, the domain shows\n%q\nwant\n%q", view(do.DB, names, false), wantedAll(made))
						}
						time.Sleep(time.Minute)
						for _, in := range waiting {
							done(in)
						}
						waiting = nil
					}
					for pl, have := range docs {
						db, err := do.DB(pl.db)
						if err != nil {
							hx.Failf("started, database %q: %v", pl.db, err)
						}
						col, err := db.Collection(pl.col)
						if err != nil {
							hx.Failf("started, collection %q/%q: %v", pl.db, pl.col, err)
						}
						for k := 0; k < 2; k++ {
							text := fmt.Sprintf("%s/%s/%d", pl.db, pl.col, len(have))
							id, err := col.InsertOne(bson.M{"t": text}, nil)
							if err != nil {
								hx.Failf("started, inserting into %q/%q: %v", pl.db, pl.col, err)
							}
							if have[id] != "" {
								hx.Failf("started, a document of %q/%q gets the identifier %d of another", pl.db, pl.col, id)
							}
							have[id] = text
						}
						started = true
						if cnt, err := col.Count(nil); err != nil || cnt != len(have) {
							hx.Failf("%q/%q counts %d documents, %v, want %d", pl.db, pl.col, cnt, err, len(have))
						}
					}
					want := wantedAll(made)
					if got := view(do.DB, names, false); hx.Same(got, want) != "" {
						hx.Failf("started, the domain shows\n%q\nwant\n%q", got, want)
					}
					for _, in := range l.create {
						ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
						_, err := do.DDL().CreateSchema(ctx, in)
						cancel()
						if err != nil {
							hx.Failf("CreateSchema(%s): %v", inputText(in), err)
						}
						done(in)
					}
					for _, in := range l.wait {
						ctx, cancel := context.WithTimeout(context.Background(), time.Millisecond)
						_, err := do.DDL().CreateSchema(ctx, in)
						cancel()
						if err != context.DeadlineExceeded {
							hx.Failf("CreateSchema(%s) for a millisecond: %v", inputText(in), err)
						}
					}
					waiting = l.wait
					if l.clean {
						time.Sleep(time.Second)
					}
					end()
				}
			})
			c.NonTrivialIf(late && started)
			if problem != "" {
				rt.Fatalf("%s\nhistory: %s", problem, c.Trace())
			}
		})
}

func wantedAll(made []ddl.CreateSchemaInput) (want []string) {
	for _, in := range made {
		want = append(want, wanted(in)...)
	}
	return
}
