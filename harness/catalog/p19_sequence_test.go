package catalog

import (
	"testing"

	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/document/meta/sequence"
	"github.com/zhiqiangxu/mondis/document/model"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

// The identifier sequence of a collection lives inside its database: it goes with the database, or with the
// collection when that is asked for, and with nothing else; and nothing that is read of the catalog sees it.
func TestP19_Sequences(t *testing.T) {
	hx.Run(t, hx.N{Quick: 500}, "identifiers are taken after a drop", func(rt *rapid.T, c *hx.Case) {
		kv := hx.NewMemKV()
		type place struct{ db, col int64 }
		cols := map[int64]map[int64]bool{}
		taken := map[place]int64{} // the last identifier taken
		dropped := map[place]bool{}
		ids := []int64{1, 2, 12, 256}
		in := func(f func(m *meta.Meta) error) {
			txn := kv.NewTransaction(true)
			defer txn.Discard()
			if err := f(meta.NewMeta(txn)); err != nil {
				rt.Fatalf("%v\nhistory: %s", err, c.Trace())
			}
			if err := txn.Commit(); err != nil {
				rt.Fatalf("commit: %v\nhistory: %s", err, c.Trace())
			}
		}
		check := func() {
			in(func(m *meta.Meta) error {
				dbs, err := m.ListDatabases()
				if err != nil {
					return err
				}
				if len(dbs) != len(cols) {
					rt.Fatalf("%d databases are listed, want %d\nhistory: %s", len(dbs), len(cols), c.Trace())
				}
				for id, want := range cols {
					got, err := m.ListCollections(id)
					if err != nil {
						return err
					}
					if len(got) != len(want) {
						rt.Fatalf("%d collections of %d are listed, want %d\nhistory: %s", len(got), id, len(want), c.Trace())
					}
					for _, ci := range got {
						if !want[ci.ID] {
							rt.Fatalf("collection %d of %d is listed\nhistory: %s", ci.ID, id, c.Trace())
						}
					}
				}
				return nil
			})
		}
		for n := 3 + hx.Uniform(rt, "ops", 40); n > 0; n-- {
			db, col := ids[hx.Uniform(rt, "db", 2)], ids[hx.Uniform(rt, "col", len(ids))]
			at := place{db, col}
			op := hx.Uniform(rt, "op", 12)
			switch {
			case cols[db] == nil:
				c.Step("create database %d", db)
				in(func(m *meta.Meta) error { return m.CreateDatabase(&model.DBInfo{ID: db, Name: "d"}) })
				cols[db] = map[int64]bool{}
			case op == 0:
				c.Step("drop database %d", db)
				in(func(m *meta.Meta) error { return m.DropDatabase(db) })
				delete(cols, db)
				for p := range taken {
					if p.db == db {
						delete(taken, p)
						dropped[p] = true
					}
				}
			case !cols[db][col]:
				c.Step("create collection %d/%d", db, col)
				in(func(m *meta.Meta) error {
					return m.CreateCollection(db, &model.CollectionInfo{ID: col, Name: "c"})
				})
				cols[db][col] = true
			case op == 1 || op == 2:
				auto := rapid.Bool().Draw(rt, "withSequence")
				c.Step("drop collection %d/%d, its sequence: %v", db, col, auto)
				in(func(m *meta.Meta) error { return m.DropCollection(db, col, auto) })
				delete(cols[db], col)
				dropped[at] = true
				if auto {
					delete(taken, at)
				}
			case op == 3:
				c.Step("update collection %d/%d", db, col)
				in(func(m *meta.Meta) error {
					return m.UpdateCollection(db, &model.CollectionInfo{ID: col, Name: "cc"})
				})
			default:
				bw := int64(hx.Uniform(rt, "bandwidth", 6))
				seq, err := meta.NewDocIDSequence(kv, db, col, bw)
				if err != nil {
					rt.Fatalf("NewDocIDSequence: %v\nhistory: %s", err, c.Trace())
				}
				k := 1 + hx.Uniform(rt, "take", 8)
				c.Step("take %d identifiers of %d/%d, bandwidth %d", k, db, col, bw)
				c.NonTrivialIf(dropped[at])
				c.ClassIf(dropped[at] && taken[at] > 0, "a sequence that outlives its collection")
				c.ClassIf(dropped[at] && taken[at] == 0, "a sequence that starts again")
				for ; k > 0; k-- {
					var id int64
					id, err = seq.Next()
					if err != nil {
						rt.Fatalf("Next: %v\nhistory: %s", err, c.Trace())
					}
					if id != taken[at]+1 {
						rt.Fatalf("the next identifier of %d/%d is %d, want %d\nhistory: %s", db, col, id, taken[at]+1, c.Trace())
					}
					taken[at] = id
				}
				if err = seq.Close(true); err != nil {
					rt.Fatalf("Close: %v\nhistory: %s", err, c.Trace())
				}
				if _, err = seq.Next(); err != sequence.ErrSequenceClosed {
					rt.Fatalf("Next on a closed sequence ends with %v\nhistory: %s", err, c.Trace())
				}
			}
			check()
		}
	})
}
