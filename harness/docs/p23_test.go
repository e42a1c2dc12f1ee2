package docs

import (
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"testing"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/document/schema"
	"github.com/zhiqiangxu/mondis/document/txn"
	"go.mongodb.org/mongo-driver/bson"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

// A transaction of document operations depends on the schema of exactly the collections its
// operations are about: a change of one of them before the commit refuses the transaction, which
// then leaves nothing behind; a change of others does not.
func TestP23_Operations(t *testing.T) {
	names := []string{"a", "b", "c", "d"}
	cids := []int64{21, 22, 23, 24}
	hx.Run(t, hx.N{Quick: 4000}, "the schema of a collection changes while a transaction with operations on some collection is open", func(rt *rapid.T, c *hx.Case) {
		kv := hx.NewMemKV()
		defer dropAll(cids)
		fail := func(format string, a ...interface{}) {
			rt.Fatalf("%s\nhistory: %s", fmt.Sprintf(format, a...), c.Trace())
		}
		h, err := setup(kv, 1, cids, names, 5)
		if err != nil {
			fail("%v", err)
		}
		db, err := dml.NewDB("x", kv, h)
		if err != nil {
			fail("%v", err)
		}
		cols := make([]*dml.Collection, len(names))
		for i, name := range names {
			if cols[i], err = db.Collection(name); err != nil {
				fail("%v", err)
			}
			for n := hx.Uniform(rt, "documents", 4); n > 0; n-- {
				if err := cols[i].InsertOneManaged(int64(1000+n), bson.D{{Key: "n", Value: "before"}}, nil); err != nil {
					fail("%v", err)
				}
			}
		}
		version := int64(1)
		docs := func() string {
			s := ""
			for i := range cols {
				var all []struct{ N string }
				if err := cols[i].GetAll(&all, nil); err != nil {
					fail("reading %s: %v", names[i], err)
				}
				s += fmt.Sprint(names[i], all)
			}
			return s
		}
		for round := 1 + hx.Uniform(rt, "rounds", 3); round > 0; round-- {
			before := docs()
			changed := map[int]bool{}
			change := func() {
				var ids []int64
				for k := hx.Uniform(rt, "changed", 3); k > 0; k-- {
					i := hx.Uniform(rt, "changedCol", len(cols))
					changed[i] = true
					ids = append(ids, cids[i])
				}
				version++
				raw, _ := json.Marshal(&model.DBInfo{ID: 100 + version, Name: fmt.Sprintf("other%d", version)})
				next := h.Get().Clone()
				if err := next.ApplyDiffs([]*model.SchemaDiff{{Version: version, Type: model.ActionCreateSchema, CollectionIDs: ids, RawArg: raw}}); err != nil {
					fail("applying: %v", err)
				}
				ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
				err := h.Update(ctx, next)
				cancel()
				if err != nil {
					fail("updating: %v", err)
				}
			}
			begin := &beginKV{KVDB: kv}
			if hx.Uniform(rt, "changeWhileBeginning", 4) == 0 {
				c.Step("a change while the transaction begins")
				begin.then = change
			}
			t := txn.NewTxn(h, true, begin)
			c.ClassIf(len(changed) > 0, "a collection changed while the transaction began")
			refs := map[int]bool{}
			s := ""
			for n := hx.Uniform(rt, "operations", 4); n > 0; n-- {
				i := hx.Uniform(rt, "col", len(cols))
				refs[i] = true
				id := int64(1000 + hx.Uniform(rt, "id", 5))
				doc := bson.D{{Key: "n", Value: "within"}}
				what, err := anyOp(rt, cols[i], id, doc, t)
				s += fmt.Sprintf(" %s on %s", what, names[i])
				if err != nil && err != dml.ErrDocNotFound && err != dml.ErrDocExists {
					fail("%s: %v", what, err)
				}
			}
			for n := hx.Uniform(rt, "changes", 3); n > 0; n-- {
				change()
			}
			conflict := false
			for i := range changed {
				conflict = conflict || refs[i]
			}
			c.Step("transaction:%s; then %v change", s, keysOfInt(changed))
			c.NonTrivialIf(len(changed) > 0 && len(refs) > 0)
			err := t.Commit()
			t.Discard()
			if conflict {
				c.Class("refused")
				if err != txn.ErrDDLConflict {
					fail("the schema of a collection the transaction is about changed, committing gives %v", err)
				}
				if after := docs(); after != before {
					fail("a refused transaction turns %s into %s", before, after)
				}
			} else {
				c.ClassIf(len(changed) > 0 && len(refs) > 0, "another collection changed")
				if err != nil {
					fail("no collection the transaction is about changed, committing gives %v", err)
				}
			}
		}
	})
}

// beginKV lets something happen between the beginning of a transaction in the store and its return.
type beginKV struct {
	mondis.KVDB
	then func()
}

func (b *beginKV) NewTransaction(update bool) mondis.ProviderTxn {
	t := b.KVDB.NewTransaction(update)
	if f := b.then; f != nil {
		b.then = nil
		f()
	}
	return t
}

func keysOfInt(m map[int]bool) (out []int) {
	for i := range m {
		out = append(out, i)
	}
	sort.Ints(out)
	return
}

// anyOp does one of the operations a collection has, in the transaction given.
func anyOp(rt *rapid.T, col *dml.Collection, id int64, doc bson.D, t *txn.Txn) (what string, err error) {
	switch hx.Uniform(rt, "op", 12) {
	case 0:
		what = "InsertOne"
		_, err = col.InsertOne(doc, t)
	case 1:
		what = "InsertOneManaged"
		err = col.InsertOneManaged(id, doc, t)
	case 2:
		what = "UpdateOne"
		_, err = col.UpdateOne(id, doc, t)
	case 3:
		what = "UpsertOne"
		_, err = col.UpsertOne(id, doc, t)
	case 4:
		what = "DeleteOne"
		err = col.DeleteOne(id, t)
	case 5:
		what = "GetOne"
		var one bson.M
		err = col.GetOne(id, &one, t)
	case 6:
		what = "GetMany"
		var many []bson.M
		err = col.GetMany([]int64{id}, &many, t)
	case 7:
		what = "GetDidRange"
		_, _, err = col.GetDidRange(t)
	case 8:
		what = "GetAll"
		var all []bson.M
		err = col.GetAll(&all, t)
	case 9:
		what = "Count"
		_, err = col.Count(t)
	case 10:
		what = "DeleteAll"
		_, err = col.DeleteAll(t)
	default:
		what = "GetIndices"
		_, err = col.GetIndices(t)
	}
	return
}

// What a transaction sees of the schema is what was there when it began: a collection that was made
// after that is missing in it, in every operation, and there for everybody else.
func TestP23_StartSchema(t *testing.T) {
	hx.Run(t, hx.N{Quick: 3000}, "an operation on a collection that was made after the transaction began", func(rt *rapid.T, c *hx.Case) {
		kv := hx.NewMemKV()
		cids := []int64{41, 42}
		defer dropAll(cids)
		fail := func(format string, a ...interface{}) {
			rt.Fatalf("%s\nhistory: %s", fmt.Sprintf(format, a...), c.Trace())
		}
		var h *schema.Handle
		version := int64(1)
		if empty := rapid.Bool().Draw(rt, "noSchemaYet"); empty {
			h = schema.NewHandle()
			version = 0
		} else {
			var err error
			if h, err = setup(kv, 1, cids[:1], []string{"a"}, 5); err != nil {
				fail("%v", err)
			}
		}
		old := txn.NewTxn(h, true, kv)
		defer old.Discard()
		made := &model.DBInfo{ID: 8, Name: "y", CollectionOrder: []string{"b"}, Collections: map[string]*model.CollectionInfo{"b": {ID: cids[1], Name: "b"}}}
		if version > 0 {
			raw, _ := json.Marshal(made)
			next := h.Get().Clone()
			if err := next.ApplyDiffs([]*model.SchemaDiff{{Version: version + 1, Type: model.ActionCreateSchema, CollectionIDs: cids[1:], RawArg: raw}}); err != nil {
				fail("applying: %v", err)
			}
			if err := h.Update(context.Background(), next); err != nil {
				fail("updating: %v", err)
			}
		} else if err := h.Update(context.Background(), schema.NewMetaCache(1, []*model.DBInfo{made})); err != nil {
			fail("updating: %v", err)
		}
		if err := dml.CreateSequence(kv, 8, cids[1], 5); err != nil {
			fail("%v", err)
		}
		db, err := dml.NewDB("y", kv, h)
		if err != nil {
			fail("%v", err)
		}
		col, err := db.Collection("b")
		if err != nil {
			fail("%v", err)
		}
		doc := bson.D{{Key: "n", Value: "x"}}
		c.NonTrivial()
		for n := 1 + hx.Uniform(rt, "operations", 4); n > 0; n-- {
			id := int64(1000 + hx.Uniform(rt, "id", 5))
			if rapid.IntRange(0, 2).Draw(rt, "who") > 0 {
				what, err := anyOp(rt, col, id, doc, old)
				c.Step("%s in the transaction: %v", what, err)
				if err != dml.ErrCollectionNotExists {
					fail("%s in a transaction that began before the collection was made gives %v", what, err)
				}
				continue
			}
			t := txn.NewTxn(h, true, kv)
			what, err := anyOp(rt, col, id, doc, t)
			c.Step("%s in a new transaction: %v", what, err)
			if err != nil && err != dml.ErrDocNotFound && err != dml.ErrDocExists {
				fail("%s in a new transaction: %v", what, err)
			}
			if err := t.Commit(); err != nil {
				fail("committing it: %v", err)
			}
			t.Discard()
		}
	})
}

// The indexes that GetIndices returns belong to the caller: whatever is done to them, the schema stays as it is.
func TestP23_HandedOut(t *testing.T) {
	hx.Run(t, hx.N{Quick: 1500}, "an index that was handed out is modified", func(rt *rapid.T, c *hx.Case) {
		kv := hx.NewMemKV()
		fail := func(format string, a ...interface{}) {
			rt.Fatalf("%s\nhistory: %s", fmt.Sprintf(format, a...), c.Trace())
		}
		want := map[string]string{}
		text := func(ii *model.IndexInfo) string {
			b, err := json.Marshal(ii)
			if err != nil {
				fail("%v", err)
			}
			return string(b)
		}
		ci := &model.CollectionInfo{ID: 61, Name: "a", Indices: map[string]*model.IndexInfo{}}
		for n := hx.Uniform(rt, "indexes", 4); n > 0; n-- {
			ii := &model.IndexInfo{ID: int64(100 + n), Name: fmt.Sprintf("i%d", n), Unique: rapid.Bool().Draw(rt, "unique")}
			for k := 1 + hx.Uniform(rt, "columns", 3); k > 0; k-- {
				ii.Columns = append(ii.Columns, fmt.Sprintf("c%d", k))
			}
			if rapid.Bool().Draw(rt, "redundant") {
				ii.JobRedundant = &model.IndexInfoRedundant{DB: "x", Collection: "a", CID: 61}
			}
			ci.Indices[ii.Name] = ii
			ci.IndexOrder = append(ci.IndexOrder, ii.Name)
			want[ii.Name] = text(ii)
		}
		h := schema.NewHandle()
		cache := schema.NewMetaCache(1, []*model.DBInfo{{ID: 6, Name: "x", CollectionOrder: []string{"a"}, Collections: map[string]*model.CollectionInfo{"a": ci}}})
		if err := h.Update(context.Background(), cache); err != nil {
			fail("updating: %v", err)
		}
		db, err := dml.NewDB("x", kv, h)
		if err != nil {
			fail("%v", err)
		}
		col, err := db.Collection("a")
		if err != nil {
			fail("%v", err)
		}
		old := txn.NewTxn(h, false, kv)
		defer old.Discard()
		for n := 2 + hx.Uniform(rt, "times", 4); n > 0; n-- {
			in := old
			if rapid.Bool().Draw(rt, "implicit") {
				in = nil
			}
			iifs, err := col.GetIndices(in)
			if err != nil {
				fail("GetIndices: %v", err)
			}
			if len(iifs) != len(want) {
				fail("%d indexes, want %d", len(iifs), len(want))
			}
			for _, ii := range iifs {
				if got := text(ii); got != want[ii.Name] {
					fail("index %s, want %s", got, want[ii.Name])
				}
			}
			for _, ii := range iifs {
				what := hx.Uniform(rt, "modify", 8)
				c.NonTrivialIf(what < 7)
				c.Step("modify %d of %s", what, ii.Name)
				switch what {
				case 0:
					ii.Name += "!"
				case 1:
					ii.ID++
				case 2:
					ii.Unique = !ii.Unique
				case 3:
					ii.State++
				case 4:
					ii.Columns[0] += "!"
				case 5:
					ii.Columns = append(ii.Columns[:0], "z")
				case 6:
					if ii.JobRedundant != nil {
						ii.JobRedundant.DB += "!"
					}
				}
			}
		}
	})
}
