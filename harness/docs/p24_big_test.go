package docs

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"testing"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document"
	"go.mongodb.org/mongo-driver/bson"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

// bigCol is what one collection of TestP24_Big has to hold.
type bigCol struct {
	docs    map[int64]bson.M
	indexes map[string]document.IndexDefinition
}

// Many collections, many indexes and more documents than one lease of identifiers has, in a few lives.
func TestP24_Big(t *testing.T) {
	hx.Run(t, hx.N{Quick: 60}, "more than 50 collections, 50 indexes or 1000 documents in one life", func(rt *rapid.T, c *hx.Case) {
		var kv mondis.KVDB
		dir := ""
		data := hx.NewMemKV()
		if hx.Uniform(rt, "badger", 4) == 0 {
			dir = hx.Scratch(t, "docs")
			kv = openBadger(dir)
			defer func() {
				_ = kv.Close()
				_ = os.RemoveAll(dir)
			}()
		} else {
			kv = data
		}
		fail := func(format string, a ...interface{}) {
			rt.Fatalf(format+"\nhistory: %s", append(a, c.Trace())...)
		}
		cols := map[string]*bigCol{}
		iids := map[int64]string{}
		serial := int64(0)
		names := func() (l []string) {
			for n := range cols {
				l = append(l, n)
			}
			sort.Strings(l)
			return
		}
		for life := 1 + hx.Uniform(rt, "lives", 3); life > 0; life-- {
			// the store fails some operations on the leases of identifiers
			skip, failures, due, fired := hx.Uniform(rt, "skip", 5), hx.Uniform(rt, "failures", 4), false, 0
			if dir == "" && failures > 0 {
				c.Step("of the operations on leases, %d work and %d fail", skip, failures)
				kv.(*hx.MemKV).Hook = func(op hx.Op, key []byte) error {
					lease := op == hx.OpCommit && due || (op == hx.OpGet || op == hx.OpSet) && bytes.HasPrefix(key, document.EncodeMetaSequenceKey(nil, nil))
					due = lease && op != hx.OpCommit
					if !lease {
						return nil
					}
					if skip > 0 {
						skip--
						return nil
					}
					if fired >= failures {
						return nil
					}
					fired++
					due = false
					c.Class("failed " + op.String() + " for a lease")
					return hx.ErrInjected
				}
			}
			// again tells whether what ended with err has to be tried again
			again := func(err error) bool { return err == hx.ErrInjected && fired > 0 }
			db := document.NewDB(kv)
			open := func(name string) *document.Collection {
				col, err := db.Collection(name)
				for i := 0; again(err) && i < 5; i++ {
					col, err = db.Collection(name)
				}
				if err != nil {
					fail("opening %q: %v", name, err)
				}
				return col
			}
			// what an earlier life left
			whole := func() {
				for _, name := range names() {
					col, b := open(name), cols[name]
					if n, err := col.Count(nil); err != nil || n != len(b.docs) {
						fail("%q counts %d documents, %v, want %d", name, n, err, len(b.docs))
					}
					ids := sortedIDs(b.docs)
					got, err := col.GetMany(ids, nil)
					if err != nil || len(got) != len(ids) {
						fail("%q reads %d of %d documents, %v", name, len(got), len(ids), err)
					}
					for i, id := range ids {
						if msg := hx.Same(got[i], b.docs[id]); msg != "" {
							fail("document %d of %q: %s", id, name, msg)
						}
					}
					shown := map[string]string{}
					list := col.GetIndexes()
					for _, d := range list {
						shown[d.Name] = indexText(d)
					}
					if len(list) != len(b.indexes) {
						fail("%q lists %d indexes, want %d", name, len(list), len(b.indexes))
					}
					for in, d := range b.indexes {
						if shown[in] != indexText(d) {
							fail("%q lists index %s, want %s", name, shown[in], indexText(d))
						}
					}
				}
			}
			if hx.Uniform(rt, "read first", 2) == 0 {
				whole()
			}
			created, inserted, indexed := 0, 0, 0
			for k := 1 + hx.Uniform(rt, "steps", 5); k > 0; k-- {
				kind := hx.Uniform(rt, "step", 6)
				if len(cols) == 0 {
					kind = 0
				}
				pick := func() string { l := names(); return l[hx.Uniform(rt, "collection", len(l))] }
				switch kind {
				case 0:
					n := []int{1, 10, 49, 50, 51, 120, 260}[hx.Uniform(rt, "new", 7)]
					c.Step("%d new collections", n)
					for i := 0; i < n; i++ {
						name := fmt.Sprintf("c%d", len(cols))
						cols[name] = &bigCol{docs: map[int64]bson.M{}, indexes: map[string]document.IndexDefinition{}}
						col := open(name)
						serial++
						doc := bson.M{"n": serial}
						id, err := col.InsertOne(doc, nil)
						for i := 0; again(err) && i < 5; i++ {
							id, err = col.InsertOne(doc, nil)
						}
						if err != nil {
							fail("inserting into the new %q: %v", name, err)
						}
						cols[name].docs[id] = doc
					}
					created += n
				case 1, 2:
					name := pick()
					n := []int{1, 100, 998, 999, 1000, 1001, 2100}[hx.Uniform(rt, "inserts", 7)]
					per := []int{0, 0, 1, 7, 100, 1500}[hx.Uniform(rt, "perTxn", 6)]
					c.Step("%d inserts into %q, %d per transaction", n, name, per)
					col, b := open(name), cols[name]
					var txn mondis.ProviderTxn
					pending := map[int64]bson.M{}
					flush := func() {
						if txn == nil {
							return
						}
						err := txn.Commit()
						txn.Discard()
						txn = nil
						if err != nil {
							fail("committing %d inserts: %v", len(pending), err)
						}
						for id, d := range pending {
							b.docs[id] = d
						}
						pending = map[int64]bson.M{}
					}
					for i := 0; i < n; i++ {
						serial++
						doc := bson.M{"n": serial}
						if per > 0 && txn == nil {
							txn = kv.NewTransaction(true)
						}
						id, err := col.InsertOne(doc, txn)
						for i := 0; again(err) && i < 5; i++ {
							id, err = col.InsertOne(doc, txn)
						}
						if err != nil {
							fail("insert %d into %q: %v", i, name, err)
						}
						if b.docs[id] != nil || pending[id] != nil {
							fail("insert %d into %q gets the identifier %d of another document", i, name, id)
						}
						if txn == nil {
							b.docs[id] = doc
						} else if pending[id] = doc; len(pending) == per {
							flush()
						}
					}
					flush()
					inserted += n
				case 3, 4:
					name := pick()
					n := []int{1, 5, 49, 50, 51, 130}[hx.Uniform(rt, "indexes", 6)]
					c.Step("%d indexes for %q", n, name)
					col, b := open(name), cols[name]
					for i := 0; i < n; i++ {
						serial++
						d := document.IndexDefinition{Name: fmt.Sprintf("i%d", serial), Fields: []document.IndexField{{Name: fmt.Sprintf("f%d", serial)}, {Name: "x", Desc: true}}}
						d.Option.Unique = i%2 == 0
						iid, err := col.CreateIndex(d)
						for i := 0; again(err) && i < 5; i++ {
							iid, err = col.CreateIndex(d)
						}
						if err != nil {
							fail("index %d of %q: %v", i, name, err)
						}
						if o := iids[iid]; o != "" {
							fail("index %s of %q gets the identifier %d of %s", d.Name, name, iid, o)
						}
						iids[iid] = d.Name
						b.indexes[d.Name] = d
					}
					indexed += n
				case 5:
					name := pick()
					col, b := open(name), cols[name]
					if hx.Uniform(rt, "documents", 2) == 0 {
						n, err := col.DeleteAll(nil)
						c.Step("delete all %d of %q", len(b.docs), name)
						if err != nil || n != len(b.docs) {
							fail("deleting all of %q: %d, %v, want %d", name, n, err, len(b.docs))
						}
						b.docs = map[int64]bson.M{}
					} else {
						l := indexNames(b.indexes)
						c.Step("drop half of the %d indexes of %q", len(l), name)
						for i := 0; i < len(l); i += 2 {
							if ok, err := col.DropIndex(l[i]); err != nil || !ok {
								fail("dropping index %q of %q: %v, %v", l[i], name, ok, err)
							}
							delete(b.indexes, l[i])
						}
					}
				}
			}
			c.ClassIf(created > 50, "more than 50 collections")
			c.ClassIf(inserted > 1000, "more than 1000 documents")
			c.ClassIf(indexed > 50, "more than 50 indexes")
			c.NonTrivialIf(created > 50 || inserted > 1000 || indexed > 50)
			whole()
			switch hx.Uniform(rt, "end", 3) {
			case 0, 1:
				db.Close()
				c.Step("close")
			}
			if dir == "" {
				kv = data.Restart()
			} else {
				if err := kv.Close(); err != nil {
					fail("closing: %v", err)
				}
				kv = openBadger(dir)
			}
		}
	})
}
