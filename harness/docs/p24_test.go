package docs

import (
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document"
	"github.com/zhiqiangxu/mondis/kv"
	"go.mongodb.org/mongo-driver/bson"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

type legState map[string]map[int64]bson.M

func (s legState) clone() legState {
	n := legState{}
	for name, m := range s {
		n[name] = map[int64]bson.M{}
		for id, d := range m {
			n[name][id] = d
		}
	}
	return n
}

func (s legState) put(name string, id int64, d bson.M) {
	if s[name] == nil {
		s[name] = map[int64]bson.M{}
	}
	s[name][id] = d
}

type legWorld struct {
	rt        *rapid.T
	c         *hx.Case
	kv        mondis.KVDB
	mem       *hx.MemKV
	dir       string
	db        *document.DB
	cols      map[string]*document.Collection
	closed    bool
	names     []string
	committed legState
	view      legState                  // in the transaction
	wrote     map[string]map[int64]bool // by it
	txn       mondis.ProviderTxn
	raced     bool
	indexes   map[string]map[string]document.IndexDefinition
	issued    map[string]map[int64]bool
	iids      map[int64]bool
	failAfter int
	fired     bool
	audit     bool // P30: no step leaves transactions open but the explicit one
}

func (w *legWorld) fail(format string, a ...interface{}) {
	w.rt.Fatalf(format+"\nhistory: %s", append(a, w.c.Trace())...)
}

var legNames = []string{"a", "b", "Collection", "indexes", "a\x00", "集合", strings.Repeat("n", 17), "ab"}

func newLegWorld(rt *rapid.T, c *hx.Case, kv mondis.KVDB, dir string) *legWorld {
	w := &legWorld{rt: rt, c: c, kv: kv, dir: dir, committed: legState{}, indexes: map[string]map[string]document.IndexDefinition{}, issued: map[string]map[int64]bool{}, iids: map[int64]bool{}}
	names := append([]string{}, legNames...)
	for n := 1 + hx.Uniform(rt, "ncol", 4); n > 0; n-- {
		i := hx.Uniform(rt, "name", len(names))
		w.names = append(w.names, names[i])
		names = append(names[:i], names[i+1:]...)
	}
	w.start()
	if w.mem != nil {
		w.mem.MaxTxnOps = []int{0, 0, 0, 0, 3, 6}[hx.Uniform(rt, "maxOps", 6)]
	}
	return w
}

func (w *legWorld) start() {
	if m, ok := w.kv.(*hx.MemKV); ok {
		w.mem = m
		w.mem.Hook = func(op hx.Op, key []byte) error {
			if op == hx.OpBegin || op == hx.OpDiscard || op == hx.OpAfterCommit {
				return nil
			}
			if w.failAfter > 0 {
				w.failAfter--
				if w.failAfter == 0 {
					w.fired = true
					w.c.Class("failed " + op.String())
					return hx.ErrInjected
				}
			}
			return nil
		}
	}
	w.armLease("opening")
	w.db = document.NewDB(w.kv)
	w.disarm()
	w.cols = map[string]*document.Collection{}
	w.closed = false
}

func (w *legWorld) arm() {
	w.fired, w.failAfter = false, 0
	if w.mem != nil && hx.Uniform(w.rt, "storeFails", 12) == 0 {
		w.failAfter = 1 + hx.Uniform(w.rt, "at", 5)
	}
}

// armLease is arm for calls that can't tell about a failure: identifiers may be lost then, nothing else.
func (w *legWorld) armLease(what string) {
	w.fired, w.failAfter = false, 0
	if w.mem != nil && hx.Uniform(w.rt, "leaseFails", 4) == 0 {
		w.failAfter = 1 + hx.Uniform(w.rt, "at", 12)
		w.c.Class("the store may fail while " + what)
	}
}

func (w *legWorld) disarm() bool {
	w.failAfter = 0
	if w.fired {
		w.c.Step("(the store fails)")
	}
	return w.fired
}

func (w *legWorld) drawIndex(name string) document.IndexDefinition {
	rt := w.rt
	d := document.IndexDefinition{Name: []string{"i", "j", "k", "i\x00", "ij"}[hx.Uniform(rt, "iname", 5)]}
	d.Option.Unique = rapid.Bool().Draw(rt, "unique")
	cols := []string{"a", "b", "ab", "", "a\x00"}
	for n := 1 + hx.Uniform(rt, "nfields", 3); n > 0; n-- {
		i := hx.Uniform(rt, "field", len(cols))
		d.Fields = append(d.Fields, document.IndexField{Name: cols[i], Desc: rapid.Bool().Draw(rt, "desc")})
		if hx.Uniform(rt, "again", 5) > 0 { // a column may be named more than once
			cols = append(cols[:i], cols[i+1:]...)
		}
	}
	if names := indexNames(w.indexes[name]); len(names) > 0 && hx.Uniform(rt, "sameColumns", 3) == 0 {
		o := w.indexes[name][names[hx.Uniform(rt, "as", len(names))]]
		d.Fields = rapid.Permutation((&o).Clone().Fields).Draw(rt, "permuted")
		if hx.Uniform(rt, "flip", 4) == 0 {
			f := &d.Fields[hx.Uniform(rt, "which", len(d.Fields))]
			f.Desc = !f.Desc
		}
	}
	return d
}

func indexNames(m map[string]document.IndexDefinition) (l []string) {
	for n := range m {
		l = append(l, n)
	}
	sort.Strings(l)
	return
}

// columnSet is what two indexes may not share: the columns with their directions in any order, without
// direction if there is one only.
func columnSet(d document.IndexDefinition) string {
	var l []string
	for _, f := range d.Fields {
		if len(d.Fields) == 1 {
			l = append(l, fmt.Sprintf("%q", f.Name))
		} else {
			l = append(l, fmt.Sprintf("%q %v", f.Name, f.Desc))
		}
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func indexText(d document.IndexDefinition) string {
	return fmt.Sprintf("%q %+v %v", d.Name, d.Fields, d.Option)
}

func (w *legWorld) checkIndexes(name string, col *document.Collection) {
	got := map[string]string{}
	list := col.GetIndexes()
	for _, d := range list {
		got[d.Name] = indexText(d)
		// the list belongs to the caller
		for i := range d.Fields {
			d.Fields[i].Name = "scribble"
		}
	}
	if len(list) != len(w.indexes[name]) {
		w.fail("%q lists indexes %v, want %v", name, got, w.indexes[name])
	}
	for in, d := range w.indexes[name] {
		if got[in] != indexText(d) {
			w.fail("%q lists index %s, want %s", name, got[in], indexText(d))
		}
	}
}

// open opens a collection; nil when it was refused as it must be.
func (w *legWorld) open(name string) *document.Collection {
	w.arm()
	col, err := w.db.Collection(name)
	fired := w.disarm()
	switch {
	case w.closed:
		if err == nil && w.cols[name] == nil {
			w.fail("opening collection %q after closing succeeds", name)
		}
		if err == nil {
			w.fail("getting collection %q after closing succeeds", name)
		}
		w.c.Class("refused after close")
		return w.cols[name]
	case fired:
		if err == nil {
			w.fail("opening collection %q succeeds although the store failed", name)
		}
		return nil
	case err != nil:
		w.fail("opening collection %q: %v", name, err)
	}
	if o := w.cols[name]; o != nil && o != col {
		w.fail("opening collection %q again gives another one", name)
	}
	if w.cols[name] == nil {
		w.c.Step("open %q", name)
		w.checkIndexes(name, col)
	}
	w.cols[name] = col
	return col
}

func (w *legWorld) op() {
	rt := w.rt
	name := w.names[hx.Uniform(rt, "col", len(w.names))]
	col := w.open(name)
	if col == nil {
		return
	}
	state, txn, where := w.committed, mondis.ProviderTxn(nil), ""
	if w.txn != nil && hx.Uniform(rt, "explicit", 3) > 0 {
		state, txn, where = w.view, w.txn, " in the transaction"
	}
	docs := state[name]
	set := func(id int64, d bson.M) {
		if txn == nil {
			w.raced = true
		} else if w.wrote[name] == nil {
			w.wrote[name] = map[int64]bool{id: true}
		} else {
			w.wrote[name][id] = true
		}
		if d == nil {
			delete(state[name], id)
		} else {
			state.put(name, id, d)
		}
	}
	did := func() int64 {
		if have := sortedIDs(docs); len(have) > 0 && hx.Uniform(rt, "existing", 3) > 0 {
			return have[hx.Uniform(rt, "which", len(have))]
		}
		return chosen[hx.Uniform(rt, "did", len(chosen))]
	}
	kind := hx.Uniform(rt, "op", 14)
	// done tells whether the result is to be judged further
	done := func(s string, err error) bool {
		fired := w.disarm()
		w.c.Step("%q%s: %s = %v", name, where, s, err)
		if w.mem != nil && w.mem.MaxTxnOps > 0 && errors.Is(err, kv.ErrTxnTooBig) {
			fired = true
			w.c.Class("more than a transaction takes")
		}
		if w.closed {
			if err == nil {
				w.fail("%s succeeds after closing", s)
			}
			return false
		}
		if fired {
			if err == nil {
				w.fail("%s succeeds although the store failed", s)
			}
			if txn != nil && kind == 11 {
				w.txn.Discard()
				w.txn = nil
				w.c.Step("discard")
			}
			return false
		}
		return true
	}
	w.arm()
	if kind < 6 && hx.Uniform(rt, "badDoc", 12) == 0 {
		var err error
		none, id := bson.M{"f": func() {}}, did()
		how := []string{"insert", "insert under an id", "update", "upsert"}[max(0, kind-2)]
		switch how {
		case "insert":
			_, err = col.InsertOne(none, txn)
		case "insert under an id":
			err = col.InsertOneManaged(id, none, txn)
		case "update":
			_, err = col.UpdateOne(id, none, txn)
		case "upsert":
			_, err = col.UpsertOne(id, none, txn)
		}
		w.disarm()
		w.c.Step("%q%s: %s something that is no document, %d = %v", name, where, how, id, err)
		w.c.Class("no document")
		if err == nil {
			w.fail("%s of something that is no document succeeds", how)
		}
		return
	}
	switch kind {
	case 0, 1, 2:
		d := drawM(rt, 2)
		id, err := col.InsertOne(d, txn)
		if !done(fmt.Sprintf("insert %v -> %d", d, id), err) {
			return
		}
		if err != nil {
			w.fail("inserting ends with %v", err)
		}
		if w.issued[name] == nil {
			w.issued[name] = map[int64]bool{}
		}
		if _, have := docs[id]; have || id <= 0 || w.issued[name][id] {
			w.fail("the new document gets identifier %d", id)
		}
		w.issued[name][id] = true
		set(id, d)
		w.c.Class("inserted")
	case 3:
		id, d := did(), drawM(rt, 1)
		_, have := docs[id]
		err := col.InsertOneManaged(id, d, txn)
		if !done(fmt.Sprintf("insert %d %v", id, d), err) {
			return
		}
		if have && err != document.ErrDocIDExists || !have && err != nil {
			w.fail("inserting %d (existing: %v) ends with %v", id, have, err)
		}
		if !have {
			set(id, d)
		}
	case 4:
		id, d := did(), drawM(rt, 1)
		_, have := docs[id]
		exists, err := col.UpdateOne(id, d, txn)
		if !done(fmt.Sprintf("update %d %v -> %v", id, d, exists), err) {
			return
		}
		if err != nil || exists != have {
			w.fail("updating %d (existing: %v) reports %v, %v", id, have, exists, err)
		}
		if have {
			set(id, d)
			w.c.Class("updated")
		}
	case 5:
		id, d := did(), drawM(rt, 1)
		_, have := docs[id]
		isNew, err := col.UpsertOne(id, d, txn)
		if !done(fmt.Sprintf("upsert %d %v -> %v", id, d, isNew), err) {
			return
		}
		if err != nil || isNew == have {
			w.fail("upserting %d (existing: %v) reports new: %v, %v", id, have, isNew, err)
		}
		set(id, d)
	case 6:
		id := did()
		err := col.DeleteOne(id, txn)
		if !done(fmt.Sprintf("delete %d", id), err) {
			return
		}
		if err != nil {
			w.fail("deleting %d ends with %v", id, err)
		}
		set(id, nil)
	case 7:
		id := did()
		got, err := col.GetOne(id, txn)
		if !done(fmt.Sprintf("get %d", id), err) {
			return
		}
		want, have := docs[id]
		if !have {
			if err != document.ErrDocNotFound {
				w.fail("reading missing document %d ends with %v", id, err)
			}
			return
		}
		if err != nil || hx.Same(got, want) != "" {
			w.fail("document %d reads %v (%v), want %v: %s", id, got, err, want, hx.Same(got, want))
		}
	case 8:
		var ids []int64
		missing := false
		for n := hx.Uniform(rt, "n", 5); n > 0; n-- {
			id := did()
			ids = append(ids, id)
			_, have := docs[id]
			missing = missing || !have
		}
		got, err := col.GetMany(ids, txn)
		if !done(fmt.Sprintf("get %v", ids), err) {
			return
		}
		if missing {
			if err != document.ErrDocNotFound {
				w.fail("reading %v, not all there, ends with %v", ids, err)
			}
			return
		}
		if err != nil || len(got) != len(ids) {
			w.fail("reading %v gives %d documents, %v", ids, len(got), err)
		}
		for i, id := range ids {
			if hx.Same(got[i], docs[id]) != "" {
				w.fail("reading %v gives %v for %d, want %v", ids, got[i], id, docs[id])
			}
		}
	case 9, 10:
		n, err := col.Count(txn)
		if !done(fmt.Sprintf("count -> %d", n), err) {
			return
		}
		if err != nil || n != len(docs) {
			w.fail("counting gives %d (%v), want %d", n, err, len(docs))
		}
	case 11:
		if hx.Uniform(rt, "really", 3) > 0 {
			w.failAfter = 0
			return
		}
		n, err := col.DeleteAll(txn)
		if !done(fmt.Sprintf("delete all -> %d", n), err) {
			return
		}
		if err != nil || n != len(docs) {
			w.fail("deleting all of %d documents reports %d, %v", len(docs), n, err)
		}
		for _, id := range sortedIDs(docs) {
			set(id, nil)
		}
		w.c.ClassIf(n > 0, "deleted all")
	case 12:
		d := w.drawIndex(name)
		bad := hx.Uniform(rt, "bad", 15)
		if bad == 0 {
			d.Name = ""
		} else if bad == 1 {
			d.Fields = nil
		}
		given := d.Clone()
		iid, err := col.CreateIndex(d)
		changed := hx.Same(d, given)
		// the definition belongs to the caller again
		for i := range d.Fields {
			d.Fields[i] = document.IndexField{Name: "scribble"}
		}
		if !done(fmt.Sprintf("create index %s -> %d", indexText(given), iid), err) {
			return
		}
		if changed != "" {
			w.fail("creating an index changes the caller's definition: %s", changed)
		}
		refuse := ""
		if bad < 2 {
			refuse = "it is incomplete"
		}
		for in, o := range w.indexes[name] {
			if in == given.Name {
				refuse = "the name is taken"
			} else if bad > 1 && columnSet(o) == columnSet(given) {
				refuse = "the columns have one"
			}
		}
		if refuse != "" {
			if err == nil {
				w.fail("creating index %s succeeds although %s", indexText(given), refuse)
			}
			w.c.Class("index refused: " + refuse)
			return
		}
		if err != nil {
			w.fail("creating index %s ends with %v", indexText(given), err)
		}
		if iid <= 0 || w.iids[iid] {
			w.fail("the index gets identifier %d", iid)
		}
		w.iids[iid] = true
		if w.indexes[name] == nil {
			w.indexes[name] = map[string]document.IndexDefinition{}
		}
		w.indexes[name][given.Name] = given
		w.raced = true
		w.c.Class("index created")
	case 13:
		in := w.drawIndex(name).Name
		if hx.Uniform(rt, "bad", 20) == 0 {
			in = ""
		}
		exists, err := col.DropIndex(in)
		if !done(fmt.Sprintf("drop index %q -> %v", in, exists), err) {
			return
		}
		if in == "" {
			if err != document.ErrIndexNameEmpty {
				w.fail("dropping an index without a name ends with %v", err)
			}
			return
		}
		_, have := w.indexes[name][in]
		if err != nil || exists != have {
			w.fail("dropping index %q (existing: %v) reports %v, %v", in, have, exists, err)
		}
		if have {
			delete(w.indexes[name], in)
			w.raced = true
			w.c.Class("index dropped")
		}
	}
	if !w.closed {
		w.checkIndexes(name, col)
	}
}

func (w *legWorld) endTxn(commit bool) {
	txn := w.txn
	w.txn = nil
	defer txn.Discard()
	if !commit {
		w.c.Step("discard")
		return
	}
	conflicts, exact := false, false
	if mt, ok := txn.(*hx.MemTxn); ok {
		conflicts, exact = mt.Writes() && mt.Conflicts(), true
	}
	err := txn.Commit()
	w.c.Step("commit = %v", err)
	if exact && err == nil && conflicts {
		w.fail("a conflicting transaction commits")
	}
	if err != nil && !(exact && conflicts) && !(!exact && w.raced) {
		w.fail("the transaction does not commit: %v", err)
	}
	if err != nil {
		w.c.Class("conflict")
		return
	}
	for _, name := range w.names {
		for id := range w.wrote[name] {
			if d, have := w.view[name][id]; have {
				w.committed.put(name, id, d)
			} else {
				delete(w.committed[name], id)
			}
		}
	}
	w.c.Class("transaction committed")
}

// whole compares all documents with the model.
func (w *legWorld) whole() {
	for _, name := range w.names {
		w.failAfter = 0
		col, err := w.db.Collection(name)
		if err != nil {
			w.fail("opening %q at the end: %v", name, err)
		}
		w.checkIndexes(name, col)
		if n, err := col.Count(nil); err != nil || n != len(w.committed[name]) {
			w.fail("at the end %q counts %d (%v), want %d", name, n, err, len(w.committed[name]))
		}
		for _, id := range sortedIDs(w.committed[name]) {
			got, err := col.GetOne(id, nil)
			if err != nil || hx.Same(got, w.committed[name][id]) != "" {
				w.fail("at the end document %d of %q reads %v, %v, want %v", id, name, got, err, w.committed[name][id])
			}
		}
	}
}

func (w *legWorld) reopen() {
	if w.txn != nil {
		w.endTxn(false)
	}
	if !w.closed && hx.Uniform(w.rt, "crash", 3) > 0 {
		w.c.Step("close")
		w.armLease("closing")
		w.db.Close()
		w.disarm()
		w.closed = true
		// everything is refused now and changes nothing
		for n := 1 + hx.Uniform(w.rt, "afterClose", 6); n > 0; n-- {
			w.op()
		}
		w.db.Close()
	}
	w.c.Step("reopen")
	if w.mem == nil {
		if err := w.kv.Close(); err != nil {
			w.fail("closing: %v", err)
		}
		w.kv = openBadger(w.dir)
	} else {
		w.left()
		w.kv = w.mem.Restart()
	}
	w.start()
	w.c.Class("reopened")
}

// left judges the transactions open now.
func (w *legWorld) left() {
	if !w.audit {
		return
	}
	want := 0
	if w.txn != nil {
		want = 1
	}
	if n := w.mem.Live(); n != want {
		w.fail("%d transactions are open, the caller has begun %d", n, want)
	}
}

func (w *legWorld) run(steps int) {
	rt := w.rt
	for i := 0; i < steps; i++ {
		switch k := hx.Uniform(rt, "step", 20); {
		case k == 0 && w.txn == nil:
			w.txn = w.kv.NewTransaction(true)
			w.view, w.wrote = w.committed.clone(), map[string]map[int64]bool{}
			w.raced = false
			w.c.Step("begin")
		case k < 3 && w.txn != nil:
			w.endTxn(hx.Uniform(rt, "commit", 4) > 0)
		case k == 4 && hx.Uniform(rt, "really", 2) == 0:
			w.reopen()
		case k == 5:
			bad := []string{"", "collection", "index"}[hx.Uniform(rt, "badName", 3)]
			if _, err := w.db.Collection(bad); err == nil {
				w.fail("a collection named %q opens", bad)
			}
		default:
			w.op()
		}
		w.left()
	}
	if w.txn != nil {
		w.endTxn(hx.Uniform(rt, "commit", 3) > 0)
	}
	w.whole()
	w.left()
	w.reopen()
	w.whole()
	w.left()
	w.c.NonTrivialIf(w.c.Has("inserted") && w.c.Has("index created") && (w.c.Has("index dropped") || w.c.Has("updated") || w.c.Has("deleted all") || w.c.Has("transaction committed")))
}

const legRule = "an insert, an index, and a drop, an update, a delete-all or a transaction"

func TestP24_Mem(t *testing.T) {
	hx.Run(t, hx.N{Quick: 10000}, legRule, func(rt *rapid.T, c *hx.Case) {
		w := newLegWorld(rt, c, hx.NewMemKV(), "")
		w.run(hx.Count(rt, "steps", 5, 50))
	})
}

func TestP24_Badger(t *testing.T) {
	hx.Run(t, hx.N{Quick: 150}, legRule, func(rt *rapid.T, c *hx.Case) {
		dir := hx.Scratch(t, "docs")
		w := newLegWorld(rt, c, openBadger(dir), dir)
		defer func() {
			if w.txn != nil {
				w.txn.Discard()
			}
			_ = w.kv.Close()
			_ = os.RemoveAll(dir)
		}()
		w.run(hx.Count(rt, "steps", 5, 50))
	})
}

// Operations under way when the store closes finish, later ones are refused, and nothing changes after
// Close has returned.
func TestP24_Close(t *testing.T) {
	hx.Run(t, hx.N{Quick: 1500}, "some operation succeeds and some is refused", func(rt *rapid.T, c *hx.Case) {
		data := hx.NewMemKV()
		type ins struct {
			id int64
			n  int
		}
		acked := map[string][]ins{}
		total := 0
		for life := 0; life < 2; life++ {
			kv := data.Restart()
			db := document.NewDB(kv)
			names := []string{"a", "b"}
			pre := rapid.Bool().Draw(rt, "preopened")
			if pre {
				for _, n := range names {
					if _, err := db.Collection(n); err != nil {
						rt.Fatalf("opening: %v", err)
					}
				}
			}
			var mu sync.Mutex
			ops := 0
			at := hx.Uniform(rt, "closeAt", 60)
			closeNow := make(chan struct{})
			kv.Hook = func(op hx.Op, key []byte) error {
				mu.Lock()
				ops++
				if ops == at {
					close(closeNow)
				}
				mu.Unlock()
				return nil
			}
			var wg sync.WaitGroup
			bad := ""
			oks, refusals := 0, 0
			ng := 1 + hx.Uniform(rt, "goroutines", 4)
			per := 1 + hx.Uniform(rt, "per", 12)
			c.Step("%d goroutines of %d, closing at %d, collections open before: %v", ng, per, at, pre)
			for g := 0; g < ng; g++ {
				wg.Add(1)
				g := g
				go func() {
					defer wg.Done()
					for i := 0; i < per; i++ {
						name := names[(g+i)%2]
						col, err := db.Collection(name)
						var id int64
						n := life*1000000 + g*1000 + i
						if err == nil {
							id, err = col.InsertOne(bson.M{"n": int64(n)}, nil)
						}
						mu.Lock()
						if err == nil {
							oks++
							acked[name] = append(acked[name], ins{id, n})
						} else {
							refusals++
						}
						mu.Unlock()
					}
				}()
			}
			allDone := make(chan struct{})
			go func() { wg.Wait(); close(allDone) }()
			select {
			case <-closeNow:
			case <-allDone:
			}
			db.Close()
			before := fmt.Sprint(data.Dump())
			for _, n := range names {
				if _, err := db.Collection(n); err == nil {
					bad = "a collection opens after closing"
				}
			}
			<-allDone
			if fmt.Sprint(data.Dump()) != before {
				bad = "the store changes after Close has returned"
			}
			total += oks
			c.NonTrivialIf(oks > 0 && refusals > 0)
			if bad != "" {
				rt.Fatalf("%s\nhistory: %s", bad, c.Trace())
			}
		}
		db := document.NewDB(data.Restart())
		for name, l := range acked {
			col, err := db.Collection(name)
			if err != nil {
				rt.Fatalf("opening: %v", err)
			}
			seen := map[int64]bool{}
			for _, in := range l {
				if seen[in.id] {
					rt.Fatalf("identifier %d of %q was given twice\nhistory: %s", in.id, name, c.Trace())
				}
				seen[in.id] = true
				got, err := col.GetOne(in.id, nil)
				if err != nil || got["n"] != int64(in.n) {
					rt.Fatalf("document %d of %q reads %v, %v, want %d\nhistory: %s", in.id, name, got, err, in.n, c.Trace())
				}
			}
			if n, err := col.Count(nil); err != nil || n != len(l) {
				rt.Fatalf("%q counts %d, %v, want %d\nhistory: %s", name, n, err, len(l), c.Trace())
			}
		}
		c.ClassIf(total > 10, "more than ten inserts")
	})
}
