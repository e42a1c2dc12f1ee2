package docs

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document/config"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/document/schema"
	"github.com/zhiqiangxu/mondis/document/txn"
	"github.com/zhiqiangxu/mondis/kv"
	"go.mongodb.org/mongo-driver/bson"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

type docKey struct{ cid, did int64 }

type docState map[int64]map[int64]string // collection -> id -> encoded document

func (s docState) clone() docState {
	n := docState{}
	for cid, m := range s {
		c := make(map[int64]string, len(m))
		for id, d := range m {
			c[id] = d
		}
		n[cid] = c
	}
	return n
}

func (s docState) put(cid, did int64, d string) {
	if s[cid] == nil {
		s[cid] = map[int64]string{}
	}
	s[cid][did] = d
}

// colw is a collection of the schema.
type colw struct {
	db, name  string
	dbID, cid int64
}

// txw is an explicit transaction and what it must see.
type txw struct {
	n        int
	t        *txn.Txn
	update   bool
	view     docState
	writes   map[docKey]*string // nil: deleted
	start    int64
	known    map[int64]bool
	referred map[int64]bool
	inserted []docKey
	raced    bool // someone else committed since it began
	broken   bool // an operation in it failed half way
}

type docWorld struct {
	rt   *rapid.T
	c    *hx.Case
	db   mondis.KVDB
	mem  *hx.MemKV
	dir  string
	h    *schema.Handle
	dbs  []*model.DBInfo
	cols []*colw
	ver  int64
	// diffs[v] are the collections version v changed
	diffs     map[int64][]int64
	committed docState
	noise     docState
	acked     map[docKey]bool
	txs       []*txw
	ntx       int
	nextID    int64
	failAfter int // fail the store operation this many from now (0: none)
	fired     bool
	audit     bool // P30: no step leaves transactions open but the explicit ones
}

func (w *docWorld) fail(format string, a ...interface{}) {
	w.rt.Fatalf(format+"\nhistory: %s", append(a, w.c.Trace())...)
}

func (w *docWorld) setHook() {
	if w.mem == nil {
		return
	}
	w.mem.Hook = func(op hx.Op, key []byte) error {
		if op == hx.OpBegin || op == hx.OpDiscard || op == hx.OpAfterCommit {
			return nil
		}
		if w.failAfter > 0 {
			w.failAfter--
			if w.failAfter == 0 {
				w.fired = true
				w.c.Class("failed " + op.String())
				return hx.ErrInjected
			}
		}
		return nil
	}
}

func (w *docWorld) addDB(name string, cols []string) *model.DBInfo {
	info := &model.DBInfo{ID: w.nextID, Name: name, Collections: map[string]*model.CollectionInfo{}}
	w.nextID++
	for _, cn := range cols {
		ci := &model.CollectionInfo{ID: w.nextID, Name: cn, Indices: map[string]*model.IndexInfo{}}
		for n := hx.Uniform(w.rt, "indexes", 3); n > 0; n-- {
			in := fmt.Sprintf("i%d", n)
			ci.Indices[in] = &model.IndexInfo{ID: int64(n), Name: in, Columns: []string{"f"}}
			ci.IndexOrder = append(ci.IndexOrder, in)
		}
		info.Collections[cn] = ci
		info.CollectionOrder = append(info.CollectionOrder, cn)
		w.cols = append(w.cols, &colw{db: name, name: cn, dbID: info.ID, cid: w.nextID})
		w.nextID++
	}
	w.dbs = append(w.dbs, info)
	return info
}

func (w *docWorld) sequence(col *colw) {
	bw := int64(1 + hx.Uniform(w.rt, "bandwidth", 6))
	_ = dml.DropSequenceIfExists(col.cid) // of an earlier case that ended early
	if err := dml.CreateSequence(w.db, col.dbID, col.cid, bw); err != nil {
		w.fail("CreateSequence: %v", err)
	}
}

func (w *docWorld) drop() {
	for _, col := range w.cols {
		_ = dml.DropSequenceIfExists(col.cid)
	}
}

func newDocWorld(rt *rapid.T, c *hx.Case, db mondis.KVDB, dir string) *docWorld {
	w := &docWorld{rt: rt, c: c, db: db, dir: dir, diffs: map[int64][]int64{}, committed: docState{}, acked: map[docKey]bool{}, ver: int64(1 + hx.Uniform(rt, "version", 5))}
	w.mem, _ = db.(*hx.MemKV)
	w.nextID = rapid.SampledFrom([]int64{1, 250, 65530, 1<<24 - 4, 1 << 40}).Draw(rt, "firstID")
	// neighbours that are nobody's documents
	for n := hx.Uniform(rt, "noise", 4); n > 0; n-- {
		cid := w.nextID + int64(hx.Uniform(rt, "noiseCid", 12))
		var k []byte
		switch hx.Uniform(rt, "noiseKind", 4) {
		case 0:
			k = append(dml.AppendCollectionIndexDataPrefix(nil, cid), "12345678"...)
		case 1:
			k = dml.EncodeCollectionIndexName2IDKey(nil, cid, "name")
		case 2:
			k = dml.EncodeCollectionDocumentKey(nil, w.nextID-1, 7)
		case 3:
			k = dml.EncodeCollectionDocumentKey(nil, w.nextID+100, -7)
		}
		if err := db.Set(k, []byte("noise"), nil); err != nil {
			hx.Infra("noise: %v", err)
		}
		c.Step("noise %x", k)
	}
	w.addDB("x", []string{"a", "b"}[:1+hx.Uniform(rt, "cols", 2)])
	w.addDB("y", []string{"a", "c", ""}[:1+hx.Uniform(rt, "cols", 3)])
	for _, col := range w.cols {
		w.sequence(col)
	}
	w.h = schema.NewHandle()
	if err := w.h.Update(context.Background(), schema.NewMetaCache(w.ver, w.dbs)); err != nil {
		w.fail("Update: %v", err)
	}
	w.setHook()
	return w
}

func (w *docWorld) open(col *colw) *dml.Collection {
	db, err := dml.NewDB(col.db, w.db, w.h)
	if err != nil {
		w.fail("NewDB(%q): %v", col.db, err)
	}
	dc, err := db.Collection(col.name)
	if err != nil {
		w.fail("Collection(%q): %v", col.name, err)
	}
	return dc
}

// refresh gives the schema another version: a new database, and possibly a change to an existing collection.
func (w *docWorld) refresh() {
	info := w.addDB(fmt.Sprintf("n%d", w.ver), []string{"a"}[:hx.Uniform(w.rt, "cols", 2)])
	diff := &model.SchemaDiff{Version: w.ver + 1, Type: model.ActionCreateSchema, Arg: info}
	for _, ci := range info.Collections {
		diff.CollectionIDs = append(diff.CollectionIDs, ci.ID)
	}
	if hx.Uniform(w.rt, "alsoOld", 2) == 0 {
		diff.CollectionIDs = append(diff.CollectionIDs, w.cols[hx.Uniform(w.rt, "old", len(w.cols))].cid)
	}
	for _, col := range w.cols {
		if col.dbID == info.ID {
			w.sequence(col)
		}
	}
	if _, err := diff.Encode(); err != nil {
		w.fail("Encode: %v", err)
	}
	cache := w.h.Get().Clone()
	if err := cache.ApplyDiffs([]*model.SchemaDiff{diff}); err != nil {
		w.fail("ApplyDiffs: %v", err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
	defer cancel()
	if err := w.h.Update(ctx, cache); err != nil {
		w.fail("the schema can't be refreshed: %v", err)
	}
	w.ver++
	w.diffs[w.ver] = diff.CollectionIDs
	w.c.Step("schema version %d changes collections %v", w.ver, diff.CollectionIDs)
}

func (w *docWorld) begin(update bool) {
	var t *txn.Txn
	switch hx.Uniform(w.rt, "from", 3) {
	case 0:
		t = txn.NewTxn(w.h, update, w.db)
	case 1:
		t = w.open(w.cols[0]).Txn(update)
	case 2:
		db, err := dml.NewDB("x", w.db, w.h)
		if err != nil {
			w.fail("NewDB: %v", err)
		}
		t = db.Txn(update)
	}
	tx := w.enter(t, update)
	w.c.Step("T%d begins, updating: %v", tx.n, update)
}

// enter notes what a transaction that begins now must see.
func (w *docWorld) enter(t *txn.Txn, update bool) *txw {
	w.ntx++
	tx := &txw{n: w.ntx, t: t, update: update, view: w.committed.clone(), writes: map[docKey]*string{}, start: w.ver, known: map[int64]bool{}, referred: map[int64]bool{}}
	for _, col := range w.cols {
		tx.known[col.cid] = true
	}
	w.txs = append(w.txs, tx)
	return tx
}

func (w *docWorld) others(but *txw) {
	for _, tx := range w.txs {
		if tx != but {
			tx.raced = true
		}
	}
}

// commitWas is what a commit has to reckon with.
type commitWas struct{ changed, conflicts, exact bool }

func (w *docWorld) expect(tx *txw) (was commitWas) {
	for v := tx.start + 1; v <= w.ver; v++ {
		for _, cid := range w.diffs[v] {
			was.changed = was.changed || tx.referred[cid]
		}
	}
	mt, exact := tx.t.ProviderTxn.(*hx.MemTxn)
	was.exact = exact
	if exact {
		was.conflicts = len(tx.writes) > 0 && mt.Conflicts()
	}
	return
}

// settle judges a commit and takes over what it did.
func (w *docWorld) settle(tx *txw, was commitWas, err error, fired bool) {
	switch {
	case was.changed:
		if err != txn.ErrDDLConflict {
			w.fail("a transaction that refers to a changed collection ends with %v", err)
		}
		w.c.Class("refused: schema changed")
	case fired:
		if err == nil {
			w.fail("the commit succeeds although the store failed")
		}
	case was.exact && was.conflicts:
		if err == nil {
			w.fail("a conflicting transaction commits")
		}
		w.c.Class("conflict")
	case was.exact || !tx.raced:
		if err != nil {
			w.fail("the transaction does not commit: %v", err)
		}
	}
	if err != nil {
		return
	}
	for k, d := range tx.writes {
		if d == nil {
			delete(w.committed[k.cid], k.did)
		} else {
			w.committed.put(k.cid, k.did, *d)
		}
	}
	for _, k := range tx.inserted {
		w.ack(k)
	}
	if len(tx.writes) > 0 {
		w.others(tx)
		w.c.Class("explicit transaction committed")
	}
}

var errGivesUp = errors.New("the function gives up")

// group runs a function in a transaction of its own.
func (w *docWorld) group() {
	rt := w.rt
	update := hx.Uniform(rt, "update", 5) > 0
	givesUp := hx.Uniform(rt, "givesUp", 4) == 0
	panics := givesUp && hx.Uniform(rt, "panics", 3) == 0
	with := errGivesUp
	if givesUp && hx.Uniform(rt, "usualError", 2) == 0 {
		errs := []error{kv.ErrKeyNotFound, kv.ErrTxnTooBig, io.EOF, context.Canceled, dml.ErrDocNotFound, hx.ErrConflict, fmt.Errorf("gives up: %w", kv.ErrKeyNotFound)}
		with = errs[hx.Uniform(rt, "error", len(errs))]
		w.c.Class("gives up with an error of another meaning")
	}
	var tx *txw
	var was commitWas
	ran := 0
	f := func(t *txn.Txn) error {
		ran++
		tx = w.enter(t, update)
		w.c.Step("T%d begins for a function, updating: %v", tx.n, update)
		for n := hx.Uniform(rt, "ops", 5); n > 0; n-- {
			switch k := hx.Uniform(rt, "inside", 12); {
			case k == 0:
				w.opIn(nil)
			case k == 1 && hx.Uniform(rt, "really", 3) == 0:
				w.refresh()
			default:
				if !tx.broken {
					w.opIn(tx)
				}
			}
		}
		for i := range w.txs {
			if w.txs[i] == tx {
				w.txs = append(w.txs[:i], w.txs[i+1:]...)
				break
			}
		}
		if givesUp || tx.broken {
			if panics {
				panic(with)
			}
			return with
		}
		was = w.expect(tx)
		w.arm()
		return nil
	}
	db, err := dml.NewDB("x", w.db, w.h)
	if err != nil {
		w.fail("NewDB: %v", err)
	}
	col := w.open(w.cols[hx.Uniform(rt, "col", len(w.cols))])
	run := db.RunInNewTxn
	switch on := hx.Uniform(rt, "onCollection", 2) == 0; {
	case update && on:
		run = col.RunInNewUpdateTxn
	case update:
		run = db.RunInNewUpdateTxn
	case on:
		run = col.RunInNewTxn
	}
	func() {
		defer func() {
			if !panics {
				return
			}
			if r := recover(); r != with {
				panic(r)
			}
			err = with
			w.c.Class("function panicked")
		}()
		err = run(f)
	}()
	if ran != 1 {
		w.fail("the function ran %d times", ran)
	}
	fired := w.disarm()
	w.c.Step("the function of T%d ends, gives up %v: %v", tx.n, givesUp || tx.broken, err)
	switch {
	case givesUp || tx.broken:
		if err != with {
			w.fail("a function that gives up comes back with %v", err)
		}
		w.c.ClassIf(len(tx.writes) > 0, "given up after writing")
	case !update:
		if err != nil {
			w.fail("a reading function comes back with %v", err)
		}
		w.c.Class("reading function")
	default:
		w.settle(tx, was, err, fired)
		w.c.ClassIf(err == nil && len(tx.writes) > 1, "function committed several writes")
	}
}

// end commits or discards the transaction.
func (w *docWorld) end(i int, commit bool) {
	tx := w.txs[i]
	w.txs = append(w.txs[:i], w.txs[i+1:]...)
	if tx.broken {
		commit = false
	}
	if !commit {
		tx.t.Discard()
		w.c.Step("T%d is discarded", tx.n)
		return
	}
	w.arm()
	was := w.expect(tx)
	err := tx.t.Commit()
	fired := w.disarm()
	w.c.Step("T%d commits: %v", tx.n, err)
	again := hx.Uniform(w.rt, "again", 6) == 0
	if !tx.update {
		if err != nil {
			w.fail("ending a read-only transaction fails with %v", err)
		}
		tx.t.Discard()
		return
	}
	w.settle(tx, was, err, fired)
	if was.changed && again {
		if err := tx.t.Commit(); err != txn.ErrDDLConflict {
			w.fail("committing a refused transaction again ends with %v", err)
		}
	}
	tx.t.Discard()
}

func (w *docWorld) ack(k docKey) {
	if w.acked[k] {
		w.fail("identifier %d of collection %d was given to two documents", k.did, k.cid)
	}
	w.acked[k] = true
}

// arm lets one of the next store operations fail, sometimes.
func (w *docWorld) arm() {
	w.fired = false
	if w.mem != nil && hx.Uniform(w.rt, "storeFails", 12) == 0 {
		w.failAfter = 1 + hx.Uniform(w.rt, "at", 4)
	}
}

func (w *docWorld) disarm() bool {
	w.failAfter = 0
	if w.fired {
		w.c.Step("(the store fails)")
	}
	return w.fired
}

// op is one operation on a collection, in or outside a transaction.
func (w *docWorld) op() {
	rt := w.rt
	col := w.cols[hx.Uniform(rt, "col", len(w.cols))]
	var tx *txw
	if len(w.txs) > 0 && hx.Uniform(rt, "explicit", 3) > 0 {
		tx = w.txs[hx.Uniform(rt, "tx", len(w.txs))]
		if tx.broken {
			tx = nil
		}
	}
	w.opOn(col, tx)
}

func (w *docWorld) opIn(tx *txw) { w.opOn(w.cols[hx.Uniform(w.rt, "col", len(w.cols))], tx) }

func (w *docWorld) opOn(col *colw, tx *txw) {
	rt := w.rt
	view, where := w.committed, ""
	var t *txn.Txn
	writable, known := true, true
	if tx != nil {
		view, t, where = tx.view, tx.t, fmt.Sprintf(" in T%d", tx.n)
		writable, known = tx.update, tx.known[col.cid]
	}
	docs := view[col.cid]
	what := func(s string, a ...interface{}) string {
		return fmt.Sprintf("%s/%s(%d)%s: %s", col.db, col.name, col.cid, where, fmt.Sprintf(s, a...))
	}
	set := func(did int64, d *string) {
		if tx != nil {
			tx.writes[docKey{col.cid, did}] = d
		} else {
			w.others(nil)
		}
		if d == nil {
			delete(view[col.cid], did)
		} else {
			view.put(col.cid, did, *d)
		}
	}
	did := func() int64 {
		if have := sortedIDs(docs); len(have) > 0 && hx.Uniform(rt, "existing", 3) > 0 {
			return have[hx.Uniform(rt, "which", len(have))]
		}
		return chosen[hx.Uniform(rt, "did", len(chosen))]
	}
	dc := w.open(col)
	kind := hx.Uniform(rt, "op", 14)
	// done judges the error; it returns true when the result is to be judged further
	done := func(s string, err error, writes bool) bool {
		fired := w.disarm()
		w.c.Step("%s = %v", s, err)
		if w.mem != nil && w.mem.MaxTxnOps > 0 && errors.Is(err, kv.ErrTxnTooBig) {
			fired = true
			w.c.Class("more than a transaction takes")
		}
		if tx != nil && known {
			tx.referred[col.cid] = true
		}
		w.c.ClassIf(!known, "collection unknown to the transaction")
		switch {
		case fired:
			if err == nil {
				w.fail("%s succeeds although the store failed", s)
			}
			if tx != nil && kind == 11 {
				tx.broken = true
			}
			return false
		case !known:
			if err != dml.ErrCollectionNotExists {
				w.fail("%s ends with %v, the transaction does not know the collection", s, err)
			}
			return false
		case writes && !writable:
			if err == nil {
				w.fail("%s succeeds in a read-only transaction", s)
			}
			return false
		}
		return true
	}
	w.arm()
	if kind < 6 && hx.Uniform(rt, "badDoc", 12) == 0 {
		var err error
		none, id := bson.M{"f": func() {}}, did()
		how := []string{"insert", "insert under an id", "update", "upsert"}[max(0, kind-2)]
		switch how {
		case "insert":
			_, err = dc.InsertOne(none, t)
		case "insert under an id":
			err = dc.InsertOneManaged(id, none, t)
		case "update":
			_, err = dc.UpdateOne(id, none, t)
		case "upsert":
			_, err = dc.UpsertOne(id, none, t)
		}
		w.disarm()
		w.c.Step("%s", what("%s something that is no document, %d = %v", how, id, err))
		w.c.Class("no document")
		if err == nil {
			w.fail("%s of something that is no document succeeds", how)
		}
		return
	}
	switch kind {
	case 0, 1, 2:
		d := drawD(rt, 2)
		enc := encoded(d)
		id, err := dc.InsertOne(d, t)
		if !done(what("insert %x -> %d", enc, id), err, true) {
			return
		}
		if err != nil {
			w.fail("the insert fails with %v", err)
		}
		k := docKey{col.cid, id}
		if id <= 0 || w.acked[k] {
			w.fail("the new document gets identifier %d", id)
		}
		if _, have := docs[id]; have {
			w.fail("the new document gets the identifier %d of another one", id)
		}
		for _, o := range w.txs {
			for _, ok := range o.inserted {
				if ok == k {
					w.fail("the new document gets identifier %d, which T%d has", id, o.n)
				}
			}
		}
		set(id, &enc)
		if tx != nil {
			tx.inserted = append(tx.inserted, k)
		} else {
			w.ack(k)
		}
		w.c.Class("inserted")
	case 3:
		id, d := did(), drawD(rt, 1)
		_, have := docs[id]
		enc := encoded(d)
		err := dc.InsertOneManaged(id, d, t)
		if !done(what("insert %d %x", id, enc), err, !have) {
			return
		}
		if have && err != dml.ErrDocExists || !have && err != nil {
			w.fail("inserting %d (existing: %v) ends with %v", id, have, err)
		}
		if !have {
			set(id, &enc)
			w.c.Class("inserted under a chosen id")
		}
	case 4:
		id, d := did(), drawD(rt, 1)
		_, have := docs[id]
		enc := encoded(d)
		exists, err := dc.UpdateOne(id, d, t)
		if !done(what("update %d %x -> %v", id, enc, exists), err, have) {
			return
		}
		if err != nil || exists != have {
			w.fail("updating %d (existing: %v) reports %v, %v", id, have, exists, err)
		}
		if have {
			set(id, &enc)
			w.c.Class("updated")
		}
	case 5:
		id, d := did(), drawD(rt, 1)
		_, have := docs[id]
		enc := encoded(d)
		isNew, err := dc.UpsertOne(id, d, t)
		if !done(what("upsert %d %x -> %v", id, enc, isNew), err, true) {
			return
		}
		if err != nil || isNew == have {
			w.fail("upserting %d (existing: %v) reports new: %v, %v", id, have, isNew, err)
		}
		set(id, &enc)
	case 6:
		id := did()
		err := dc.DeleteOne(id, t)
		if !done(what("delete %d", id), err, true) {
			return
		}
		if err != nil {
			w.fail("deleting %d ends with %v", id, err)
		}
		set(id, nil)
	case 7:
		id := did()
		form := drawForm(rt)
		got := reflect.New(form)
		err := dc.GetOne(id, got.Interface(), t)
		if !done(what("get %d as %v", id, form), err, false) {
			return
		}
		want, have := docs[id]
		if !have {
			if err != dml.ErrDocNotFound {
				w.fail("reading missing document %d ends with %v", id, err)
			}
			return
		}
		if err != nil {
			w.fail("document %d reads %v", id, err)
		}
		if d := differs(got.Elem(), want); d != "" {
			w.fail("document %d reads as %v: %s", id, form, d)
		}
	case 8:
		var ids []int64
		missing := false
		for n := hx.Uniform(rt, "n", 5); n > 0; n-- {
			id := did()
			ids = append(ids, id)
			_, have := docs[id]
			missing = missing || !have
		}
		form := drawForm(rt)
		ptr := reflect.New(reflect.SliceOf(form))
		err := dc.GetMany(ids, ptr.Interface(), t)
		got := ptr.Elem()
		if !done(what("get %v as %v", ids, form), err, false) {
			return
		}
		if missing {
			if err != dml.ErrDocNotFound {
				w.fail("reading %v, not all there, ends with %v", ids, err)
			}
			return
		}
		if err != nil || got.Len() != len(ids) {
			w.fail("reading %v gives %d documents, %v", ids, got.Len(), err)
		}
		for i, id := range ids {
			if d := differs(got.Index(i), docs[id]); d != "" {
				w.fail("reading %v as %v gives for %d: %s", ids, form, id, d)
			}
			scribble(got.Index(i))
		}
		w.c.ClassIf(len(ids) > 1, "read many")
	case 9:
		form := drawForm(rt)
		ptr := reflect.New(reflect.SliceOf(form))
		err := dc.GetAll(ptr.Interface(), t)
		got := ptr.Elem()
		if !done(what("get all as %v", form), err, false) {
			return
		}
		ids := sortedIDs(docs)
		if err != nil || got.Len() != len(ids) {
			w.fail("reading all gives %d documents of %d, %v", got.Len(), len(ids), err)
		}
		for i, id := range ids {
			if d := differs(got.Index(i), docs[id]); d != "" {
				w.fail("reading all as %v gives in place %d (id %d): %s", form, i, id, d)
			}
			scribble(got.Index(i))
		}
	case 10:
		n, err := dc.Count(t)
		if !done(what("count -> %d", n), err, false) {
			return
		}
		if err != nil || n != len(docs) {
			w.fail("counting gives %d (%v), want %d", n, err, len(docs))
		}
	case 11:
		if hx.Uniform(rt, "really", 3) > 0 {
			w.failAfter = 0
			return
		}
		n, err := dc.DeleteAll(t)
		if !done(what("delete all -> %d", n), err, len(docs) > 0) {
			return
		}
		if err != nil || n != len(docs) {
			w.fail("deleting all of %d documents reports %d, %v", len(docs), n, err)
		}
		for _, id := range sortedIDs(docs) {
			set(id, nil)
		}
		w.c.ClassIf(n > 0, "deleted all")
	case 12:
		min, max, err := dc.GetDidRange(t)
		if !done(what("range -> %d..%d", min, max), err, false) {
			return
		}
		ids := sortedIDs(docs)
		var wmin, wmax int64
		if len(ids) > 0 {
			wmin, wmax = ids[0], ids[len(ids)-1]
		}
		if err != nil || min != wmin || max != wmax {
			w.fail("the id range is %d..%d (%v), want %d..%d of %d documents", min, max, err, wmin, wmax, len(ids))
		}
		w.c.ClassIf(len(ids) == 0, "range of an empty collection")
	case 13:
		w.failAfter = 0
		if _, err := dml.NewDB("nosuch", w.db, w.h); err != dml.ErrDBNotExists {
			w.fail("opening a missing database ends with %v", err)
		}
		db, err := dml.NewDB(col.db, w.db, w.h)
		if err != nil {
			w.fail("NewDB: %v", err)
		}
		if _, err := db.Collection("nosuch"); err != dml.ErrCollectionNotExists {
			w.fail("opening a missing collection ends with %v", err)
		}
		if _, err := dc.Index("nosuch"); err != dml.ErrIndexNotExists {
			w.fail("opening a missing index ends with %v", err)
		}
		for _, info := range w.dbs {
			if info.ID != col.dbID {
				continue
			}
			for in := range info.Collections[col.name].Indices {
				if idx, err := dc.Index(in); err != nil || idx == nil {
					w.fail("opening index %q gives %v, %v", in, idx, err)
				}
				w.c.Class("index opened")
			}
		}
		if hx.Uniform(rt, "noSequence", 4) == 0 && known && writable {
			if err := dml.DropSequenceIfExists(col.cid); err != nil {
				w.fail("dropping a sequence: %v", err)
			}
			if id, err := dc.InsertOne(bson.D{}, t); err == nil {
				w.fail("without a sequence an insert gives id %d", id)
			}
			if tx != nil {
				tx.referred[col.cid] = true
			}
			w.sequence(col)
			w.c.Class("insert without a sequence")
		}
	}
}

// restart ends all transactions and the sequences, cleanly or not, and starts again.
func (w *docWorld) restart() {
	for len(w.txs) > 0 {
		w.end(0, false)
	}
	clean := hx.Uniform(w.rt, "clean", 2) == 0
	w.c.Step("restart, clean: %v", clean)
	config.Load().Lease = time.Second
	if clean {
		config.Load().Lease = 0
	}
	w.drop()
	if w.mem == nil {
		if err := w.db.Close(); err != nil {
			w.fail("closing: %v", err)
		}
		w.db = openBadger(w.dir)
	}
	for _, col := range w.cols {
		w.sequence(col)
	}
	w.h = schema.NewHandle()
	if err := w.h.Update(context.Background(), schema.NewMetaCache(w.ver, w.dbs)); err != nil {
		w.fail("Update: %v", err)
	}
	w.c.Class("restarted")
}

// whole compares everything stored with the model.
func (w *docWorld) whole() {
	for _, col := range w.cols {
		dc := w.open(col)
		got := []bson.D{}
		if err := dc.GetAll(&got, nil); err != nil {
			w.fail("reading all of %s/%s at the end: %v", col.db, col.name, err)
		}
		var enc, want []string
		for _, d := range got {
			enc = append(enc, encoded(d))
		}
		for _, id := range sortedIDs(w.committed[col.cid]) {
			want = append(want, w.committed[col.cid][id])
			var one bson.D
			if err := dc.GetOne(id, &one, nil); err != nil || encoded(one) != w.committed[col.cid][id] {
				w.fail("at the end document %d of %s/%s reads %v, %v", id, col.db, col.name, one, err)
			}
		}
		if strings.Join(enc, "|") != strings.Join(want, "|") {
			w.fail("at the end %s/%s holds %d documents %x, want %d: %x", col.db, col.name, len(enc), enc, len(want), want)
		}
	}
}

// left judges the transactions open now.
func (w *docWorld) left() {
	if !w.audit {
		return
	}
	if n := w.mem.Live(); n != len(w.txs) {
		w.fail("%d transactions are open, the caller has begun %d", n, len(w.txs))
	}
}

func (w *docWorld) run(steps, maxTx int) {
	rt := w.rt
	if w.mem != nil {
		w.mem.MaxTxnOps = []int{0, 0, 0, 0, 3, 6}[hx.Uniform(rt, "maxOps", 6)]
	}
	for i := 0; i < steps; i++ {
		switch k := hx.Uniform(rt, "step", 24); {
		case k < 2 && len(w.txs) < maxTx:
			w.begin(hx.Uniform(rt, "update", 5) > 0)
		case k < 5 && len(w.txs) > 0:
			w.end(hx.Uniform(rt, "which", len(w.txs)), hx.Uniform(rt, "commit", 4) > 0)
		case k == 5 && hx.Uniform(rt, "really", 2) == 0:
			w.refresh()
		case k == 6 && hx.Uniform(rt, "really", 3) == 0:
			w.restart()
		case k == 7 && len(w.txs) < maxTx:
			w.group()
		default:
			w.op()
		}
		w.left()
	}
	for len(w.txs) > 0 {
		w.end(0, hx.Uniform(rt, "commit", 3) > 0)
	}
	w.whole()
	w.left()
	n := 0
	for _, m := range w.committed {
		if len(m) > 0 {
			n++
		}
	}
	w.c.ClassIf(n > 1, "documents in several collections at the end")
	w.c.NonTrivialIf(len(w.acked) > 1 && (w.c.Has("explicit transaction committed") || w.c.Has("updated") || w.c.Has("deleted all")))
}

const docRule = "two automatic inserts, and an update, a delete-all or an explicit transaction"

func TestP21_Mem(t *testing.T) {
	hx.Run(t, hx.N{Quick: 20000}, docRule, func(rt *rapid.T, c *hx.Case) {
		lease := config.Load().Lease
		w := newDocWorld(rt, c, hx.NewMemKV(), "")
		defer func() { w.failAfter = 0; w.drop(); config.Load().Lease = lease }()
		w.run(hx.Count(rt, "steps", 5, 45), 3)
	})
}

func TestP21_Badger(t *testing.T) {
	hx.Run(t, hx.N{Quick: 200}, docRule, func(rt *rapid.T, c *hx.Case) {
		lease := config.Load().Lease
		dir := hx.Scratch(t, "docs")
		w := newDocWorld(rt, c, openBadger(dir), dir)
		defer func() {
			w.drop()
			for _, tx := range w.txs {
				tx.t.Discard()
			}
			_ = w.db.Close()
			_ = os.RemoveAll(dir)
			config.Load().Lease = lease
		}()
		w.run(hx.Count(rt, "steps", 5, 45), 2)
	})
}

// Collections of hundreds of documents, in two neighbouring collections, with values of all sizes.
func TestP21_Bulk(t *testing.T) {
	hx.Run(t, hx.N{Quick: 24}, "more than 150 documents in a collection", func(rt *rapid.T, c *hx.Case) {
		lease := config.Load().Lease
		var dir string
		var db mondis.KVDB = hx.NewMemKV()
		onBadger := hx.Uniform(rt, "badger", 3) > 0
		if onBadger {
			dir = hx.Scratch(t, "docs")
			db = openBadger(dir)
		}
		w := newDocWorld(rt, c, db, dir)
		defer func() {
			w.drop()
			_ = w.db.Close()
			if dir != "" {
				_ = os.RemoveAll(dir)
			}
			config.Load().Lease = lease
		}()
		sizes := []int{0, 10, 31, 32, 33, 200, 5000}
		for round := 0; round < 3; round++ {
			for _, col := range w.cols[:2] {
				dc := w.open(col)
				n := hx.Uniform(rt, "inserts", 300)
				size := sizes[hx.Uniform(rt, "size", len(sizes))]
				per := 1 + hx.Uniform(rt, "perTxn", 50)
				w.c.Step("%s/%s: %d inserts of %d bytes, %d per transaction", col.db, col.name, n, size, per)
				for done := 0; done < n; {
					tx := txn.NewTxn(w.h, true, w.db)
					got := map[int64]string{}
					for i := 0; i < per && done < n; i++ {
						done++
						d := bson.D{{Key: "n", Value: int64(done)}, {Key: "b", Value: hx.Fill(size+done%3, byte(done))}}
						id, err := dc.InsertOne(d, tx)
						if err != nil {
							w.fail("insert: %v", err)
						}
						got[id] = encoded(d)
					}
					if err := tx.Commit(); err != nil {
						w.fail("commit: %v", err)
					}
					tx.Discard()
					for _, id := range sortedIDs(got) {
						w.ack(docKey{col.cid, id})
						w.committed.put(col.cid, id, got[id])
					}
				}
				c.NonTrivialIf(len(w.committed[col.cid]) > 150)
			}
			w.whole()
			for _, col := range w.cols[:2] {
				dc := w.open(col)
				ids := sortedIDs(w.committed[col.cid])
				if n, err := dc.Count(nil); err != nil || n != len(ids) {
					w.fail("count is %d, %v, want %d", n, err, len(ids))
				}
				min, max, err := dc.GetDidRange(nil)
				if err != nil || len(ids) > 0 && (min != ids[0] || max != ids[len(ids)-1]) {
					w.fail("the id range is %d..%d, %v", min, max, err)
				}
				many := []bson.D{}
				if err := dc.GetMany(ids, &many, nil); err != nil || len(many) != len(ids) {
					w.fail("reading %d documents gives %d, %v", len(ids), len(many), err)
				}
				for i, id := range ids {
					if encoded(many[i]) != w.committed[col.cid][id] {
						w.fail("document %d reads differently among many", id)
					}
				}
			}
			if onBadger && hx.Uniform(rt, "reopen", 2) == 0 {
				w.restart()
				w.whole()
			}
			if hx.Uniform(rt, "clear", 2) == 0 {
				col := w.cols[hx.Uniform(rt, "which", 2)]
				n, err := w.open(col).DeleteAll(nil)
				w.c.Step("%s/%s: delete all -> %d, %v", col.db, col.name, n, err)
				if err != nil || n != len(w.committed[col.cid]) {
					w.fail("deleting all of %d documents reports %d, %v", len(w.committed[col.cid]), n, err)
				}
				delete(w.committed, col.cid)
				w.whole()
			}
		}
	})
}
