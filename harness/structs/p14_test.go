package structs

import (
	"strings"
	"testing"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/structure"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

// history runs a random history of transactions over structures.
func history(t *testing.T, n hx.N, badger bool, rule string, namespaces, names int, kinds string,
	op func(w *world), check func(w *world, st *structure.TxStructure, m *model, ns, name string), clear func(w *world, st *structure.TxStructure, name string), nontrivial func(w *world, commits int) bool) {
	var shared mondis.KVDB
	cases := 0
	hx.Run(t, n, rule, func(rt *rapid.T, c *hx.Case) {
		var db mondis.KVDB
		if !badger {
			db = hx.NewMemKV()
		} else {
			if cases%100 == 0 { // deleted keys slow a store down
				shared = badgerDB(t)
			}
			cases++
			db = shared
			defer func() { wipe(rt, db) }()
		}
		w := &world{rt: rt, c: c, db: db, committed: newModel(), big: strings.HasSuffix(t.Name(), "_Big")}
		// namespaces are not prefixes of one another
		w.ns = []string{"m", "", "n\x00", "\xff", "ab"}[:namespaces]
		if namespaces > 1 {
			w.ns = []string{"m", "n\x00", "\xff", "ab"}[:namespaces]
		}
		if namespaces == 1 && rapid.IntRange(0, 3).Draw(rt, "noPrefix") == 0 {
			w.ns = []string{""}
		}
		w.names = drawNames(rt, "name", names)
		w.fields = drawNames(rt, "field", 5)
		commits := 0
		defer func() {
			if w.txn != nil {
				w.txn.Discard()
			}
		}()
		checkAll := func(txn mondis.ProviderTxn, m *model) {
			for _, ns := range w.ns {
				st := structure.New(txn, []byte(ns))
				for _, name := range w.names {
					check(w, st, m, ns, name)
				}
			}
		}
		for steps := rapid.IntRange(4, 45).Draw(rt, "steps"); steps > 0; steps-- {
			if mem, ok := db.(*hx.MemKV); ok && w.txn == nil && rapid.Bool().Draw(rt, "fault") {
				w.faulty(mem, kinds)
			}
			if w.txn == nil {
				w.begin()
			}
			if rapid.IntRange(0, 6).Draw(rt, "end") == 6 {
				commit := rapid.IntRange(0, 3).Draw(rt, "commit") > 0
				w.end(commit)
				if commit {
					commits++
				} else {
					c.Class("discarded transaction")
				}
				txn := db.NewTransaction(false)
				checkAll(txn, w.committed)
				txn.Discard()
				continue
			}
			op(w)
			if rapid.IntRange(0, 2).Draw(rt, "all") == 0 {
				checkAll(w.txn, w.cur)
			}
		}
		if w.txn != nil {
			checkAll(w.txn, w.cur)
			w.end(true)
			commits++
		}
		c.NonTrivialIf(nontrivial(w, commits))
		c.ClassIf(commits > 1, "several transactions")
		if clear == nil {
			return
		}
		w.begin()
		for _, ns := range w.ns {
			for _, name := range w.names {
				clear(w, w.handle(ns), name)
			}
		}
		w.cur = newModel()
		checkAll(w.txn, w.cur)
		w.end(true)
		if left := wipe(rt, db); left > 0 {
			w.fail("%d keys are left in the store after everything was cleared", left)
		}
	})
}

func p14(t *testing.T, n hx.N, badger bool) {
	history(t, n, badger, "pushes and pops over more than one committed transaction", 1, 2, "l",
		func(w *world) { w.listOp() },
		func(w *world, st *structure.TxStructure, m *model, ns, name string) { w.checkList(st, m, ns, name) },
		func(w *world, st *structure.TxStructure, name string) {
			if err := st.LClear([]byte(name)); err != nil {
				w.fail("LClear: %v", err)
			}
		},
		func(w *world, commits int) bool { return commits > 1 && w.touched > 5 })
}

func TestP14_Lists(t *testing.T)  { p14(t, hx.N{Quick: 12000}, false) }
func TestP14_Badger(t *testing.T) { p14(t, hx.N{Quick: 600}, true) }
func TestP14_Big(t *testing.T)    { p14(t, hx.N{Quick: 150}, false) }
