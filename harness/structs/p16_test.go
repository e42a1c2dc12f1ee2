package structs

import (
	"testing"

	"github.com/zhiqiangxu/mondis/structure"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

func p16(t *testing.T, n hx.N, badger bool, namespaces int) {
	history(t, n, badger, "at least two kinds under one name and a change, over more than one committed transaction", namespaces, 3, "lhs",
		func(w *world) {
			switch rapid.IntRange(0, 2).Draw(w.rt, "kind") {
			case 0:
				w.stringOp()
			case 1:
				w.hashOp()
			default:
				w.listOp()
			}
		},
		func(w *world, st *structure.TxStructure, m *model, ns, name string) {
			w.checkString(st, m, ns, name)
			w.checkHash(st, m, ns, name)
			w.checkList(st, m, ns, name)
		},
		func(w *world, st *structure.TxStructure, name string) {
			if err := st.LClear([]byte(name)); err != nil {
				w.fail("LClear: %v", err)
			}
			if err := st.HClear([]byte(name)); err != nil {
				w.fail("HClear: %v", err)
			}
			if err := st.Clear([]byte(name)); err != nil {
				w.fail("Clear: %v", err)
			}
		},
		func(w *world, commits int) bool {
			shared := false
			for id := range w.committed.strs {
				shared = shared || w.committed.hashes[id] != nil || w.committed.lists[id] != nil
			}
			for id := range w.committed.hashes {
				shared = shared || w.committed.lists[id] != nil
			}
			return shared && commits > 1
		})
}

func TestP16_OneNamespace(t *testing.T) { p16(t, hx.N{Quick: 6000}, false, 1) }
func TestP16_Namespaces(t *testing.T)   { p16(t, hx.N{Quick: 6000}, false, 3) }
func TestP16_Badger(t *testing.T)       { p16(t, hx.N{Quick: 300}, true, 2) }
func TestP16_Big(t *testing.T)          { p16(t, hx.N{Quick: 60}, false, 2) }
