package structs

import (
	"testing"

	"github.com/zhiqiangxu/mondis/structure"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

func p15(t *testing.T, n hx.N, badger bool) {
	history(t, n, badger, "fields set and changed over more than one committed transaction", 1, 2, "h",
		func(w *world) { w.hashOp() },
		func(w *world, st *structure.TxStructure, m *model, ns, name string) { w.checkHash(st, m, ns, name) },
		func(w *world, st *structure.TxStructure, name string) {
			if rapid.Bool().Draw(w.rt, "deleteAll") {
				// deleting every field is as good as clearing
				fields, err := st.HKeys([]byte(name))
				if err == nil && len(fields) > 0 {
					err = st.HDel([]byte(name), fields...)
				}
				if err != nil {
					w.fail("deleting all fields: %v", err)
				}
				return
			}
			if err := st.HClear([]byte(name)); err != nil {
				w.fail("HClear: %v", err)
			}
		},
		func(w *world, commits int) bool { return commits > 1 && w.touched > 5 })
}

func TestP15_Hashes(t *testing.T) { p15(t, hx.N{Quick: 12000}, false) }
func TestP15_Badger(t *testing.T) { p15(t, hx.N{Quick: 600}, true) }
func TestP15_Big(t *testing.T)    { p15(t, hx.N{Quick: 150}, false) }
