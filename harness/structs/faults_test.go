package structs

import (
	"fmt"
	"strings"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/structure"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

type call struct {
	what string
	do   func(st *structure.TxStructure) (string, error)
}

func (w *world) drawCall(kinds string) call {
	rt := w.rt
	_, name := w.name()
	key := []byte(name)
	mk := func(what string, do func(st *structure.TxStructure) (string, error)) call {
		return call{fmt.Sprintf("%s of %s", what, q(name)), do}
	}
	fields := func() (out [][]byte) {
		for i := rapid.IntRange(1, 4).Draw(rt, "fields"); i > 0; i-- {
			out = append(out, []byte(w.field()))
		}
		return
	}
	pairs := func(ps []structure.HashPair, err error) (string, error) { return fmt.Sprintf("%q", ps), err }
	n := rapid.IntRange(1, 6).Draw(rt, "n")
	v := hx.Value(rt, "v")
	step := smallInt(rt, "step")
	f := []byte(w.field())
	i := index(rt, 4)
	left := rapid.Bool().Draw(rt, "left")
	switch kinds[rapid.IntRange(0, len(kinds)-1).Draw(rt, "kind")] {
	case 'l':
		vs := toBytes(append(w.vals("push"), "one"))
		return rapid.SampledFrom([]call{
			mk(fmt.Sprintf("push of %d (left %v)", len(vs), left), func(st *structure.TxStructure) (string, error) {
				if left {
					return "", st.LPush(key, vs...)
				}
				return "", st.RPush(key, vs...)
			}),
			mk(fmt.Sprintf("pop (left %v)", left), func(st *structure.TxStructure) (string, error) {
				if left {
					v, err := st.LPop(key)
					return string(v), err
				}
				v, err := st.RPop(key)
				return string(v), err
			}),
			mk("length", func(st *structure.TxStructure) (string, error) { n, err := st.LLen(key); return fmt.Sprint(n), err }),
			mk("all elements", func(st *structure.TxStructure) (string, error) {
				vs, err := st.LGetAll(key)
				return fmt.Sprintf("%q", vs), err
			}),
			mk("element", func(st *structure.TxStructure) (string, error) { v, err := st.LIndex(key, i); return string(v), err }),
			mk("element write", func(st *structure.TxStructure) (string, error) { return "", st.LSet(key, i, v) }),
			mk("list clear", func(st *structure.TxStructure) (string, error) { return "", st.LClear(key) }),
		}).Draw(rt, "call")
	case 'h':
		fs := fields()
		return rapid.SampledFrom([]call{
			mk("field write", func(st *structure.TxStructure) (string, error) { return "", st.HSet(key, f, v) }),
			mk("integer field write", func(st *structure.TxStructure) (string, error) { return "", st.HSetInt64(key, f, step) }),
			mk("field", func(st *structure.TxStructure) (string, error) { v, err := st.HGet(key, f); return string(v), err }),
			mk("integer field", func(st *structure.TxStructure) (string, error) {
				n, err := st.HGetInt64(key, f)
				return fmt.Sprint(n), err
			}),
			mk("field increment", func(st *structure.TxStructure) (string, error) {
				n, err := st.HInc(key, f, step)
				return fmt.Sprint(n), err
			}),
			mk("number of fields", func(st *structure.TxStructure) (string, error) { n, err := st.HLen(key); return fmt.Sprint(n), err }),
			mk("field deletes", func(st *structure.TxStructure) (string, error) { return "", st.HDel(key, fs...) }),
			mk("fields", func(st *structure.TxStructure) (string, error) {
				ks, err := st.HKeys(key)
				return fmt.Sprintf("%q", ks), err
			}),
			mk("all pairs", func(st *structure.TxStructure) (string, error) { return pairs(st.HGetAll(key)) }),
			mk("first pairs", func(st *structure.TxStructure) (string, error) { return pairs(st.HGetN(key, n)) }),
			mk("last pairs", func(st *structure.TxStructure) (string, error) { return pairs(st.HGetNDesc(key, n)) }),
			mk("hash clear", func(st *structure.TxStructure) (string, error) { return "", st.HClear(key) }),
		}).Draw(rt, "call")
	}
	return rapid.SampledFrom([]call{
		mk("write", func(st *structure.TxStructure) (string, error) { return "", st.Set(key, v) }),
		mk("integer write", func(st *structure.TxStructure) (string, error) { return "", st.SetInt64(key, step) }),
		mk("read", func(st *structure.TxStructure) (string, error) { v, err := st.Get(key); return string(v), err }),
		mk("integer read", func(st *structure.TxStructure) (string, error) { n, err := st.GetInt64(key); return fmt.Sprint(n), err }),
		mk("increment", func(st *structure.TxStructure) (string, error) {
			n, err := st.Inc(key, step)
			return fmt.Sprint(n), err
		}),
		mk("clear", func(st *structure.TxStructure) (string, error) { return "", st.Clear(key) }),
	}).Draw(rt, "call")
}

// faulty does one operation while one of its store operations fails: it may only report success
// when it gives and does the same as it does on a store that works.
func (w *world) faulty(mem *hx.MemKV, kinds string) {
	ns := rapid.SampledFrom(w.ns).Draw(w.rt, "ns")
	c := w.drawCall(kinds)
	at := rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3, 4, 6}).Draw(w.rt, "faultAt")
	w.c.Step("%s in %s with store operation %d failing", c.what, q(ns), at)
	see := func(txn mondis.ProviderTxn) string {
		var s strings.Builder
		for _, it := range txn.(*hx.MemTxn).View(mondis.ProviderScanOption{}) {
			fmt.Fprintf(&s, "%q=%q ", it.K, it.V)
		}
		return s.String()
	}
	twin := mem.Clone()
	good := twin.NewTransaction(true)
	defer good.Discard()
	want, werr := c.do(structure.New(good, []byte(ns)))

	bad := mem.NewTransaction(true)
	defer bad.Discard()
	fired := hx.Op(-1)
	mem.Hook = func(op hx.Op, _ []byte) error {
		if at--; at == -1 {
			fired = op
			return hx.ErrInjected
		}
		return nil
	}
	got, gerr := c.do(structure.New(bad, []byte(ns)))
	mem.Hook = nil
	if fired < 0 {
		return
	}
	w.c.Class("a failing " + fired.String())
	if gerr != nil {
		return
	}
	w.c.Class("success in spite of a failing store operation")
	if werr != nil || got != want {
		w.fail("%s: a store operation (%v) fails and it gives %s without an error, want %s, %v", c.what, fired, got, want, werr)
	}
	if g, x := see(bad), see(good); g != x {
		w.fail("%s: a store operation (%v) fails and it reports success, but did something else: %s, want %s", c.what, fired, g, x)
	}
}
