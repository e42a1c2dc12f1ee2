package structs

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"testing"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/provider"
	"github.com/zhiqiangxu/mondis/structure"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

// model is what the structures of all namespaces hold.
type model struct {
	strs   map[string]string
	hashes map[string]map[string]string
	lists  map[string][]string
}

func newModel() *model {
	return &model{strs: map[string]string{}, hashes: map[string]map[string]string{}, lists: map[string][]string{}}
}

func (m *model) clone() *model {
	n := newModel()
	for k, v := range m.strs {
		n.strs[k] = v
	}
	for k, h := range m.hashes {
		c := map[string]string{}
		for f, v := range h {
			c[f] = v
		}
		n.hashes[k] = c
	}
	for k, l := range m.lists {
		n.lists[k] = append([]string(nil), l...)
	}
	return n
}

// world is a store with its model and possibly an open transaction.
type world struct {
	rt        *rapid.T
	c         *hx.Case
	db        mondis.KVDB
	committed *model
	cur       *model
	txn       mondis.ProviderTxn
	st        map[string][2]*structure.TxStructure
	big       bool
	ns        []string
	names     []string
	fields    []string
	touched   int
}

func (w *world) begin() {
	w.txn = w.db.NewTransaction(true)
	w.cur = w.committed.clone()
	w.st = map[string][2]*structure.TxStructure{}
	for _, n := range w.ns {
		w.st[n] = [2]*structure.TxStructure{structure.New(w.txn, []byte(n)), structure.New(w.txn, []byte(n))}
	}
	w.c.Step("begin")
}

func (w *world) end(commit bool) {
	if commit {
		w.c.Step("commit")
		if err := w.txn.Commit(); err != nil {
			w.rt.Fatalf("commit: %v", err)
		}
		w.committed = w.cur
	} else {
		w.c.Step("discard")
	}
	w.txn.Discard()
	w.txn, w.cur, w.st = nil, nil, nil
}

func (w *world) fail(format string, a ...interface{}) {
	w.rt.Fatalf(format+"\nhistory: %s", append(a, w.c.Trace())...)
}

// handle picks one of the structures over the transaction; all of them show the same.
func (w *world) handle(ns string) *structure.TxStructure {
	switch rapid.IntRange(0, 7).Draw(w.rt, "handle") {
	case 7:
		w.c.Class("a structure made within a transaction")
		return structure.New(w.txn, []byte(ns))
	case 6, 5:
		w.c.Class("two structures over one transaction")
		return w.st[ns][1]
	}
	return w.st[ns][0]
}

func (w *world) name() (ns, name string) {
	return rapid.SampledFrom(w.ns).Draw(w.rt, "ns"), rapid.SampledFrom(w.names).Draw(w.rt, "name")
}

// drawNames draws names that are related: prefixes of each other, group-boundary lengths.
func drawNames(rt *rapid.T, label string, n int) []string {
	seen := map[string]bool{}
	var out []string
	for len(out) < n {
		var s string
		switch rapid.IntRange(0, 5).Draw(rt, label+"Kind") {
		case 0:
			s = string(rapid.SliceOfN(rapid.SampledFrom([]byte{0, 1, 'a', 'h', 'H', 'l', 'L', 's', 0xff}), 0, 4).Draw(rt, label))
		case 1:
			s = string(hx.Fill(rapid.SampledFrom([]int{7, 8, 9, 15, 16, 17}).Draw(rt, label+"Len"), 'k'))
		case 2:
			s = string(rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(rt, label))
		case 3:
			if len(out) > 0 {
				s = out[len(out)-1] + string(rapid.SampledFrom([]byte{0, 'h', 0xff}).Draw(rt, label+"Ext"))
			}
		case 4:
			if len(out) > 0 && len(out[len(out)-1]) > 0 {
				s = out[len(out)-1][:len(out[len(out)-1])-1]
			}
		default:
			s = fmt.Sprintf("n%d", rapid.IntRange(0, 20).Draw(rt, label))
		}
		for seen[s] {
			s += "x"
		}
		seen[s] = true
		out = append(out, s)
	}
	return out
}

func ident(ns, name string) string { return ns + "|" + name }

func q(s string) string { return hx.QS(s) }

func (w *world) vals(label string) []string {
	rt := w.rt
	var out []string
	if w.big && rapid.IntRange(0, 2).Draw(rt, label+"Many") > 0 {
		n := hx.Uniform(rt, label+"Count", 400)
		tag := rapid.IntRange(0, 9).Draw(rt, label+"Tag")
		for i := 0; i < n; i++ {
			out = append(out, fmt.Sprintf("%d-%d", tag, i))
		}
		w.c.ClassIf(n > 100, "more than 100 values in one push")
		return out
	}
	for i := rapid.IntRange(0, 4).Draw(rt, label+"N"); i > 0; i-- {
		out = append(out, string(hx.Value(rt, label)))
	}
	return out
}

func toBytes(s []string) [][]byte {
	var out [][]byte
	for _, x := range s {
		if x == "" && len(out)%2 == 0 {
			out = append(out, nil)
			continue
		}
		out = append(out, []byte(x))
	}
	return out
}

func index(rt *rapid.T, n int) int64 {
	if rapid.IntRange(0, 9).Draw(rt, "indexKind") == 0 {
		return rapid.SampledFrom([]int64{1<<63 - 1, -1 << 63, 1 << 62, -1<<63 + 1, int64(n), -int64(n) - 1}).Draw(rt, "index")
	}
	i := int64(rapid.IntRange(0, n+1).Draw(rt, "index"))
	if rapid.Bool().Draw(rt, "negative") {
		i = -1 - i
	}
	return i
}

func position(i int64, n int) (int, bool) {
	if i >= 0 {
		return int(i), i < int64(n)
	}
	if i < -int64(n) {
		return 0, false
	}
	return n + int(i), true
}

// listOp does one random operation on a list and on its model.
func (w *world) listOp() {
	rt, m := w.rt, w.cur.lists
	ns, name := w.name()
	id, key, st := ident(ns, name), []byte(name), w.handle(ns)
	l := m[id]
	what := fmt.Sprintf("%s %s", q(ns), q(name))
	set := func(l []string) {
		if len(l) == 0 {
			delete(m, id)
		} else {
			m[id] = l
		}
	}
	switch rapid.IntRange(0, 9).Draw(rt, "listOp") {
	case 0, 1, 2, 3:
		vs := w.vals("push")
		left := rapid.Bool().Draw(rt, "left")
		w.c.Step("push(left %v) %s %q", left, what, vs)
		var err error
		if left {
			err = st.LPush(key, toBytes(vs)...)
			for _, v := range vs {
				l = append([]string{v}, l...)
			}
		} else {
			err = st.RPush(key, toBytes(vs)...)
			l = append(l, vs...)
		}
		if err != nil {
			w.fail("push: %v", err)
		}
		set(l)
		w.touched++
	case 4, 5:
		left := rapid.Bool().Draw(rt, "left")
		w.c.Step("pop(left %v) %s", left, what)
		var v []byte
		var err error
		if left {
			v, err = st.LPop(key)
		} else {
			v, err = st.RPop(key)
		}
		if len(l) == 0 {
			w.c.Class("pop of an absent list")
			if err != kv.ErrKeyNotFound {
				w.fail("pop of an absent list: %q, %v", v, err)
			}
			return
		}
		want := l[0]
		if left {
			l = l[1:]
		} else {
			want = l[len(l)-1]
			l = l[:len(l)-1]
		}
		if err != nil || string(v) != want {
			w.fail("pop(left %v) gives %q, %v, want %q", left, v, err, want)
		}
		hx.Owned("a popped element", v)
		set(append([]string(nil), l...))
		w.touched++
		w.c.ClassIf(len(l) == 0, "list emptied by pop")
	case 6:
		i := index(rt, len(l))
		w.c.Step("read %s [%d]", what, i)
		v, err := st.LIndex(key, i)
		if len(l) == 0 {
			if err != kv.ErrKeyNotFound {
				w.fail("read of an absent list: %q, %v", v, err)
			}
			return
		}
		p, ok := position(i, len(l))
		if !ok {
			w.c.Class("read out of range")
			if len(v) != 0 || (err != nil && err != kv.ErrKeyNotFound) {
				w.fail("read at %d of %d elements gives %q, %v", i, len(l), v, err)
			}
			return
		}
		if err != nil || string(v) != l[p] {
			w.fail("read at %d gives %q, %v, want %q", i, v, err, l[p])
		}
		hx.Owned("a list element", v)
		w.c.ClassIf(i < 0, "negative index")
	case 7, 8:
		i := index(rt, len(l))
		v := string(hx.Value(rt, "v"))
		w.c.Step("write %s [%d]=%q", what, i, v)
		err := st.LSet(key, i, []byte(v))
		p, ok := position(i, len(l))
		if !ok || len(l) == 0 {
			w.c.Class("write out of range")
			if err != kv.ErrKeyNotFound {
				w.fail("write at %d of %d elements: %v", i, len(l), err)
			}
			return
		}
		if err != nil {
			w.fail("write at %d: %v", i, err)
		}
		l = append([]string(nil), l...)
		l[p] = v
		set(l)
		w.touched++
	default:
		w.c.Step("clear %s", what)
		if err := st.LClear(key); err != nil {
			w.fail("clear: %v", err)
		}
		w.c.ClassIf(len(l) > 0, "cleared a list")
		delete(m, id)
	}
}

// checkList compares everything a list shows with its model.
func (w *world) checkList(st *structure.TxStructure, m *model, ns, name string) {
	l := m.lists[ident(ns, name)]
	n, err := st.LLen([]byte(name))
	if err != nil || n != int64(len(l)) {
		w.fail("list %s %s has length %d, %v, want %d", q(ns), q(name), n, err, len(l))
	}
	all, err := st.LGetAll([]byte(name))
	if err != nil || len(all) != len(l) {
		w.fail("list %s %s enumerates %d elements, %v, want %d", q(ns), q(name), len(all), err, len(l))
	}
	for i := range all {
		if string(all[i]) != l[len(l)-1-i] {
			w.fail("list %s %s: element %d from the right is %q, want %q", q(ns), q(name), i, all[i], l[len(l)-1-i])
		}
	}
	if len(all) < 20 {
		hx.Appendable("an element of an enumerated list", all...)
	}
	if len(l) > 0 {
		i := rapid.IntRange(0, len(l)-1).Draw(w.rt, "probe")
		v, err := st.LIndex([]byte(name), int64(i))
		if err != nil || string(v) != l[i] {
			w.fail("list %s %s [%d]=%q, %v, want %q", q(ns), q(name), i, v, err, l[i])
		}
	}
}

var badInts = []string{"abc", "1x", "9223372036854775808", "-", "1.5"}

// smallInt draws increments that cannot overflow within a history.
func smallInt(rt *rapid.T, label string) int64 {
	if rapid.IntRange(0, 4).Draw(rt, label+"Kind") == 0 {
		return rapid.Int64Range(-1<<55, 1<<55).Draw(rt, label)
	}
	return int64(rapid.IntRange(-130, 130).Draw(rt, label))
}

func parse(s string) (int64, bool) {
	n, err := strconv.ParseInt(s, 10, 64)
	return n, err == nil
}

func safeInc(n, step int64) bool { s := n + step; return (s > n) == (step > 0) || step == 0 }

func (w *world) field() string { return rapid.SampledFrom(w.fields).Draw(w.rt, "field") }

func (w *world) hashOp() {
	rt, m := w.rt, w.cur.hashes
	ns, name := w.name()
	id, key, st := ident(ns, name), []byte(name), w.handle(ns)
	h := m[id]
	what := fmt.Sprintf("%s %s", q(ns), q(name))
	put := func(f, v string) {
		if m[id] == nil {
			m[id] = map[string]string{}
		}
		m[id][f] = v
		w.touched++
	}
	if w.big && rapid.IntRange(0, 4).Draw(rt, "bulk") == 0 {
		from, n := hx.Uniform(rt, "from", 700), hx.Uniform(rt, "n", 400)
		if rapid.IntRange(0, 2).Draw(rt, "bulkDel") == 0 {
			var bs [][]byte
			for i := from; i < from+n; i++ {
				f := fmt.Sprintf("f%d", i)
				bs = append(bs, []byte(f))
				delete(h, f)
			}
			w.c.Step("hdel %s f%d..%d", what, from, from+n)
			if err := st.HDel(key, bs...); err != nil {
				w.fail("HDel: %v", err)
			}
			if len(h) == 0 {
				delete(m, id)
			}
			return
		}
		w.c.Step("hset %s f%d..%d", what, from, from+n)
		tag := rapid.IntRange(0, 9).Draw(rt, "tag")
		for i := from; i < from+n; i++ {
			f, v := fmt.Sprintf("f%d", i), fmt.Sprintf("%d-%d", tag, i)
			if err := st.HSet(key, []byte(f), []byte(v)); err != nil {
				w.fail("HSet: %v", err)
			}
			put(f, v)
		}
		w.c.ClassIf(len(m[id]) > 300, "more than 300 fields")
		return
	}
	switch op := rapid.IntRange(0, 11).Draw(rt, "hashOp"); op {
	case 0, 1, 2, 3:
		f, v := w.field(), string(hx.Value(rt, "v"))
		switch rapid.IntRange(0, 5).Draw(rt, "valueKind") {
		case 0:
			v = rapid.SampledFrom(badInts).Draw(rt, "bad")
		case 1:
			if old, ok := h[f]; ok {
				v = old
			}
		case 2:
			n := smallInt(rt, "n")
			w.c.Step("hsetint %s.%s=%d", what, q(f), n)
			if err := st.HSetInt64(key, []byte(f), n); err != nil {
				w.fail("HSetInt64: %v", err)
			}
			put(f, strconv.FormatInt(n, 10))
			return
		}
		w.c.Step("hset %s.%s=%q", what, q(f), v)
		if err := st.HSet(key, []byte(f), []byte(v)); err != nil {
			w.fail("HSet: %v", err)
		}
		_, had := h[f]
		w.c.ClassIf(!had && v == "", "new field with an empty value")
		put(f, v)
	case 4, 5:
		f, step := w.field(), smallInt(rt, "step")
		old, had := h[f]
		n, ok := parse(old)
		if ok && !safeInc(n, step) {
			return
		}
		w.c.Step("hinc %s.%s by %d", what, q(f), step)
		got, err := st.HInc(key, []byte(f), step)
		switch {
		case !had:
			if err != nil || got != step {
				w.fail("HInc of a new field by %d gives %d, %v", step, got, err)
			}
			put(f, strconv.FormatInt(step, 10))
		case old == "": // an empty value may count as nothing or as no integer
			if err == nil {
				if got != step {
					w.fail("HInc of an empty field by %d gives %d", step, got)
				}
				put(f, strconv.FormatInt(step, 10))
			}
		case !ok:
			w.c.Class("increment of a non-integer")
			if err == nil {
				w.fail("HInc of %q gives %d", old, got)
			}
		default:
			if err != nil || got != n+step {
				w.fail("HInc of %d by %d gives %d, %v", n, step, got, err)
			}
			put(f, strconv.FormatInt(n+step, 10))
		}
	case 6, 7, 8:
		var fs []string
		var bs [][]byte
		for i := rapid.IntRange(0, 3).Draw(rt, "dels"); i > 0; i-- {
			f := w.field()
			fs = append(fs, f)
			bs = append(bs, []byte(f))
		}
		w.c.Step("hdel %s %q", what, fs)
		if err := st.HDel(key, bs...); err != nil {
			w.fail("HDel: %v", err)
		}
		for _, f := range fs {
			if _, ok := h[f]; ok {
				w.c.Class("deleted a field")
				w.touched++
			}
			delete(h, f)
		}
		if len(h) == 0 {
			delete(m, id)
		}
	case 9:
		w.c.Step("hclear %s", what)
		if err := st.HClear(key); err != nil {
			w.fail("HClear: %v", err)
		}
		w.c.ClassIf(len(h) > 0, "cleared a hash")
		delete(m, id)
	default:
		f := w.field()
		w.c.Step("hget %s.%s", what, q(f))
		w.checkField(st, w.cur, ns, name, f)
	}
}

func (w *world) checkField(st *structure.TxStructure, m *model, ns, name, f string) {
	want, had := m.hashes[ident(ns, name)][f]
	v, err := st.HGet([]byte(name), []byte(f))
	n, nerr := st.HGetInt64([]byte(name), []byte(f))
	if !had {
		if err != kv.ErrKeyNotFound || nerr == nil {
			w.fail("missing field %s of %s %s reads %q, %v; as integer %d, %v", q(f), q(ns), q(name), v, err, n, nerr)
		}
		return
	}
	if err != nil || string(v) != want {
		w.fail("field %s of %s %s reads %q, %v, want %q", q(f), q(ns), q(name), v, err, want)
	}
	hx.Owned("a field's value", v)
	i, ok := parse(want)
	if ok != (nerr == nil) || (ok && i != n) {
		w.fail("field %s=%q of %s %s reads as integer %d, %v", q(f), want, q(ns), q(name), n, nerr)
	}
}

func (w *world) checkHash(st *structure.TxStructure, m *model, ns, name string) {
	h := m.hashes[ident(ns, name)]
	key := []byte(name)
	what := fmt.Sprintf("hash %s %s", q(ns), q(name))
	fields := make([]string, 0, len(h))
	for f := range h {
		fields = append(fields, f)
	}
	sort.Strings(fields)
	n, err := st.HLen(key)
	if err != nil || n != int64(len(h)) {
		w.fail("%s has length %d, %v, want %d", what, n, err, len(h))
	}
	keys, err := st.HKeys(key)
	if err != nil || len(keys) != len(fields) {
		w.fail("%s lists %d fields, %v, want %d", what, len(keys), err, len(fields))
	}
	for i := range keys {
		if string(keys[i]) != fields[i] {
			w.fail("%s lists field %s at %d, want %s", what, hx.Q(keys[i]), i, q(fields[i]))
		}
	}
	if len(keys) < 20 {
		hx.Appendable("a listed field", keys...)
	}
	same := func(how string, got []structure.HashPair, err error, want []string) {
		for i, p := range got {
			if i < 20 {
				hx.Appendable("a listed pair", p.Field, p.Value)
			}
		}
		if err != nil || len(got) != len(want) {
			w.fail("%s: %s gives %d pairs, %v, want %d", what, how, len(got), err, len(want))
		}
		for i, p := range got {
			if string(p.Field) != want[i] || string(p.Value) != h[want[i]] {
				w.fail("%s: %s: pair %d is %s=%s, want %s=%s", what, how, i, hx.Q(p.Field), hx.Q(p.Value), q(want[i]), q(h[want[i]]))
			}
		}
	}
	all, err := st.HGetAll(key)
	same("HGetAll", all, err, fields)
	k := rapid.IntRange(-1, len(fields)+1).Draw(w.rt, "firstN")
	kk := max(0, min(k, len(fields)))
	got, err := st.HGetN(key, k)
	same(fmt.Sprintf("HGetN(%d)", k), got, err, fields[:kk])
	got, err = st.HGetNDesc(key, k)
	rev := make([]string, 0, len(fields))
	for i := len(fields) - 1; i >= 0; i-- {
		rev = append(rev, fields[i])
	}
	same(fmt.Sprintf("HGetNDesc(%d)", k), got, err, rev[:kk])
	w.checkField(st, m, ns, name, w.field())
}

func (w *world) stringOp() {
	rt, m := w.rt, w.cur.strs
	ns, name := w.name()
	id, key, st := ident(ns, name), []byte(name), w.handle(ns)
	what := fmt.Sprintf("%s %s", q(ns), q(name))
	old, had := m[id]
	switch rapid.IntRange(0, 6).Draw(rt, "stringOp") {
	case 0, 1:
		v := string(hx.Value(rt, "v"))
		if rapid.IntRange(0, 3).Draw(rt, "bad") == 0 {
			v = rapid.SampledFrom(badInts).Draw(rt, "badInt")
		}
		w.c.Step("set %s=%q", what, v)
		if err := st.Set(key, []byte(v)); err != nil {
			w.fail("Set: %v", err)
		}
		m[id] = v
		w.touched++
	case 2:
		n := smallInt(rt, "n")
		if rapid.IntRange(0, 5).Draw(rt, "wide") == 0 {
			n = hx.Int64(rt, "nWide")
		}
		w.c.Step("setint %s=%d", what, n)
		if err := st.SetInt64(key, n); err != nil {
			w.fail("SetInt64: %v", err)
		}
		m[id] = strconv.FormatInt(n, 10)
		w.touched++
	case 3, 4:
		step := smallInt(rt, "step")
		n, ok := parse(old)
		if ok && !safeInc(n, step) {
			return
		}
		w.c.Step("inc %s by %d", what, step)
		got, err := st.Inc(key, step)
		switch {
		case !had:
			if err != nil || got != step {
				w.fail("Inc of a new value by %d gives %d, %v", step, got, err)
			}
			m[id] = strconv.FormatInt(step, 10)
		case !ok:
			w.c.Class("increment of a non-integer")
			if err == nil {
				w.fail("Inc of %q gives %d", old, got)
			}
		default:
			if err != nil || got != n+step {
				w.fail("Inc of %d by %d gives %d, %v", n, step, got, err)
			}
			m[id] = strconv.FormatInt(n+step, 10)
			w.c.Class("increment")
		}
		w.touched++
	default:
		w.c.Step("clear %s", what)
		if err := st.Clear(key); err != nil {
			w.fail("Clear: %v", err)
		}
		delete(m, id)
		w.c.ClassIf(had, "cleared a string")
	}
}

func (w *world) checkString(st *structure.TxStructure, m *model, ns, name string) {
	want, had := m.strs[ident(ns, name)]
	v, err := st.Get([]byte(name))
	n, nerr := st.GetInt64([]byte(name))
	if !had {
		if err != kv.ErrKeyNotFound || nerr != kv.ErrKeyNotFound {
			w.fail("missing string %s %s reads %q, %v; as integer %d, %v", q(ns), q(name), v, err, n, nerr)
		}
		return
	}
	if err != nil || string(v) != want {
		w.fail("string %s %s reads %q, %v, want %q", q(ns), q(name), v, err, want)
	}
	hx.Owned("a string", v)
	i, ok := parse(want)
	if ok != (nerr == nil) || (ok && i != n) {
		w.fail("string %s %s=%q reads as integer %d, %v", q(ns), q(name), want, n, nerr)
	}
}

// badgerDB opens a badger store that the end of the test removes.
func badgerDB(t *testing.T) mondis.KVDB {
	dir := hx.Scratch(t, "structs")
	db := provider.NewBadger()
	if err := db.Open(mondis.KVOption{Dir: dir}); err != nil {
		hx.Infra("badger: %v", err)
	}
	t.Cleanup(func() { _ = db.Close(); _ = os.RemoveAll(dir) })
	return db
}

// wipe deletes every key, and tells how many there were.
func wipe(rt *rapid.T, db mondis.KVDB) int {
	var keys [][]byte
	if err := db.Scan(mondis.ProviderScanOption{}, func(k, _ []byte, _ mondis.VMetaResp) bool {
		keys = append(keys, hx.Copy(k))
		return true
	}); err != nil {
		rt.Fatal(err)
	}
	for _, k := range keys {
		if err := db.Delete(k); err != nil {
			rt.Fatal(err)
		}
	}
	return len(keys)
}
