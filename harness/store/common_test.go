package store

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"testing"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/provider"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

var ctors = map[string]func() mondis.KVDB{"badger": provider.NewBadger, "leveldb": provider.NewLevelDB}

// live is an open store shared by the cases of a test; every case starts and ends with it empty.
type live struct {
	kind string
	dir  string
	db   mondis.KVDB

	cases int
}

func openLive(t testing.TB, kind string) *live {
	l := &live{kind: kind, dir: hx.Scratch(t, kind)}
	l.open(nil)
	t.Cleanup(func() {
		_ = l.db.Close()
		_ = os.RemoveAll(l.dir)
	})
	return l
}

func (l *live) open(rt *rapid.T) {
	l.db = ctors[l.kind]()
	if err := l.db.Open(mondis.KVOption{Dir: l.dir}); err != nil {
		if rt == nil {
			hx.Infra("open %s: %v", l.kind, err)
		}
		rt.Fatalf("%s does not open again after a close: %v", l.kind, err)
	}
}

func (l *live) reopen(rt *rapid.T) {
	if err := l.db.Close(); err != nil {
		rt.Fatalf("%s close: %v", l.kind, err)
	}
	l.open(rt)
}

// fresh starts over in a new directory every n-th call, so that what earlier cases left below the
// surface does not slow down later ones.
func (l *live) fresh(n int) {
	l.cases++
	if l.cases%n != 0 {
		return
	}
	_ = l.db.Close()
	_ = os.RemoveAll(l.dir)
	if err := os.Mkdir(l.dir, 0o755); err != nil {
		hx.Infra("mkdir: %v", err)
	}
	l.open(nil)
}

// clear empties the store without relying on scans: it deletes the keys it is told about.
func (l *live) clear(rt *rapid.T, keys map[string]bool) {
	for k := range keys {
		if err := l.db.Delete([]byte(k)); err != nil {
			rt.Fatalf("%s delete %s: %v", l.kind, hx.QS(k), err)
		}
	}
}

func normV(v []byte) []byte {
	if len(v) == 0 {
		return nil
	}
	return v
}

// reader is what both stores and transactions offer.
type reader interface {
	Get(k []byte) ([]byte, mondis.VMetaResp, error)
	Exists(k []byte) (bool, error)
	Scan(o mondis.ProviderScanOption, fn func(key, value []byte, meta mondis.VMetaResp) bool) error
}

// checkKey reads one key back and compares.
func checkKey(rt *rapid.T, where string, db reader, k string, want []byte, exists bool) {
	key := []byte(k)
	v, _, err := db.Get(key)
	ok, eerr := db.Exists(key)
	if string(key) != k {
		rt.Fatalf("%s: reading %s changed the caller's key", where, hx.QS(k))
	}
	if eerr != nil {
		rt.Fatalf("%s: Exists(%s): %v", where, hx.QS(k), eerr)
	}
	if ok != exists {
		rt.Fatalf("%s: Exists(%s)=%v, want %v", where, hx.QS(k), ok, exists)
	}
	if !exists {
		if err != kv.ErrKeyNotFound {
			rt.Fatalf("%s: Get(%s) of a missing key: value %s, error %v", where, hx.QS(k), hx.Q(v), err)
		}
		return
	}
	if err != nil {
		rt.Fatalf("%s: Get(%s): %v, want %s", where, hx.QS(k), err, hx.Q(want))
	}
	if !bytes.Equal(v, want) {
		rt.Fatalf("%s: Get(%s)=%s, want %s", where, hx.QS(k), hx.Q(v), hx.Q(want))
	}
	if len(want) == 0 && v != nil {
		rt.Fatalf("%s: Get(%s) of an empty value is not nil", where, hx.QS(k))
	}
	hx.Owned(where+": the value of "+hx.QS(k), v)
}

type kvPair struct{ k, v string }

// scanAll collects a scan, stopping the visitor after limit entries (0: never).
func scanAll(db reader, o mondis.ProviderScanOption, limit int) (out []kvPair, err error) {
	err = db.Scan(o, func(k, v []byte, _ mondis.VMetaResp) bool {
		out = append(out, kvPair{string(k), string(v)})
		return limit == 0 || len(out) < limit
	})
	return
}

// wantScan is the reference answer.
func wantScan(model map[string][]byte, o mondis.ProviderScanOption, limit int) (out []kvPair) {
	for k, v := range model {
		if hx.InRange(o, k) {
			out = append(out, kvPair{k, string(v)})
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if o.Reverse {
			return out[i].k > out[j].k
		}
		return out[i].k < out[j].k
	})
	if limit > 0 && len(out) > limit {
		out = out[:limit]
	}
	return
}

func diffPairs(got, want []kvPair) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return fmt.Sprintf("entry %d missing: want %s=%s", i, hx.QS(want[i].k), hx.QS(want[i].v))
		case i >= len(want):
			return fmt.Sprintf("entry %d too much: %s=%s", i, hx.QS(got[i].k), hx.QS(got[i].v))
		case got[i] != want[i]:
			return fmt.Sprintf("entry %d is %s=%s, want %s=%s", i, hx.QS(got[i].k), hx.QS(got[i].v), hx.QS(want[i].k), hx.QS(want[i].v))
		}
	}
	return ""
}

func optString(o mondis.ProviderScanOption) string {
	return fmt.Sprintf("rev=%v prefix=%s offset=%s", o.Reverse, hx.Q(o.Prefix), hx.Q(o.Offset))
}
