package store

import (
	"fmt"
	"os"
	"sort"
	"testing"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

type ttlOp struct {
	kind string // set, del, wait, reopen, txn (the rest of its writes up to commit), read
	k    string
	v    string
	meta *mondis.VMetaReq
	wait time.Duration
	txn  bool
	end  string // commit or discard, for the op that ends the current transaction
}

func (o ttlOp) String() string {
	s := o.kind
	if o.txn {
		s = "txn." + s
	}
	switch o.kind {
	case "set":
		if o.meta == nil {
			return fmt.Sprintf("%s %s=%s", s, hx.QS(o.k), hx.QS(o.v))
		}
		return fmt.Sprintf("%s %s=%s tag %d ttl %v", s, hx.QS(o.k), hx.QS(o.v), o.meta.Tag, o.meta.TTL)
	case "del":
		return s + " " + hx.QS(o.k)
	case "wait":
		return fmt.Sprintf("%s %v", s, o.wait)
	}
	return s + o.end
}

type ttlItem struct {
	v       string
	tag     byte
	ttl     time.Duration
	written time.Time
}

// state of an item at a time: alive, gone, or (within the second the expiry falls in) either.
func (it ttlItem) fate(now time.Time) (mayLive, mayBeGone bool) {
	if it.ttl == 0 {
		return true, false
	}
	exp := it.written.Add(it.ttl)
	// expiry is kept in whole seconds, rounded down
	return now.Before(exp), !now.Before(exp.Add(-time.Second))
}

func drawTTLPlan(rt *rapid.T) (plan []ttlOp) {
	inTxn := false
	for n := rapid.IntRange(2, 25).Draw(rt, "steps"); n > 0; n-- {
		o := ttlOp{k: rapid.SampledFrom([]string{"a", "ab", "b", "\xff"}).Draw(rt, "k")}
		switch r := rapid.IntRange(0, 15).Draw(rt, "op"); {
		case r < 6:
			o.kind = "set"
			o.v = string(hx.Value(rt, "v"))
			switch rapid.IntRange(0, 4).Draw(rt, "metaKind") {
			case 0:
			case 1:
				o.meta = &mondis.VMetaReq{Tag: rapid.Byte().Draw(rt, "tag")}
			default:
				ttl := time.Duration(rapid.SampledFrom([]int{1, 2, 3, 5, 60, 3600, 86400 * 400, 3 * 1e9}).Draw(rt, "ttl")) * time.Second
				if rapid.IntRange(0, 3).Draw(rt, "fraction") == 0 {
					ttl += time.Duration(rapid.IntRange(1, 999).Draw(rt, "ms")) * time.Millisecond
				}
				o.meta = &mondis.VMetaReq{Tag: rapid.Byte().Draw(rt, "tag"), TTL: ttl}
			}
			o.txn = inTxn
		case r == 6:
			o.kind, o.txn = "del", inTxn
		case r < 11:
			o.kind = "wait"
			o.wait = time.Duration(rapid.SampledFrom([]int{100, 500, 1000, 1500, 2000, 4000, 61000, 3600000}).Draw(rt, "wait")) * time.Millisecond
		case r < 14:
			if inTxn {
				o.kind, o.end = "end", rapid.SampledFrom([]string{"commit", "discard"}).Draw(rt, "end")
				inTxn = false
			} else {
				o.kind = "begin"
				inTxn = true
			}
		case r == 15:
			if inTxn {
				continue
			}
			o.kind = "reopen"
		default:
			o.kind = "read"
		}
		plan = append(plan, o)
	}
	return
}

func checkTTL(where string, db reader, items map[string]ttlItem) {
	now := time.Now()
	check := func(k string, it ttlItem, v []byte, m mondis.VMetaResp) {
		if string(v) != it.v {
			hx.Failf("%s: %s reads %s, want %s", where, hx.QS(k), hx.Q(v), hx.QS(it.v))
		}
		if m.Tag != it.tag {
			hx.Failf("%s: %s has tag %d, want %d", where, hx.QS(k), m.Tag, it.tag)
		}
		if it.ttl == 0 {
			if m.ExpiresAt != 0 {
				hx.Failf("%s: %s, which never expires, reports an expiry of %d", where, hx.QS(k), m.ExpiresAt)
			}
			return
		}
		exp := it.written.Add(it.ttl)
		if d := exp.Sub(time.Unix(int64(m.ExpiresAt), 0)); d < 0 || d >= time.Second {
			hx.Failf("%s: %s reports an expiry of %d, want %d", where, hx.QS(k), m.ExpiresAt, exp.Unix())
		}
		if now.Unix() >= int64(m.ExpiresAt) {
			hx.Failf("%s: %s is still there at %d though it expired at %d", where, hx.QS(k), now.Unix(), m.ExpiresAt)
		}
	}
	live := map[string]bool{}
	for k, it := range items {
		mayLive, mayBeGone := it.fate(now)
		v, m, err := db.Get([]byte(k))
		ok, eerr := db.Exists([]byte(k))
		if eerr != nil || (err != nil && err != kv.ErrKeyNotFound) {
			hx.Failf("%s: reading %s: %v, %v", where, hx.QS(k), err, eerr)
		}
		if ok != (err == nil) {
			hx.Failf("%s: %s exists: %v, get: %v", where, hx.QS(k), ok, err)
		}
		if ok && !mayLive {
			hx.Failf("%s: %s is still there %v after a write with a time-to-live of %v", where, hx.QS(k), now.Sub(it.written), it.ttl)
		}
		if !ok && !mayBeGone {
			hx.Failf("%s: %s is gone %v after a write with a time-to-live of %v", where, hx.QS(k), now.Sub(it.written), it.ttl)
		}
		if ok {
			check(k, it, v, m)
			live[k] = true
		}
	}
	var got []string
	if err := db.Scan(mondis.ProviderScanOption{}, func(k, v []byte, m mondis.VMetaResp) bool {
		got = append(got, string(k))
		it, ok := items[string(k)]
		if !ok {
			hx.Failf("%s: scan shows %s", where, hx.Q(k))
		}
		check(string(k), it, v, m)
		return true
	}); err != nil {
		hx.Failf("%s: scan: %v", where, err)
	}
	var want []string
	for k := range live {
		want = append(want, k)
	}
	sort.Strings(want)
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		hx.Failf("%s: scan shows %q, get %q", where, got, want)
	}
}

// Histories of writes with metadata, on a clock that the test moves.
func TestP05_Badger(t *testing.T) {
	hx.Run(t, hx.N{Quick: 350, Thorough: 3000}, "a value with a time-to-live is seen alive and is seen gone",
		func(rt *rapid.T, c *hx.Case) {
			plan := drawTTLPlan(rt)
			for _, o := range plan {
				c.Step("%v", o)
			}
			dir := hx.Scratch(t, "ttl")
			defer os.RemoveAll(dir)
			if msg := hx.Bubble(t, func() { runTTLPlan(c, dir, plan) }); msg != "" {
				rt.Fatalf("%s\nhistory: %s", msg, c.Trace())
			}
		})
}

func runTTLPlan(c *hx.Case, dir string, plan []ttlOp) {
	open := func() mondis.KVDB {
		db := ctors["badger"]()
		if err := db.Open(mondis.KVOption{Dir: dir}); err != nil {
			hx.Failf("open: %v", err)
		}
		return db
	}
	db := open()
	defer func() { _ = db.Close() }()
	time.Sleep(123 * time.Millisecond)
	committed := map[string]ttlItem{}
	var inside map[string]ttlItem
	var txn mondis.ProviderTxn
	defer func() {
		if txn != nil {
			txn.Discard()
		}
	}()
	copyItems := func(m map[string]ttlItem) map[string]ttlItem {
		n := map[string]ttlItem{}
		for k, v := range m {
			n[k] = v
		}
		return n
	}
	sawAlive := map[string]bool{}
	for _, o := range plan {
		switch o.kind {
		case "set":
			it := ttlItem{v: o.v, written: time.Now()}
			if o.meta != nil {
				it.tag, it.ttl = o.meta.Tag, o.meta.TTL
			}
			var err error
			if o.txn {
				err = txn.Set([]byte(o.k), []byte(o.v), o.meta)
				inside[o.k] = it
			} else {
				err = db.Set([]byte(o.k), []byte(o.v), o.meta)
				committed[o.k] = it
			}
			if err != nil {
				hx.Failf("%v: %v", o, err)
			}
		case "del":
			var err error
			if o.txn {
				err = txn.Delete([]byte(o.k))
				delete(inside, o.k)
			} else {
				err = db.Delete([]byte(o.k))
				delete(committed, o.k)
			}
			if err != nil {
				hx.Failf("%v: %v", o, err)
			}
		case "wait":
			time.Sleep(o.wait)
		case "begin":
			txn, inside = db.NewTransaction(true), copyItems(committed)
		case "end":
			if o.end == "commit" {
				// outside writes do not overlap: the plan may contain none while one is open,
				// reads of the transaction would make it conflict
				if err := txn.Commit(); err != nil {
					hx.Failf("commit: %v", err)
				}
				committed = inside
			}
			txn.Discard()
			txn, inside = nil, nil
		case "reopen":
			if err := db.Close(); err != nil {
				hx.Failf("close: %v", err)
			}
			time.Sleep(time.Millisecond)
			db = open()
			c.Class("reopen")
		}
		checkTTL("store", db, committed)
		if txn != nil {
			checkTTL("transaction", txn, inside)
			c.Class("transaction")
		}
		for k, it := range committed {
			if it.ttl > 0 {
				mayLive, _ := it.fate(time.Now())
				id := fmt.Sprint(k, it)
				if mayLive {
					sawAlive[id] = true
				} else if sawAlive[id] {
					c.NonTrivial()
				}
			}
		}
	}
}

// A provider without metadata refuses it and writes nothing.
func TestP05_LevelDB(t *testing.T) {
	l := openLive(t, "leveldb")
	hx.Run(t, hx.N{Quick: 1500}, "the key already holds another value",
		func(rt *rapid.T, c *hx.Case) {
			k := hx.Key(rt, "k")
			used := map[string]bool{string(k): true}
			defer func() { l.clear(rt, used) }()
			var old []byte
			had := rapid.Bool().Draw(rt, "had")
			if had {
				old = hx.Value(rt, "old")
				if err := l.db.Set(k, old, nil); err != nil {
					rt.Fatal(err)
				}
				c.NonTrivial()
			}
			meta := &mondis.VMetaReq{Tag: rapid.Byte().Draw(rt, "tag"), TTL: time.Duration(rapid.Int64Range(0, 1<<50).Draw(rt, "ttl"))}
			if meta.Tag == 0 && meta.TTL == 0 {
				meta.Tag = 1
			}
			c.Step("set %s with tag %d ttl %v (had %v)", hx.Q(k), meta.Tag, meta.TTL, had)
			if err := l.db.Set(k, hx.Value(rt, "v"), meta); err == nil {
				rt.Fatalf("leveldb accepts metadata %+v it cannot store", *meta)
			}
			checkKey(rt, "leveldb", l.db, string(k), old, had)
			_, m, _ := l.db.Get(k)
			if m != (mondis.VMetaResp{}) {
				rt.Fatalf("leveldb reports metadata %+v", m)
			}
		})
}
