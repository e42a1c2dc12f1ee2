package store

import (
	"testing"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

// drawOption draws a scan option related to the given keys.
func drawOption(rt *rapid.T, keys []string, reverse bool) mondis.ProviderScanOption {
	o := mondis.ProviderScanOption{Reverse: reverse}
	related := func(label string) []byte {
		var k []byte
		if len(keys) > 0 && rapid.IntRange(0, 3).Draw(rt, label+"Known") > 0 {
			k = []byte(rapid.SampledFrom(keys).Draw(rt, label+"Of"))
		} else {
			k = hx.Key(rt, label)
		}
		switch rapid.IntRange(0, 5).Draw(rt, label+"Form") {
		case 0:
			return k
		case 1, 2:
			return k[:rapid.IntRange(0, len(k)).Draw(rt, label+"Cut")]
		case 3:
			return append(k, rapid.SampledFrom([]byte{0, 0xff, 'a'}).Draw(rt, label+"Ext"))
		case 4:
			return kv.Key(k).PrefixNext()
		default:
			k = hx.Copy(k)
			k[len(k)-1]--
			return k
		}
	}
	switch rapid.IntRange(0, 4).Draw(rt, "prefixKind") {
	case 0:
	case 1:
		o.Prefix = []byte{}
	default:
		o.Prefix = related("prefix")
	}
	switch rapid.IntRange(0, 4).Draw(rt, "offsetKind") {
	case 0:
	case 1:
		if rapid.IntRange(0, 4).Draw(rt, "emptyOffset") == 0 {
			o.Offset = []byte{}
		} else if len(o.Prefix) > 0 {
			o.Offset = append(hx.Copy(o.Prefix), rapid.SliceOfN(rapid.SampledFrom([]byte{0, 'a', 'b', 0xff}), 0, 2).Draw(rt, "within")...)
		}
	default:
		o.Offset = related("offset")
	}
	return o
}

func classifyOption(c *hx.Case, o mondis.ProviderScanOption, matched int) {
	c.ClassIf(o.Reverse, "reverse")
	c.ClassIf(len(o.Prefix) > 0, "prefix")
	c.ClassIf(len(o.Offset) > 0, "offset")
	c.ClassIf(matched > 0, "matches")
	if len(o.Prefix) > 0 && len(o.Offset) > 0 {
		in := kv.Key(o.Offset).HasPrefix(o.Prefix)
		c.ClassIf(in, "offset within prefix")
		c.ClassIf(!in && string(o.Offset) < string(o.Prefix), "offset below prefix")
		c.ClassIf(!in && string(o.Offset) > string(o.Prefix), "offset above prefix")
	}
}

// checkScan compares one scan with the model; it returns how many entries match.
func checkScan(rt *rapid.T, where string, db reader, model map[string][]byte, o mondis.ProviderScanOption, limit int) int {
	p, f := hx.Copy(o.Prefix), hx.Copy(o.Offset)
	got, err := scanAll(db, o, limit)
	if err != nil {
		rt.Fatalf("%s: scan %s: %v", where, optString(o), err)
	}
	if string(p) != string(o.Prefix) || string(f) != string(o.Offset) {
		rt.Fatalf("%s: scan changed the caller's option", where)
	}
	want := wantScan(model, o, limit)
	if d := diffPairs(got, want); d != "" {
		rt.Fatalf("%s: scan %s limit %d of %d keys %q: %s", where, optString(o), limit, len(model), sortedKeys(model), d)
	}
	return len(want)
}

func p02(t *testing.T, kind string, n hx.N) {
	l := openLive(t, kind)
	hx.Run(t, n, "a scan with a prefix or an offset over a store of at least three keys that has something to visit and something to leave out",
		func(rt *rapid.T, c *hx.Case) {
			l.fresh(500)
			used := map[string]bool{}
			defer func() { l.clear(rt, used) }()
			model := map[string][]byte{}
			for n := rapid.IntRange(0, 14).Draw(rt, "keys"); n > 0; n-- {
				k, v := hx.Key(rt, "k"), hx.Value(rt, "v")
				used[string(k)] = true
				if err := l.db.Set(k, v, nil); err != nil {
					rt.Fatalf("Set: %v", err)
				}
				model[string(k)] = v
			}
			for n := rapid.IntRange(0, 3).Draw(rt, "deletes"); n > 0 && len(model) > 0; n-- {
				k := rapid.SampledFrom(sortedKeys(model)).Draw(rt, "del")
				if err := l.db.Delete([]byte(k)); err != nil {
					rt.Fatalf("Delete: %v", err)
				}
				delete(model, k)
			}
			if rapid.IntRange(0, 30).Draw(rt, "reopen") == 30 {
				l.reopen(rt)
				c.Class("reopen")
			}
			c.Step("store %q", sortedKeys(model))
			var db reader = l.db
			where := kind
			var txn mondis.ProviderTxn
			update := false
			if kind == "badger" && rapid.IntRange(0, 2).Draw(rt, "inTxn") > 0 {
				update = rapid.IntRange(0, 3).Draw(rt, "update") > 0
				txn = l.db.NewTransaction(update)
				defer func() { txn.Discard() }()
				db, where = txn, kind+" transaction"
				c.Class("in transaction")
				// the transaction keeps seeing its snapshot
				if rapid.Bool().Draw(rt, "later") {
					k := hx.Key(rt, "laterKey")
					used[string(k)] = true
					if err := l.db.Set(k, []byte("later"), nil); err != nil {
						rt.Fatalf("Set: %v", err)
					}
					c.Step("later write %s", hx.Q(k))
				}
			}
			for n := rapid.IntRange(1, 6).Draw(rt, "scans"); n > 0; n-- {
				if update {
					for m := rapid.IntRange(0, 3).Draw(rt, "pending"); m > 0; m-- {
						var k []byte
						if len(model) > 0 && rapid.Bool().Draw(rt, "pendingKnown") {
							k = []byte(rapid.SampledFrom(sortedKeys(model)).Draw(rt, "pendingOf"))
						} else {
							k = hx.Key(rt, "pendingKey")
						}
						if rapid.IntRange(0, 2).Draw(rt, "pendingDel") == 0 {
							if err := txn.Delete(hx.Copy(k)); err != nil {
								rt.Fatalf("txn delete: %v", err)
							}
							delete(model, string(k))
							c.Step("pending del %s", hx.Q(k))
						} else {
							v := hx.Value(rt, "pendingV")
							if err := txn.Set(hx.Copy(k), hx.Copy(v), nil); err != nil {
								rt.Fatalf("txn set: %v", err)
							}
							model[string(k)] = v
							c.Step("pending set %s", hx.Q(k))
						}
						c.Class("pending writes")
					}
				}
				reverse := rapid.IntRange(0, map[string]int{"badger": 1, "leveldb": 9}[kind]).Draw(rt, "reverse") == 1
				o := drawOption(rt, sortedKeys(model), reverse)
				limit := rapid.SampledFrom([]int{0, 0, 0, 1, 2, 5}).Draw(rt, "limit")
				c.Step("scan %s limit %d", optString(o), limit)
				if kind == "leveldb" && reverse {
					visited := 0
					err := db.Scan(o, func(k, v []byte, _ mondis.VMetaResp) bool { visited++; return true })
					if err == nil || visited > 0 {
						rt.Fatalf("leveldb: reverse scan %s: error %v, %d entries visited", optString(o), err, visited)
					}
					c.Class("reverse refused")
					continue
				}
				m := checkScan(rt, where, db, model, o, limit)
				classifyOption(c, o, m)
				if len(model) >= 3 && m > 0 && (m < len(model)) && (len(o.Prefix) > 0 || len(o.Offset) > 0) {
					c.NonTrivial()
				}
			}
		})
}

func TestP02_Badger(t *testing.T)  { p02(t, "badger", hx.N{Quick: 2500}) }
func TestP02_LevelDB(t *testing.T) { p02(t, "leveldb", hx.N{Quick: 5000}) }
