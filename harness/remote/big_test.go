package remote

import (
	"fmt"
	"testing"

	"github.com/zhiqiangxu/mondis"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

// longKeys draws keys that share a long part, are prefixes of one another, or are just short.
func longKeys(rt *rapid.T) (keys [][]byte) {
	base := hx.Fill(rapid.SampledFrom([]int{1, 120, 126, 127, 128, 254, 255, 256, 1000, 4096, 16383, 16384, 50000}).Draw(rt, "base"), rapid.Byte().Draw(rt, "fill"))
	base[0] = 'k' // badger keeps a prefix to itself
	for _, suffix := range []string{"", "\x00", "a", "a\xff", "b", "\xff"} {
		keys = append(keys, append(hx.Copy(base), suffix...))
	}
	return append(keys, []byte("s"))
}

// bigValue draws the length of a value, most of them beyond what fits a small buffer.
func bigValue(rt *rapid.T, max int) []byte {
	sizes := []int{0, 1, 127, 128, 4095, 4096, 16383, 16384, 32767, 32768, 65535, 65536, 65537, 100000, 1 << 20, 1<<20 + 1, 3 << 20, 9 << 20, 10<<20 - 60000}
	n := 0
	for n < len(sizes) && sizes[n] <= max {
		n++
	}
	return hx.Fill(sizes[hx.Uniform(rt, "size", n)], rapid.Byte().Draw(rt, "value"))
}

func TestP07_Big(t *testing.T) {
	addr, srv := startServer(t)
	clients := []mondis.Client{newClient(addr), newClient(addr)}
	stores := map[string]mondis.KVDB{"badger": badgerDB(t), "leveldb": levelDB(t)}
	twins := map[string]mondis.KVDB{"badger": badgerDB(t), "leveldb": levelDB(t)}
	hx.Run(t, hx.N{Quick: 150}, "a key of more than 100 bytes or a value of more than 64 KB is read back",
		func(rt *rapid.T, c *hx.Case) {
			kind := rapid.SampledFrom([]string{"mem", "badger", "leveldb"}).Draw(rt, "kind")
			a, b := stores[kind], twins[kind]
			if kind == "mem" {
				a, b = hx.NewMemKV(), hx.NewMemKV()
			} else {
				clearing(a)
				clearing(b)
			}
			c.Class(kind)
			srv.set(a)
			keys := longKeys(rt)
			many := 0
			if rapid.IntRange(0, 4).Draw(rt, "many") == 0 {
				many = rapid.IntRange(100, 2000).Draw(rt, "count")
				size := rapid.SampledFrom([]int{1, 1000, 20000, 20000}).Draw(rt, "manySize")
				for _, db := range []mondis.KVDB{a, b} {
					for i := 0; i < many; i++ {
						if err := db.Set([]byte(fmt.Sprintf("a%05d", i)), hx.Fill(size, byte(i)), nil); err != nil {
							hx.Infra("fill: %v", err)
						}
					}
				}
				c.Step("%d values of %d bytes", many, size)
				c.ClassIf(many*size > 10<<20, "a scan of more than 10 MB")
			}
			var plan []op
			for k := rapid.IntRange(2, 8).Draw(rt, "steps"); k > 0; k-- {
				o := drawOp(rt, kind != "leveldb", kind != "leveldb")
				if o.kind == kScan {
					o.scan.Prefix, o.scan.Offset = nil, nil
					switch rapid.IntRange(0, 3).Draw(rt, "scanKind") {
					case 0:
						o.scan.Prefix = keys[hx.Uniform(rt, "prefix", len(keys))]
					case 1:
						o.scan.Offset = keys[hx.Uniform(rt, "offset", len(keys))]
					}
				} else {
					o.k = keys[hx.Uniform(rt, "key", len(keys))]
					if o.kind == kSet {
						o.v = bigValue(rt, 10<<20)
					}
				}
				plan = append(plan, o)
				if o.kind == kSet && rapid.Bool().Draw(rt, "readBack") {
					plan = append(plan, op{kind: kGet, k: o.k})
				}
			}
			problem := guarded(func() {
				for i, o := range plan {
					c.Step("%v", o)
					r := o.onRemote(clients[i%2])
					l := o.onLocal(b)
					if msg := sameResult(r, l); msg != "" {
						hx.Failf("%v: %.2000s", o, msg)
					}
					if r.err == nil && (o.kind == kGet || o.kind == kScan) {
						c.NonTrivialIf(len(r.v) > 65536 || len(o.k) > 100)
						n := 0
						for _, e := range r.entries {
							n += len(e.Value)
						}
						c.NonTrivialIf(n > 65536)
						c.ClassIf(n > 10<<20, "more than 10 MB scanned")
						c.ClassIf(len(r.v) > 1<<20, "more than 1 MB read")
					}
				}
				da, e1 := dump(a)
				db, e2 := dump(b)
				if msg := sameResult(result{entries: da, err: e1}, result{entries: db, err: e2}); msg != "" {
					hx.Failf("the served store differs from one with the same local calls: %.2000s", msg)
				}
			})
			if problem != "" {
				rt.Fatalf("%s\nhistory: %.6000s", problem, c.Trace())
			}
		})
}

// TestP08_Big runs transactions of up to hundreds of operations with long keys and large values.
func TestP08_Big(t *testing.T) {
	addr, srv := startServer(t)
	c1 := newClient(addr)
	real, twin := badgerDB(t), badgerDB(t)
	hx.Run(t, hx.N{Quick: 100}, "at least fifty operations in one committed transaction",
		func(rt *rapid.T, c *hx.Case) {
			a, b := real, twin
			if rapid.Bool().Draw(rt, "mem") {
				ma, mb := hx.NewMemKV(), hx.NewMemKV()
				if rapid.IntRange(0, 2).Draw(rt, "bounded") == 0 {
					ma.MaxTxnOps = rapid.IntRange(60, 400).Draw(rt, "maxOps")
					mb.MaxTxnOps = ma.MaxTxnOps
				}
				a, b = ma, mb
			} else {
				clearing(a)
				clearing(b)
			}
			srv.set(a)
			keys := longKeys(rt)
			n := rapid.SampledFrom([]int{3, 70, 130, 260, 520, 1100}).Draw(rt, "operations")
			x := uint32(hx.Uniform(rt, "salt", 1<<20))
			next := func(n int) int {
				x = x*1664525 + 1013904223
				return int(x>>8) % n
			}
			large := rapid.IntRange(0, 2).Draw(rt, "large") == 0
			giveUp := rapid.IntRange(0, 5).Draw(rt, "giveUp") == 0
			c.Step("%d operations, salt %d, keys of about %d bytes, large %v, give up %v", n, x, len(keys[0]), large, giveUp)
			tooBig := false
			problem := guarded(func() {
				local := b.NewTransaction(true)
				defer local.Discard()
				err := c1.Update(func(txn mondis.Txn) error {
					for i := 0; i < n; i++ {
						o := op{kind: opKind(0), k: []byte(fmt.Sprintf("n%d", next(n)))}
						if next(4) == 0 {
							o.k = keys[next(len(keys))]
						}
						switch next(10) {
						case 0, 1:
							o.kind = kGet
						case 2:
							o.kind = kExists
						case 3:
							o.kind = kDelete
						case 4:
							if next(8) == 0 {
								o.kind, o.k = kScan, nil
								o.scan.Limit = 1 + next(1000)
								o.scan.Reverse = next(2) == 0
								o.scan.Prefix = []byte{'n'}
								break
							}
							fallthrough
						default:
							o.kind = kSet
							size := 1 + next(40)
							if large && next(12) == 0 {
								size = 30000 + next(200000)
							}
							o.v = hx.Fill(size, byte(i))
						}
						r, l := o.onRemote(txn), o.onLocal(local)
						if msg := sameResult(r, l); msg != "" {
							hx.Failf("operation %d, %v: %.2000s", i, o, msg)
						}
						if r.err != nil && (o.kind == kSet || o.kind == kDelete) {
							tooBig = true
							return r.err
						}
					}
					if giveUp {
						return errUser
					}
					return nil
				})
				var want error
				if giveUp || tooBig {
					want = errUser
				} else {
					want = local.Commit()
				}
				if (err != nil) != (want != nil) {
					hx.Failf("the remote transaction ends with %v, the local one with %v", err, want)
				}
				da, e1 := dump(a)
				db, e2 := dump(b)
				if msg := sameResult(result{entries: da, err: e1}, result{entries: db, err: e2}); msg != "" {
					hx.Failf("the store after the remote transaction and after the local one: %.2000s", msg)
				}
			})
			if problem != "" {
				rt.Fatalf("%s\nhistory: %s", problem, c.Trace())
			}
			c.NonTrivialIf(n >= 50 && !tooBig && !giveUp)
			c.ClassIf(tooBig, "too big")
			c.ClassIf(giveUp && !tooBig, "given up")
		})
}
