package store

import (
	"errors"
	"fmt"
	"sort"
	"sync"
	"testing"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

// pairTxn is a transaction on badger next to the same transaction on the reference store.
type pairTxn struct {
	id     int
	b      mondis.ProviderTxn
	m      *hx.MemTxn
	update bool
	scans  []mondis.ProviderScanOption
	writes int
	reads  int
	start  int // how many commits had happened
}

type committedKeys struct {
	at   int
	keys []string
}

// Interleaved transactions give, step by step, what a snapshot-isolated reference gives.
func TestP03_Histories(t *testing.T) {
	l := openLive(t, "badger")
	hx.Run(t, hx.N{Quick: 4000, Thorough: 20000}, "at least two transactions overlap and one of them commits writes the other reads or overwrites",
		func(rt *rapid.T, c *hx.Case) {
			l.fresh(300)
			mem := hx.NewMemKV()
			used := map[string]bool{}
			defer func() { l.clear(rt, used) }()
			var open []*pairTxn
			defer func() {
				for _, p := range open {
					p.b.Discard()
				}
			}()
			var commits []committedKeys
			nextID, overlap := 0, false
			key := func() []byte {
				if len(used) > 0 && rapid.IntRange(0, 3).Draw(rt, "known") > 0 {
					return []byte(rapid.SampledFrom(sortedKeys(used)).Draw(rt, "which"))
				}
				return hx.SmallKey(rt, "k")
			}
			compare := func(where string) {
				want := map[string][]byte{}
				for _, it := range mem.Dump() {
					want[it.K] = it.V
				}
				got, err := scanAll(l.db, mondis.ProviderScanOption{}, 0)
				if err != nil {
					rt.Fatalf("%s: scan: %v", where, err)
				}
				if d := diffPairs(got, wantScan(want, mondis.ProviderScanOption{}, 0)); d != "" {
					rt.Fatalf("%s: the store differs from the reference: %s\nhistory: %s", where, d, c.Trace())
				}
			}
			plainGet := func(k []byte) {
				c.Step("get %s", hx.Q(k))
				mv, _, merr := mem.Get(k)
				checkKeyOnce(rt, c, "a plain read", l.db, string(k), mv, merr == nil, rapid.IntRange(0, 3).Draw(rt, "exists") == 0)
				c.Class("plain read")
			}
			drop := func(p *pairTxn) {
				for i := range open {
					if open[i] == p {
						open = append(open[:i:i], open[i+1:]...)
						return
					}
				}
			}
			record := func(keys []string) {
				if len(keys) > 0 {
					commits = append(commits, committedKeys{len(commits), keys})
				}
			}
			pendKeys := map[*pairTxn]map[string]bool{}
			for steps := rapid.IntRange(4, 60).Draw(rt, "steps"); steps > 0; steps-- {
				op := rapid.IntRange(0, 23).Draw(rt, "op")
				if len(open) == 0 || (op >= 19 && len(open) < 5) {
					update := rapid.IntRange(0, 4).Draw(rt, "update") > 0
					p := &pairTxn{id: nextID, update: update, b: l.db.NewTransaction(update), m: mem.Begin(update), start: len(commits)}
					nextID++
					open = append(open, p)
					pendKeys[p] = map[string]bool{}
					overlap = overlap || len(open) > 1
					c.Step("t%d=begin(%v)", p.id, update)
					continue
				}
				p := open[rapid.IntRange(0, len(open)-1).Draw(rt, "txn")]
				name := fmt.Sprintf("t%d", p.id)
				switch {
				case op < 5: // read a key
					k := key()
					c.Step("%s get %s", name, hx.Q(k))
					mv, _, merr := p.m.Get(k)
					p.reads++
					checkKeyOnce(rt, c, name, p.b, string(k), mv, merr == nil, rapid.Bool().Draw(rt, "exists"))
				case op < 6:
					o := drawOption(rt, sortedKeys(used), rapid.Bool().Draw(rt, "reverse"))
					limit := rapid.SampledFrom([]int{0, 1, 2}).Draw(rt, "limit")
					c.Step("%s scan %s limit %d", name, optString(o), limit)
					p.scans = append(p.scans, o)
					p.reads++
					want, _ := scanAll(p.m, o, limit)
					got, err := scanAll(p.b, o, limit)
					if err != nil {
						rt.Fatalf("%s scan: %v", name, err)
					}
					if d := diffPairs(got, want); d != "" {
						rt.Fatalf("%s does not see its snapshot and its own writes: scan %s: %s\nhistory: %s", name, optString(o), d, c.Trace())
					}
				case op < 12: // write
					k := key()
					used[string(k)] = true
					var berr, merr error
					if rapid.IntRange(0, 2).Draw(rt, "del") == 0 {
						c.Step("%s del %s", name, hx.Q(k))
						berr, merr = p.b.Delete(hx.Copy(k)), p.m.Delete(hx.Copy(k))
					} else {
						v := hx.Value(rt, "v")
						c.Step("%s set %s=%s", name, hx.Q(k), hx.Q(v))
						berr, merr = p.b.Set(hx.Copy(k), hx.Copy(v), nil), p.m.Set(hx.Copy(k), hx.Copy(v), nil)
					}
					if !p.update {
						c.Class("mutation of a read-only transaction")
						if berr == nil {
							rt.Fatalf("read-only %s accepts a mutation", name)
						}
						break
					}
					if berr != nil || merr != nil {
						rt.Fatalf("%s write %s: %v (reference: %v)", name, hx.Q(k), berr, merr)
					}
					p.writes++
					pendKeys[p][string(k)] = true
				case op < 14: // outside any transaction
					k := key()
					used[string(k)] = true
					v := hx.Value(rt, "v")
					switch rapid.IntRange(0, 5).Draw(rt, "plain") {
					case 0:
						c.Step("del %s", hx.Q(k))
						if err := l.db.Delete(hx.Copy(k)); err != nil {
							rt.Fatalf("Delete: %v", err)
						}
						_ = mem.Delete(hx.Copy(k))
						record([]string{string(k)})
					case 1:
						k2 := key()
						used[string(k2)] = true
						c.Step("batch set %s=%s del %s", hx.Q(k), hx.Q(v), hx.Q(k2))
						wb := l.db.WriteBatch()
						if err := wb.Set(hx.Copy(k), hx.Copy(v)); err != nil {
							rt.Fatalf("batch Set: %v", err)
						}
						if err := wb.Delete(hx.Copy(k2)); err != nil {
							rt.Fatalf("batch Delete: %v", err)
						}
						if rapid.Bool().Draw(rt, "look") {
							compare("with a batch pending")
						}
						if err := wb.Commit(); err != nil {
							rt.Fatalf("batch Commit: %v", err)
						}
						_ = mem.Set(hx.Copy(k), hx.Copy(v), nil)
						_ = mem.Delete(hx.Copy(k2))
						record([]string{string(k)})
						record([]string{string(k2)})
						c.Class("a batch next to transactions")
					default:
						c.Step("set %s=%s", hx.Q(k), hx.Q(v))
						if err := l.db.Set(hx.Copy(k), hx.Copy(v), nil); err != nil {
							rt.Fatalf("Set: %v", err)
						}
						_ = mem.Set(hx.Copy(k), hx.Copy(v), nil)
						record([]string{string(k)})
					}
				case op < 17: // commit
					if !p.update { // committing a view is no different from discarding it, but keep the result
						c.Step("%s commit view", name)
						if err := p.b.Commit(); err != nil {
							rt.Fatalf("read-only %s does not commit: %v", name, err)
						}
						p.m.Discard()
						drop(p)
						break
					}
					must := p.m.Conflicts()
					may := must
					for _, ck := range commits[p.start:] {
						for _, k := range ck.keys {
							for _, o := range p.scans {
								may = may || hx.InRange(o, k)
							}
						}
					}
					if len(commits) > p.start && p.writes > 0 {
						c.NonTrivialIf(p.reads > 0)
						c.Class("commit after other commits")
					}
					berr := p.b.Commit()
					c.Step("%s commit=%v", name, berr == nil)
					drop(p)
					if berr == nil {
						if must && p.writes > 0 {
							rt.Fatalf("%s commits although a key it read was committed after its start\nhistory: %s", name, c.Trace())
						}
						if err := p.m.Commit(); err != nil && p.writes > 0 {
							rt.Fatalf("reference commit: %v", err)
						}
						record(sortedKeys(pendKeys[p]))
					} else {
						c.Class("conflict")
						if !may {
							rt.Fatalf("%s does not commit though nothing it read changed: %v\nhistory: %s", name, berr, c.Trace())
						}
						p.m.Discard()
					}
					if rapid.Bool().Draw(rt, "discardAfter") {
						p.b.Discard()
					}
					if rapid.Bool().Draw(rt, "one") {
						ks := sortedKeys(pendKeys[p])
						if len(ks) > 0 {
							plainGet([]byte(rapid.SampledFrom(ks).Draw(rt, "whichKey")))
						}
					}
					compare("after the commit of " + name)
				case op < 18: // discard
					c.Step("%s discard", name)
					p.b.Discard()
					p.m.Discard()
					drop(p)
					if p.update && p.writes > 0 && rapid.IntRange(0, 2).Draw(rt, "commitAfter") == 0 {
						c.Step("%s is used after its discard", name)
						c.Class("used after its discard")
						if rapid.Bool().Draw(rt, "write") {
							k := key()
							used[string(k)] = true
							_ = hx.Protect(func() { _ = p.b.Set(k, []byte("late"), nil) })
						}
						_ = hx.Protect(func() { _ = p.b.Commit() }) // however it is refused
					}
					compare("after the discard of " + name)
				default: // a reader outside sees only what is committed
					if p.writes > 0 {
						c.Class("look at the store while writes are pending")
					}
					if rapid.Bool().Draw(rt, "one") {
						plainGet(key())
						break
					}
					c.Step("look")
					compare("with transactions pending")
				}
			}
			for _, p := range open {
				p.b.Discard()
				p.m.Discard()
			}
			open = nil
			compare("at the end")
			c.ClassIf(overlap, "overlap")
		})
}

func checkKeyOnce(rt *rapid.T, c *hx.Case, name string, db reader, k string, want []byte, exists, viaExists bool) {
	if viaExists {
		ok, err := db.Exists([]byte(k))
		if err != nil || ok != exists {
			rt.Fatalf("%s: Exists(%s)=%v,%v; its snapshot and own writes say %v\nhistory: %s", name, hx.QS(k), ok, err, exists, c.Trace())
		}
		return
	}
	v, _, err := db.Get([]byte(k))
	if !exists {
		if err != kv.ErrKeyNotFound {
			rt.Fatalf("%s: Get(%s)=%s,%v; its snapshot and own writes say it is missing\nhistory: %s", name, hx.QS(k), hx.Q(v), err, c.Trace())
		}
		return
	}
	if err != nil || string(v) != string(want) {
		rt.Fatalf("%s: Get(%s)=%s,%v, want %s\nhistory: %s", name, hx.QS(k), hx.Q(v), err, hx.Q(want), c.Trace())
	}
	hx.Owned(name+": the value of "+hx.QS(k), v)
}

// A transaction that outgrows the store says so, and leaves no trace unless committed.
func TestP03_TooBig(t *testing.T) {
	l := openLive(t, "badger")
	hx.Run(t, hx.N{Quick: 12, Thorough: 40}, "every case fills a transaction beyond its limit",
		func(rt *rapid.T, c *hx.Case) {
			used := map[string]bool{"tb-keep": true}
			defer func() { l.clear(rt, used) }()
			if err := l.db.Set([]byte("tb-keep"), []byte("x"), nil); err != nil {
				rt.Fatal(err)
			}
			// what counts is mostly the keys: badger keeps larger values apart
			size := rapid.SampledFrom([]int{0, 10, 33, 500}).Draw(rt, "size")
			klen := rapid.SampledFrom([]int{5000, 20000, 64000}).Draw(rt, "klen")
			pad := string(hx.Fill(klen, 'k'))
			deletes := rapid.IntRange(0, 5).Draw(rt, "deletes") == 0
			commit := rapid.Bool().Draw(rt, "commit")
			txn := l.db.NewTransaction(true)
			defer txn.Discard()
			val := hx.Fill(size, 3)
			var done []string
			var err error
			for i := 0; i < 400000; i++ {
				k := fmt.Sprintf("tb%07d", i) + pad
				if deletes {
					err = txn.Delete([]byte(k))
				} else {
					err = txn.Set([]byte(k), val, nil)
				}
				if err != nil {
					break
				}
				done = append(done, k)
			}
			if !errors.Is(err, kv.ErrTxnTooBig) {
				rt.Fatalf("outgrowing a transaction with values of %d bytes (deletes %v): %v", size, deletes, err)
			}
			c.NonTrivial()
			c.Step("klen=%d size=%d deletes=%v fits=%d commit=%v", klen, size, deletes, len(done), commit)
			want := []string{"tb-keep"}
			if commit {
				if err := txn.Commit(); err != nil {
					rt.Fatalf("commit of what fits: %v", err)
				}
				if !deletes {
					want = append(want, done...)
					for _, k := range done {
						used[k] = true
					}
				}
			} else {
				txn.Discard()
			}
			var got []string
			if err := l.db.Scan(mondis.ProviderScanOption{}, func(k, v []byte, _ mondis.VMetaResp) bool {
				got = append(got, string(k))
				if string(k) != "tb-keep" && len(v) != size {
					rt.Fatalf("%q has %d bytes", k, len(v))
				}
				return true
			}); err != nil {
				rt.Fatal(err)
			}
			sort.Strings(want)
			if fmt.Sprint(got) != fmt.Sprint(want) {
				rt.Fatalf("%d keys after the end of an over-size transaction (commit %v), want %d", len(got), commit, len(want))
			}
		})
}

// Concurrent transactions keep what every one of them keeps: the total over all accounts as seen
// by any snapshot, and a count of the transactions that committed.
func TestP03_Concurrent(t *testing.T) {
	l := openLive(t, "badger")
	type xfer struct {
		from, to, amount int
		scan, abort      bool
	}
	const accounts = 4
	hx.Run(t, hx.N{Quick: 400, Thorough: 4000}, "at least three goroutines with at least one transfer each",
		func(rt *rapid.T, c *hx.Case) {
			acct := func(i int) []byte { return []byte(fmt.Sprintf("acct%d", i)) }
			used := map[string]bool{}
			defer func() { l.clear(rt, used) }()
			for i := 0; i < accounts; i++ {
				used[string(acct(i))] = true
				if err := l.db.Set(acct(i), []byte("100"), nil); err != nil {
					rt.Fatal(err)
				}
			}
			nw := rapid.IntRange(2, 6).Draw(rt, "workers")
			plans := make([][]xfer, nw)
			n := 0
			for w := range plans {
				used[fmt.Sprintf("count%d", w)] = true
				for j := rapid.IntRange(1, 6).Draw(rt, "transfers"); j > 0; j-- {
					x := xfer{from: rapid.IntRange(0, accounts-1).Draw(rt, "from"), to: rapid.IntRange(0, accounts-1).Draw(rt, "to"),
						amount: rapid.IntRange(1, 50).Draw(rt, "amount"), scan: rapid.Bool().Draw(rt, "scan"), abort: rapid.IntRange(0, 4).Draw(rt, "abort") == 0}
					if x.from == x.to {
						x.to = (x.to + 1) % accounts
					}
					plans[w] = append(plans[w], x)
					n++
				}
				c.Step("w%d %+v", w, plans[w])
			}
			c.NonTrivialIf(nw >= 3)
			num := func(b []byte) int { var x int; fmt.Sscanf(string(b), "%d", &x); return x }
			errs := make(chan error, nw+1)
			var wg sync.WaitGroup
			delta := make([][accounts]int, nw)
			count := make([]int, nw)
			for w := range plans {
				wg.Add(1)
				go func(w int) {
					defer wg.Done()
					for _, x := range plans[w] {
						for try := 0; try < 50; try++ {
							txn := l.db.NewTransaction(true)
							read := func(k []byte) int {
								v, _, err := txn.Get(k)
								if err != nil && err != kv.ErrKeyNotFound {
									errs <- err
								}
								return num(v)
							}
							var f, g int
							if x.scan {
								_ = txn.Scan(mondis.ProviderScanOption{Prefix: []byte("acct")}, func(k, v []byte, _ mondis.VMetaResp) bool {
									if string(k) == string(acct(x.from)) {
										f = num(v)
									}
									if string(k) == string(acct(x.to)) {
										g = num(v)
									}
									return true
								})
							} else {
								f, g = read(acct(x.from)), read(acct(x.to))
							}
							_ = txn.Set(acct(x.from), []byte(fmt.Sprint(f-x.amount)), nil)
							_ = txn.Set(acct(x.to), []byte(fmt.Sprint(g+x.amount)), nil)
							_ = txn.Set([]byte(fmt.Sprintf("count%d", w)), []byte(fmt.Sprint(count[w]+1)), nil)
							if x.abort {
								txn.Discard()
								break
							}
							err := txn.Commit()
							txn.Discard()
							if err == nil {
								count[w]++
								delta[w][x.from] -= x.amount
								delta[w][x.to] += x.amount
								break
							}
						}
					}
				}(w)
			}
			stop := make(chan struct{})
			var vg sync.WaitGroup
			vg.Add(1)
			go func() {
				defer vg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					txn := l.db.NewTransaction(false)
					sum := 0
					for i := 0; i < accounts; i++ {
						v, _, err := txn.Get(acct(i))
						if err != nil {
							errs <- err
							txn.Discard()
							return
						}
						sum += num(v)
					}
					sum2 := 0
					_ = txn.Scan(mondis.ProviderScanOption{Prefix: []byte("acct")}, func(k, v []byte, _ mondis.VMetaResp) bool { sum2 += num(v); return true })
					txn.Discard()
					if sum != 100*accounts || sum2 != sum {
						errs <- fmt.Errorf("a snapshot shows a total of %d (by scan %d), every transaction keeps it at %d", sum, sum2, 100*accounts)
						return
					}
				}
			}()
			wg.Wait()
			close(stop)
			vg.Wait()
			close(errs)
			for err := range errs {
				rt.Fatal(err)
			}
			for i := 0; i < accounts; i++ {
				want := 100
				for w := range delta {
					want += delta[w][i]
				}
				v, _, err := l.db.Get(acct(i))
				if err != nil || num(v) != want {
					rt.Fatalf("account %d holds %q (%v); the committed transfers make it %d", i, v, err, want)
				}
			}
			for w := range count {
				v, _, _ := l.db.Get([]byte(fmt.Sprintf("count%d", w)))
				if num(v) != count[w] {
					rt.Fatalf("worker %d: %d transactions reported success, %q are in the store", w, count[w], v)
				}
			}
		})
}
