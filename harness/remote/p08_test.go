package remote

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/dgraph-io/badger"
	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/client"
	"github.com/zhiqiangxu/mondis/kv"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

var errUser = errors.New("the function gives up")

// givenUp is what functions give up with: an error of their own or one that also has a meaning of its own.
var givenUp = []error{errUser, kv.ErrKeyNotFound, kv.ErrTxnTooBig, io.EOF, context.Canceled, context.DeadlineExceeded, badger.ErrConflict, client.ErrUnexpectedResp, fmt.Errorf("gives up: %w", kv.ErrKeyNotFound)}

// txnStep is a step of a transaction, or something that happens next to it.
type txnStep struct {
	o    op
	ext  int // 0: part of the transaction; 1: directly on the store; 2: through another client; 3: a transaction of another client
	fail bool
}

type txnPlan struct {
	update bool
	steps  []txnStep
	end    int // 0: return nil, 1: return an error, 2: the commit fails in the store, 3: panic
	with   error
	early  int // what the function itself does in the end: 1: it discards, 2: it commits
	after  op  // tried after that
}

func drawTxn(rt *rapid.T, mem bool) (p txnPlan) {
	p.update = rapid.IntRange(0, 4).Draw(rt, "view") > 0
	for n := rapid.IntRange(0, 12).Draw(rt, "steps"); n > 0; n-- {
		s := txnStep{o: drawOp(rt, true, true)}
		if rapid.IntRange(0, 5).Draw(rt, "ext") == 0 {
			s.ext = rapid.IntRange(1, 3).Draw(rt, "extKind")
		} else if mem && rapid.IntRange(0, 15).Draw(rt, "fail") == 0 {
			s.fail = true
		}
		p.steps = append(p.steps, s)
	}
	p.end = rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 3}).Draw(rt, "end")
	if !mem && p.end == 2 {
		p.end = 0
	}
	if p.end == 0 && rapid.IntRange(0, 3).Draw(rt, "early") == 0 {
		p.early = rapid.IntRange(1, 2).Draw(rt, "ended by the function")
		p.after = drawOp(rt, true, true)
	}
	p.with = errUser
	if rapid.Bool().Draw(rt, "usual error") {
		p.with = rapid.SampledFrom(givenUp).Draw(rt, "error")
	}
	return
}

func p08(t *testing.T, n hx.N, kind string) {
	addr, srv := startServer(t)
	c1, c2 := newClient(addr), newClient(addr)
	var real, twin mondis.KVDB
	if kind == "badger" {
		real, twin = badgerDB(t), badgerDB(t)
	}
	hx.Run(t, n, "a transaction of at least three operations with a write, or one next to which the store changes, or a failing one",
		func(rt *rapid.T, c *hx.Case) {
			a, b := real, twin
			isMem := kind == "mem"
			var failA, failB atomic.Int64
			failA.Store(-1)
			failB.Store(-1)
			if isMem {
				ma := hx.NewMemKV()
				if rapid.IntRange(0, 2).Draw(rt, "bounded") == 0 {
					ma.MaxTxnOps = rapid.IntRange(1, 5).Draw(rt, "maxOps")
				}
				mb := hx.NewMemKV()
				mb.MaxTxnOps = ma.MaxTxnOps
				hook := func(f *atomic.Int64) func(op hx.Op, _ []byte) error {
					return func(op hx.Op, _ []byte) error {
						if int64(op) == f.Load() {
							f.Store(-1)
							return hx.ErrInjected
						}
						return nil
					}
				}
				ma.Hook, mb.Hook = hook(&failA), hook(&failB)
				a, b = ma, mb
			} else {
				clearing(a)
				clearing(b)
			}
			srv.set(a)
			var plans []txnPlan
			for k := rapid.IntRange(1, 3).Draw(rt, "transactions"); k > 0; k-- {
				plans = append(plans, drawTxn(rt, isMem))
			}
			if isMem {
				c.ClassIf(a.(*hx.MemKV).MaxTxnOps > 0, "small transactions")
			}
			problem := guarded(func() {
				for _, p := range plans {
					runTxn(c, p, a, b, c1, c2, &failA, &failB)
					da, e1 := dump(a)
					db, e2 := dump(b)
					if msg := sameResult(result{entries: da, err: e1}, result{entries: db, err: e2}); msg != "" {
						hx.Failf("the store after the remote transaction and after the local one: %s", msg)
					}
				}
			})
			if problem != "" {
				rt.Fatalf("%s\nhistory: %s", problem, c.Trace())
			}
		})
}

// runTxn runs a plan through a remote client on store a and through a local transaction on store b.
func runTxn(c *hx.Case, p txnPlan, a, b mondis.KVDB, c1, c2 mondis.Client, failA, failB *atomic.Int64) {
	c.Step("transaction, update %v", p.update)
	var local mondis.ProviderTxn
	defer func() {
		if local != nil {
			local.Discard()
		}
	}()
	writes, inside, ext := 0, 0, 0
	ended := false
	fn := func(txn mondis.Txn) error {
		for _, s := range p.steps {
			if s.ext > 0 {
				if s.o.kind != kSet && s.o.kind != kDelete {
					continue
				}
				c.Step("(next to it, %d) %v", s.ext, s.o)
				ext++
				var ra result
				switch s.ext {
				case 1:
					ra = s.o.onLocal(a)
				case 2:
					ra = s.o.onRemote(c2)
				default:
					ra.err = c2.Update(func(t mondis.Txn) error { return s.o.onRemote(t).err })
				}
				if rb := s.o.onLocal(b); ra.err != nil || rb.err != nil {
					hx.Failf("%v next to the transaction: %v, %v", s.o, ra.err, rb.err)
				}
				continue
			}
			c.Step("%v", s.o)
			inside++
			mutation := s.o.kind == kSet || s.o.kind == kDelete
			if mutation && !p.update {
				r := s.o.onRemote(txn)
				if r.err == nil {
					hx.Failf("a view transaction accepts %v", s.o)
				}
				c.Class("mutation refused in a view")
				continue
			}
			if mutation {
				writes++
			}
			if s.o.kind == kScan && s.o.scan.Limit <= 0 {
				if r := s.o.onRemote(txn); r.err != nil || len(r.entries) > 0 {
					hx.Failf("%v: %v", s.o, r)
				}
				continue
			}
			if local == nil {
				local = b.NewTransaction(p.update)
			}
			if s.fail {
				f := map[opKind]hx.Op{kSet: hx.OpSet, kGet: hx.OpGet, kExists: hx.OpExists, kDelete: hx.OpDelete, kScan: hx.OpScan}[s.o.kind]
				failA.Store(int64(f))
				failB.Store(int64(f))
				c.Class("store failure inside")
			}
			r, l := s.o.onRemote(txn), s.o.onLocal(local)
			failA.Store(-1)
			failB.Store(-1)
			if msg := sameResult(r, l); msg != "" {
				hx.Failf("%v in a transaction: %s", s.o, msg)
			}
			c.ClassIf(r.err == kv.ErrTxnTooBig, "too big")
			c.ClassIf(r.err == kv.ErrTxnTooBig && s.o.kind == kDelete, "too big on a delete")
		}
		if p.early > 0 && local != nil && (p.update || p.early == 1) {
			ended = true
			var want, got error
			if p.early == 1 {
				c.Step("discard")
				txn.Discard()
				local.Discard()
			} else {
				c.Step("commit")
				got, want = txn.Commit(), local.Commit()
				if (got != nil) != (want != nil) {
					hx.Failf("the remote transaction commits with %v, the local one with %v", got, want)
				}
			}
			c.Step("%v", p.after)
			if r := p.after.onRemote(txn); r.err == nil && !(p.after.kind == kScan && p.after.scan.Limit <= 0) {
				hx.Failf("%v after the end of the transaction: %v", p.after, r)
			}
			return nil
		}
		if p.end == 1 {
			c.Step("give up with: %v", p.with)
			return p.with
		}
		if p.end == 3 {
			c.Step("panic")
			panic(p.with)
		}
		if p.end == 2 && p.update && local != nil {
			c.Step("(the commit fails)")
			failA.Store(int64(hx.OpCommit))
			failB.Store(int64(hx.OpCommit))
		}
		return nil
	}
	var err error
	func() {
		defer func() {
			if p.end != 3 {
				return
			}
			if r := recover(); r == p.with {
				err = p.with
			} else if r != nil {
				panic(r)
			} else {
				hx.Failf("the function's panic does not come back, but %v", err)
			}
		}()
		if p.update {
			err = c1.Update(fn)
		} else {
			err = c1.View(fn)
		}
	}()
	if ended {
		c.NonTrivialIf(writes > 0)
		c.Class([]string{"", "discarded by the function", "committed by the function"}[p.early])
		if p.early == 1 && writes > 0 && err == nil {
			hx.Failf("an update whose function discarded the transaction reports success")
		}
		return
	}
	c.ClassIf(p.end == 1 && local != nil, "given up")
	c.ClassIf(p.end == 3 && local != nil, "panicked")
	c.ClassIf(p.end == 1 && p.with != errUser && writes > 0, "given up with an error of another meaning")
	c.NonTrivialIf(inside >= 3 && writes > 0 || ext > 0 && inside > 0 || p.end != 0)
	var want error
	switch {
	case p.end == 1 || p.end == 3:
		want = p.with
	case p.update && local != nil:
		want = local.Commit()
	}
	failA.Store(-1)
	failB.Store(-1)
	c.ClassIf(want != nil && p.end == 0, "conflict")
	c.ClassIf(want != nil && p.end == 2, "failed commit")
	if (p.end == 1 || p.end == 3) && err != p.with {
		hx.Failf("the function's error comes back as %v", err)
	}
	if (err != nil) != (want != nil) {
		hx.Failf("the remote transaction ends with %v, the local one with %v", err, want)
	}
	if want == nil && local != nil && p.update {
		c.ClassIf(writes > 1, "committed several writes")
	}
}

func TestP08_Mem(t *testing.T)    { p08(t, hx.N{Quick: 4000}, "mem") }
func TestP08_Badger(t *testing.T) { p08(t, hx.N{Quick: 500}, "badger") }

// Transactions that are too big for the real provider, at the very write that a local one reports.
func TestP08_TooBigBadger(t *testing.T) {
	addr, srv := startServer(t)
	c1 := newClient(addr)
	a, b := badgerDB(t), badgerDB(t)
	srv.set(a)
	run := 0
	hx.Run(t, hx.N{Quick: 4, Thorough: 20}, "the transaction overflows",
		func(rt *rapid.T, c *hx.Case) {
			run++
			size := rapid.IntRange(30000, 60000).Draw(rt, "keySize")
			dels := rapid.IntRange(0, 3).Draw(rt, "deletes")
			giveUp := rapid.Bool().Draw(rt, "giveUp")
			key := func(i int) []byte {
				k := hx.Fill(size, byte(run))
				copy(k, fmt.Sprintf("%05d-%05d", run, i))
				return k
			}
			do := func(set func(k, v []byte) error, del func(k []byte) error) (at int) {
				for i := 0; i < 1500; i++ {
					var err error
					if i%4 < dels {
						err = del(key(i))
					} else {
						err = set(key(i), []byte("v"))
					}
					if err == kv.ErrTxnTooBig {
						return i
					}
					if err != nil {
						hx.Failf("write %d: %v", i, err)
					}
				}
				return -1
			}
			problem := guarded(func() {
				local := b.NewTransaction(true)
				defer local.Discard()
				want := do(func(k, v []byte) error { return local.Set(k, v, nil) }, local.Delete)
				got := -2
				err := c1.Update(func(t mondis.Txn) error {
					got = do(func(k, v []byte) error { return t.Set(k, v, nil) }, t.Delete)
					if giveUp {
						return kv.ErrTxnTooBig
					}
					return nil
				})
				c.Step("key size %d, %d of 4 deletes, give up %v: overflows at %d", size, dels, giveUp, got)
				c.NonTrivialIf(want >= 0)
				if want != got {
					hx.Failf("a local transaction is too big at write %d, the remote one at %d", want, got)
				}
				if giveUp != (err != nil) {
					hx.Failf("the update ends with %v (gave up: %v)", err, giveUp)
				}
				es, e := dump(a)
				if e != nil {
					hx.Failf("scan: %v", e)
				}
				n := 0
				for i := 0; i < got; i++ {
					if i%4 >= dels {
						n++
					}
				}
				if giveUp {
					n = 0
				}
				if len(es) != n {
					hx.Failf("%d keys are stored, not %d", len(es), n)
				}
				for _, e := range es {
					if err := a.Delete(e.Key); err != nil {
						hx.Failf("delete: %v", err)
					}
				}
			})
			if problem != "" {
				rt.Fatalf("%s\nhistory: %s", problem, c.Trace())
			}
		})
}

// Connections that are lost somewhere in a transaction.
func TestP08_ConnectionLost(t *testing.T) {
	addr, srv := startServer(t)
	l := newLink(t, addr)
	var mu sync.Mutex
	open := 0
	direct := newClient(addr)
	var cl mondis.Client
	uses := 0
	hx.Run(t, hx.N{Quick: 400}, "the connection is lost after a write and before the commit is answered",
		func(rt *rapid.T, c *hx.Case) {
			mem := hx.NewMemKV()
			ctr := &countKV{MemKV: mem, mu: &mu, open: &open}
			srv.set(ctr)
			update := rapid.IntRange(0, 5).Draw(rt, "view") > 0
			n := rapid.IntRange(1, 8).Draw(rt, "steps")
			var ops []op
			for i := 0; i < n; i++ {
				o := drawOp(rt, true, true)
				if o.kind == kScan {
					o.scan.Limit = 10
				}
				if !update && (o.kind == kSet || o.kind == kDelete) {
					o.kind = kGet
				}
				ops = append(ops, o)
			}
			at := rapid.IntRange(0, n).Draw(rt, "lostAt") // n: around the commit
			during := rapid.Bool().Draw(rt, "during")
			delay := time.Duration(rapid.IntRange(0, 300).Draw(rt, "delay")) * time.Microsecond
			for _, k := range []string{"a", "aa", "\xff"} {
				_ = mem.Set([]byte(k), []byte("before"), nil)
			}
			before, _ := dump(mem)
			after := mem.Clone()
			for _, o := range ops {
				if o.kind == kSet || o.kind == kDelete {
					_ = o.onLocal(after)
				}
			}
			afterDump, _ := dump(after)
			if cl == nil || uses > 20 {
				cl, uses = newClient(l.addr), 0
			}
			uses++
			problem := guarded(func() {
				// the client reconnects by itself
				ready := false
				for try := 0; try < 500 && !ready; try++ {
					_, err := cl.Exists([]byte("a"))
					if ready = err == nil; !ready {
						time.Sleep(5 * time.Millisecond)
					}
				}
				if !ready {
					hx.Failf("the client does not work again after its connection was lost")
				}
				var cutting sync.WaitGroup
				cut := func() {
					c.Step("(connection lost)")
					if during {
						cutting.Add(1)
						go func() { defer cutting.Done(); time.Sleep(delay); l.cut() }()
					} else {
						l.cut()
					}
				}
				defer cutting.Wait()
				lost, wrote, answered := false, false, true
				fn := func(txn mondis.Txn) error {
					for i, o := range ops {
						if i == at {
							cut()
							lost = true
							c.NonTrivialIf(wrote)
						}
						c.Step("%v", o)
						r := o.onRemote(txn)
						if i == 0 && at > 0 && r.err != nil && r.err != kv.ErrKeyNotFound {
							hx.Failf("%v: %v", o, r.err)
						}
						if lost && at > 0 && !during && (r.err == nil || r.err == kv.ErrKeyNotFound) {
							hx.Failf("%v returns %v though the transaction's connection is gone", o, r)
						}
						if r.err != nil && r.err != kv.ErrKeyNotFound {
							answered = false
						}
						wrote = wrote || o.kind == kSet || o.kind == kDelete
					}
					if at == n {
						cut()
						lost = true
						c.NonTrivialIf(wrote)
					}
					return nil
				}
				var err error
				if update {
					err = cl.Update(fn)
				} else {
					err = cl.View(fn)
				}
				c.Step("ends with %v", err)
				if !answered && update && at > 0 && err == nil {
					hx.Failf("an update with failed operations reports no error")
				}
				// the server lets go of the transaction
				gone := false
				for try := 0; try < 2000 && !gone; try++ {
					mu.Lock()
					gone = open == 0
					mu.Unlock()
					if !gone {
						time.Sleep(2 * time.Millisecond)
					}
				}
				if !gone {
					hx.Failf("the server keeps the transaction of a lost connection open")
				}
				now, _ := dump(mem)
				isBefore, isAfter := sameEntries(now, before), sameKV(now, afterDump)
				switch {
				case update && err == nil && answered && !isAfter:
					hx.Failf("the update succeeded but left %s instead of %s", showEntries(now), showEntries(afterDump))
				case update && err == nil && !answered && at == 0:
					// the connection was lost before the transaction began, and it went on on the next one
				case at < n && !during && at > 0 && !isBefore:
					hx.Failf("the connection was lost before commit, but the store holds %s instead of %s", showEntries(now), showEntries(before))
				case !isBefore && !isAfter && at > 0:
					hx.Failf("the store holds %s, neither %s nor %s", showEntries(now), showEntries(before), showEntries(afterDump))
				}
				c.ClassIf(isAfter && !isBefore, "took effect")
				c.ClassIf(isBefore && !isAfter, "took no effect")
				if _, err := direct.Exists([]byte("a")); err != nil {
					hx.Failf("another client is affected: %v", err)
				}
			})
			if problem != "" {
				rt.Fatalf("%s\nhistory: %s", problem, c.Trace())
			}
		})
}

func sameKV(a, b []mondis.Entry) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if string(a[i].Key) != string(b[i].Key) || string(a[i].Value) != string(b[i].Value) {
			return false
		}
	}
	return true
}

// countKV counts transactions that are neither committed nor discarded.
type countKV struct {
	*hx.MemKV
	mu   *sync.Mutex
	open *int
}

type countTxn struct {
	mondis.ProviderTxn
	k    *countKV
	once sync.Once
}

func (k *countKV) NewTransaction(update bool) mondis.ProviderTxn {
	k.mu.Lock()
	*k.open++
	k.mu.Unlock()
	return &countTxn{ProviderTxn: k.MemKV.NewTransaction(update), k: k}
}

func (t *countTxn) end() {
	t.once.Do(func() {
		t.k.mu.Lock()
		*t.k.open--
		t.k.mu.Unlock()
	})
}

func (t *countTxn) Commit() error { defer t.end(); return t.ProviderTxn.Commit() }
func (t *countTxn) Discard()      { t.ProviderTxn.Discard(); t.end() }

var _ = client.ErrMutateForROTxn
