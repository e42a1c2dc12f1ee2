package store

import (
	"context"
	"errors"
	"fmt"
	"io"
	"testing"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/util"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

var errPanic = errors.New("the work panics")
var errWork = errors.New("the work failed")

func memString(m *hx.MemKV) string {
	s := ""
	for _, it := range m.Dump() {
		s += fmt.Sprintf("%q=%q ", it.K, it.V)
	}
	return s
}

// The helpers that run a function in a transaction.
func TestP25_RunHelpers(t *testing.T) {
	hx.Run(t, hx.N{Quick: 6000}, "the function writes, and it or the commit fails, or a callback is due",
		func(rt *rapid.T, c *hx.Case) {
			mem := hx.NewMemKV()
			for i := rapid.IntRange(0, 3).Draw(rt, "before"); i > 0; i-- {
				_ = mem.Set(hx.SmallKey(rt, "k0"), []byte("old"), nil)
			}
			helper := rapid.SampledFrom([]string{"update", "cancel", "callback", "callback nil", "view"}).Draw(rt, "helper")
			fail := rapid.SampledFrom([]string{"none", "none", "work", "toobig", "commit", "conflict", "panic"}).Draw(rt, "fail")
			type w struct {
				k   []byte
				v   []byte
				del bool
			}
			var ws []w
			for i := rapid.IntRange(0, 4).Draw(rt, "writes"); i > 0; i-- {
				ws = append(ws, w{hx.SmallKey(rt, "k"), hx.Value(rt, "v"), rapid.IntRange(0, 3).Draw(rt, "del") == 0})
			}
			c.Step("%s, %s fails, on %s, writes %q", helper, fail, memString(mem), fmt.Sprint(ws))
			before := memString(mem)
			want := mem.Clone()
			calls, after, cancel := 0, 0, 0
			committed := -1
			begun := 0
			mem.Hook = func(op hx.Op, _ []byte) error {
				switch {
				case op == hx.OpCommit && fail == "commit":
					return hx.ErrInjected
				case op == hx.OpBegin:
					begun++
				}
				return nil
			}
			workErr := errWork
			if rapid.Bool().Draw(rt, "usual error") {
				workErr = rapid.SampledFrom([]error{kv.ErrKeyNotFound, io.EOF, hx.ErrConflict, context.Canceled, fmt.Errorf("work: %w", kv.ErrKeyNotFound)}).Draw(rt, "error")
			}
			if fail == "toobig" {
				workErr = kv.ErrTxnTooBig
			}
			var writeErr error
			var used mondis.ProviderTxn
			f := func(txn mondis.ProviderTxn) error {
				calls++
				used = txn
				_, _, _ = txn.Get([]byte("watched"))
				for _, x := range ws {
					var err error
					if x.del {
						err = txn.Delete(x.k)
					} else {
						err = txn.Set(x.k, x.v, nil)
					}
					if err != nil {
						writeErr = err
						return err
					}
				}
				if fail == "conflict" {
					h := mem.Hook
					mem.Hook = nil
					_ = mem.Set([]byte("watched"), []byte("changed"), nil)
					mem.Hook = h
				}
				if fail == "work" || fail == "toobig" {
					return workErr
				}
				if fail == "panic" {
					panic(errPanic)
				}
				return nil
			}
			see := func() { committed = 0; _ = mem; committed = len(mem.Dump()) }
			var err error
			panicked := false
			func() {
				defer func() {
					if e := recover(); e != nil {
						if e != errPanic {
							panic(e)
						}
						panicked = true
					}
				}()
				switch helper {
				case "update":
					err = util.RunInNewUpdateTxn(mem, f)
				case "cancel":
					err = util.RunInNewUpdateTxnWithCancel(mem, f, func() { cancel++ })
				case "callback":
					err = util.RunInNewUpdateTxnWithCallback(mem, f, func() { after++; see() })
				case "callback nil":
					err = util.RunInNewUpdateTxnWithCallback(mem, f, nil)
				case "view":
					err = util.RunInNewTxn(mem, f)
				}
			}()
			mem.Hook = nil
			now := memString(mem)
			if calls != 1 {
				rt.Fatalf("%s ran the function %d times", helper, calls)
			}
			if _, _, err := used.Get([]byte("watched")); err != hx.ErrDiscarded {
				rt.Fatalf("%s returned and left its transaction open (reading in it: %v)", helper, err)
			}
			if fail == "panic" && writeErr == nil {
				if now != before {
					rt.Fatalf("the function panicked in %s and left %s, want %s", helper, now, before)
				}
				if !panicked && err == nil {
					rt.Fatalf("the function panicked and %s reports success", helper)
				}
				if after != 0 {
					rt.Fatalf("the function panicked in %s and the after-commit callback ran", helper)
				}
				c.Class("panic")
				c.NonTrivialIf(len(ws) > 0)
				return
			}
			if fail == "conflict" {
				_ = want.Set([]byte("watched"), []byte("changed"), nil)
			}
			unchanged := memString(want)
			for _, x := range ws {
				if x.del {
					_ = want.Delete(x.k)
				} else {
					_ = want.Set(x.k, x.v, nil)
				}
			}
			applied := memString(want)
			if helper == "view" {
				if now != unchanged && (fail != "conflict" || writeErr == nil) || (fail == "conflict" && writeErr != nil && now != before) {
					rt.Fatalf("the read-only helper changed the store: %s -> %s", before, now)
				}
				if writeErr != nil && err != writeErr {
					rt.Fatalf("the read-only helper returns %v, the function returned %v", err, writeErr)
				}
				if writeErr == nil && (fail == "work" || fail == "toobig") != (err != nil) {
					rt.Fatalf("the read-only helper returns %v", err)
				}
				c.Class("view")
				c.NonTrivialIf(len(ws) > 0)
				return
			}
			ok := true
			switch fail {
			case "work", "toobig":
				ok = false
				if err != workErr {
					rt.Fatalf("%s returns %v, the function failed with %v", helper, err, workErr)
				}
			case "commit":
				ok = false
				if err != hx.ErrInjected {
					rt.Fatalf("%s returns %v, the commit failed with %v", helper, err, hx.ErrInjected)
				}
			case "conflict":
				if len(ws) > 0 {
					ok = false
					if err == nil {
						rt.Fatalf("%s returns no error, the commit conflicts", helper)
					}
				}
			}
			if ok && err != nil {
				rt.Fatalf("%s returns %v", helper, err)
			}
			if ok && now != applied {
				rt.Fatalf("%s left %s, want %s", helper, now, applied)
			}
			if !ok && now != unchanged {
				rt.Fatalf("%s failed and left %s, want %s", helper, now, unchanged)
			}
			wantAfter, wantCancel := 0, 0
			if helper == "callback" && ok {
				wantAfter = 1
			}
			if helper == "cancel" && !ok && (fail == "commit" || fail == "conflict") {
				wantCancel = 1
			}
			if after != wantAfter || cancel != wantCancel {
				rt.Fatalf("%s with failure %q: after-commit callback ran %d times (want %d), cancel callback %d times (want %d)", helper, fail, after, wantAfter, cancel, wantCancel)
			}
			if after == 1 && committed != len(mem.Dump()) {
				rt.Fatalf("the after-commit callback ran before the commit was visible")
			}
			c.ClassIf(!ok, "failed")
			c.NonTrivialIf(len(ws) > 0 && (!ok || helper == "callback"))
		})
}

// The helper that goes on in a new transaction when one is full.
func TestP25_TooBig(t *testing.T) {
	fixed := map[string]int{}
	hx.Run(t, hx.N{Quick: 5000}, "at least one transaction fills up before the work ends",
		func(rt *rapid.T, c *hx.Case) {
			mem := hx.NewMemKV()
			mem.MaxTxnOps = rapid.IntRange(1, 8).Draw(rt, "room")
			already := rapid.IntRange(0, mem.MaxTxnOps).Draw(rt, "already")
			n := rapid.IntRange(0, 40).Draw(rt, "work")
			end := rapid.SampledFrom([]string{"ok", "ok", "ok", "work fails", "never fits", "commit fails"}).Draw(rt, "end")
			failAt := rapid.IntRange(0, 12).Draw(rt, "failAt")
			c.Step("room %d, %d pending, %d items, %s (%d)", mem.MaxTxnOps, already, n, end, failAt)
			want := map[string]bool{}
			txn := mem.NewTransaction(true)
			for i := 0; i < already; i++ {
				k := fmt.Sprintf("already%d", i)
				want[k] = true
				if err := txn.Set([]byte(k), []byte("x"), nil); err != nil {
					rt.Fatal(err)
				}
			}
			commits, begins := 0, 0
			durable := 0 // items known committed
			i := 0
			mem.Hook = func(op hx.Op, _ []byte) error {
				switch op {
				case hx.OpCommit:
					commits++
					if end == "commit fails" && commits > failAt {
						return hx.ErrInjected
					}
					durable = i
				case hx.OpBegin:
					begins++
				}
				return nil
			}
			calls := 0
			var lastTxn mondis.ProviderTxn
			over := false
			final, err := util.TryCommitWhenTxnTooBig(mem, txn, func(txn mondis.ProviderTxn) error {
				calls++
				if calls > 100000 {
					panic("the helper does not stop trying")
				}
				if over {
					panic("the work is run again after it ended")
				}
				if lastTxn == txn {
					panic("retried in the same transaction")
				}
				lastTxn = txn
				if end == "never fits" {
					return kv.ErrTxnTooBig
				}
				for ; i < n; i++ {
					if end == "work fails" && i == failAt {
						over = true
						return errWork
					}
					if err := txn.Set([]byte(fmt.Sprintf("item%03d", i)), []byte("x"), nil); err != nil {
						return err
					}
				}
				over = true
				return nil
			})
			mem.Hook = nil
			c.ClassIf(calls > 1, "retried")
			c.NonTrivialIf(calls > 1)
			if final == nil {
				rt.Fatalf("no transaction is returned")
			}
			switch {
			case end == "never fits":
				if err != kv.ErrTxnTooBig {
					rt.Fatalf("work that never fits ends with %v", err)
				}
				if f := fixed["calls"]; f != 0 && f != calls {
					rt.Fatalf("the number of tries is not fixed: %d, then %d", f, calls)
				}
				fixed["calls"] = calls
				final.Discard()
			case err == hx.ErrInjected:
				if end != "commit fails" || commits != failAt+1 {
					rt.Fatalf("unexpected %v", err)
				}
				for k := 0; k < durable; k++ {
					want[fmt.Sprintf("item%03d", k)] = true
				}
				if failAt == 0 {
					want = map[string]bool{}
				}
				final.Discard()
			case end == "commit fails" && commits > failAt:
				rt.Fatalf("commit %d failed and the helper returns %v", failAt+1, err)
			case err == errWork:
				if end != "work fails" || failAt >= n {
					rt.Fatalf("unexpected %v", err)
				}
				for k := 0; k < durable; k++ {
					want[fmt.Sprintf("item%03d", k)] = true
				}
				if commits == 0 {
					want = map[string]bool{}
				}
				final.Discard()
				c.Class("work failed")
			case end == "work fails" && failAt < n:
				rt.Fatalf("the work failed and the helper returns %v", err)
			case err != nil:
				rt.Fatalf("unexpected %v", err)
			default:
				if calls != begins+1 {
					rt.Fatalf("%d calls, %d new transactions", calls, begins)
				}
				// the rest is still to be committed
				pending := n - durable
				if commits == 0 {
					pending += already
				}
				if got := len(mem.Dump()); got != already+n-pending {
					rt.Fatalf("%d items are in the store before the last commit, want %d", got, already+n-pending)
				}
				if err := final.Commit(); err != nil {
					rt.Fatalf("committing the returned transaction: %v", err)
				}
				for k := 0; k < n; k++ {
					want[fmt.Sprintf("item%03d", k)] = true
				}
			}
			var got []string
			for _, it := range mem.Dump() {
				got = append(got, it.K)
			}
			if fmt.Sprint(got) != fmt.Sprint(sortedKeys(want)) {
				rt.Fatalf("the store holds %v, want %v", got, sortedKeys(want))
			}
		})
}
