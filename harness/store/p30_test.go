package store

import (
	"fmt"
	"testing"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/util"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

// The helpers let go of every transaction they begin, but for the one that TryCommitWhenTxnTooBig returns.
func TestP30_Helpers(t *testing.T) {
	hx.Run(t, hx.N{Quick: 6000}, "something fails or panics, or a transaction fills up",
		func(rt *rapid.T, c *hx.Case) {
			mem := hx.NewMemKV()
			mem.MaxTxnOps = rapid.SampledFrom([]int{0, 1, 2, 5}).Draw(rt, "room")
			helper := rapid.SampledFrom([]string{"update", "cancel", "callback", "callback nil", "view", "too big"}).Draw(rt, "helper")
			work := rapid.IntRange(0, 12).Draw(rt, "work")
			end := rapid.SampledFrom([]string{"ok", "ok", "error", "too big", "panic", "conflict"}).Draw(rt, "end")
			failAt := rapid.IntRange(-8, 16).Draw(rt, "failAt")
			nested := rapid.IntRange(0, 3).Draw(rt, "nested") == 0
			c.Step("%s, room %d, %d writes, then %s, store failure at %d, nested %v", helper, mem.MaxTxnOps, work, end, failAt, nested)
			n := 0
			failed := false
			mem.Hook = func(op hx.Op, _ []byte) error {
				if op == hx.OpBegin || op == hx.OpDiscard || op == hx.OpAfterCommit {
					return nil
				}
				n++
				if n == failAt {
					failed = true
					return hx.ErrInjected
				}
				return nil
			}
			i := 0
			f := func(txn mondis.ProviderTxn) error {
				_, _, _ = txn.Get([]byte("watched"))
				for ; i < work; i++ {
					if err := txn.Set([]byte(fmt.Sprint(i)), []byte("x"), nil); err != nil {
						return err
					}
				}
				if nested {
					nested = false
					if err := util.RunInNewUpdateTxn(mem, func(txn mondis.ProviderTxn) error { return txn.Set([]byte("other"), nil, nil) }); err != nil {
						return err
					}
				}
				switch end {
				case "error":
					return errWork
				case "too big":
					return kv.ErrTxnTooBig
				case "panic":
					panic(errPanic)
				case "conflict":
					h := mem.Hook
					mem.Hook = nil
					_ = mem.Set([]byte("watched"), []byte("changed"), nil)
					mem.Hook = h
				}
				return nil
			}
			var err error
			var final, first mondis.ProviderTxn
			panicked := false
			func() {
				defer func() {
					if e := recover(); e != nil {
						if e != errPanic {
							panic(e)
						}
						panicked = true
					}
				}()
				switch helper {
				case "update":
					err = util.RunInNewUpdateTxn(mem, f)
				case "cancel":
					err = util.RunInNewUpdateTxnWithCancel(mem, f, func() {})
				case "callback":
					err = util.RunInNewUpdateTxnWithCallback(mem, f, func() {})
				case "callback nil":
					err = util.RunInNewUpdateTxnWithCallback(mem, f, nil)
				case "view":
					err = util.RunInNewTxn(mem, f)
				default:
					first = mem.NewTransaction(true)
					final, err = util.TryCommitWhenTxnTooBig(mem, first, f)
				}
			}()
			c.ClassIf(panicked, "panicked")
			c.ClassIf(err == kv.ErrTxnTooBig, "too big")
			c.ClassIf(failed, "store failure")
			c.ClassIf(final != nil && final != first, "goes on in another transaction")
			c.NonTrivialIf(err != nil || panicked || final != first)
			if helper == "too big" && panicked {
				// the caller cannot know the transaction then; at most that one is left
				if mem.Live() > 1 {
					rt.Fatalf("a panic leaves %d transactions open", mem.Live())
				}
				return
			}
			if final != nil {
				final.Discard()
			}
			if mem.Live() != 0 {
				rt.Fatalf("%s ends with %v and leaves %d transactions open", helper, err, mem.Live())
			}
		})
}
