package seqs

import (
	"testing"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document/config"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/document/meta/sequence"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

// An empty name and a zero bandwidth are refused without a trace in the store.
func TestP17_Invalid(t *testing.T) {
	hx.Run(t, hx.N{Quick: 3000}, "a name is empty or the bandwidth is zero", func(rt *rapid.T, c *hx.Case) {
		str := rapid.SampledFrom([]string{"", "", "a", "\x00", "name"})
		key, field, hash := str.Draw(rt, "key"), str.Draw(rt, "field"), rapid.Bool().Draw(rt, "hash")
		bandwidth := int64(rapid.IntRange(0, 2).Draw(rt, "bandwidth"))
		mem := hx.NewMemKV()
		s, err := openSeq(mem, hash, key, field, bandwidth)
		c.Step("hash %v, key %q, field %q, bandwidth %d: %v", hash, key, field, bandwidth, err)
		bad := key == "" || hash && field == "" || bandwidth == 0
		c.NonTrivialIf(bad)
		if bad != (err != nil) {
			rt.Fatalf("a sequence (hash: %v) of key %q, field %q and bandwidth %d ends with %v", hash, key, field, bandwidth, err)
		}
		if err != nil {
			if s != nil {
				rt.Fatalf("a refused sequence is there nevertheless")
			}
			if len(mem.Dump()) > 0 {
				rt.Fatalf("a refused sequence writes to the store")
			}
		}
	})
}

var nextCid int64 = 1 << 40

// The document id sequences of collections: at most one is there at a time, and whatever comes and
// goes, the identifiers of a collection are distinct.
func TestP17_Registry(t *testing.T) {
	hx.Run(t, hx.N{Quick: 6000}, "a sequence is created again after it was dropped", func(rt *rapid.T, c *hx.Case) {
		lease := config.Load().Lease
		defer func() { config.Load().Lease = lease }()
		gives := rapid.Bool().Draw(rt, "gives back")
		config.Load().Lease = 0
		if !gives {
			config.Load().Lease = time.Second
		}
		mem := hx.NewMemKV()
		fired, failAfter := false, 0
		mem.Hook = func(op hx.Op, _ []byte) error {
			if op == hx.OpBegin || op == hx.OpDiscard || op == hx.OpAfterCommit {
				return nil
			}
			if failAfter > 0 {
				if failAfter--; failAfter == 0 {
					fired = true
					return hx.ErrInjected
				}
			}
			return nil
		}
		type reg struct {
			cid    int64
			l      *ledger
			h      *owner
			s      *sequence.Hash
			before []*sequence.Hash // dropped ones
		}
		var regs []*reg
		for n := 1 + hx.Uniform(rt, "collections", 3); n > 0; n-- {
			nextCid++
			regs = append(regs, &reg{cid: nextCid, l: newLedger()})
		}
		defer func() {
			failAfter = 0
			for _, r := range regs {
				_ = dml.DropSequenceIfExists(r.cid)
			}
		}()
		arm := func() {
			fired, failAfter = false, 0
			if hx.Uniform(rt, "storeFails", 10) == 0 {
				failAfter = 1 + hx.Uniform(rt, "at", 5)
			}
		}
		var db mondis.KVDB = mem
		for steps := hx.Count(rt, "steps", 4, 40); steps > 0; steps-- {
			r := regs[hx.Uniform(rt, "collection", len(regs))]
			arm()
			switch k := hx.Uniform(rt, "op", 12); {
			case k < 3:
				bandwidth := int64(hx.Uniform(rt, "bandwidth", 4))
				err := dml.CreateSequence(db, 7, r.cid, bandwidth)
				failAfter = 0
				c.Step("create %d bandwidth %d = %v", r.cid, bandwidth, err)
				if r.s != nil {
					if err != dml.ErrSequenceAlreadyExists {
						rt.Fatalf("creating the sequence of %d again ends with %v\nhistory: %s", r.cid, err, c.Trace())
					}
					c.Class("created again is refused")
					break
				}
				if fired != (err != nil) {
					rt.Fatalf("creating the sequence of %d ends with %v (the store failed: %v)\nhistory: %s", r.cid, err, fired, c.Trace())
				}
				if err != nil {
					// a lease may be lost or, if it was never written, not
					r.l.expect = 0
					break
				}
				r.s = dml.GetSequence(r.cid)
				if r.s == nil {
					rt.Fatalf("the sequence of %d is not there after it was created\nhistory: %s", r.cid, c.Trace())
				}
				if len(r.before) > 0 {
					c.NonTrivial()
				}
				for _, o := range r.before {
					if o == r.s {
						rt.Fatalf("the sequence of %d is one that was dropped\nhistory: %s", r.cid, c.Trace())
					}
				}
				r.h = r.l.open(nil)
			case k == 3 || k == 4:
				drop := dml.DropSequence
				if k == 4 {
					drop = dml.DropSequenceIfExists
				}
				err := drop(r.cid)
				failAfter = 0
				c.Step("drop %d (if it exists: %v) = %v", r.cid, k == 4, err)
				if r.s == nil {
					if k == 3 && err != dml.ErrSequenceNotExists || k == 4 && err != nil {
						rt.Fatalf("dropping the sequence of %d, which is not there, ends with %v\nhistory: %s", r.cid, err, c.Trace())
					}
					c.Class("nothing to drop")
					break
				}
				if fired != (err != nil) {
					rt.Fatalf("dropping the sequence of %d ends with %v (the store failed: %v)\nhistory: %s", r.cid, err, fired, c.Trace())
				}
				r.l.gone(r.h, gives && err == nil, nil)
				r.before, r.s = append(r.before, r.s), nil
				c.Class("dropped")
			default:
				failAfter = 0
				got := dml.GetSequence(r.cid)
				if got != r.s {
					rt.Fatalf("the sequence of %d is not the one created\nhistory: %s", r.cid, c.Trace())
				}
				if got == nil {
					break
				}
				arm()
				id, err := got.Next()
				failAfter = 0
				c.Step("next of %d = %d, %v", r.cid, id, err)
				if fired != (err != nil) {
					rt.Fatalf("the next identifier of %d: %v (the store failed: %v)\nhistory: %s", r.cid, err, fired, c.Trace())
				}
				if err == nil {
					r.l.take(rt, c, r.h, id, false)
				}
			}
			for _, o := range r.before {
				if id, err := o.Next(); err == nil {
					rt.Fatalf("a dropped sequence of %d issues %d\nhistory: %s", r.cid, id, c.Trace())
				}
			}
			for _, r := range regs {
				if got := dml.GetSequence(r.cid); got != r.s {
					rt.Fatalf("the sequence of %d is not the one created\nhistory: %s", r.cid, c.Trace())
				}
			}
		}
	})
}
