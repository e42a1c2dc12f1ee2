package seqs

import (
	"os"
	"testing"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/provider"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

func badgerDB(t *testing.T) (mondis.KVDB, func()) {
	dir := hx.Scratch(t, "seqs")
	db := provider.NewBadger()
	if err := db.Open(mondis.KVOption{Dir: dir}); err != nil {
		hx.Infra("badger: %v", err)
	}
	return db, func() { _ = db.Close(); _ = os.RemoveAll(dir) }
}

// backoff lets others finish when requests keep conflicting.
func backoff(try int) {
	if try > 10 {
		time.Sleep(time.Duration(try%7) * 100 * time.Microsecond)
	}
}

// ledger knows every identifier of one sequence name and judges what is handed out.
type ledger struct {
	first    int64            // the very first identifier, once known
	issued   map[int64]bool   // handed out since the last clear
	expect   int64            // what a holder opened now must start with (0: unknown)
	returned map[int64]*owner // put back with that holder, not reissued yet
}

func newLedger() *ledger {
	return &ledger{issued: map[int64]bool{}, returned: map[int64]*owner{}, expect: -1}
}

// owner is what is known of one holder.
type owner struct {
	max      int64
	has      bool
	exp      int64 // what its next fresh identifier must be (0: unknown, -1: the first of all)
	sole     bool
	released bool // it holds no lease
	mine     []int64
}

// take judges one identifier handed out by h.
func (l *ledger) take(rt *rapid.T, c *hx.Case, h *owner, id int64, fromPutback bool) {
	if l.issued[id] {
		if fromPutback && l.returned[id] == h {
			delete(l.returned, id)
			c.Class("reissued a returned identifier")
			h.mine = append(h.mine, id)
			return
		}
		rt.Fatalf("identifier %d is handed out twice\nhistory: %s", id, c.Trace())
	}
	if h.has && id <= h.max {
		rt.Fatalf("identifier %d comes after %d from one holder\nhistory: %s", id, h.max, c.Trace())
	}
	if h.exp == -1 && l.first != 0 && id != l.first {
		rt.Fatalf("the sequence starts with %d, before with %d\nhistory: %s", id, l.first, c.Trace())
	}
	if h.exp == -1 {
		l.first = id
	}
	if h.exp > 0 && id != h.exp {
		rt.Fatalf("identifier %d leaves a gap, %d was to be next\nhistory: %s", id, h.exp, c.Trace())
	}
	l.issued[id] = true
	h.max, h.has = id, true
	h.released = false
	h.mine = append(h.mine, id)
	h.exp = 0
	if h.sole {
		h.exp = id + 1
	}
}

// open accounts for a new holder next to the live ones. What comes next is only known of a holder
// that never had another one next to it.
func (l *ledger) open(live []*owner) *owner {
	h := &owner{}
	if len(live) == 0 {
		h.sole, h.exp = true, l.expect
	}
	for _, o := range live {
		o.sole, o.exp = false, 0
	}
	l.expect = 0
	return h
}

// gone accounts for the end of a holder; released tells that it gave back its tail.
func (l *ledger) gone(h *owner, released bool, live []*owner) {
	l.expect = 0
	if h.sole && len(live) == 0 && (released || h.released) {
		l.expect = h.exp
	}
}
