// Package hx holds what the property tests share: an in-memory reference/adversarial
// implementation of the store interface, the bookkeeping of generated cases, and generators.
package hx

import (
	"bytes"
	"errors"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
)

// Errors of MemKV, named after what the real transactional provider reports.
var (
	ErrConflict  = errors.New("Transaction Conflict. Please retry")
	ErrReadOnly  = errors.New("No sets or deletes are allowed in a read-only transaction")
	ErrDiscarded = errors.New("This transaction has been discarded. Create a new one")
	ErrEmptyKey  = errors.New("Key cannot be empty")
	ErrInjected  = errors.New("injected store failure")
)

// Op is a kind of store operation, as seen by the hook.
type Op int

// Kinds of store operations.
const (
	OpBegin Op = iota
	OpGet
	OpExists
	OpSet
	OpDelete
	OpScan
	OpCommit      // before anything is applied; an error makes the commit fail
	OpAfterCommit // after a successful commit was applied (only crashes make sense here)
	OpDiscard
)

func (o Op) String() string {
	return [...]string{"begin", "get", "exists", "set", "delete", "scan", "commit", "aftercommit", "discard"}[o]
}

// Item is one live key with its value.
type Item struct {
	K       string
	V       []byte
	Tag     byte
	Expires uint64
}

func (it *Item) dead(now int64) bool { return it.Expires != 0 && it.Expires <= uint64(now) }

type state struct {
	mu      sync.Mutex
	ts      uint64
	snap    []Item // sorted by K, immutable once published
	changed map[string]uint64
}

// MemKV is an in-memory snapshot-isolated implementation of mondis.KVDB. It follows the
// documented contract, and the liberties the real transactional provider takes with it: pending
// writes keep referring to the caller's slices until commit, what a scan passes to its visitor is
// only valid during the visit (it is scribbled over afterwards), only one scan at a time in an
// updating transaction.
type MemKV struct {
	st *state
	// Hook, when set, runs before (OpAfterCommit: after) every operation. An error it returns
	// is returned by the operation, which then has no effect.
	Hook func(op Op, key []byte) error
	// MaxTxnOps bounds the pending writes of a transaction (0: unbounded).
	MaxTxnOps int
	// MaxTxnBytes bounds the bytes of the pending writes of a transaction (0: unbounded).
	MaxTxnBytes int

	kmu    sync.Mutex
	killed bool
	live   atomic.Int64
}

// Live is how many transactions were begun and neither committed nor discarded.
func (m *MemKV) Live() int { return int(m.live.Load()) }

// NewMemKV creates an empty store.
func NewMemKV() *MemKV { return &MemKV{st: &state{changed: map[string]uint64{}}} }

// Kill makes every later operation end the goroutine that issues it, as a process death would.
func (m *MemKV) Kill() { m.kmu.Lock(); m.killed = true; m.kmu.Unlock() }

// Killed tells whether Kill was called.
func (m *MemKV) Killed() bool { m.kmu.Lock(); defer m.kmu.Unlock(); return m.killed }

// Restart returns a handle on the same stored data, as after a restart.
func (m *MemKV) Restart() *MemKV {
	return &MemKV{st: m.st, MaxTxnOps: m.MaxTxnOps, MaxTxnBytes: m.MaxTxnBytes}
}

// Clone returns an independent store with the same live contents.
func (m *MemKV) Clone() *MemKV {
	n := NewMemKV()
	n.st.snap = append([]Item(nil), m.Dump()...)
	return n
}

func (m *MemKV) hook(op Op, key []byte) error {
	if m.Killed() {
		runtime.Goexit()
	}
	if m.Hook != nil {
		err := m.Hook(op, key)
		if m.Killed() {
			runtime.Goexit()
		}
		return err
	}
	return nil
}

// Dump returns the live items in key order.
func (m *MemKV) Dump() []Item {
	m.st.mu.Lock()
	snap := m.st.snap
	m.st.mu.Unlock()
	now := time.Now().Unix()
	out := make([]Item, 0, len(snap))
	for _, it := range snap {
		if !it.dead(now) {
			out = append(out, it)
		}
	}
	return out
}

// Open implements mondis.KVDB.
func (m *MemKV) Open(mondis.KVOption) error { return nil }

// Close implements mondis.KVDB.
func (m *MemKV) Close() error { return nil }

type pend struct {
	k, v []byte
	del  bool
	tag  byte
	exp  uint64
}

// MemTxn is a transaction of MemKV.
type MemTxn struct {
	db       *MemKV
	update   bool
	done     bool
	readTS   uint64
	snap     []Item
	pending  map[string]*pend
	reads    map[string]struct{}
	nops     int
	nbytes   int
	scanning int
}

// NewTransaction implements mondis.KVDB.
func (m *MemKV) NewTransaction(update bool) mondis.ProviderTxn { return m.Begin(update) }

// Begin is NewTransaction with the concrete type.
func (m *MemKV) Begin(update bool) *MemTxn {
	_ = m.hook(OpBegin, nil)
	m.st.mu.Lock()
	defer m.st.mu.Unlock()
	m.live.Add(1)
	return &MemTxn{db: m, update: update, readTS: m.st.ts, snap: m.st.snap, pending: map[string]*pend{}, reads: map[string]struct{}{}}
}

func find(snap []Item, k string) int {
	return sort.Search(len(snap), func(i int) bool { return snap[i].K >= k })
}

func (t *MemTxn) lookup(k string) (v []byte, tag byte, exp uint64, ok bool) {
	now := time.Now().Unix()
	if p := t.pending[k]; p != nil {
		if p.del || (p.exp != 0 && p.exp <= uint64(now)) {
			return
		}
		return p.v, p.tag, p.exp, true
	}
	if t.update {
		t.reads[k] = struct{}{}
	}
	i := find(t.snap, k)
	if i < len(t.snap) && t.snap[i].K == k && !t.snap[i].dead(now) {
		return t.snap[i].V, t.snap[i].Tag, t.snap[i].Expires, true
	}
	return
}

func (t *MemTxn) pre(op Op, k []byte) error {
	if err := t.db.hook(op, k); err != nil {
		return err
	}
	if t.done {
		return ErrDiscarded
	}
	return nil
}

// Get implements mondis.ProviderTxn.
func (t *MemTxn) Get(k []byte) ([]byte, mondis.VMetaResp, error) {
	if err := t.pre(OpGet, k); err != nil {
		return nil, mondis.VMetaResp{}, err
	}
	if len(k) == 0 {
		return nil, mondis.VMetaResp{}, ErrEmptyKey
	}
	v, tag, exp, ok := t.lookup(string(k))
	if !ok {
		return nil, mondis.VMetaResp{}, kv.ErrKeyNotFound
	}
	return append([]byte(nil), v...), mondis.VMetaResp{ExpiresAt: exp, Tag: tag}, nil
}

// Exists implements mondis.ProviderTxn.
func (t *MemTxn) Exists(k []byte) (bool, error) {
	if err := t.pre(OpExists, k); err != nil {
		return false, err
	}
	if len(k) == 0 {
		return false, ErrEmptyKey
	}
	_, _, _, ok := t.lookup(string(k))
	return ok, nil
}

func (t *MemTxn) modify(p *pend) error {
	if !t.update {
		return ErrReadOnly
	}
	if len(p.k) == 0 {
		return ErrEmptyKey
	}
	sz := len(p.k) + len(p.v)
	if t.db.MaxTxnOps > 0 && t.nops+1 > t.db.MaxTxnOps || t.db.MaxTxnBytes > 0 && t.nbytes+sz > t.db.MaxTxnBytes {
		return kv.ErrTxnTooBig
	}
	t.nops++
	t.nbytes += sz
	t.pending[string(p.k)] = p
	return nil
}

// Set implements mondis.ProviderTxn.
func (t *MemTxn) Set(k, v []byte, meta *mondis.VMetaReq) error {
	if err := t.pre(OpSet, k); err != nil {
		return err
	}
	p := &pend{k: k, v: v}
	if meta != nil {
		p.tag = meta.Tag
		if meta.TTL != 0 {
			p.exp = uint64(time.Now().Add(meta.TTL).Unix())
		}
	}
	return t.modify(p)
}

// Delete implements mondis.ProviderTxn.
func (t *MemTxn) Delete(k []byte) error {
	if err := t.pre(OpDelete, k); err != nil {
		return err
	}
	return t.modify(&pend{k: k, del: true})
}

// InRange is the meaning of a scan option: the key has the prefix and is at or beyond the offset.
func InRange(o mondis.ProviderScanOption, k string) bool {
	if !strings.HasPrefix(k, string(o.Prefix)) {
		return false
	}
	if len(o.Offset) == 0 {
		return true
	}
	if o.Reverse {
		return k <= string(o.Offset)
	}
	return k >= string(o.Offset)
}

// View returns the items the transaction sees for the option, in scan order.
func (t *MemTxn) View(o mondis.ProviderScanOption) []Item {
	now := time.Now().Unix()
	var out []Item
	for _, it := range t.snap {
		if t.pending[it.K] == nil && !it.dead(now) && InRange(o, it.K) {
			out = append(out, it)
		}
	}
	for k, p := range t.pending {
		if !p.del && !(p.exp != 0 && p.exp <= uint64(now)) && InRange(o, k) {
			out = append(out, Item{K: k, V: p.v, Tag: p.tag, Expires: p.exp})
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if o.Reverse {
			return out[i].K > out[j].K
		}
		return out[i].K < out[j].K
	})
	return out
}

// Scan implements mondis.ProviderTxn.
func (t *MemTxn) Scan(o mondis.ProviderScanOption, fn func(key, value []byte, meta mondis.VMetaResp) bool) error {
	if err := t.pre(OpScan, o.Prefix); err != nil {
		return err
	}
	if t.update && t.scanning > 0 {
		panic("Only one iterator can be active at one time, for a RW txn.")
	}
	t.scanning++
	defer func() { t.scanning-- }()
	for _, it := range t.View(o) {
		if t.update && t.pending[it.K] == nil {
			t.reads[it.K] = struct{}{}
		}
		k, v := []byte(it.K), append([]byte(nil), it.V...)
		goon := fn(k, v, mondis.VMetaResp{ExpiresAt: it.Expires, Tag: it.Tag})
		for i := range k {
			k[i] ^= 0xA5
		}
		for i := range v {
			v[i] ^= 0xA5
		}
		if !goon {
			break
		}
	}
	return nil
}

// StartTS implements mondis.ProviderTxn.
func (t *MemTxn) StartTS() uint64 { return t.readTS }

// Conflicts tells whether committing now would conflict.
func (t *MemTxn) Conflicts() bool {
	t.db.st.mu.Lock()
	defer t.db.st.mu.Unlock()
	return t.conflictsLocked()
}

func (t *MemTxn) conflictsLocked() bool {
	for k := range t.reads {
		if t.db.st.changed[k] > t.readTS {
			return true
		}
	}
	return false
}

// Writes tells whether the transaction has anything to commit.
func (t *MemTxn) Writes() bool { return len(t.pending) > 0 }

// Commit implements mondis.ProviderTxn.
func (t *MemTxn) Commit() error {
	if err := t.db.hook(OpCommit, nil); err != nil {
		t.end()
		return err
	}
	if t.done {
		return ErrDiscarded
	}
	t.end()
	if len(t.pending) == 0 {
		return nil
	}
	st := t.db.st
	st.mu.Lock()
	if t.conflictsLocked() {
		st.mu.Unlock()
		return ErrConflict
	}
	// the caller's slices are what gets written
	w := make(map[string]*pend, len(t.pending))
	keys := make([]string, 0, len(t.pending))
	for orig, p := range t.pending {
		k := string(p.k)
		if k != orig && w[k] != nil {
			continue
		}
		if w[k] == nil {
			keys = append(keys, k)
		}
		w[k] = p
	}
	sort.Strings(keys)
	st.ts++
	now := time.Now().Unix()
	out := make([]Item, 0, len(st.snap)+len(keys))
	i := 0
	for _, k := range keys {
		for i < len(st.snap) && st.snap[i].K < k {
			if !st.snap[i].dead(now) {
				out = append(out, st.snap[i])
			}
			i++
		}
		if i < len(st.snap) && st.snap[i].K == k {
			i++
		}
		st.changed[k] = st.ts
		if p := w[k]; !p.del {
			out = append(out, Item{K: k, V: append([]byte(nil), p.v...), Tag: p.tag, Expires: p.exp})
		}
	}
	for orig := range t.pending {
		st.changed[orig] = st.ts
	}
	out = append(out, st.snap[i:]...)
	st.snap = out
	st.mu.Unlock()
	_ = t.db.hook(OpAfterCommit, nil)
	return nil
}

// Discard implements mondis.ProviderTxn.
func (t *MemTxn) Discard() {
	if !t.done && !t.db.Killed() && t.db.Hook != nil {
		_ = t.db.Hook(OpDiscard, nil)
	}
	t.end()
}

func (t *MemTxn) end() {
	if !t.done {
		t.db.live.Add(-1)
	}
	t.done = true
}

// Set implements mondis.KVDB.
func (m *MemKV) Set(k, v []byte, meta *mondis.VMetaReq) error {
	t := m.Begin(true)
	defer t.Discard()
	if err := t.Set(k, v, meta); err != nil {
		return err
	}
	return t.Commit()
}

// Delete implements mondis.KVDB.
func (m *MemKV) Delete(k []byte) error {
	t := m.Begin(true)
	defer t.Discard()
	if err := t.Delete(k); err != nil {
		return err
	}
	return t.Commit()
}

// Get implements mondis.KVDB.
func (m *MemKV) Get(k []byte) ([]byte, mondis.VMetaResp, error) {
	t := m.Begin(false)
	defer t.Discard()
	return t.Get(k)
}

// Exists implements mondis.KVDB.
func (m *MemKV) Exists(k []byte) (bool, error) {
	t := m.Begin(false)
	defer t.Discard()
	return t.Exists(k)
}

// Scan implements mondis.KVDB.
func (m *MemKV) Scan(o mondis.ProviderScanOption, fn func(key, value []byte, meta mondis.VMetaResp) bool) error {
	t := m.Begin(false)
	defer t.Discard()
	return t.Scan(o, fn)
}

type memWB struct {
	m *MemKV
	t *MemTxn
}

// WriteBatch implements mondis.KVDB.
func (m *MemKV) WriteBatch() mondis.ProviderWriteBatch { return &memWB{m: m, t: m.Begin(true)} }

func (w *memWB) Set(k, v []byte) error   { return w.t.Set(bytes.Clone(k), bytes.Clone(v), nil) }
func (w *memWB) Delete(key []byte) error { return w.t.Delete(bytes.Clone(key)) }
func (w *memWB) Commit() error           { return w.t.Commit() }
func (w *memWB) Discard()                { w.t.Discard() }

var _ mondis.KVDB = (*MemKV)(nil)
