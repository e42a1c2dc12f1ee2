package hx

import (
	"bytes"
	"fmt"
	"runtime/debug"
	"sync"
)

// kept are byte strings the code under test handed out during the current case. They belong to
// whoever asked: nothing that happens later may change them.
var kept struct {
	mu    sync.Mutex
	items []keptItem
	next  int
	bad   string
	rooms [][]byte
}

type keptItem struct {
	what       string
	live, copy []byte
}

const keptMax = 96

// Kept remembers what the code under test handed out, to be looked at again later in the case.
// Only the latest ones are remembered.
func Kept(what string, bs ...[]byte) {
	kept.mu.Lock()
	defer kept.mu.Unlock()
	lookKept()
	for _, b := range bs {
		if len(b) == 0 || len(b) > 4096 {
			continue
		}
		it := keptItem{what, b, bytes.Clone(b)}
		if len(kept.items) < keptMax {
			kept.items = append(kept.items, it)
			continue
		}
		kept.items[kept.next%keptMax] = it
		kept.next++
	}
}

// Owned changes what the code under test handed out, as its owner may, and remembers it as Kept does.
func Owned(what string, bs ...[]byte) {
	for _, b := range bs {
		for i := range b {
			b[i] ^= 0xa5
		}
	}
	Appendable(what+" (then changed by its owner)", bs...)
}

// Appendable is Kept for byte strings that have no memory in common with anything behind them: their
// owner may append to them, and does once the next ones are handed out.
func Appendable(what string, bs ...[]byte) {
	Kept(what, bs...)
	kept.mu.Lock()
	defer kept.mu.Unlock()
	for _, b := range append(kept.rooms[:len(kept.rooms):len(kept.rooms)], bs...) {
		room := b[len(b):cap(b)]
		for i := range room[:min(len(room), 4096)] {
			room[i] = 0xa5
		}
	}
	kept.rooms = append(kept.rooms, bs...)
	if n := len(kept.rooms) - 8; n > 0 {
		kept.rooms = append([][]byte(nil), kept.rooms[n:]...)
	}
}

// lookKept compares what is remembered with what it was.
func lookKept() {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	defer func() {
		if e := recover(); e != nil {
			kept.bad = fmt.Sprintf("memory handed out earlier is gone: %v", e)
			kept.items = nil
		}
	}()
	for _, it := range kept.items {
		if kept.bad == "" && !bytes.Equal(it.live, it.copy) {
			kept.bad = fmt.Sprintf("%s was %s when it was handed out and has become %s", it.what, Q(it.copy), Q(it.live))
		}
	}
}

// keptProblem ends the case's remembering.
func keptProblem() string {
	kept.mu.Lock()
	defer kept.mu.Unlock()
	lookKept()
	bad := kept.bad
	kept.items, kept.next, kept.bad, kept.rooms = nil, 0, "", nil
	return bad
}

func dropKept() {
	kept.mu.Lock()
	kept.items, kept.next, kept.bad, kept.rooms = nil, 0, "", nil
	kept.mu.Unlock()
}
