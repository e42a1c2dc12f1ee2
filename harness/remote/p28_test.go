package remote

import (
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

// event is one operation of the history, seen as atomic: what it read and what it wrote. Absent is "-".
type event struct {
	what   string
	reads  map[string]string
	writes map[string]string
}

func (e event) String() string {
	f := func(m map[string]string) string {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := ""
		for _, k := range ks {
			s += k + "=" + m[k] + " "
		}
		return s
	}
	return fmt.Sprintf("%s read{%s} write{%s}", e.what, f(e.reads), f(e.writes))
}

const (
	absent  = "-"
	present = "+" // read only: anything but absent
)

var keys28 = []string{"a", "b", "c", "d"}

// storeModel is one copy of the store that executes the events one at a time.
var storeModel = porcupine.Model{
	Init: func() interface{} { return strings.Join([]string{absent, absent, absent, absent}, ",") },
	Step: func(state, in, _ interface{}) (bool, interface{}) {
		vals := strings.Split(state.(string), ",")
		e := in.(event)
		for i, k := range keys28 {
			r, ok := e.reads[k]
			if ok && r != vals[i] && !(r == present && vals[i] != absent) {
				return false, state
			}
		}
		if len(e.writes) == 0 {
			return true, state
		}
		for i, k := range keys28 {
			if w, ok := e.writes[k]; ok {
				vals[i] = w
			}
		}
		return true, strings.Join(vals, ",")
	},
	DescribeOperation: func(in, _ interface{}) string { return in.(event).String() },
}

type act struct {
	kind int // 0 set, 1 get, 2 exists, 3 delete, 4 scan, 5 update, 6 view
	key  string
	read []string
	set  []string
	del  []string
	fail bool
	pad  int
}

// padded makes a value larger.
func padded(v string, n int) []byte {
	return []byte(fmt.Sprintf("%s|%d|%s", v, n, strings.Repeat("x", n)))
}

func unpadded(b []byte) (string, bool) {
	v, rest, ok := strings.Cut(string(b), "|")
	if !ok {
		return "", false
	}
	num, pad, _ := strings.Cut(rest, "|")
	return v, num == fmt.Sprint(len(pad)) && strings.Count(pad, "x") == len(pad)
}

func (a act) String() string {
	return fmt.Sprintf("%s %s r%v w%v d%v fail %v size +%d", []string{"set", "get", "exists", "delete", "scan", "update", "view"}[a.kind], a.key, a.read, a.set, a.del, a.fail, a.pad)
}

// jitter makes the store slow at random places so that requests overlap in many ways.
func jitter(mem *hx.MemKV, seed int64, slow int) {
	var mu sync.Mutex
	rnd := rand.New(rand.NewSource(seed))
	mem.Hook = func(hx.Op, []byte) error {
		mu.Lock()
		n := rnd.Intn(96)
		long := time.Duration(rnd.Intn(2000)) * time.Microsecond
		mu.Unlock()
		n -= slow
		switch {
		case n < 0:
			// OpDiscard comes after a plain call has read or written: the answer is late
			time.Sleep(long)
		case n < 8:
			time.Sleep(time.Duration(50) * time.Microsecond)
		case n < 32:
			runtime.Gosched()
		}
		return nil
	}
}

func p28(t *testing.T, n hx.N, kind string) {
	addr, srv := startServer(t)
	clients := []mondis.Client{newClient(addr), newClient(addr), newClient(addr)}
	var real mondis.KVDB
	if kind == "badger" {
		real = badgerDB(t)
		srv.set(real)
	}
	hx.Run(t, n, "at least three goroutines with at least one transaction that writes, overlapping in time",
		func(rt *rapid.T, c *hx.Case) {
			if kind == "mem" {
				mem := hx.NewMemKV()
				jitter(mem, int64(rapid.IntRange(0, 1<<20).Draw(rt, "jitter")), rapid.SampledFrom([]int{0, 0, 2, 12}).Draw(rt, "slow"))
				srv.set(mem)
			} else {
				clearing(real)
			}
			hot := keys28
			if rapid.IntRange(0, 2).Draw(rt, "hot") == 0 {
				hot = keys28[:rapid.IntRange(1, 2).Draw(rt, "hotKeys")]
			}
			subset := func(label string, max int) []string {
				var out []string
				for _, k := range rapid.Permutation(keys28).Draw(rt, label)[:rapid.IntRange(0, max).Draw(rt, label+"N")] {
					out = append(out, k)
				}
				return out
			}
			var plans [][]act
			ng := rapid.IntRange(2, 6).Draw(rt, "goroutines")
			txns := false
			for g := 0; g < ng; g++ {
				var p []act
				for k := rapid.IntRange(1, 5).Draw(rt, "acts"); k > 0; k-- {
					a := act{kind: rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 5, 5, 5, 6}).Draw(rt, "kind"), key: rapid.SampledFrom(hot).Draw(rt, "key")}
					if rapid.IntRange(0, 3).Draw(rt, "large") == 0 {
						a.pad = rapid.SampledFrom([]int{100, 1000, 5000, 20000, 70000}).Draw(rt, "pad")
					}
					if a.kind >= 5 {
						a.read = subset("read", 3)
					}
					if a.kind == 5 {
						a.set = subset("set", 3)
						a.del = subset("del", 1)
						a.fail = rapid.IntRange(0, 7).Draw(rt, "giveUp") == 0
						txns = txns || len(a.set)+len(a.del) > 0
					}
					p = append(p, a)
				}
				plans = append(plans, p)
				c.Step("goroutine %d: %v", g, p)
			}
			c.NonTrivialIf(ng >= 3 && txns)
			var mu sync.Mutex
			var hist []porcupine.Operation
			conflicts := 0
			t0 := time.Now()
			problem := guarded(func() {
				var wg sync.WaitGroup
				msgs := make([]string, ng)
				for g := range plans {
					wg.Add(1)
					go func(g int) {
						defer wg.Done()
						cl := clients[g%len(clients)]
						msgs[g] = hx.Protect(func() {
							for i, a := range plans[g] {
								ev, conflict := a.run(cl, fmt.Sprintf("g%d.%d", g, i), t0)
								mu.Lock()
								if conflict {
									conflicts++
								}
								ev.ClientId = g
								hist = append(hist, ev)
								mu.Unlock()
							}
						})
					}(g)
				}
				wg.Wait()
				for _, m := range msgs {
					if m != "" {
						hx.Failf("%s", m)
					}
				}
				// what is left is read as one more operation
				a := act{kind: 4}
				ev, _ := a.run(clients[0], "end", t0)
				ev.ClientId = ng
				hist = append(hist, ev)
			})
			if problem != "" {
				rt.Fatalf("%s\nplan: %s", problem, c.Trace())
			}
			c.ClassIf(conflicts > 0, "some transaction conflicts")
			over := false
			for i := range hist {
				for j := range hist[:i] {
					if hist[i].Call < hist[j].Return && hist[j].Call < hist[i].Return {
						over = true
					}
				}
			}
			c.ClassIf(over, "overlapping operations")
			switch porcupine.CheckOperationsTimeout(storeModel, hist, 20*time.Second) {
			case porcupine.Unknown:
				c.Class("undecided")
			case porcupine.Illegal:
				sort.Slice(hist, func(i, j int) bool { return hist[i].Call < hist[j].Call })
				s := ""
				for _, o := range hist {
					s += fmt.Sprintf("\n  [%d,%d] goroutine %d: %v", o.Call/1000, o.Return/1000, o.ClientId, o.Input)
				}
				rt.Fatalf("no one-at-a-time execution explains the results:%s\nplan: %s", s, c.Trace())
			}
		})
}

// run performs the act and tells what it saw and did.
func (a act) run(cl mondis.Client, name string, t0 time.Time) (o porcupine.Operation, conflict bool) {
	ev := event{what: name + " " + a.String(), reads: map[string]string{}, writes: map[string]string{}}
	val := func(k string, v []byte, err error) string {
		if err == kv.ErrKeyNotFound {
			return absent
		}
		if err != nil {
			hx.Failf("%s: get %s: %v", ev.what, k, err)
		}
		// a value says which key it was written to
		plain, ok := unpadded(v)
		if !ok || !strings.HasPrefix(plain, k+":") {
			hx.Failf("%s: get %s returns %s, which was never written there", ev.what, k, hx.Q(v))
		}
		return plain
	}
	o.Call = time.Since(t0).Nanoseconds()
	switch a.kind {
	case 0:
		v := a.key + ":" + name
		if err := cl.Set([]byte(a.key), padded(v, a.pad), nil); err != nil {
			hx.Failf("%s: %v", ev.what, err)
		}
		ev.writes[a.key] = v
	case 1:
		v, _, err := cl.Get([]byte(a.key))
		ev.reads[a.key] = val(a.key, v, err)
	case 2:
		ok, err := cl.Exists([]byte(a.key))
		if err != nil {
			hx.Failf("%s: %v", ev.what, err)
		}
		ev.reads[a.key] = absent
		if ok {
			ev.reads[a.key] = present
		}
	case 3:
		if err := cl.Delete([]byte(a.key)); err != nil {
			hx.Failf("%s: %v", ev.what, err)
		}
		ev.writes[a.key] = absent
	case 4:
		es, err := cl.Scan(mondis.ScanOption{Limit: 100})
		if err != nil {
			hx.Failf("%s: %v", ev.what, err)
		}
		for _, k := range keys28 {
			ev.reads[k] = absent
		}
		for _, e := range es {
			ev.reads[string(e.Key)] = val(string(e.Key), e.Value, nil)
		}
	case 5, 6:
		fn := func(t mondis.Txn) error {
			for _, k := range a.read {
				v, _, err := t.Get([]byte(k))
				ev.reads[k] = val(k, v, err)
			}
			for _, k := range a.set {
				v := k + ":" + name
				if err := t.Set([]byte(k), padded(v, a.pad), nil); err != nil {
					hx.Failf("%s: set %s: %v", ev.what, k, err)
				}
				ev.writes[k] = v
			}
			for _, k := range a.del {
				if err := t.Delete([]byte(k)); err != nil {
					hx.Failf("%s: delete %s: %v", ev.what, k, err)
				}
				ev.writes[k] = absent
			}
			for k, w := range ev.writes { // its own writes
				v, _, err := t.Get([]byte(k))
				if got := val(k, v, err); got != w {
					hx.Failf("%s: reads %s of its own write %s to %s", ev.what, got, w, k)
				}
			}
			if a.kind == 6 {
				es, err := t.Scan(mondis.ScanOption{Limit: 100})
				if err != nil {
					hx.Failf("%s: scan: %v", ev.what, err)
				}
				all := map[string]string{}
				for _, k := range keys28 {
					all[k] = absent
				}
				for _, e := range es {
					all[string(e.Key)] = val(string(e.Key), e.Value, nil)
				}
				for k, v := range ev.reads {
					if all[k] != v {
						hx.Failf("%s: get and scan of one view differ on %s: %s, %s", ev.what, k, v, all[k])
					}
				}
				ev.reads = all
			}
			if a.fail {
				return errUser
			}
			return nil
		}
		var err error
		if a.kind == 5 {
			err = cl.Update(fn)
		} else {
			err = cl.View(fn)
		}
		if a.fail && a.kind == 5 && err != errUser {
			hx.Failf("%s ends with %v", ev.what, err)
		}
		if err != nil {
			conflict = err != errUser
			ev.writes = map[string]string{}
			if a.kind == 6 {
				hx.Failf("%s ends with %v", ev.what, err)
			}
		}
	}
	o.Return = time.Since(t0).Nanoseconds()
	o.Input = ev
	return
}

func TestP28_Mem(t *testing.T)    { p28(t, hx.N{Quick: 4000}, "mem") }
func TestP28_Badger(t *testing.T) { p28(t, hx.N{Quick: 1500}, "badger") }
