package remote

import (
	"fmt"
	"net"
	"os"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/pb"
	"github.com/zhiqiangxu/mondis/provider"
	"github.com/zhiqiangxu/mondis/server"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

const stopHangs = "stop-hangs-on-a-frame-in-flight"

func listed(property, name string) bool {
	b, err := os.ReadFile(os.Getenv("VERIF_KNOWN"))
	if err != nil {
		hx.Infra("known findings: %v", err)
	}
	return strings.Contains("\n"+string(b), fmt.Sprintf("\nknown: property=%s %s ", property, name))
}

func stacks() string {
	buf := make([]byte, 8<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

var stuckReader = regexp.MustCompile(`(?m)^goroutine \d+ \[chan receive[^\]]*\]:\ngithub\.com/zhiqiangxu/qrpc\.\(\*defaultFrameReader\)\.ReadFrame\(`)

// stuckReaders counts the connections whose reader waits for a stream to end after a frame for it was
// refused, which is what the known finding is about.
func stuckReaders() int { return len(stuckReader.FindAllString(stacks(), -1)) }

type runningServer struct {
	mondis.KVDB
	s     server.KVServer
	addr  string
	dir   string
	ended chan error
}

// serve starts a server on a fresh port over a store it opens itself.
func serve(db mondis.KVDB, dir string) *runningServer {
	for try := 0; try < 20; try++ {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			hx.Infra("listen: %v", err)
		}
		r := &runningServer{KVDB: db, addr: ln.Addr().String(), dir: dir, ended: make(chan error, 1)}
		_ = ln.Close()
		r.s = server.New(r.addr, db, server.Option{}, mondis.KVOption{Dir: dir})
		go func() { r.ended <- r.s.Start() }()
		for i := 0; i < 1000; i++ {
			select {
			case err := <-r.ended:
				if strings.Contains(err.Error(), "address already in use") {
					_ = r.s.Stop()
					i = 1000
					continue
				}
				hx.Failf("the server does not start: %v", err)
			default:
			}
			if con, err := net.Dial("tcp", r.addr); err == nil {
				_ = con.Close()
				return r
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
	hx.Infra("the server does not start")
	return nil
}

// stop stops the server. It tells whether it ran into the known finding.
func (r *runningServer) stop(stuckBefore int) (known bool) {
	done := make(chan error, 1)
	go func() { done <- r.s.Stop() }()
	for waited := time.Duration(0); waited < hang; waited += 500 * time.Millisecond {
		select {
		case err := <-done:
			if err != nil {
				hx.Failf("stopping the server fails: %v", err)
			}
			select {
			case err := <-r.ended:
				if err == nil {
					hx.Failf("Start of the stopped server returns no error")
				}
			case <-time.After(hang):
				hx.Failf("Start of the stopped server does not return")
			}
			return false
		case <-time.After(500 * time.Millisecond):
		}
		if waited >= 2*time.Second && stuckReaders() > stuckBefore && listed("P29", stopHangs) {
			return true
		}
	}
	hx.Failf("stopping the server does not end\n%s", stacks())
	return
}

type loader struct {
	kind   string
	cl     mondis.Client
	prefix string
	acked  int64 // writes 1..acked succeeded
	tried  int64
	last   error
}

// run issues requests until one fails.
func (l *loader) run(stopped *int32) {
	for i := int64(1); atomic.LoadInt32(stopped) == 0; i++ {
		a, b := []byte(fmt.Sprintf("%s%08d.a", l.prefix, i)), []byte(fmt.Sprintf("%s%08d.b", l.prefix, i))
		l.tried = i
		var err error
		switch l.kind {
		case "set":
			err = l.cl.Set(a, a, nil)
		case "read":
			if err = l.cl.Set(a, a, nil); err == nil {
				var v []byte
				if v, _, err = l.cl.Get(a); err == nil && string(v) != string(a) {
					hx.Failf("%s reads back %s", hx.Q(a), hx.Q(v))
				}
			}
		case "scan":
			if err = l.cl.Set(a, a, nil); err == nil {
				var es []mondis.Entry
				es, err = l.cl.Scan(mondis.ScanOption{ProviderScanOption: mondis.ProviderScanOption{Prefix: []byte(l.prefix)}, Limit: 50})
				if n := min(i, 50); err == nil && int64(len(es)) != n {
					hx.Failf("a scan gives %d entries, want %d", len(es), n)
				}
			}
		case "transaction":
			err = l.cl.Update(func(t mondis.Txn) error {
				if err := t.Set(a, a, nil); err != nil {
					return err
				}
				if _, err := t.Exists(b); err != nil {
					return err
				}
				return t.Set(b, b, nil)
			})
		}
		if err != nil {
			l.last = err
			return
		}
		l.acked = i
	}
}

// Servers stopped under load.
func TestP29_StopUnderLoad(t *testing.T) {
	var reported int32
	hx.Run(t, hx.N{Quick: 60, Thorough: 240}, "requests are being served when the server is stopped",
		func(rt *rapid.T, c *hx.Case) {
			kind := rapid.SampledFrom([]string{"badger", "badger", "leveldb"}).Draw(rt, "store")
			n := rapid.IntRange(1, 8).Draw(rt, "clients")
			kinds := []string{"set", "read", "scan", "transaction"}
			if kind == "leveldb" {
				kinds = kinds[:3] // no transactions there
			}
			var ls []*loader
			for i := 0; i < n; i++ {
				ls = append(ls, &loader{kind: rapid.SampledFrom(kinds).Draw(rt, "kind"), prefix: fmt.Sprintf("c%d.", i)})
			}
			open := kind == "badger" && rapid.IntRange(0, 2).Draw(rt, "open") == 0
			idle := rapid.IntRange(0, 2).Draw(rt, "idle")
			wait := time.Duration(rapid.IntRange(0, 60).Draw(rt, "wait")) * time.Millisecond
			txns := open
			for _, l := range ls {
				c.Step("%s", l.kind)
				txns = txns || l.kind == "transaction"
			}
			c.Step("%s, %d idle, open transaction %v, stopped after %v", kind, idle, open, wait)
			c.Class(kind)
			newDB := func() mondis.KVDB {
				if kind == "leveldb" {
					return provider.NewLevelDB()
				}
				return provider.NewBadger()
			}
			dir := hx.Scratch(t, "stop")
			defer os.RemoveAll(dir)
			if msg := hx.Protect(func() {
				db := newDB()
				r := serve(db, dir)
				stuck := stuckReaders()
				for i := 0; i < idle; i++ {
					con, err := net.Dial("tcp", r.addr)
					if err == nil {
						defer con.Close()
					}
				}
				var stopped int32
				var wg sync.WaitGroup
				bad := make(chan string, 2*len(ls)+2)
				var opened chan struct{}
				if open {
					opened = make(chan struct{})
					wg.Add(1)
					go func() {
						defer wg.Done()
						cl := newClient(r.addr)
						err := cl.Update(func(t mondis.Txn) error {
							if err := t.Set([]byte("open"), []byte("x"), nil); err != nil {
								close(opened)
								return err
							}
							close(opened)
							for atomic.LoadInt32(&stopped) == 0 {
								time.Sleep(time.Millisecond)
							}
							return nil
						})
						if err == nil {
							bad <- "a transaction still open when the server was stopped commits afterwards"
						}
					}()
					<-opened
				}
				for _, l := range ls {
					l := l
					wg.Add(1)
					go func() {
						defer wg.Done()
						l.cl = newClient(r.addr)
						if msg := hx.Protect(func() { l.run(&stopped) }); msg != "" {
							bad <- msg
						}
					}()
				}
				time.Sleep(wait)
				known := r.stop(stuck)
				atomic.StoreInt32(&stopped, 1)
				if msg := guarded(wg.Wait); msg != "" {
					hx.Failf("requests issued while the server stopped: %s\n%s", msg, stacks())
				}
				select {
				case msg := <-bad:
					hx.Failf("%s", msg)
				default:
				}
				look := db
				if known {
					c.Class("known finding: stop hangs")
					if !txns {
						hx.Failf("stopping the server does not end, without any transaction")
					}
					defer db.Close()
				} else {
					if con, err := net.DialTimeout("tcp", r.addr, time.Second); err == nil {
						_ = con.Close()
						hx.Failf("the stopped server still accepts connections")
					}
					look = newDB()
					if err := look.Open(mondis.KVOption{Dir: dir}); err != nil {
						hx.Failf("the directory of the stopped server does not open: %v", err)
					}
					defer look.Close()
				}
				busy := 0
				have := map[string]string{}
				es, err := dump(look)
				if err != nil {
					hx.Failf("reading the store: %v", err)
				}
				for _, e := range es {
					have[string(e.Key)] = string(e.Value)
				}
				for _, l := range ls {
					if l.last != nil {
						busy++
					}
					for i := int64(1); i <= l.tried; i++ {
						a, b := fmt.Sprintf("%s%08d.a", l.prefix, i), fmt.Sprintf("%s%08d.b", l.prefix, i)
						va, oka := have[a]
						vb, okb := have[b]
						delete(have, a)
						delete(have, b)
						if oka && va != a || okb && vb != b {
							hx.Failf("%s holds %s, %s holds %s", a, hx.QS(va), b, hx.QS(vb))
						}
						if i <= l.acked && !oka {
							hx.Failf("%s, write %d of %d acknowledged by a client of kind %s, is lost", a, i, l.acked, l.kind)
						}
						if l.kind == "transaction" && oka != okb {
							hx.Failf("half of a transaction is in the store: %s %v, %s %v", a, oka, b, okb)
						}
					}
				}
				if len(have) > 0 {
					hx.Failf("the store holds what no client wrote or committed: %v", have)
				}
				c.ClassIf(busy == len(ls), "every client was cut off")
				c.ClassIf(open, "open transaction")
				c.NonTrivialIf(busy > 0)
			}); msg != "" {
				rt.Fatalf("%s\nhistory: %s", msg, c.Trace())
			}
			if c.Has("known finding: stop hangs") && atomic.CompareAndSwapInt32(&reported, 0, 1) {
				fmt.Println(knownLine)
			}
		})
}

const knownLine = "KNOWN-FINDING: property=P29 " + stopHangs + ": Server.Stop does not return when a frame of a transaction reaches the server while it is being stopped"

// slowKV holds one operation of a kind until it is released, and notes whether it is closed meanwhile.
type slowKV struct {
	mondis.KVDB
	kind    atomic.Int32 // which operation to hold, plus one
	arrived chan struct{}
	release chan struct{}
	inside  atomic.Int32
	early   atomic.Bool
}

type slowTxn struct {
	mondis.ProviderTxn
	s *slowKV
}

func (s *slowKV) enter(op hx.Op) func() {
	s.inside.Add(1)
	if s.kind.CompareAndSwap(int32(op)+1, 0) {
		close(s.arrived)
		<-s.release
	}
	return func() { s.inside.Add(-1) }
}

func (s *slowKV) Close() error {
	if s.inside.Load() > 0 {
		s.early.Store(true)
	}
	return s.KVDB.Close()
}

func (s *slowKV) NewTransaction(update bool) mondis.ProviderTxn {
	return &slowTxn{s.KVDB.NewTransaction(update), s}
}

func (s *slowKV) Get(k []byte) ([]byte, mondis.VMetaResp, error) {
	defer s.enter(hx.OpGet)()
	return s.KVDB.Get(k)
}

func (s *slowKV) Set(k, v []byte, m *mondis.VMetaReq) error {
	defer s.enter(hx.OpSet)()
	return s.KVDB.Set(k, v, m)
}

func (s *slowKV) Delete(k []byte) error {
	defer s.enter(hx.OpDelete)()
	return s.KVDB.Delete(k)
}

func (s *slowKV) Exists(k []byte) (bool, error) {
	defer s.enter(hx.OpExists)()
	return s.KVDB.Exists(k)
}

func (s *slowKV) Scan(o mondis.ProviderScanOption, fn func([]byte, []byte, mondis.VMetaResp) bool) error {
	defer s.enter(hx.OpScan)()
	return s.KVDB.Scan(o, fn)
}

func (t *slowTxn) Get(k []byte) ([]byte, mondis.VMetaResp, error) {
	defer t.s.enter(hx.OpGet)()
	return t.ProviderTxn.Get(k)
}

func (t *slowTxn) Set(k, v []byte, m *mondis.VMetaReq) error {
	defer t.s.enter(hx.OpSet)()
	return t.ProviderTxn.Set(k, v, m)
}

func (t *slowTxn) Delete(k []byte) error {
	defer t.s.enter(hx.OpDelete)()
	return t.ProviderTxn.Delete(k)
}

func (t *slowTxn) Exists(k []byte) (bool, error) {
	defer t.s.enter(hx.OpExists)()
	return t.ProviderTxn.Exists(k)
}

func (t *slowTxn) Scan(o mondis.ProviderScanOption, fn func([]byte, []byte, mondis.VMetaResp) bool) error {
	defer t.s.enter(hx.OpScan)()
	return t.ProviderTxn.Scan(o, fn)
}

func (t *slowTxn) Commit() error {
	defer t.s.enter(hx.OpCommit)()
	return t.ProviderTxn.Commit()
}

// The store stays open for what is being served when the server is stopped.
func TestP29_Served(t *testing.T) {
	hx.Run(t, hx.N{Quick: 32, Thorough: 120}, "a request is in the store when the server is stopped",
		func(rt *rapid.T, c *hx.Case) {
			inTxn := rapid.Bool().Draw(rt, "inTxn")
			kinds := []hx.Op{hx.OpGet, hx.OpSet, hx.OpDelete, hx.OpExists, hx.OpScan, hx.OpSet, hx.OpDelete}
			if inTxn {
				kinds = append(kinds, hx.OpCommit, hx.OpCommit)
			}
			kind := rapid.SampledFrom(kinds).Draw(rt, "kind")
			inFlight := inTxn && rapid.IntRange(0, 2).Draw(rt, "inFlight") == 0
			if inFlight {
				kind = hx.OpGet
			}
			delay := time.Duration(rapid.IntRange(1, 40).Draw(rt, "delay")) * time.Millisecond
			if rapid.IntRange(0, 2).Draw(rt, "long") == 0 || inFlight {
				delay += 1500 * time.Millisecond // stopping itself takes a second
			}
			c.Step("%v, in a transaction %v, another frame in flight %v, for %v", kind, inTxn, inFlight, delay)
			c.NonTrivial()
			c.Class(fmt.Sprintf("%v, in a transaction %v", kind, inTxn))
			dir := hx.Scratch(t, "stop")
			defer os.RemoveAll(dir)
			known := false
			if msg := hx.Protect(func() {
				slow := &slowKV{KVDB: provider.NewBadger(), arrived: make(chan struct{}), release: make(chan struct{})}
				r := serve(slow, dir)
				stuck := stuckReaders()
				for _, k := range []string{"k", "gone"} {
					if err := newClient(r.addr).Set([]byte(k), []byte("v"), nil); err != nil {
						hx.Failf("set: %v", err)
					}
				}
				slow.kind.Store(int32(kind) + 1)
				var callErr error
				called := make(chan struct{})
				if inFlight {
					close(called)
					con, err := net.Dial("tcp", r.addr)
					if err != nil {
						hx.Infra("dial: %v", err)
					}
					defer con.Close()
					body := mustBytes((&pb.GetRequest{Key: []byte("k")}).Marshal())
					_, _ = con.Write(frame(7, flagStream|flagNB, uint32(server.GetCmd), body))
					defer func() {
						select {
						case <-slow.arrived:
						default:
							close(slow.release)
						}
					}()
					select {
					case <-slow.arrived:
					case <-time.After(hang):
						hx.Failf("the request is not served")
					}
					_, _ = con.Write(frame(7, flagStream|flagNB, uint32(server.GetCmd), body))
					time.Sleep(20 * time.Millisecond) // let it arrive
				} else {
					cl := newClient(r.addr)
					call := func(t mondis.KVOP) (err error) {
						switch kind {
						case hx.OpGet:
							_, _, err = t.Get([]byte("k"))
						case hx.OpExists:
							_, err = t.Exists([]byte("k"))
						case hx.OpScan:
							_, err = t.Scan(mondis.ScanOption{Limit: 10})
						case hx.OpDelete:
							err = t.Delete([]byte("gone"))
						default:
							err = t.Set([]byte("new"), []byte("w"), nil)
						}
						return
					}
					go func() {
						defer close(called)
						if inTxn {
							callErr = cl.Update(func(t mondis.Txn) error { return call(t) })
						} else {
							callErr = call(cl)
						}
					}()
					select {
					case <-slow.arrived:
					case <-time.After(hang):
						close(slow.release)
						hx.Failf("the request is not served")
					}
				}
				go func() {
					time.Sleep(delay)
					close(slow.release)
				}()
				known = r.stop(stuck)
				if known {
					if !inTxn {
						hx.Failf("stopping the server does not end, without a frame in flight")
					}
					defer slow.KVDB.Close()
					return
				}
				if slow.early.Load() {
					hx.Failf("the store was closed while a request was in it")
				}
				select {
				case <-called:
				case <-time.After(hang):
					hx.Failf("the call does not end after the server was stopped")
				}
				c.Step("the call ends with %v", callErr)
				c.ClassIf(!inFlight && callErr == nil, "acknowledged")
				db := provider.NewBadger()
				if err := db.Open(mondis.KVOption{Dir: dir}); err != nil {
					hx.Failf("the directory of the stopped server does not open: %v", err)
				}
				defer db.Close()
				if v, _, err := db.Get([]byte("k")); err != nil || string(v) != "v" {
					hx.Failf("after the stop k reads %s, %v", hx.Q(v), err)
				}
				there, err1 := db.Exists([]byte("gone"))
				v, _, err2 := db.Get([]byte("new"))
				if err1 != nil || err2 != nil && err2 != kv.ErrKeyNotFound || err2 == nil && string(v) != "w" {
					hx.Failf("after the stop: %v, %v, %s", err1, err2, hx.Q(v))
				}
				removes, sets := kind == hx.OpDelete, kind == hx.OpSet || kind == hx.OpCommit
				if !removes && !there || !sets && err2 == nil {
					hx.Failf("after the stop the store holds what nobody wrote")
				}
				if !inFlight && callErr == nil && (removes && there || sets && err2 != nil) {
					hx.Failf("the call was acknowledged and its write is lost")
				}
			}); msg != "" {
				rt.Fatalf("%s\nhistory: %s", msg, c.Trace())
			}
			c.ClassIf(known, "known finding: stop hangs")
			if known && !knownReported {
				knownReported = true
				fmt.Println(knownLine)
			}
		})
}

var knownReported bool

// Servers that cannot start say so.
func TestP29_StartFails(t *testing.T) {
	hx.Run(t, hx.N{Quick: 30, Thorough: 60}, "every case", func(rt *rapid.T, c *hx.Case) {
		why := rapid.SampledFrom([]string{"port taken", "directory in use", "directory cannot be made", "bad address"}).Draw(rt, "why")
		c.Step("%s", why)
		c.NonTrivial()
		c.Class(why)
		dir := hx.Scratch(t, "start")
		defer os.RemoveAll(dir)
		if msg := hx.Protect(func() {
			ln, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				hx.Infra("listen: %v", err)
			}
			defer ln.Close()
			addr := ln.Addr().String()
			sdir := dir + "/data"
			switch why {
			case "port taken":
			case "bad address":
				addr = "127.0.0.1:99999"
			case "directory in use":
				_ = ln.Close()
				other := provider.NewBadger()
				if err := other.Open(mondis.KVOption{Dir: sdir}); err != nil {
					hx.Infra("badger: %v", err)
				}
				defer other.Close()
			case "directory cannot be made":
				_ = ln.Close()
				if err := os.WriteFile(sdir, []byte("x"), 0o600); err != nil {
					hx.Infra("%v", err)
				}
			}
			s := server.New(addr, provider.NewBadger(), server.Option{}, mondis.KVOption{Dir: sdir})
			errc := make(chan error, 1)
			go func() { errc <- s.Start() }()
			select {
			case err := <-errc:
				if err == nil {
					hx.Failf("Start returns no error: %s", why)
				}
			case <-time.After(hang):
				hx.Failf("Start goes on: %s", why)
			}
			if why == "port taken" || why == "bad address" {
				if err := s.Stop(); err != nil {
					hx.Failf("stopping a server that could not listen: %v", err)
				}
				db := provider.NewBadger()
				if err := db.Open(mondis.KVOption{Dir: sdir}); err != nil {
					hx.Failf("the directory of the stopped server does not open: %v", err)
				}
				_ = db.Close()
			}
		}); msg != "" {
			rt.Fatalf("%s\nhistory: %s", msg, c.Trace())
		}
	})
}

func mustBytes(b []byte, err error) []byte {
	if err != nil {
		hx.Infra("%v", err)
	}
	return b
}
