package remote

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/client"
	"github.com/zhiqiangxu/mondis/provider"
	"github.com/zhiqiangxu/mondis/server"

	"verif/harness/hx"
)

const hang = 40 * time.Second

// swapKV lets one server serve a different store in every case.
type swapKV struct{ cur atomic.Value }

type kvBox struct{ mondis.KVDB }

func (s *swapKV) set(db mondis.KVDB) { s.cur.Store(kvBox{db}) }
func (s *swapKV) get() mondis.KVDB   { return s.cur.Load().(kvBox).KVDB }

func (s *swapKV) Open(mondis.KVOption) error                     { return nil }
func (s *swapKV) Close() error                                   { return nil }
func (s *swapKV) NewTransaction(u bool) mondis.ProviderTxn       { return s.get().NewTransaction(u) }
func (s *swapKV) WriteBatch() mondis.ProviderWriteBatch          { return s.get().WriteBatch() }
func (s *swapKV) Set(k, v []byte, m *mondis.VMetaReq) error      { return s.get().Set(k, v, m) }
func (s *swapKV) Get(k []byte) ([]byte, mondis.VMetaResp, error) { return s.get().Get(k) }
func (s *swapKV) Exists(k []byte) (bool, error)                  { return s.get().Exists(k) }
func (s *swapKV) Delete(k []byte) error                          { return s.get().Delete(k) }
func (s *swapKV) Scan(o mondis.ProviderScanOption, fn func(key, value []byte, meta mondis.VMetaResp) bool) error {
	return s.get().Scan(o, fn)
}

// startServer serves a store on a free loopback port.
func startServer(t testing.TB) (addr string, kv *swapKV) {
	kv = &swapKV{}
	kv.set(hx.NewMemKV())
	for try := 0; try < 20; try++ {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			hx.Infra("listen: %v", err)
		}
		addr = ln.Addr().String()
		_ = ln.Close()
		s := server.New(addr, kv, server.Option{}, mondis.KVOption{})
		ended := make(chan error, 1)
		go func() { ended <- s.Start() }()
		for i := 0; i < 300; i++ {
			select {
			case err := <-ended:
				fmt.Println("the server did not start:", err)
				i = 300
				continue
			default:
			}
			con, err := net.Dial("tcp", addr)
			if err == nil {
				_ = con.Close()
				select { // it may have been someone else's server
				case <-ended:
					i = 300
					continue
				case <-time.After(30 * time.Millisecond):
				}
				t.Cleanup(func() {
					stopped := make(chan struct{})
					go func() { _ = s.Stop(); close(stopped) }()
					select { // whether it ends is P29's matter
					case <-stopped:
					case <-time.After(5 * time.Second):
					}
				})
				return
			}
			time.Sleep(10 * time.Millisecond)
		}
	}
	hx.Infra("the server does not start")
	return
}

func newClient(addr string) mondis.Client { return client.New(addr, client.Option{}) }

func badgerDB(t testing.TB) mondis.KVDB {
	dir := hx.Scratch(t, "remote")
	db := provider.NewBadger()
	if err := db.Open(mondis.KVOption{Dir: dir}); err != nil {
		hx.Infra("badger: %v", err)
	}
	t.Cleanup(func() { _ = db.Close(); _ = os.RemoveAll(dir) })
	return db
}

func levelDB(t testing.TB) mondis.KVDB {
	dir := hx.Scratch(t, "remote")
	db := provider.NewLevelDB()
	if err := db.Open(mondis.KVOption{Dir: dir}); err != nil {
		hx.Infra("leveldb: %v", err)
	}
	t.Cleanup(func() { _ = db.Close(); _ = os.RemoveAll(dir) })
	return db
}

// dump is all of a store.
func dump(db mondis.KVDB) (out []mondis.Entry, err error) {
	err = db.Scan(mondis.ProviderScanOption{}, func(k, v []byte, m mondis.VMetaResp) bool {
		out = append(out, mondis.Entry{Key: hx.Copy(k), Value: hx.Copy(v), Meta: m})
		return true
	})
	return
}

func showEntries(es []mondis.Entry) string {
	s := fmt.Sprintf("%d entries:", len(es))
	for i, e := range es {
		if i == 12 {
			return s + " ..."
		}
		s += fmt.Sprintf(" %s=%s", hx.Q(e.Key), hx.Q(e.Value))
		if e.Meta != (mondis.VMetaResp{}) {
			s += fmt.Sprintf("%v", e.Meta)
		}
	}
	return s
}

func sameEntries(a, b []mondis.Entry) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if string(a[i].Key) != string(b[i].Key) || string(a[i].Value) != string(b[i].Value) || a[i].Meta != b[i].Meta {
			return false
		}
	}
	return true
}

// localScan is the first entries of a local scan.
func localScan(db interface {
	Scan(o mondis.ProviderScanOption, fn func(key, value []byte, meta mondis.VMetaResp) bool) error
}, o mondis.ScanOption) (out []mondis.Entry, err error) {
	if o.Limit <= 0 {
		return
	}
	err = db.Scan(o.ProviderScanOption, func(k, v []byte, m mondis.VMetaResp) bool {
		if len(out) < o.Limit && len(out) < 1000 {
			out = append(out, mondis.Entry{Key: hx.Copy(k), Value: hx.Copy(v), Meta: m})
		}
		return len(out) < o.Limit && len(out) < 1000
	})
	if err != nil {
		out = nil
	}
	return
}

// guarded runs f with a limit on its time; the result says how it failed.
func guarded(f func()) string {
	ended, msg := hx.Within(hang, f)
	if !ended {
		return fmt.Sprintf("no answer within %v", hang)
	}
	return msg
}

// --- raw frames

const (
	flagStream = 1 << iota
	flagEnd
	flagRst
	flagNB
	flagPush
	flagCodec
)

func frame(reqID uint64, flags byte, cmd uint32, payload []byte) []byte {
	b := make([]byte, 16, 16+len(payload))
	binary.BigEndian.PutUint32(b, uint32(12+len(payload)))
	binary.BigEndian.PutUint64(b[4:], reqID)
	binary.BigEndian.PutUint32(b[12:], uint32(flags)<<24|cmd&0xffffff)
	return append(b, payload...)
}

type rframe struct {
	id      uint64
	flags   byte
	cmd     uint32
	payload []byte
}

var errClosed = errors.New("closed")

func readFrame(con net.Conn, limit time.Duration) (*rframe, error) {
	_ = con.SetReadDeadline(time.Now().Add(limit))
	var h [16]byte
	if _, err := io.ReadFull(con, h[:]); err != nil {
		var ne net.Error
		if errors.As(err, &ne) && ne.Timeout() {
			return nil, fmt.Errorf("no answer within %v", limit)
		}
		return nil, errClosed
	}
	n := binary.BigEndian.Uint32(h[:])
	if n < 12 || n > 1<<30 {
		return nil, fmt.Errorf("the server sends a frame of size %d", n)
	}
	f := &rframe{id: binary.BigEndian.Uint64(h[4:]), flags: h[12], cmd: binary.BigEndian.Uint32(h[12:]) & 0xffffff, payload: make([]byte, n-12)}
	if _, err := io.ReadFull(con, f.payload); err != nil {
		return nil, errClosed
	}
	return f, nil
}

// --- a link between client and server that can be cut

type link struct {
	addr   string
	target string
	ln     net.Listener
	mu     sync.Mutex
	cons   []net.Conn
}

func newLink(t testing.TB, target string) *link {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		hx.Infra("listen: %v", err)
	}
	l := &link{addr: ln.Addr().String(), target: target, ln: ln}
	t.Cleanup(func() { _ = ln.Close(); l.cut() })
	go func() {
		for {
			a, err := ln.Accept()
			if err != nil {
				return
			}
			b, err := net.Dial("tcp", target)
			if err != nil {
				_ = a.Close()
				continue
			}
			l.mu.Lock()
			l.cons = append(l.cons, a, b)
			l.mu.Unlock()
			pipe := func(to, from net.Conn) {
				_, _ = io.Copy(to, from)
				_ = to.Close()
				_ = from.Close()
			}
			go pipe(a, b)
			go pipe(b, a)
		}
	}()
	return l
}

func (l *link) cut() {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, c := range l.cons {
		if tc, ok := c.(*net.TCPConn); ok {
			_ = tc.SetLinger(0)
		}
		_ = c.Close()
	}
	l.cons = nil
}

// --- operations

type opKind int

const (
	kSet opKind = iota
	kGet
	kExists
	kDelete
	kScan
)

type op struct {
	kind opKind
	k, v []byte
	meta *mondis.VMetaReq
	scan mondis.ScanOption
}

func (o op) String() string {
	switch o.kind {
	case kSet:
		if o.meta != nil {
			return fmt.Sprintf("set %s=%s ttl %v tag %d", hx.Q(o.k), hx.Q(o.v), o.meta.TTL, o.meta.Tag)
		}
		return fmt.Sprintf("set %s=%s", hx.Q(o.k), hx.Q(o.v))
	case kGet:
		return "get " + hx.Q(o.k)
	case kExists:
		return "exists " + hx.Q(o.k)
	case kDelete:
		return "delete " + hx.Q(o.k)
	}
	return fmt.Sprintf("scan prefix %s offset %s reverse %v limit %d", hx.Q(o.scan.Prefix), hx.Q(o.scan.Offset), o.scan.Reverse, o.scan.Limit)
}

// result of an operation.
type result struct {
	v       []byte
	meta    mondis.VMetaResp
	exists  bool
	entries []mondis.Entry
	err     error
}

func (r result) String() string {
	return fmt.Sprintf("value %s meta %v exists %v %s error %v", hx.Q(r.v), r.meta, r.exists, showEntries(r.entries), r.err)
}

type commonOps interface {
	Set(k, v []byte, meta *mondis.VMetaReq) error
	Exists(k []byte) (bool, error)
	Get(k []byte) ([]byte, mondis.VMetaResp, error)
	Delete(key []byte) error
}

// onRemote runs the operation on a client or a remote transaction.
func (o op) onRemote(c mondis.KVOP) (r result) {
	if o.kind == kScan {
		r.entries, r.err = c.Scan(o.scan)
		for _, e := range r.entries {
			hx.Appendable("an entry of a scan", e.Key, e.Value)
		}
		return
	}
	o.common(c, &r)
	return
}

type localOps interface {
	commonOps
	Scan(o mondis.ProviderScanOption, fn func(key, value []byte, meta mondis.VMetaResp) bool) error
}

// onLocal runs the operation on a local store or transaction.
func (o op) onLocal(c localOps) (r result) {
	if o.kind == kScan {
		r.entries, r.err = localScan(c, o.scan)
		return
	}
	o.common(c, &r)
	return
}

func (o op) common(c commonOps, r *result) {
	switch o.kind {
	case kSet:
		r.err = c.Set(hx.Copy(o.k), hx.Copy(o.v), o.meta)
	case kGet:
		r.v, r.meta, r.err = c.Get(hx.Copy(o.k))
		hx.Appendable("the value of "+hx.Q(o.k), r.v)
	case kExists:
		r.exists, r.err = c.Exists(hx.Copy(o.k))
	case kDelete:
		r.err = c.Delete(hx.Copy(o.k))
	}
}
