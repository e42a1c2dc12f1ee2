package remote

import (
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/pb"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

const (
	cmdSet = iota * 2
	cmdExists
	cmdGet
	cmdDelete
	cmdCommit
	cmdDiscard
	cmdScan
)

// body makes the bytes of a request.
func body(o op, opts bool) (cmd uint32, b []byte) {
	switch o.kind {
	case kSet:
		r := pb.SetRequest{Key: o.k, Value: o.v}
		if o.meta != nil {
			r.Meta = &pb.VMetaReq{TTL: int64(o.meta.TTL), Tag: uint32(o.meta.Tag)}
		}
		b, _ = r.Marshal()
		return cmdSet, b
	case kGet:
		r := pb.GetRequest{Key: o.k}
		b, _ = r.Marshal()
		return cmdGet, b
	case kExists:
		r := pb.ExistsRequest{Key: o.k}
		b, _ = r.Marshal()
		return cmdExists, b
	case kDelete:
		r := pb.DeleteRequest{Key: o.k}
		b, _ = r.Marshal()
		return cmdDelete, b
	}
	r := pb.ScanRequest{Limit: int32(o.scan.Limit)}
	if opts {
		r.ProviderScanOption = &pb.ProviderScanOption{Reverse: o.scan.Reverse, Prefix: o.scan.Prefix, Offset: o.scan.Offset}
	}
	b, _ = r.Marshal()
	return cmdScan, b
}

// meaning is what a request body asks for; ok is false when it is malformed or incomplete.
func meaning(cmd uint32, b []byte) (o op, ok bool) {
	b = append([]byte{}, b...)
	switch cmd {
	case cmdSet:
		var r pb.SetRequest
		if r.Unmarshal(b) != nil {
			return
		}
		o = op{kind: kSet, k: r.Key, v: r.Value}
		if r.Meta != nil {
			o.meta = &mondis.VMetaReq{TTL: time.Duration(r.Meta.TTL), Tag: byte(r.Meta.Tag)}
		}
	case cmdGet:
		var r pb.GetRequest
		if r.Unmarshal(b) != nil {
			return
		}
		o = op{kind: kGet, k: r.Key}
	case cmdExists:
		var r pb.ExistsRequest
		if r.Unmarshal(b) != nil {
			return
		}
		o = op{kind: kExists, k: r.Key}
	case cmdDelete:
		var r pb.DeleteRequest
		if r.Unmarshal(b) != nil {
			return
		}
		o = op{kind: kDelete, k: r.Key}
	case cmdScan:
		var r pb.ScanRequest
		if r.Unmarshal(b) != nil || r.ProviderScanOption == nil {
			return
		}
		o = op{kind: kScan, scan: mondis.ScanOption{Limit: int(r.Limit), ProviderScanOption: mondis.ProviderScanOption{
			Reverse: r.ProviderScanOption.Reverse, Prefix: r.ProviderScanOption.Prefix, Offset: r.ProviderScanOption.Offset}}}
	default:
		return
	}
	return o, true
}

// answer decodes a response.
func answer(cmd uint32, f *rframe) (r result, code int32, err error) {
	if f.cmd != cmd+1 {
		return r, 0, fmt.Errorf("command %d is answered with command %d", cmd, f.cmd)
	}
	switch cmd {
	case cmdSet:
		var x pb.SetResponse
		err = x.Unmarshal(f.payload)
		code = x.Code
	case cmdGet:
		var x pb.GetResponse
		err = x.Unmarshal(f.payload)
		code = x.Code
		r.v = x.Value
		r.meta = mondis.VMetaResp{ExpiresAt: x.Meta.GetExpiresAt(), Tag: byte(x.Meta.GetTag())}
		if code == 4 {
			r.err = kv.ErrKeyNotFound
		}
	case cmdExists:
		var x pb.ExistsResponse
		err = x.Unmarshal(f.payload)
		code = x.Code
		r.exists = x.Exists
	case cmdDelete:
		var x pb.DeleteResponse
		err = x.Unmarshal(f.payload)
		code = x.Code
	case cmdScan:
		var x pb.ScanResponse
		err = x.Unmarshal(f.payload)
		code = x.Code
		for _, e := range x.Entries {
			r.entries = append(r.entries, mondis.Entry{Key: e.Key, Value: e.Value, Meta: mondis.VMetaResp{ExpiresAt: e.Meta.GetExpiresAt(), Tag: byte(e.Meta.GetTag())}})
		}
	case cmdCommit:
		var x pb.CommitResponse
		err = x.Unmarshal(f.payload)
		code = x.Code
	}
	if code != 0 && r.err == nil {
		r.err = fmt.Errorf("code %d", code)
	}
	return
}

// badBody breaks a body in one of many ways (it may still be a valid one).
func badBody(rt *rapid.T, b []byte) []byte {
	b = append([]byte{}, b...)
	switch rapid.IntRange(0, 5).Draw(rt, "damage") {
	case 0:
		return rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(rt, "random")
	case 1:
		if len(b) > 0 {
			return b[:rapid.IntRange(0, len(b)-1).Draw(rt, "cut")]
		}
	case 2:
		for n := rapid.IntRange(1, 3).Draw(rt, "flips"); n > 0 && len(b) > 0; n-- {
			b[rapid.IntRange(0, len(b)-1).Draw(rt, "at")] = rapid.SampledFrom([]byte{0, 1, 0x0a, 0x7f, 0x80, 0xff, 0x12, 0x1a, 3, 4}).Draw(rt, "to")
		}
	case 3:
		return append(b, rapid.SliceOfN(rapid.SampledFrom([]byte{0, 1, 0x0a, 0x7f, 0x80, 0xff, 0x12, 0x1a, 3, 4, 0x0b}), 1, 12).Draw(rt, "tail")...)
	case 4:
		return append([]byte{0x0a, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, b...)
	default:
		return append([]byte{0x0a, rapid.Byte().Draw(rt, "len")}, b...)
	}
	return b
}

// waitNone waits until no transaction is open.
func waitNone(mu *sync.Mutex, open *int) (n int) {
	for try := 0; try < 5000; try++ {
		mu.Lock()
		n = *open
		mu.Unlock()
		if n == 0 {
			return
		}
		time.Sleep(2 * time.Millisecond)
	}
	return
}

type sent struct {
	what  string
	bytes []byte
	req   bool // a well-framed request: it has to be answered, or its connection closed
	id    uint64
	cmd   uint32
	flags byte
	body  []byte
	close bool // the peer closes after this
	probe bool // another client uses the server now
	raw   bool // junk: nothing more is expected on this connection

	after    []op // sent after this one, if it turns out malformed
	afterNew bool // with an id of their own
}

func TestP09_Server(t *testing.T) {
	addr, srv := startServer(t)
	other := newClient(addr)
	var mu sync.Mutex
	open := 0
	id := uint64(1)
	hx.Run(t, hx.N{Quick: 3000}, "malformed, incomplete or junk input is sent, in or out of a transaction",
		func(rt *rapid.T, c *hx.Case) {
			mem := hx.NewMemKV()
			_ = mem.Set([]byte("a"), []byte("1"), nil)
			_ = mem.Set([]byte("aa"), []byte("2"), &mondis.VMetaReq{Tag: 3})
			_ = mem.Set([]byte("\xff"), nil, nil)
			ref := mem.Clone()
			mem.MaxTxnOps = rapid.SampledFrom([]int{0, 0, 3}).Draw(rt, "maxOps")
			ref.MaxTxnOps = mem.MaxTxnOps
			srv.set(&countKV{MemKV: mem, mu: &mu, open: &open})

			drawReq := func() (cmd uint32, b []byte) {
				o := drawOp(rt, true, true)
				cmd, b = body(o, rapid.IntRange(0, 7).Draw(rt, "opts") > 0)
				if rapid.IntRange(0, 2).Draw(rt, "bad") == 0 {
					b = badBody(rt, b)
				}
				// expiry within the time of a case would make the outcome a matter of speed
				if m, ok := meaning(cmd, b); ok && m.meta != nil && m.meta.TTL != 0 && m.meta.TTL < time.Hour {
					b = nil
				}
				return
			}
			// a peer may leave the stream of a transaction open
			endFlag := func() byte {
				if rapid.IntRange(0, 3).Draw(rt, "leaveOpen") == 0 {
					return 0
				}
				return flagEnd
			}
			var conns [][]sent
			for k := rapid.IntRange(1, 3).Draw(rt, "connections"); k > 0; k-- {
				var frames []sent
				for j := rapid.IntRange(1, 5).Draw(rt, "moves"); j > 0; j-- {
					id += 2
					switch move := rapid.IntRange(0, 9).Draw(rt, "move"); {
					case move < 4:
						cmd, b := drawReq()
						fl := rapid.SampledFrom([]byte{flagNB, flagNB, 0, flagNB | flagEnd}).Draw(rt, "flags")
						frames = append(frames, sent{what: "request", req: true, id: id, cmd: cmd, flags: fl, body: b})
					case move < 8:
						cmd, b := drawReq()
						opq := uint32(rapid.SampledFrom([]int{0, 1, 1, 1}).Draw(rt, "opaque")) << 16
						frames = append(frames, sent{what: "transaction begins", req: true, id: id, cmd: cmd | opq, flags: flagStream, body: b})
						for n := rapid.IntRange(0, 5).Draw(rt, "frames"); n > 0; n-- {
							if rapid.IntRange(0, 11).Draw(rt, "unknown") == 0 {
								frames = append(frames, sent{what: "unknown command in the transaction", req: true, id: id,
									cmd: rapid.SampledFrom([]uint32{1, 3, 5, 7, 9, 11, 13, 14, 99, 0xffff, 0x10000 | cmdSet, 0x10000 | cmdCommit, 0xffffff}).Draw(rt, "cmd"), flags: flagStream, body: b})
								continue
							}
							cmd, b := drawReq()
							frames = append(frames, sent{what: "in the transaction", req: true, id: id, cmd: cmd, flags: flagStream, body: b})
							if rapid.IntRange(0, 7).Draw(rt, "probe") == 0 {
								frames = append(frames, sent{what: "another client", probe: true})
							}
						}
						switch rapid.IntRange(0, 4).Draw(rt, "end") {
						case 0, 1:
							frames = append(frames, sent{what: "commit", req: true, id: id, cmd: cmdCommit, flags: flagStream | endFlag(), body: rapid.SampledFrom([][]byte{nil, nil, {1}, {0x80}}).Draw(rt, "commitBody")})
						case 2:
							frames = append(frames, sent{what: "discard", req: true, id: id, cmd: cmdDiscard, flags: flagStream | endFlag()})
						case 3:
							frames = append(frames, sent{what: "close", close: true})
						default:
							f := frame(id, flagRst, 0, nil)
							frames = append(frames, sent{what: "reset", bytes: f, raw: true})
						}
					default:
						var b []byte
						cmd, pl := drawReq()
						if o, ok := meaning(cmd, pl); !ok || o.kind == kSet || o.kind == kDelete {
							cmd, pl = cmdSet, []byte{0x0a, 0xff} // never a valid mutation
						}
						switch rapid.IntRange(0, 7).Draw(rt, "junk") {
						case 0:
							b = rapid.SliceOfN(rapid.Byte(), 0, 64).Draw(rt, "bytes")
							if len(b) > 0 {
								b[0] |= 0x80 // not a size anybody accepts
							}
						case 1:
							b = make([]byte, 16)
							binary.BigEndian.PutUint32(b, rapid.SampledFrom([]uint32{0, 1, 11, 12 + 10<<20, 1 << 31, 1<<32 - 1}).Draw(rt, "size"))
						case 2:
							b = frame(id, flagNB, cmd, pl)
							b = b[:rapid.IntRange(0, len(b)-1).Draw(rt, "cutAt")]
						case 3:
							b = frame(id, rapid.Byte().Draw(rt, "flags"), cmd, pl)
						case 4:
							b = frame(id+1, flagNB, cmd, pl)
						case 5:
							b = frame(rapid.Uint64().Draw(rt, "id"), rapid.Byte().Draw(rt, "flags"), rapid.Uint32Range(14, 0xffff).Draw(rt, "cmd"), pl)
						case 6:
							b = frame(id, flagStream|flagEnd, cmdCommit, pl)
						default:
							b = append(frame(id, flagStream, cmd, pl), frame(id, flagRst, cmd, pl)...)
						}
						frames = append(frames, sent{what: fmt.Sprintf("junk %x", b), bytes: b, raw: true})
					}
				}
				conns = append(conns, frames)
			}

			for _, frames := range conns {
				for i := range frames {
					_, ok := meaning(frames[i].cmd&0xffff, frames[i].body)
					if f := frames[i]; f.what == "commit" || f.what == "discard" {
						ok = f.flags&flagEnd != 0
					}
					if frames[i].req && !ok && rapid.Bool().Draw(rt, "more") {
						for n := rapid.IntRange(1, 3).Draw(rt, "howMany"); n > 0; n-- {
							frames[i].after = append(frames[i].after, op{kind: rapid.SampledFrom([]opKind{kGet, kExists, kScan}).Draw(rt, "afterKind"), k: []byte("a"), scan: mondis.ScanOption{Limit: 3}})
						}
						frames[i].afterNew = rapid.Bool().Draw(rt, "afterNew")
					}
				}
			}

			probe := func() {
				v := []byte(fmt.Sprint(id))
				if err := other.Set([]byte("probe"), v, nil); err != nil {
					hx.Failf("another client cannot write: %v", err)
				}
				_ = ref.Set([]byte("probe"), v, nil)
				if got, _, err := other.Get([]byte("probe")); err != nil || string(got) != string(v) {
					hx.Failf("another client reads %q, %v instead of %q", got, err, v)
				}
			}
			problem := guarded(func() {
				for _, frames := range conns {
					c.Step("connect")
					con, err := net.Dial("tcp", addr)
					if err != nil {
						hx.Failf("the server does not accept connections: %v", err)
					}
					var txn *hx.MemTxn
					txnID := uint64(0)
					alive := true
					// whatever became of the connection, more requests on it are answered
					// or it is closed
					more := func(s sent, inTxn bool) {
						sid := s.id
						if s.afterNew {
							sid += 1000000
						}
						for _, a := range s.after {
							ac, ab := body(a, true)
							c.Step("then, on %d (stream %v): %v", sid-s.id, inTxn, a)
							if _, err := con.Write(frame(sid, s.flags, ac, ab)); err != nil {
								break
							}
							if _, err := readFrame(con, hang/2); err == errClosed {
								break
							} else if err != nil {
								hx.Failf("%v after command %d body %x is not answered and the connection stays open: %v", a, s.cmd, s.body, err)
							}
							if !inTxn {
								sid += 2
							}
						}
					}
					for _, s := range frames {
						if !alive {
							break
						}
						switch {
						case s.probe:
							probe()
							continue
						case s.close:
							c.Step("close")
							alive = false
							continue
						case s.raw:
							c.Step("%s", s.what)
							c.Class("junk")
							c.NonTrivial()
							_, _ = con.Write(s.bytes)
							if tc, ok := con.(*net.TCPConn); ok && id%3 == 0 {
								_ = tc.CloseWrite()
								_, _ = readFrame(con, 50*time.Millisecond)
							}
							alive = false
							continue
						}
						c.Step("%s: command %d flags %d body %x", s.what, s.cmd, s.flags, s.body)
						if _, err := con.Write(frame(s.id, s.flags, s.cmd, s.body)); err != nil {
							hx.Failf("the server closed the connection though nothing was wrong: %v", err)
						}
						f, err := readFrame(con, hang/2)
						if err != nil && err != errClosed {
							hx.Failf("%s: command %d body %x: %v", s.what, s.cmd, s.body, err)
						}
						if f != nil && f.id != s.id {
							hx.Failf("the answer to %d is for %d", s.id, f.id)
						}
						inTxn := s.flags&flagStream != 0
						cont := txn != nil && txnID == s.id
						switch {
						case cont && s.cmd == cmdCommit:
							want := txn.Commit()
							txn = nil
							if f == nil {
								hx.Failf("a commit is not answered")
							}
							r, _, aerr := answer(cmdCommit, f)
							if aerr != nil || (r.err != nil) != (want != nil) {
								hx.Failf("the commit is answered with %v, %v, a local one with %v", r.err, aerr, want)
							}
							c.Class("committed")
							if s.after != nil {
								c.Class("more requests after the end of a transaction")
								c.NonTrivial()
								alive = false
								more(s, true)
							}
							continue
						case cont && s.cmd == cmdDiscard:
							txn.Discard()
							txn = nil
							if s.after != nil {
								c.Class("more requests after the end of a transaction")
								c.NonTrivial()
								alive = false
								more(s, true)
							}
							continue
						}
						route := s.cmd
						if !cont {
							route &= 0xffff
						}
						o, ok := meaning(route, s.body)
						if !ok {
							c.NonTrivial()
							c.ClassIf(!inTxn, "malformed request")
							c.ClassIf(inTxn && !cont, "malformed begin of a transaction")
							c.ClassIf(cont, "malformed request in a transaction")
							if f != nil && f.flags&flagRst == 0 {
								r, _, aerr := answer(route, f)
								if aerr == nil && r.err == nil {
									hx.Failf("%s: command %d with the malformed body %x is answered with success", s.what, s.cmd, s.body)
								}
							}
							if txn != nil {
								txn.Discard()
								txn = nil
							}
							alive = false // it may be closing
							if s.after == nil {
								continue
							}
							c.Class("more requests after a malformed one")
							more(s, inTxn)
							continue
						}
						if f == nil {
							hx.Failf("%s: %v is answered by closing the connection", s.what, o)
						}
						var target localOps = ref
						if inTxn {
							if !cont {
								txn = ref.Begin(o.kind == kSet || o.kind == kDelete || s.cmd>>16 == 1)
								txnID = s.id
							}
							target = txn
						}
						want := o.onLocal(target)
						got, code, aerr := answer(route, f)
						if aerr != nil {
							hx.Failf("%s: %v: %v", s.what, o, aerr)
						}
						if want.err == kv.ErrTxnTooBig && inTxn {
							if code != 3 {
								hx.Failf("%s: %v is too big, answered with code %d", s.what, o, code)
							}
							got.err = kv.ErrTxnTooBig
						}
						if msg := sameResult(got, want); msg != "" {
							hx.Failf("%s: %v: %s", s.what, o, msg)
						}
					}
					_ = con.Close()
					if txn != nil {
						txn.Discard()
					}
					probe()
				}
				if n := waitNone(&mu, &open); n > 0 {
					hx.Failf("%d transactions stay open after their connections ended", n)
				}
				da, _ := dump(mem)
				db, _ := dump(ref)
				if msg := sameResult(result{entries: da}, result{entries: db}); msg != "" {
					hx.Failf("the stored data: %s", msg)
				}
			})
			if problem != "" {
				mu.Lock()
				open = 0
				mu.Unlock()
				rt.Fatalf("%s\nhistory: %s", problem, c.Trace())
			}
		})
}

// --- the client against servers that misbehave

type reply struct {
	kind int // 0 proper, 1 proper with an error code, 2 other payload, 3 close, 4 part of the response then close, 5 reset
	code int32
	pl   []byte
	cut  int
}

type fakeServer struct {
	ln   net.Listener
	mu   sync.Mutex
	plan []reply
	seen int
}

func (s *fakeServer) arm(p []reply) {
	s.mu.Lock()
	s.plan, s.seen = p, 0
	s.mu.Unlock()
}

func (s *fakeServer) next() (r reply) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.seen < len(s.plan) {
		r = s.plan[s.seen]
	}
	s.seen++
	return
}

func properPayload(cmd uint32, code int32) (b []byte) {
	switch cmd {
	case cmdSet:
		b, _ = (&pb.SetResponse{Code: code}).Marshal()
	case cmdGet:
		b, _ = (&pb.GetResponse{Code: code, Value: []byte("value"), Meta: &pb.VMetaResp{Tag: 7}}).Marshal()
	case cmdExists:
		b, _ = (&pb.ExistsResponse{Code: code, Exists: true}).Marshal()
	case cmdDelete:
		b, _ = (&pb.DeleteResponse{Code: code}).Marshal()
	case cmdScan:
		b, _ = (&pb.ScanResponse{Code: code, Entries: []*pb.Entry{{Key: []byte("k"), Value: []byte("value"), Meta: &pb.VMetaResp{Tag: 7}}}}).Marshal()
	case cmdCommit:
		b, _ = (&pb.CommitResponse{Code: code}).Marshal()
	}
	return
}

func (s *fakeServer) serve() {
	for {
		con, err := s.ln.Accept()
		if err != nil {
			return
		}
		go func() {
			defer con.Close()
			streams := map[uint64]bool{}
			for {
				var h [16]byte
				if _, err := io.ReadFull(con, h[:]); err != nil {
					return
				}
				n := binary.BigEndian.Uint32(h[:])
				if _, err := io.CopyN(io.Discard, con, int64(n)-12); err != nil {
					return
				}
				id, fl, cmd := binary.BigEndian.Uint64(h[4:]), h[12], binary.BigEndian.Uint32(h[12:])&0xffff
				out := byte(0)
				if fl&(flagStream|flagEnd) != 0 {
					out = flagStream
					if cmd == cmdCommit || cmd == cmdDiscard {
						out |= flagEnd
					}
				}
				first := !streams[id]
				streams[id] = true
				r := s.next()
				pl := properPayload(cmd, 0)
				switch r.kind {
				case 1:
					pl = properPayload(cmd, r.code)
				case 2:
					pl = r.pl
				case 3:
					return
				case 4:
					f := frame(id, out, cmd+1, pl)
					_, _ = con.Write(f[:r.cut%len(f)])
					return
				case 5:
					if !first {
						_, _ = con.Write(frame(id, flagRst, 0, nil))
						continue
					}
				}
				if _, err := con.Write(frame(id, out, cmd+1, pl)); err != nil {
					return
				}
			}
		}()
	}
}

func TestP09_Client(t *testing.T) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		hx.Infra("listen: %v", err)
	}
	fake := &fakeServer{ln: ln}
	go fake.serve()
	defer ln.Close()
	cl := newClient(ln.Addr().String())
	hx.Run(t, hx.N{Quick: 3000}, "a response is malformed, incomplete, cut off or missing",
		func(rt *rapid.T, c *hx.Case) {
			mode := rapid.IntRange(0, 2).Draw(rt, "mode") // 0: single operations, 1: update, 2: view
			var ops []op
			for n := rapid.IntRange(1, 5).Draw(rt, "ops"); n > 0; n-- {
				o := drawOp(rt, true, true)
				if mode == 2 && (o.kind == kSet || o.kind == kDelete) {
					o.kind = kGet
				}
				if o.kind == kScan {
					o.scan.Limit = 10
				}
				ops = append(ops, o)
			}
			var plan []reply
			for range ops {
				r := reply{kind: rapid.SampledFrom([]int{0, 0, 1, 2, 2, 3, 4, 5}).Draw(rt, "reply")}
				r.code = rapid.SampledFrom([]int32{1, 2, 3, 4, 5, -1}).Draw(rt, "code")
				r.cut = rapid.IntRange(0, 60).Draw(rt, "cut")
				if r.kind == 2 {
					if rapid.Bool().Draw(rt, "incomplete") {
						r.pl = rapid.SampledFrom([][]byte{nil, {0x0a, 0x01, 'x'}, {0x1a, 0x03, 0x0a, 0x01, 'k'}, {0x1a, 0}, {0x22, 0}, {0x1a, 1, 'v'}}).Draw(rt, "payload")
					} else {
						r.pl = badBody(rt, properPayload(rapid.SampledFrom([]uint32{cmdSet, cmdGet, cmdExists, cmdDelete, cmdScan}).Draw(rt, "of"), 0))
					}
				}
				plan = append(plan, r)
				c.NonTrivialIf(r.kind > 1)
			}
			if rapid.Bool().Draw(rt, "badEnd") {
				plan = append(plan, reply{kind: rapid.SampledFrom([]int{1, 2, 3, 4}).Draw(rt, "endReply"), code: 2, pl: []byte{0xff}, cut: rapid.IntRange(0, 30).Draw(rt, "cut")})
			}
			c.Class([]string{"single operations", "update", "view"}[mode])
			problem := guarded(func() {
				fake.arm(nil)
				ready := false
				for try := 0; try < 500 && !ready; try++ {
					_, err := cl.Exists([]byte("a"))
					if ready = err == nil; !ready {
						time.Sleep(2 * time.Millisecond)
					}
				}
				if !ready {
					hx.Failf("the client does not work again")
				}
				fake.arm(plan)
				judge := func(i int, r result, dead bool) bool {
					rp := plan[i]
					c.Step("%v answered with %d code %d payload %x cut %d -> %v", ops[i], rp.kind, rp.code, rp.pl, rp.cut, r.err)
					if dead && r.err == nil {
						hx.Failf("%v succeeds in a dead transaction", ops[i])
					}
					if dead {
						return true
					}
					switch rp.kind {
					case 0:
						if r.err != nil {
							hx.Failf("%v answered properly gives %v", ops[i], r.err)
						}
					case 1:
						if r.err == nil || ((rp.code == 4 && ops[i].kind == kGet) != (r.err == kv.ErrKeyNotFound)) {
							hx.Failf("%v answered with code %d gives %v", ops[i], rp.code, r.err)
						}
					case 2:
						cmd, _ := body(ops[i], true)
						_, code, aerr := answer(cmd, &rframe{cmd: cmd + 1, payload: append([]byte{}, rp.pl...)})
						if (aerr != nil || code != 0) != (r.err != nil) {
							hx.Failf("%v answered with %x gives %v", ops[i], rp.pl, r)
						}
					case 3, 4:
						if r.err == nil {
							hx.Failf("%v on a closed connection gives %v", ops[i], r)
						}
						return true
					case 5:
						if mode != 0 && i > 0 {
							if r.err == nil {
								hx.Failf("%v on a reset transaction gives %v", ops[i], r)
							}
							return true
						}
					}
					return false
				}
				if mode == 0 {
					for i, o := range ops {
						r := o.onRemote(cl)
						if plan[i].kind == 5 {
							continue
						}
						if judge(i, r, false) {
							break // what the next one meets is up to the reconnect
						}
					}
					return
				}
				dead, firstDead := false, false
				fn := func(txn mondis.Txn) error {
					for i, o := range ops {
						r := o.onRemote(txn)
						dead = judge(i, r, dead)
						if dead && i == 0 {
							firstDead = true
						}
						if dead {
							break
						}
					}
					return nil
				}
				if mode == 1 {
					err := cl.Update(fn)
					c.Step("update ends with %v", err)
					if dead && !firstDead && err == nil {
						hx.Failf("the update of a dead transaction succeeds")
					}
					if !dead && len(plan) > len(ops) && err == nil {
						hx.Failf("the update succeeds though its commit was not confirmed")
					}
				} else {
					_ = cl.View(fn)
				}
			})
			if problem != "" {
				rt.Fatalf("%s\nhistory: %s", problem, c.Trace())
			}
		})
}
