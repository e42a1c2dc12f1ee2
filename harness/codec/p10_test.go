package codec

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"testing"

	"github.com/zhiqiangxu/mondis/pb"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

type message interface {
	Marshal() ([]byte, error)
	MarshalTo([]byte) (int, error)
	Unmarshal([]byte) error
	Size() int
	Reset()
	String() string
}

var msgTypes = []func() message{
	func() message { return &pb.SetRequest{} },
	func() message { return &pb.SetResponse{} },
	func() message { return &pb.GetRequest{} },
	func() message { return &pb.GetResponse{} },
	func() message { return &pb.ExistsRequest{} },
	func() message { return &pb.ExistsResponse{} },
	func() message { return &pb.DeleteRequest{} },
	func() message { return &pb.DeleteResponse{} },
	func() message { return &pb.VMetaReq{} },
	func() message { return &pb.VMetaResp{} },
	func() message { return &pb.CommitResponse{} },
	func() message { return &pb.ScanRequest{} },
	func() message { return &pb.ProviderScanOption{} },
	func() message { return &pb.Entry{} },
	func() message { return &pb.ScanResponse{} },
}

var bytesT = reflect.TypeOf([]byte(nil))

// fill sets every exported non-XXX field of the struct to a drawn value.
func fill(rt *rapid.T, v reflect.Value, depth int) {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		name := t.Field(i).Name
		if len(name) >= 4 && name[:4] == "XXX_" {
			continue
		}
		f := v.Field(i)
		switch {
		case f.Type() == bytesT:
			f.SetBytes(blob(rt, name))
		case f.Kind() == reflect.String:
			f.SetString(string(rapid.OneOf(rapid.Just(""), rapid.StringN(0, 40, 150), rapid.Just("x\x00\xc3\xa9")).Draw(rt, name)))
		case f.Kind() == reflect.Int32:
			f.SetInt(int64(rapid.OneOf(rapid.SampledFrom([]int32{0, 1, -1, 127, 128, math.MaxInt32, math.MinInt32}), rapid.Int32()).Draw(rt, name)))
		case f.Kind() == reflect.Int64:
			f.SetInt(hx.Int64(rt, name))
		case f.Kind() == reflect.Uint32:
			f.SetUint(uint64(rapid.OneOf(rapid.SampledFrom([]uint32{0, 1, 127, 128, math.MaxUint32}), rapid.Uint32()).Draw(rt, name)))
		case f.Kind() == reflect.Uint64:
			f.SetUint(hx.Uint64(rt, name))
		case f.Kind() == reflect.Bool:
			f.SetBool(rapid.Bool().Draw(rt, name))
		case f.Kind() == reflect.Ptr:
			if rapid.Bool().Draw(rt, name+"Set") {
				f.Set(reflect.New(f.Type().Elem()))
				fill(rt, f.Elem(), depth+1)
			}
		case f.Kind() == reflect.Slice && f.Type().Elem().Kind() == reflect.Ptr:
			n := rapid.SampledFrom([]int{0, 1, 2, 3, 7}).Draw(rt, name+"N")
			for j := 0; j < n; j++ {
				e := reflect.New(f.Type().Elem().Elem())
				fill(rt, e.Elem(), depth+1)
				f.Set(reflect.Append(f, e))
			}
		default:
			rt.Fatalf("harness: field %s of %s not handled", name, t)
		}
	}
}

func blob(rt *rapid.T, name string) []byte {
	switch rapid.IntRange(0, 6).Draw(rt, name+"Kind") {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		n := rapid.SampledFrom([]int{126, 127, 128, 129, 300, 16383, 16384, 20000}).Draw(rt, name+"Len")
		return hx.Fill(n, rapid.Byte().Draw(rt, name+"Fill"))
	default:
		return rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(rt, name)
	}
}

// diff compares two messages ignoring XXX_ fields, nil and empty slices being equal.
func diff(a, b reflect.Value, path string) string {
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: nil %v vs %v", path, a.IsNil(), b.IsNil())
		}
		if a.IsNil() {
			return ""
		}
		return diff(a.Elem(), b.Elem(), path)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			name := a.Type().Field(i).Name
			if len(name) >= 4 && name[:4] == "XXX_" {
				continue
			}
			if d := diff(a.Field(i), b.Field(i), path+"."+name); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice:
		if a.Type() == bytesT {
			if !bytes.Equal(a.Bytes(), b.Bytes()) {
				return fmt.Sprintf("%s: %s vs %s", path, hx.Q(a.Bytes()), hx.Q(b.Bytes()))
			}
			return ""
		}
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d vs %d elements", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := diff(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	default:
		if a.Interface() != b.Interface() {
			return fmt.Sprintf("%s: %v vs %v", path, a.Interface(), b.Interface())
		}
		return ""
	}
}

func msgDiff(a, b message) string { return diff(reflect.ValueOf(a), reflect.ValueOf(b), "") }

func mustEncode(rt *rapid.T, m message) []byte {
	size := m.Size()
	b, err := m.Marshal()
	if err != nil {
		rt.Fatalf("Marshal(%+v): %v", m, err)
	}
	if len(b) != size {
		rt.Fatalf("%T: Size()=%d but the encoding has %d bytes", m, size, len(b))
	}
	return b
}

// topFields splits an encoding at its top-level field boundaries with the reference rules of the
// wire format (varint tag; types 0,1,2,5; groups).
func topFields(b []byte) (ends []int, ok bool) {
	i := 0
	for i < len(b) {
		n := wireField(b[i:], 0)
		if n <= 0 {
			return ends, false
		}
		i += n
		ends = append(ends, i)
	}
	return ends, true
}

// wireField returns the length of the first field of b, or -1.
func wireField(b []byte, depth int) int {
	tag, n := binary.Uvarint(b)
	if n <= 0 || depth > 50 {
		return -1
	}
	switch tag & 7 {
	case 0:
		_, k := binary.Uvarint(b[n:])
		if k <= 0 {
			return -1
		}
		return n + k
	case 1:
		if len(b) < n+8 {
			return -1
		}
		return n + 8
	case 5:
		if len(b) < n+4 {
			return -1
		}
		return n + 4
	case 2:
		l, k := binary.Uvarint(b[n:])
		if k <= 0 || l > uint64(len(b)-n-k) {
			return -1
		}
		return n + k + int(l)
	case 3:
		for {
			t, k := binary.Uvarint(b[n:])
			if k <= 0 {
				return -1
			}
			if t&7 == 4 {
				return n + k
			}
			f := wireField(b[n:], depth+1)
			if f <= 0 {
				return -1
			}
			n += f
		}
	}
	return -1
}

// hostileDepth is the depth argument from which unknownField may produce malformed groups.
const hostileDepth = 100

func unknownField(rt *rapid.T, depth int) []byte {
	num := rapid.OneOf(rapid.Uint64Range(5, 40), rapid.SampledFrom([]uint64{2047, 2048, 1<<29 - 1})).Draw(rt, "unknownNum")
	wt := rapid.SampledFrom([]uint64{0, 1, 2, 5, 3}).Draw(rt, "unknownWire")
	if depth%hostileDepth >= 2 && wt == 3 {
		wt = 0
	}
	b := binary.AppendUvarint(nil, num<<3|wt)
	switch wt {
	case 0:
		b = binary.AppendUvarint(b, hx.Uint64(rt, "unknownVarint"))
	case 1:
		b = append(b, rapid.SliceOfN(rapid.Byte(), 8, 8).Draw(rt, "unknown64")...)
	case 5:
		b = append(b, rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(rt, "unknown32")...)
	case 2:
		if depth >= hostileDepth && rapid.IntRange(0, 3).Draw(rt, "badLength") == 0 {
			// a length with which the position just overflows, or just does not
			return binary.AppendUvarint(b, 1<<63-rapid.Uint64Range(0, 40).Draw(rt, "nearOverflow"))
		}
		p := rapid.SliceOfN(rapid.Byte(), 0, 140).Draw(rt, "unknownBytes")
		b = binary.AppendUvarint(b, uint64(len(p)))
		b = append(b, p...)
	case 3:
		if rapid.IntRange(0, 7).Draw(rt, "badGroup") == 0 && depth >= hostileDepth {
			// a member that claims an absurd length
			b = append(b, 0x2a)
			b = binary.AppendUvarint(b, rapid.SampledFrom([]uint64{1<<63 - 1, 1<<63 - 2, 1<<63 - 16, 1 << 63, 1<<64 - 1}).Draw(rt, "absurd"))
		}
		for n := rapid.IntRange(0, 2).Draw(rt, "groupN"); n > 0; n-- {
			b = append(b, unknownField(rt, depth+1)...)
		}
		b = binary.AppendUvarint(b, num<<3|4)
	}
	return b
}

func drawMsg(rt *rapid.T) (message, func() message) {
	mk := msgTypes[rapid.IntRange(0, len(msgTypes)-1).Draw(rt, "type")]
	m := mk()
	fill(rt, reflect.ValueOf(m).Elem(), 0)
	return m, mk
}

func TestP10_RoundTrip(t *testing.T) {
	hx.Run(t, hx.N{Quick: 72000}, "a message whose encoding is not empty, with the fields drawn over their whole range",
		func(rt *rapid.T, c *hx.Case) {
			m, mk := drawMsg(rt)
			b := mustEncode(rt, m)
			c.Step("%T %x", m, trim(b))
			c.NonTrivialIf(len(b) > 0)
			c.Class(fmt.Sprintf("%T", m))
			in := hx.Copy(b)
			got := mk()
			if err := got.Unmarshal(in); err != nil {
				rt.Fatalf("%T: own encoding does not decode: %v\n%+v\n%x", m, err, m, b)
			}
			if !bytes.Equal(in, b) {
				rt.Fatalf("%T: decoding modified its input", m)
			}
			if d := msgDiff(m, got); d != "" {
				rt.Fatalf("%T: decoded message differs: %s", m, d)
			}
			// encoding into a larger buffer
			pad := rapid.IntRange(0, 9).Draw(rt, "pad")
			buf := bytes.Repeat([]byte{0xEE}, len(b)+pad)
			n, err := m.MarshalTo(buf)
			if err != nil || n != len(b) {
				rt.Fatalf("%T: MarshalTo=%d,%v want %d", m, n, err, len(b))
			}
			again := mk()
			if err := again.Unmarshal(buf[:n]); err != nil {
				rt.Fatalf("%T: MarshalTo's encoding does not decode: %v", m, err)
			}
			if d := msgDiff(m, again); d != "" {
				rt.Fatalf("%T: message from MarshalTo differs: %s", m, d)
			}
			for _, x := range buf[n:] {
				if x != 0xEE {
					rt.Fatalf("%T: MarshalTo wrote past the announced size", m)
				}
			}
			// encoding is repeatable and leaves the message as it was
			b2 := mustEncode(rt, got)
			third := mk()
			if err := third.Unmarshal(b2); err != nil || msgDiff(m, third) != "" {
				rt.Fatalf("%T: second round trip differs: %v %s", m, err, msgDiff(m, third))
			}
			viaInterface(rt, m, mk, b)
			_ = m.String()
			got.Reset()
			if d := msgDiff(got, mk()); d != "" {
				rt.Fatalf("%T: Reset leaves %s", m, d)
			}
		})
}

// generated is what protobuf libraries use of a message.
type generated interface {
	XXX_Unmarshal([]byte) error
	XXX_Marshal([]byte, bool) ([]byte, error)
	XXX_Size() int
}

// viaInterface checks the message by way of its getters and the methods protobuf libraries use.
func viaInterface(rt *rapid.T, m message, mk func() message, b []byte) {
	v := reflect.ValueOf(m)
	t := v.Elem().Type()
	for i := 0; i < t.NumField(); i++ {
		name := t.Field(i).Name
		get := v.MethodByName("Get" + name)
		if !get.IsValid() {
			continue
		}
		if d := diff(v.Elem().Field(i), get.Call(nil)[0], "Get"+name); d != "" {
			rt.Fatalf("%T: the getter and the field differ: %s", m, d)
		}
		zero := reflect.Zero(v.Type()).MethodByName("Get" + name).Call(nil)[0]
		if d := diff(reflect.Zero(t.Field(i).Type), zero, "Get"+name); d != "" {
			rt.Fatalf("%T: the getter of no message: %s", m, d)
		}
	}
	g := m.(generated)
	if n := g.XXX_Size(); n != len(b) {
		rt.Fatalf("%T: XXX_Size()=%d but the encoding has %d bytes", m, n, len(b))
	}
	enc, err := g.XXX_Marshal(make([]byte, 0, len(b)), false)
	if err != nil {
		rt.Fatalf("%T: XXX_Marshal: %v", m, err)
	}
	got := mk()
	if err := got.(generated).XXX_Unmarshal(enc); err != nil {
		rt.Fatalf("%T: what XXX_Marshal wrote does not decode: %v", m, err)
	}
	if d := msgDiff(m, got); d != "" {
		rt.Fatalf("%T: message from XXX_Marshal differs: %s", m, d)
	}
}

func trim(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

func TestP10_UnknownFieldsSkipped(t *testing.T) {
	hx.Run(t, hx.N{Quick: 48000}, "at least one unknown field spliced between the top-level fields of a non-empty message",
		func(rt *rapid.T, c *hx.Case) {
			m, mk := drawMsg(rt)
			b := mustEncode(rt, m)
			ends, ok := topFields(b)
			if !ok {
				rt.Fatalf("%T: encoding is not a sequence of wire fields: %x", m, b)
			}
			var out []byte
			last, added := 0, 0
			for _, e := range append([]int{0}, ends...) {
				out = append(out, b[last:e]...)
				last = e
				if rapid.IntRange(0, 2).Draw(rt, "splice") == 0 {
					u := unknownField(rt, 0)
					out = append(out, u...)
					added++
					c.Class(fmt.Sprintf("wire type %d", u[0]&7))
				}
			}
			c.Step("%T %x", m, trim(out))
			c.NonTrivialIf(added > 0 && len(b) > 0)
			got := mk()
			if err := got.Unmarshal(out); err != nil {
				rt.Fatalf("%T: unknown fields are not skipped: %v\n%x", m, err, out)
			}
			if d := msgDiff(m, got); d != "" {
				rt.Fatalf("%T: unknown fields changed the message: %s\n%x", m, d, out)
			}
			b2 := mustEncode(rt, got)
			third := mk()
			if err := third.Unmarshal(b2); err != nil || msgDiff(m, third) != "" {
				rt.Fatalf("%T: re-encoding with unknown fields differs: %v %s", m, err, msgDiff(m, third))
			}
		})
}

// mutate corrupts an encoding.
func mutate(rt *rapid.T, b []byte, other []byte) []byte {
	b = hx.Copy(b)
	for n := rapid.IntRange(1, 4).Draw(rt, "mutations"); n > 0; n-- {
		if len(b) == 0 {
			b = append(b, rapid.SliceOfN(rapid.Byte(), 1, 12).Draw(rt, "fresh")...)
			continue
		}
		pos := rapid.IntRange(0, len(b)-1).Draw(rt, "pos")
		switch rapid.IntRange(0, 8).Draw(rt, "mut") {
		case 0:
			b[pos] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
		case 1:
			b[pos] = rapid.Byte().Draw(rt, "byte")
		case 2:
			b = b[:pos]
		case 3:
			b = append(b[:pos:pos], b[pos+1:]...)
		case 4:
			ins := rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(rt, "ins")
			b = append(append(append([]byte{}, b[:pos]...), ins...), b[pos:]...)
		case 5: // a huge or negative length or value
			v := rapid.SampledFrom([]uint64{1 << 31, 1<<31 - 1, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 20, 1<<63 - 5}).Draw(rt, "huge")
			b = append(append(append([]byte{}, b[:pos]...), binary.AppendUvarint(nil, v)...), b[pos+1:]...)
		case 6: // overlong varint
			b = append(append(append([]byte{}, b[:pos]...), bytes.Repeat([]byte{0xff}, rapid.IntRange(1, 12).Draw(rt, "over"))...), b[pos:]...)
		case 7:
			b = append(b, other...)
		case 8: // delimited field with chosen number and claimed length
			num := rapid.Uint64Range(0, 5).Draw(rt, "num")
			wt := rapid.Uint64Range(0, 7).Draw(rt, "wt")
			l := rapid.OneOf(rapid.Uint64Range(0, 200), rapid.SampledFrom([]uint64{1<<31 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 9, 1<<63 - 3})).Draw(rt, "claim")
			f := binary.AppendUvarint(binary.AppendUvarint(nil, num<<3|wt), l)
			f = append(f, rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(rt, "body")...)
			b = append(append(append([]byte{}, b[:pos]...), f...), b[pos:]...)
		}
	}
	return b
}

func TestP10_ArbitraryBytes(t *testing.T) {
	hx.Run(t, hx.N{Quick: 150000}, "bytes that are neither empty nor a message's own encoding (corrupted, truncated, spliced or random)",
		func(rt *rapid.T, c *hx.Case) {
			m, _ := drawMsg(rt)
			base, err := m.Marshal()
			if err != nil {
				rt.Fatalf("Marshal: %v", err)
			}
			// decode as the same or as another message type
			mk := msgTypes[rapid.IntRange(0, len(msgTypes)-1).Draw(rt, "as")]
			same := rapid.IntRange(0, 2).Draw(rt, "same") > 0
			if same {
				ty := reflect.TypeOf(m).Elem()
				mk = func() message { return reflect.New(ty).Interface().(message) }
			}
			var in []byte
			switch rapid.IntRange(0, 5).Draw(rt, "source") {
			case 0:
				in = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(rt, "raw")
				c.Class("raw")
			case 1:
				if len(base) > 0 {
					in = hx.Copy(base[:rapid.IntRange(0, len(base)-1).Draw(rt, "cut")])
				}
				c.Class("truncated")
			case 2:
				in = append(hx.Copy(base), unknownField(rt, hostileDepth)...)
				c.Class("something hostile behind it")
			default:
				in = mutate(rt, base, unknownField(rt, hostileDepth))
				c.Class("mutated")
			}
			got := mk()
			c.Step("%T %x", got, trim(in))
			c.NonTrivialIf(len(in) > 0 && !bytes.Equal(in, base))
			// exact capacity: an over-read panics
			exact := make([]byte, len(in))
			copy(exact, in)
			exact = exact[:len(in):len(in)]
			err1 := got.Unmarshal(exact)
			if !bytes.Equal(exact, in) {
				rt.Fatalf("%T: decoding modified its input", got)
			}
			// the same bytes with something readable behind them decode the same
			big := append(append(make([]byte, 0, len(in)+64), in...), bytes.Repeat([]byte{0x01}, 64)...)[:len(in)]
			got2 := mk()
			err2 := got2.Unmarshal(big)
			if (err1 == nil) != (err2 == nil) {
				rt.Fatalf("%T: decode depends on bytes behind the input: %v vs %v\n%x", got, err1, err2, in)
			}
			if err1 != nil {
				c.Class("rejected")
				return
			}
			c.Class("accepted")
			if d := msgDiff(got, got2); d != "" {
				rt.Fatalf("%T: decode reads behind its input: %s\n%x", got, d, in)
			}
			re := mustEncode(rt, got)
			third := mk()
			if err := third.Unmarshal(re); err != nil {
				rt.Fatalf("%T: re-encoding of an accepted input does not decode: %v\n%x -> %x", got, err, in, re)
			}
			if d := msgDiff(got, third); d != "" {
				rt.Fatalf("%T: re-encoding of an accepted input differs: %s\n%x -> %x", got, d, in, re)
			}
		})
}

// Nesting as deep as a frame of the maximal size allows.
func TestP10_DeepNesting(t *testing.T) {
	hx.Run(t, hx.N{Quick: 12, Thorough: 40}, "groups nested at least a thousand deep",
		func(rt *rapid.T, c *hx.Case) {
			mk := msgTypes[rapid.IntRange(0, len(msgTypes)-1).Draw(rt, "type")]
			n := rapid.SampledFrom([]int{10*1024*1024 - 64, 8000000, 100000, 1000}).Draw(rt, "depth")
			closed := rapid.Bool().Draw(rt, "closed")
			if closed {
				n /= 2
			}
			num := rapid.SampledFrom([]uint64{5, 9, 15}).Draw(rt, "num")
			in := bytes.Repeat([]byte{byte(num<<3 | 3)}, n)
			if closed {
				in = append(in, bytes.Repeat([]byte{byte(num<<3 | 4)}, n)...)
			}
			m := mk()
			c.Step("%T depth %d closed %v", m, n, closed)
			c.NonTrivial()
			err := m.Unmarshal(in)
			if closed && err == nil {
				if d := msgDiff(m, mk()); d != "" {
					rt.Fatalf("%T: unknown groups changed the message: %s", m, d)
				}
			}
			if !closed && err == nil {
				rt.Fatalf("%T: groups that never end are accepted", m)
			}
		})
}
