package remote

import (
	"fmt"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

func drawMeta(rt *rapid.T) *mondis.VMetaReq {
	switch rapid.IntRange(0, 5).Draw(rt, "metaKind") {
	case 0:
		return &mondis.VMetaReq{}
	case 1:
		return &mondis.VMetaReq{Tag: rapid.Byte().Draw(rt, "tag")}
	case 2:
		return &mondis.VMetaReq{Tag: rapid.SampledFrom([]byte{1, 127, 128, 255}).Draw(rt, "tag"),
			TTL: time.Duration(rapid.IntRange(3600, 100000).Draw(rt, "ttl")) * time.Second}
	}
	return nil
}

func drawScan(rt *rapid.T, reverse bool) mondis.ScanOption {
	o := mondis.ScanOption{Limit: rapid.SampledFrom([]int{-1, 0, 1, 1, 2, 3, 5, 100, 999, 1000, 1001, 5000}).Draw(rt, "limit")}
	if rapid.Bool().Draw(rt, "hasPrefix") {
		o.Prefix = hx.SmallKey(rt, "prefix")
	}
	if rapid.Bool().Draw(rt, "hasOffset") {
		o.Offset = hx.SmallKey(rt, "offset")
	}
	o.Reverse = reverse && rapid.Bool().Draw(rt, "reverse")
	return o
}

func drawOp(rt *rapid.T, meta, reverse bool) op {
	o := op{kind: rapid.SampledFrom([]opKind{kSet, kSet, kSet, kGet, kGet, kExists, kDelete, kScan, kScan}).Draw(rt, "kind")}
	if o.kind == kScan {
		o.scan = drawScan(rt, reverse)
		return o
	}
	o.k = hx.SmallKey(rt, "key")
	if o.kind == kSet {
		o.v = hx.Value(rt, "value")
		if meta {
			o.meta = drawMeta(rt)
		}
	}
	return o
}

// sameResult compares what a remote call returned with what the local one did: the dedicated
// errors must match, others must only both be there. Expiry may differ by the second that passed.
func sameResult(remote, local result) string {
	if (remote.err != nil) != (local.err != nil) {
		return fmt.Sprintf("remote error %v, local error %v", remote.err, local.err)
	}
	for _, e := range []error{kv.ErrKeyNotFound, kv.ErrTxnTooBig} {
		if (remote.err == e) != (local.err == e) {
			return fmt.Sprintf("remote error %v, local error %v", remote.err, local.err)
		}
	}
	if local.err != nil {
		if len(remote.entries) > 0 || len(remote.v) > 0 || remote.exists {
			return fmt.Sprintf("a failed remote call returns %v", remote)
		}
		return ""
	}
	near := func(a, b mondis.VMetaResp) bool {
		d := int64(a.ExpiresAt) - int64(b.ExpiresAt)
		return a.Tag == b.Tag && d >= -30 && d <= 30 && (a.ExpiresAt == 0) == (b.ExpiresAt == 0)
	}
	if string(remote.v) != string(local.v) || !near(remote.meta, local.meta) || remote.exists != local.exists {
		return fmt.Sprintf("remote %v, local %v", remote, local)
	}
	if len(remote.entries) != len(local.entries) {
		return fmt.Sprintf("remote %s, local %s", showEntries(remote.entries), showEntries(local.entries))
	}
	for i := range local.entries {
		a, b := remote.entries[i], local.entries[i]
		if string(a.Key) != string(b.Key) || string(a.Value) != string(b.Value) || !near(a.Meta, b.Meta) {
			return fmt.Sprintf("remote %s, local %s", showEntries(remote.entries), showEntries(local.entries))
		}
	}
	return ""
}
