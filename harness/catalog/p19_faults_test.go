package catalog

import (
	"reflect"
	"sort"
	"testing"

	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/document/model"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

// A catalog call under which the store fails reports that, unless it has the same outcome as without the
// failure; it does not take what it could not read for missing.
func TestP19_Faults(t *testing.T) {
	hx.Run(t, hx.N{Quick: 12000}, "the store fails under a call", func(rt *rapid.T, c *hx.Case) {
		mem := hx.NewMemKV()
		s := catSession{rt, c, false}
		ref := newCat()
		own := meta.JobListKeyType("DDLJobList")
		txn := mem.NewTransaction(true)
		m := meta.NewMeta(txn, own)
		for n := hx.Count(rt, "ops", 1, 25); n > 0; n-- {
			s.op(m, ref, own)
		}
		s.must("commit", txn.Commit())
		txn.Discard()
		for n := hx.Count(rt, "calls", 1, 12); n > 0; n-- {
			dbid, cid, id := drawID(rt, "db"), drawID(rt, "coll"), drawID(rt, "id")
			if len(ref.dbs) > 0 && hx.Uniform(rt, "have", 4) > 0 {
				l := sortedKeys(ref.dbs)
				dbid = l[hx.Uniform(rt, "which", len(l))]
				if l := sortedKeys(ref.cols[dbid]); len(l) > 0 && hx.Uniform(rt, "haveC", 4) > 0 {
					cid = l[hx.Uniform(rt, "whichC", len(l))]
				}
			}
			job := func() *model.Job { return &model.Job{ID: id, Arg: "x"} }
			call, what := func(*meta.Meta) (interface{}, error) { return nil, nil }, ""
			wr := func(f func(m *meta.Meta) error) func(*meta.Meta) (interface{}, error) {
				return func(m *meta.Meta) (interface{}, error) { return nil, f(m) }
			}
			in, inC := drawDB(rt, dbid), drawCollection(rt, cid)
			auto, i := hx.Uniform(rt, "auto", 2) == 0, int64(hx.Uniform(rt, "i", 3))
			type pair struct{ a, b int64 }
			switch hx.Uniform(rt, "call", 33) {
			case 0:
				what = "CreateDatabase"
				call = wr(func(m *meta.Meta) error { return m.CreateDatabase(in.Clone()) })
			case 1:
				what = "UpdateDatabase"
				call = wr(func(m *meta.Meta) error { return m.UpdateDatabase(in.Clone()) })
			case 2:
				what = "DropDatabase"
				call = wr(func(m *meta.Meta) error { return m.DropDatabase(dbid) })
			case 3:
				what = "CreateCollection"
				call = wr(func(m *meta.Meta) error { return m.CreateCollection(dbid, inC.Clone()) })
			case 4:
				what = "UpdateCollection"
				call = wr(func(m *meta.Meta) error { return m.UpdateCollection(dbid, inC.Clone()) })
			case 5:
				what = "DropCollection"
				call = wr(func(m *meta.Meta) error { return m.DropCollection(dbid, cid, auto) })
			case 6:
				what = "GetCollection"
				call = func(m *meta.Meta) (interface{}, error) { return m.GetCollection(dbid, cid) }
			case 7:
				what = "GetDatabase"
				call = func(m *meta.Meta) (interface{}, error) { return m.GetDatabase(dbid) }
			case 8:
				what = "ListCollections"
				call = func(m *meta.Meta) (interface{}, error) { return m.ListCollections(dbid) }
			case 9:
				what = "ListDatabases"
				call = func(m *meta.Meta) (interface{}, error) { return m.ListDatabases() }
			case 10:
				what = "GenGlobalID"
				call = func(m *meta.Meta) (interface{}, error) { return m.GenGlobalID() }
			case 11:
				what = "GenGlobalIDs"
				call = func(m *meta.Meta) (interface{}, error) {
					return func() (interface{}, error) { a, b, err := m.GenGlobalIDs(3); return pair{a, b}, err }()
				}
			case 12:
				what = "GenSchemaVersion"
				call = func(m *meta.Meta) (interface{}, error) { return m.GenSchemaVersion() }
			case 13:
				what = "FinishBootstrap"
				call = wr(func(m *meta.Meta) error { return m.FinishBootstrap(7) })
			case 14:
				what = "GetBootstrapVersion"
				call = func(m *meta.Meta) (interface{}, error) { return m.GetBootstrapVersion() }
			case 15:
				what = "SetSchemaDiff"
				call = wr(func(m *meta.Meta) error { return m.SetSchemaDiff(&model.SchemaDiff{Version: id}) })
			case 16:
				what = "GetSchemaDiff"
				call = func(m *meta.Meta) (interface{}, error) { return m.GetSchemaDiff(id) }
			case 17:
				what = "EnQueueDDLJob"
				call = wr(func(m *meta.Meta) error { return m.EnQueueDDLJob(job()) })
			case 18:
				what = "DeQueueDDLJob"
				call = func(m *meta.Meta) (interface{}, error) { return m.DeQueueDDLJob() }
			case 19:
				what = "UpdateDDLJob"
				call = wr(func(m *meta.Meta) error { return m.UpdateDDLJob(i, job()) })
			case 20:
				what = "AddHistoryDDLJob"
				call = wr(func(m *meta.Meta) error { return m.AddHistoryDDLJob(job()) })
			case 21:
				what = "GetLastNHistoryDDLJobs"
				call = func(m *meta.Meta) (interface{}, error) { return m.GetLastNHistoryDDLJobs(1 + int(i)) }
			case 22:
				what = "UpdateDDLReorgHandle"
				call = wr(func(m *meta.Meta) error { return m.UpdateDDLReorgHandle(job(), 1, 2, 3) })
			case 23:
				what = "GetGlobalID"
				call = func(m *meta.Meta) (interface{}, error) { return m.GetGlobalID() }
			case 24:
				what = "GetSchemaVersion"
				call = func(m *meta.Meta) (interface{}, error) { return m.GetSchemaVersion() }
			case 25:
				what = "GetDDLReorgHandle"
				call = func(m *meta.Meta) (interface{}, error) {
					return func() (interface{}, error) { a, b, err := m.GetDDLReorgHandle(job()); return pair{a, b}, err }()
				}
			case 26:
				what = "RemoveDDLReorgHandle"
				call = wr(func(m *meta.Meta) error { return m.RemoveDDLReorgHandle(job()) })
			case 27:
				what = "UpdateDDLReorgStartHandle"
				call = wr(func(m *meta.Meta) error { return m.UpdateDDLReorgStartHandle(job(), 5) })
			case 28:
				what = "GetAllDDLJobsInQueue"
				call = func(m *meta.Meta) (interface{}, error) { return m.GetAllDDLJobsInQueue() }
			case 29:
				what = "DDLJobQueueLen"
				call = func(m *meta.Meta) (interface{}, error) { return m.DDLJobQueueLen() }
			case 30:
				what = "GetDDLJobByIdx"
				call = func(m *meta.Meta) (interface{}, error) { return m.GetDDLJobByIdx(i) }
			case 31:
				what = "GetAllHistoryDDLJobs"
				call = func(m *meta.Meta) (interface{}, error) { return m.GetAllHistoryDDLJobs() }
			case 32:
				what = "GetHistoryDDLJob"
				call = func(m *meta.Meta) (interface{}, error) { return m.GetHistoryDDLJob(id) }
			}
			twin := mem.Clone()
			tt := twin.NewTransaction(true)
			want, wantErr := call(meta.NewMeta(tt, own))
			if wantErr == nil {
				s.must("commit", tt.Commit())
			}
			tt.Discard()
			txn := mem.NewTransaction(true)
			left, fired := 1+hx.Uniform(rt, "at", 6), false
			mem.Hook = func(op hx.Op, _ []byte) error {
				if left--; left == 0 {
					fired = true
					c.Class("failed " + op.String())
					return hx.ErrInjected
				}
				return nil
			}
			got, err := call(meta.NewMeta(txn, own))
			mem.Hook = nil
			c.Step("%s(db %d, collection %d, %d, %d) = %v, the store failed: %v", what, dbid, cid, id, i, err, fired)
			c.NonTrivialIf(fired)
			switch {
			case !fired && errText(err) != errText(wantErr):
				s.fail("%s ends with %v, and with %v the next time", what, wantErr, err)
			case err != nil && err != wantErr && (err == meta.ErrDBNotExists || err == meta.ErrCollectionNotExists || err == meta.ErrJobNotExists || err == meta.ErrDBExists || err == meta.ErrCollectionExists):
				s.fail("%s reports %v because the store failed under it", what, err)
			case err == nil && wantErr != nil:
				s.fail("%s succeeds instead of ending with %v, the store failed: %v", what, wantErr, fired)
			case err == nil:
				s.must("commit", txn.Commit())
				if !reflect.DeepEqual(got, want) {
					s.fail("%s gives something else, the store failed under it: %v", what, fired)
				}
				if !reflect.DeepEqual(mem.Dump(), twin.Dump()) {
					s.fail("%s does something else, the store failed under it: %v", what, fired)
				}
				c.ClassIf(fired, "succeeded all the same")
			}
			txn.Discard()
		}
	})
}

func sortedKeys[V any](m map[int64]V) (l []int64) {
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return
}
