package catalog

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"testing"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/util/osc"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

// cat is what the catalog should hold.
type cat struct {
	dbs       map[int64]*model.DBInfo
	cols      map[int64]map[int64]*model.CollectionInfo
	gid       int64
	gidKnown  bool
	version   int64
	bootstrap int64
	diffs     map[int64]*model.SchemaDiff
	queues    map[string][]*model.Job
	history   map[int64]*model.Job
	reorg     map[int64]map[string]int64
}

func newCat() *cat {
	return &cat{dbs: map[int64]*model.DBInfo{}, cols: map[int64]map[int64]*model.CollectionInfo{}, diffs: map[int64]*model.SchemaDiff{},
		queues: map[string][]*model.Job{}, history: map[int64]*model.Job{}, reorg: map[int64]map[string]int64{}}
}

// clone shares the descriptions, which are never modified.
func (m *cat) clone() *cat {
	n := newCat()
	n.gid, n.gidKnown, n.version, n.bootstrap = m.gid, m.gidKnown, m.version, m.bootstrap
	for k, v := range m.dbs {
		n.dbs[k] = v
	}
	for k, v := range m.cols {
		n.cols[k] = map[int64]*model.CollectionInfo{}
		for k2, v2 := range v {
			n.cols[k][k2] = v2
		}
	}
	for k, v := range m.diffs {
		n.diffs[k] = v
	}
	for k, v := range m.queues {
		n.queues[k] = append([]*model.Job(nil), v...)
	}
	for k, v := range m.history {
		n.history[k] = v
	}
	for k, v := range m.reorg {
		n.reorg[k] = map[string]int64{}
		for k2, v2 := range v {
			n.reorg[k][k2] = v2
		}
	}
	return n
}

func compact(b []byte) string {
	var o bytes.Buffer
	if err := json.Compact(&o, b); err != nil {
		return "!" + string(b)
	}
	return o.String()
}

func errText(e error) string {
	if e == nil {
		return "<nil>"
	}
	return "error " + e.Error()
}

func jobText(j *model.Job) string {
	if j == nil {
		return "<no job>"
	}
	return fmt.Sprintf("job %d type %d state %d sstate %d err %s/%d ts %d dep %d arg %s", j.ID, j.Type, j.State, j.SchemaState, errText(j.Error), j.ErrorCount, j.StartTS, j.DependencyID, compact(j.RawArg))
}

func diffText(d *model.SchemaDiff) string {
	if d == nil {
		return "<no diff>"
	}
	return fmt.Sprintf("diff %d type %d ids %v arg %s", d.Version, d.Type, d.CollectionIDs, compact(d.RawArg))
}

var catIDs = []int64{1, 2, 10, 11, 12, 100, 255, 256, 257, 65536, 1 << 40, 1<<63 - 1}

func drawID(rt *rapid.T, label string) int64 {
	if hx.Uniform(rt, label+"Kind", 3) > 0 {
		return catIDs[hx.Uniform(rt, label, 4)]
	}
	return catIDs[hx.Uniform(rt, label, len(catIDs))]
}

func drawJob(rt *rapid.T, id int64) *model.Job {
	j := &model.Job{ID: id, Type: model.ActionType(rapid.IntRange(0, 9).Draw(rt, "jtype")), State: model.JobState(rapid.IntRange(0, 7).Draw(rt, "jstate")),
		ErrorCount: int64(rapid.IntRange(0, 3).Draw(rt, "jec")), SchemaState: osc.SchemaState(rapid.IntRange(0, 5).Draw(rt, "jss")),
		StartTS: hx.Uint64(rt, "jts"), DependencyID: hx.Int64(rt, "jdep")}
	if rapid.IntRange(0, 2).Draw(rt, "jfailed") == 0 {
		j.Error = errors.New(names.Draw(rt, "jerr"))
	}
	switch rapid.IntRange(0, 3).Draw(rt, "jarg") {
	case 0:
		j.Arg = drawDB(rt, id)
	case 1:
		j.Arg = drawIndex(rt, id)
	case 2:
		b, _ := json.Marshal(names.Draw(rt, "jraw"))
		j.RawArg = b
	}
	return j
}

// withArg returns the job with its argument in encoded form.
func withArg(j *model.Job) *model.Job {
	c := *j
	if len(c.RawArg) == 0 {
		c.RawArg, _ = json.Marshal(c.Arg)
	}
	return &c
}

var extraQueue = meta.JobListKeyType("DDLJob")

type catSession struct {
	rt  *rapid.T
	c   *hx.Case
	big bool
}

// bulk does a hundred or more operations of a kind at once.
func (s catSession) bulk(m *meta.Meta, ref *cat, own meta.JobListKeyType) {
	rt, c := s.rt, s.c
	from, n := int64(hx.Uniform(rt, "from", 300)+1), int64(hx.Uniform(rt, "n", 300))
	dbid := catIDs[hx.Uniform(rt, "db", 2)]
	switch hx.Uniform(rt, "bulk", 6) {
	case 0, 1:
		if ref.dbs[dbid] == nil {
			in := drawDB(rt, dbid)
			keep := in.Clone()
			s.must("CreateDatabase", m.CreateDatabase(in))
			ref.dbs[dbid], ref.cols[dbid] = keep, map[int64]*model.CollectionInfo{}
		}
		c.Step("createC %d/%d..%d", dbid, from, from+n)
		for i := from; i < from+n; i++ {
			if ref.cols[dbid][i] != nil {
				continue
			}
			in := &model.CollectionInfo{ID: i, Name: fmt.Sprintf("c%d", i)}
			keep := in.Clone()
			s.must("CreateCollection", m.CreateCollection(dbid, in))
			ref.cols[dbid][i] = keep
		}
		c.ClassIf(len(ref.cols[dbid]) > 200, "more than 200 collections of a database")
	case 2:
		c.Step("createDB %d..%d", from, from+n)
		for i := from; i < from+n; i++ {
			if ref.dbs[i] != nil {
				continue
			}
			in := &model.DBInfo{ID: i, Name: fmt.Sprintf("d%d", i)}
			keep := in.Clone()
			s.must("CreateDatabase", m.CreateDatabase(in))
			ref.dbs[i], ref.cols[i] = keep, map[int64]*model.CollectionInfo{}
		}
		c.ClassIf(len(ref.dbs) > 200, "more than 200 databases")
	case 3:
		c.Step("enqueue %q %d..%d", own, from, from+n)
		for i := from; i < from+n; i++ {
			j := &model.Job{ID: i, Type: model.ActionCreateCollection, Arg: "x"}
			keep := withArg(j)
			s.must("EnQueueDDLJob", m.EnQueueDDLJob(j))
			ref.queues[string(own)] = append(ref.queues[string(own)], keep)
		}
		c.ClassIf(len(ref.queues[string(own)]) > 200, "more than 200 jobs in a queue")
	case 4:
		c.Step("history %d..%d", from, from+n)
		for i := from; i < from+n; i++ {
			j := &model.Job{ID: i, Type: model.ActionCreateCollection, State: model.JobStateSynced, Arg: i}
			keep := withArg(j)
			s.must("AddHistoryDDLJob", m.AddHistoryDDLJob(j))
			ref.history[j.ID] = keep
		}
		c.ClassIf(len(ref.history) > 200, "more than 200 jobs in the history")
	case 5:
		c.Step("setDiff %d..%d", from, from+n)
		for v := from; v < from+n; v++ {
			d := &model.SchemaDiff{Version: v, Type: model.ActionCreateCollection, CollectionIDs: []int64{v}}
			keep := *d
			keep.RawArg, _ = json.Marshal(d.Arg)
			s.must("SetSchemaDiff", m.SetSchemaDiff(d))
			ref.diffs[v] = &keep
		}
	}
}

func (s catSession) fail(format string, a ...interface{}) {
	s.rt.Fatalf("%s\nhistory: %s", fmt.Sprintf(format, a...), s.c.Trace())
}

func (s catSession) must(what string, err error) {
	if err != nil {
		s.fail("%s: %v", what, err)
	}
}

func (s catSession) wantErr(what string, err, want error) {
	if err != want {
		s.fail("%s ends with %v, want %v", what, err, want)
	}
}

// one operation on the catalog inside a transaction and on the model
func (s catSession) op(m *meta.Meta, ref *cat, own meta.JobListKeyType) {
	rt, c := s.rt, s.c
	queue := func() ([]meta.JobListKeyType, string) {
		switch hx.Uniform(rt, "queue", 4) {
		case 0:
			return []meta.JobListKeyType{meta.DefaultJobListKey}, string(meta.DefaultJobListKey)
		case 1:
			return []meta.JobListKeyType{meta.AddIndexJobListKey}, string(meta.AddIndexJobListKey)
		case 2:
			return []meta.JobListKeyType{extraQueue}, string(extraQueue)
		}
		return nil, string(own)
	}
	dbid := drawID(rt, "db")
	db, cols := ref.dbs[dbid], ref.cols[dbid]
	dbErr := error(nil)
	if db == nil {
		dbErr = meta.ErrDBNotExists
	}
	if s.big && hx.Uniform(rt, "big", 3) == 0 {
		s.bulk(m, ref, own)
		return
	}
	switch hx.Uniform(rt, "op", 34) {
	case 0, 1, 2:
		in := drawDB(rt, dbid)
		keep := in.Clone()
		want := error(nil)
		if db != nil {
			want = meta.ErrDBExists
			c.Class("create an existing database")
		}
		err := m.CreateDatabase(in)
		c.Step("createDB %d %q: %v", dbid, in.Name, err)
		s.wantErr("CreateDatabase", err, want)
		if want == nil {
			ref.dbs[dbid], ref.cols[dbid] = keep, map[int64]*model.CollectionInfo{}
		}
	case 3:
		in := drawDB(rt, dbid)
		keep := in.Clone()
		err := m.UpdateDatabase(in)
		c.Step("updateDB %d %q: %v", dbid, in.Name, err)
		s.wantErr("UpdateDatabase", err, dbErr)
		if err == nil {
			ref.dbs[dbid] = keep
		}
	case 4:
		err := m.DropDatabase(dbid)
		c.Step("dropDB %d: %v", dbid, err)
		s.wantErr("DropDatabase", err, dbErr)
		if err == nil {
			c.ClassIf(len(cols) > 0 && len(ref.dbs) > 1, "drop a database with collections next to another")
			delete(ref.dbs, dbid)
			delete(ref.cols, dbid)
		}
	case 5, 6, 7, 8:
		cid := drawID(rt, "coll")
		in := drawCollection(rt, cid)
		keep := in.Clone()
		want := dbErr
		if want == nil && cols[cid] != nil {
			want = meta.ErrCollectionExists
			c.Class("create an existing collection")
		}
		err := m.CreateCollection(dbid, in)
		c.Step("createC %d/%d %q: %v", dbid, cid, in.Name, err)
		s.wantErr("CreateCollection", err, want)
		if want == nil {
			cols[cid] = keep
		}
	case 9:
		cid := drawID(rt, "coll")
		in := drawCollection(rt, cid)
		keep := in.Clone()
		want := dbErr
		if want == nil && cols[cid] == nil {
			want = meta.ErrCollectionNotExists
		}
		err := m.UpdateCollection(dbid, in)
		c.Step("updateC %d/%d %q: %v", dbid, cid, in.Name, err)
		s.wantErr("UpdateCollection", err, want)
		if want == nil {
			cols[cid] = keep
		}
	case 10:
		cid := drawID(rt, "coll")
		auto := rapid.Bool().Draw(rt, "delAutoID")
		want := dbErr
		if want == nil && cols[cid] == nil {
			want = meta.ErrCollectionNotExists
		}
		err := m.DropCollection(dbid, cid, auto)
		c.Step("dropC %d/%d: %v", dbid, cid, err)
		s.wantErr("DropCollection", err, want)
		if want == nil {
			delete(cols, cid)
		}
	case 11, 12:
		cid := drawID(rt, "coll")
		want := dbErr
		if want == nil && cols[cid] == nil {
			want = meta.ErrCollectionNotExists
		}
		got, err := m.GetCollection(dbid, cid)
		c.Step("getC %d/%d", dbid, cid)
		s.wantErr("GetCollection", err, want)
		if want == nil {
			if d := hx.Same(got, cols[cid]); d != "" {
				s.fail("GetCollection(%d,%d) differs: %s", dbid, cid, d)
			}
		}
	case 13, 14:
		got, err := m.GetDatabase(dbid)
		c.Step("getDB %d", dbid)
		s.wantErr("GetDatabase", err, dbErr)
		if dbErr == nil {
			if d := hx.Same(got, db); d != "" {
				s.fail("GetDatabase(%d) differs: %s", dbid, d)
			}
		}
	case 15:
		c.Step("list %d", dbid)
		_, err := m.ListCollections(dbid)
		s.wantErr("ListCollections", err, dbErr)
	case 16:
		id, err := m.GenGlobalID()
		c.Step("genID %d", id)
		s.must("GenGlobalID", err)
		if ref.gidKnown && id <= ref.gid {
			s.fail("global identifier %d follows %d", id, ref.gid)
		}
		ref.gid, ref.gidKnown = id, true
	case 17:
		n := rapid.SampledFrom([]int{1, 2, 3, 50}).Draw(rt, "n")
		start, end, err := m.GenGlobalIDs(n)
		c.Step("genIDs %d: (%d,%d]", n, start, end)
		s.must("GenGlobalIDs", err)
		if end-start != int64(n) || ref.gidKnown && start < ref.gid {
			s.fail("%d global identifiers in (%d,%d] follow %d", n, start, end, ref.gid)
		}
		ref.gid, ref.gidKnown = end, true
	case 18:
		v, err := m.GenSchemaVersion()
		c.Step("genVersion %d", v)
		s.must("GenSchemaVersion", err)
		if v <= ref.version {
			s.fail("schema version %d follows %d", v, ref.version)
		}
		ref.version = v
	case 19:
		v := rapid.SampledFrom([]int64{1, 7, -1, 1 << 50}).Draw(rt, "boot")
		c.Step("bootstrap %d", v)
		s.must("FinishBootstrap", m.FinishBootstrap(v))
		ref.bootstrap = v
	case 20:
		v := drawID(rt, "version")
		d := &model.SchemaDiff{Version: v, Type: model.ActionType(rapid.IntRange(0, 8).Draw(rt, "dtype")), CollectionIDs: rapid.SliceOfN(rapid.Int64(), 0, 3).Draw(rt, "ids")}
		if rapid.Bool().Draw(rt, "darg") {
			d.Arg = drawDB(rt, v)
		}
		keep := *d
		keep.RawArg, _ = json.Marshal(d.Arg)
		c.Step("setDiff %d", v)
		s.must("SetSchemaDiff", m.SetSchemaDiff(d))
		ref.diffs[v] = &keep
	case 21, 22, 23:
		keys, q := queue()
		j := drawJob(rt, int64(rapid.IntRange(1, 500).Draw(rt, "jid")))
		keep := withArg(j)
		c.Step("enqueue %q %d", q, j.ID)
		s.must("EnQueueDDLJob", m.EnQueueDDLJob(j, keys...))
		ref.queues[q] = append(ref.queues[q], keep)
	case 24, 25:
		q := string(own)
		j, err := m.DeQueueDDLJob()
		c.Step("dequeue %q", q)
		s.must("DeQueueDDLJob", err)
		var want *model.Job
		if len(ref.queues[q]) > 0 {
			want = ref.queues[q][0]
			ref.queues[q] = ref.queues[q][1:]
			c.ClassIf(len(ref.queues[q]) > 0, "dequeue from several")
		}
		if jobText(j) != jobText(want) {
			s.fail("dequeued %s, want %s", jobText(j), jobText(want))
		}
	case 26, 27:
		keys, q := queue()
		n := len(ref.queues[q])
		i := rapid.IntRange(-n-1, n+1).Draw(rt, "index")
		j := drawJob(rt, int64(rapid.IntRange(1, 500).Draw(rt, "jid")))
		keep := withArg(j)
		at := i
		if at < 0 {
			at += n
		}
		want := error(nil)
		if at < 0 || at >= n {
			want = meta.ErrJobNotExists
		}
		err := m.UpdateDDLJob(int64(i), j, keys...)
		c.Step("updateJob %q[%d/%d]: %v", q, i, n, err)
		s.wantErr("UpdateDDLJob", err, want)
		if want == nil {
			ref.queues[q][at] = keep
			c.ClassIf(n > 1, "update a job among several")
		}
	case 28:
		j := drawJob(rt, drawID(rt, "hid"))
		keep := withArg(j)
		c.Step("history %d", j.ID)
		s.must("AddHistoryDDLJob", m.AddHistoryDDLJob(j))
		ref.history[j.ID] = keep
	case 29:
		n := rapid.IntRange(1, 6).Draw(rt, "n")
		if s.big {
			n = hx.Uniform(rt, "last", 400) + 1
		}
		js, err := m.GetLastNHistoryDDLJobs(n)
		c.Step("last %d of %d", n, len(ref.history))
		s.must("GetLastNHistoryDDLJobs", err)
		ids := make([]int64, 0, len(ref.history))
		for id := range ref.history {
			ids = append(ids, id)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] > ids[j] })
		if len(ids) > n {
			ids = ids[:n]
			c.Class("fewer history jobs than there are")
		}
		if len(js) != len(ids) {
			s.fail("the last %d jobs are %d, want %d", n, len(js), len(ids))
		}
		for i, id := range ids {
			if jobText(js[i]) != jobText(ref.history[id]) {
				s.fail("last job #%d is %s, want %s", i, jobText(js[i]), jobText(ref.history[id]))
			}
		}
	case 30, 31, 32:
		id := drawID(rt, "rid")
		job := &model.Job{ID: id}
		a, b := hx.Int64(rt, "start"), hx.Int64(rt, "end")
		if ref.reorg[id] == nil {
			ref.reorg[id] = map[string]int64{}
		}
		switch hx.Uniform(rt, "rop", 4) {
		case 0:
			c.Step("reorgStart %d %d", id, a)
			s.must("UpdateDDLReorgStartHandle", m.UpdateDDLReorgStartHandle(job, a))
			ref.reorg[id]["start"] = a
		case 1, 2:
			c.Step("reorg %d %d %d", id, a, b)
			s.must("UpdateDDLReorgHandle", m.UpdateDDLReorgHandle(job, a, b, hx.Int64(rt, "phys")))
			ref.reorg[id]["start"], ref.reorg[id]["end"] = a, b
		case 3:
			c.Step("reorgRemove %d", id)
			s.must("RemoveDDLReorgHandle", m.RemoveDDLReorgHandle(job))
			delete(ref.reorg, id)
		}
	case 33:
		s.compare(m, ref)
	}
}

// compare reads everything back.
func (s catSession) compare(m *meta.Meta, ref *cat) {
	dbs, err := m.ListDatabases()
	s.must("ListDatabases", err)
	if len(dbs) != len(ref.dbs) {
		s.fail("%d databases are listed, want %d", len(dbs), len(ref.dbs))
	}
	seen := map[int64]bool{}
	for _, d := range dbs {
		if ref.dbs[d.ID] == nil || seen[d.ID] {
			s.fail("database %d is listed wrongly", d.ID)
		}
		seen[d.ID] = true
		if x := hx.Same(d, ref.dbs[d.ID]); x != "" {
			s.fail("listed database %d differs: %s", d.ID, x)
		}
	}
	ids := catIDs
	if s.big {
		ids = append([]int64{3, 50, 299, 300, 301, 500, 598}, catIDs...)
	}
	for _, id := range ids {
		cols, err := m.ListCollections(id)
		if ref.dbs[id] == nil {
			s.wantErr("ListCollections", err, meta.ErrDBNotExists)
			continue
		}
		s.must("ListCollections", err)
		if len(cols) != len(ref.cols[id]) {
			s.fail("%d collections of %d are listed, want %d", len(cols), id, len(ref.cols[id]))
		}
		seenC := map[int64]bool{}
		for _, ci := range cols {
			if ref.cols[id][ci.ID] == nil || seenC[ci.ID] {
				s.fail("collection %d/%d is listed wrongly", id, ci.ID)
			}
			seenC[ci.ID] = true
			if x := hx.Same(ci, ref.cols[id][ci.ID]); x != "" {
				s.fail("listed collection %d/%d differs: %s", id, ci.ID, x)
			}
		}
	}
	if ref.gidKnown {
		id, err := m.GetGlobalID()
		s.must("GetGlobalID", err)
		if id != ref.gid {
			s.fail("the global identifier is %d, want %d", id, ref.gid)
		}
	}
	v, err := m.GetSchemaVersion()
	s.must("GetSchemaVersion", err)
	if v != ref.version {
		s.fail("the schema version is %d, want %d", v, ref.version)
	}
	b, err := m.GetBootstrapVersion()
	s.must("GetBootstrapVersion", err)
	if b != ref.bootstrap {
		s.fail("the bootstrap version is %d, want %d", b, ref.bootstrap)
	}
	for _, id := range ids {
		d, err := m.GetSchemaDiff(id)
		s.must("GetSchemaDiff", err)
		if diffText(d) != diffText(ref.diffs[id]) {
			s.fail("read %s, want %s", diffText(d), diffText(ref.diffs[id]))
		}
		j, err := m.GetHistoryDDLJob(id)
		s.must("GetHistoryDDLJob", err)
		if jobText(j) != jobText(ref.history[id]) {
			s.fail("history has %s, want %s", jobText(j), jobText(ref.history[id]))
		}
		start, end, err := m.GetDDLReorgHandle(&model.Job{ID: id})
		ws, haveS := ref.reorg[id]["start"]
		we, haveE := ref.reorg[id]["end"]
		if haveS && haveE {
			s.must("GetDDLReorgHandle", err)
			if start != ws || end != we {
				s.fail("reorganisation handles %d,%d, want %d,%d", start, end, ws, we)
			}
		} else if err == nil {
			s.fail("reorganisation handles of job %d that were not stored are read as %d,%d", id, start, end)
		}
	}
	hist, err := m.GetAllHistoryDDLJobs()
	s.must("GetAllHistoryDDLJobs", err)
	var got, want []string
	for _, j := range hist {
		got = append(got, jobText(j))
	}
	for _, j := range ref.history {
		want = append(want, jobText(j))
	}
	sort.Strings(got)
	sort.Strings(want)
	if d := hx.Same(got, want); d != "" {
		s.fail("history differs: %s", d)
	}
	for _, key := range []meta.JobListKeyType{meta.DefaultJobListKey, meta.AddIndexJobListKey, extraQueue} {
		q := ref.queues[string(key)]
		n, err := m.DDLJobQueueLen(key)
		s.must("DDLJobQueueLen", err)
		if n != int64(len(q)) {
			s.fail("queue %q has length %d, want %d", key, n, len(q))
		}
		step := 1 + len(q)/20
		for i := -len(q) - 1; i <= len(q)+1; i += step {
			var want *model.Job
			if i >= 0 && i < len(q) {
				want = q[i]
			} else if i < 0 && i+len(q) >= 0 {
				want = q[i+len(q)]
			}
			j, err := m.GetDDLJobByIdx(int64(i), key)
			s.must(fmt.Sprintf("GetDDLJobByIdx(%d) of %d", i, len(q)), err)
			if jobText(j) != jobText(want) {
				s.fail("queue %q[%d] of %d is %s, want %s", key, i, len(q), jobText(j), jobText(want))
			}
		}
		all, err := m.GetAllDDLJobsInQueue(key)
		s.must("GetAllDDLJobsInQueue", err)
		got, want := []string{}, []string{}
		for _, j := range all {
			got = append(got, jobText(j))
		}
		for _, j := range q {
			want = append(want, jobText(j))
		}
		sort.Strings(got)
		sort.Strings(want)
		if d := hx.Same(got, want); d != "" {
			s.fail("queue %q differs: %s", key, d)
		}
	}
}

var foreign = map[string]string{"a": "1", "c\x80\x00\x00\x00\x00\x00\x00\x01_d\x80": "doc", "l": "2", "n": "3", "zz": "4"}

func catalogHistory(rt *rapid.T, c *hx.Case, db mondis.KVDB, big bool) {
	s := catSession{rt, c, big}
	for k, v := range foreign {
		if err := db.Set([]byte(k), []byte(v), nil); err != nil {
			rt.Fatalf("set: %v", err)
		}
	}
	committed := newCat()
	// identifiers issued for the documents of a collection: what was last leased
	leased := map[[2]int64]int64{}
	ntxn := hx.Count(rt, "txns", 1, 6)
	dropped, discarded := 0, 0
	for i := 0; i < ntxn; i++ {
		if hx.Uniform(rt, "sequence", 2) == 0 {
			dbid, cid := drawID(rt, "sdb"), drawID(rt, "sc")
			if committed.dbs[dbid] != nil && committed.cols[dbid][cid] != nil {
				seq, err := meta.NewDocIDSequence(db, dbid, cid, 5)
				s.must("NewDocIDSequence", err)
				id, err := seq.Next()
				s.must("Next", err)
				c.Step("document id of %d/%d: %d", dbid, cid, id)
				c.Class("document identifiers among catalog changes")
				k := [2]int64{dbid, cid}
				if last, ok := leased[k]; ok && id <= last-5 || id <= 0 {
					s.fail("document identifier %d of %d/%d was issued before (leased up to %d)", id, dbid, cid, last)
				}
				leased[k] = id + 4
			}
		}
		own := rapid.SampledFrom([]meta.JobListKeyType{meta.DefaultJobListKey, meta.DefaultJobListKey, meta.AddIndexJobListKey, extraQueue}).Draw(rt, "own")
		txn := db.NewTransaction(true)
		var m *meta.Meta
		if string(own) == string(meta.DefaultJobListKey) {
			m = meta.NewMeta(txn)
		} else {
			m = meta.NewMeta(txn, own)
		}
		ref := committed.clone()
		c.Step("begin")
		for n := hx.Count(rt, "ops", 1, 25); n > 0; n-- {
			s.op(m, ref, own)
		}
		if hx.Uniform(rt, "end", 5) == 0 {
			txn.Discard()
			c.Step("discard")
			discarded++
		} else {
			s.must("commit", txn.Commit())
			txn.Discard()
			c.Step("commit")
			for k := range leased {
				// a dropped collection may start over
				if ref.cols[k[0]][k[1]] == nil {
					delete(leased, k)
				}
			}
			committed = ref
		}
		view := db.NewTransaction(false)
		s.compare(meta.NewMeta(view), committed)
		view.Discard()
		dropped += len(committed.dbs)
	}
	for k, v := range foreign {
		got, _, err := db.Get([]byte(k))
		if err != nil || string(got) != v {
			s.fail("key %q outside the catalog became %q (%v)", k, got, err)
		}
	}
	c.NonTrivialIf(ntxn > 1 && len(committed.dbs) > 0)
	c.ClassIf(discarded > 0, "discarded transaction")
	c.ClassIf(len(committed.history) > 1, "several history jobs")
}

const catRule = "several transactions, and at least one database at the end"

func TestP19_Mem(t *testing.T) {
	hx.Run(t, hx.N{Quick: 5000}, catRule, func(rt *rapid.T, c *hx.Case) { catalogHistory(rt, c, hx.NewMemKV(), false) })
}

func TestP19_Big(t *testing.T) {
	hx.Run(t, hx.N{Quick: 60}, catRule, func(rt *rapid.T, c *hx.Case) { catalogHistory(rt, c, hx.NewMemKV(), true) })
}

func TestP19_Badger(t *testing.T) {
	db, closeDB := badgerDB(t)
	defer closeDB()
	hx.Run(t, hx.N{Quick: 300}, catRule, func(rt *rapid.T, c *hx.Case) {
		wipe(rt, db)
		catalogHistory(rt, c, db, false)
	})
}

func wipe(rt *rapid.T, db mondis.KVDB) {
	var keys [][]byte
	if err := db.Scan(mondis.ProviderScanOption{}, func(k, _ []byte, _ mondis.VMetaResp) bool {
		keys = append(keys, append([]byte(nil), k...))
		return true
	}); err != nil {
		rt.Fatalf("scan: %v", err)
	}
	txn := db.NewTransaction(true)
	defer txn.Discard()
	for _, k := range keys {
		if err := txn.Delete(k); err != nil {
			rt.Fatalf("delete: %v", err)
		}
	}
	if err := txn.Commit(); err != nil {
		rt.Fatalf("commit: %v", err)
	}
}
