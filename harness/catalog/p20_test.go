package catalog

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document/config"
	"github.com/zhiqiangxu/mondis/document/ddl"
	"github.com/zhiqiangxu/mondis/document/domain"
	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/util/osc"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

func drawPlan(rt *rapid.T, c *hx.Case, faults bool) *plan {
	p := &plan{lease: []time.Duration{0, 0, 100 * time.Millisecond, 900 * time.Millisecond}[hx.Uniform(rt, "lease", 4)]}
	nep := 1
	if faults {
		nep = 1 + hx.Uniform(rt, "epochs", 3)
	}
	for i := 0; i < nep; i++ {
		e := epoch{length: time.Duration(1+hx.Uniform(rt, "length", 60)) * time.Second, failCommits: map[int]bool{}}
		if faults {
			switch hx.Uniform(rt, "fault", 4) {
			case 0, 1:
				for n := 1 + hx.Uniform(rt, "nfail", 8); n > 0; n-- {
					e.failCommits[1+hx.Uniform(rt, "failAt", 40)] = true
				}
			}
			if hx.Uniform(rt, "opFaults", 3) == 0 {
				e.failOps = map[int]bool{}
				for n := 1 + hx.Uniform(rt, "nfail", 8); n > 0; n-- {
					e.failOps[1+hx.Uniform(rt, "failAt", 150)] = true
				}
			}
			switch hx.Uniform(rt, "crash", 4) {
			case 0:
				e.crashAt, e.crashOps = 1+hx.Uniform(rt, "crashAt", 25), "commit,"
			case 1:
				e.crashAt, e.crashOps = 1+hx.Uniform(rt, "crashAt", 25), "aftercommit,"
			case 2:
				e.crashAt = 1 + hx.Uniform(rt, "crashAt", 400)
			}
		}
		p.epochs = append(p.epochs, e)
	}
	// the last life has no faults and enough time
	p.epochs = append(p.epochs, epoch{length: 400 * time.Second})
	if faults && hx.Uniform(rt, "small", 4) == 0 {
		// the larger schemas don't fit a transaction
		p.maxOps = 6 + hx.Uniform(rt, "maxOps", 20)
	}
	ndb := 1 + hx.Uniform(rt, "names", len(ddlDBs))
	for n := hx.Count(rt, "requests", 1, 9); n > 0; n-- {
		q := &request{epoch: hx.Uniform(rt, "inEpoch", nep), at: time.Duration(hx.Uniform(rt, "at", 5)) * 400 * time.Millisecond}
		if hx.Uniform(rt, "timeout", 6) == 0 {
			q.timeout = time.Duration(hx.Uniform(rt, "patience", 2000)) * time.Millisecond
		}
		if hx.Uniform(rt, "addIndex", 12) == 0 {
			q.addIdx = &ddl.AddIndexInput{DB: ddlDBs[hx.Uniform(rt, "db", ndb)], Collection: "nosuch", IndexInfo: ddl.IndexInfo{Name: "i0", Columns: []string{"a"}}}
		} else {
			q.in, q.invalid = drawInput(rt, ndb)
		}
		p.reqs = append(p.reqs, q)
	}
	return p
}

func (p *plan) describe(c *hx.Case) {
	c.Step("lease %v, transactions of at most %d operations (if not 0)", p.lease, p.maxOps)
	for i, e := range p.epochs[:len(p.epochs)-1] {
		var f []int
		for k := range e.failCommits {
			f = append(f, k)
		}
		sort.Ints(f)
		for k := range e.failOps {
			f = append(f, -k)
		}
		sort.Ints(f)
		c.Step("life %d: %v, commits (if negative: operations) %v fail, dies at %s operation %d", i, e.length, f, e.crashOps, e.crashAt)
	}
	for _, q := range p.reqs {
		if q.addIdx != nil {
			c.Step("life %d +%v: add index %+v", q.epoch, q.at, *q.addIdx)
			continue
		}
		c.Step("life %d +%v: create %s timeout %v", q.epoch, q.at, inputText(q.in), q.timeout)
	}
}

// judge looks at the store after everything has settled.
func (r *ddlRun) judge(c *hx.Case, data *hx.MemKV) {
	queue, history := r.look(data.Restart())
	if len(queue) > 0 {
		hx.Failf("%d jobs are still in the queue, first %s", len(queue), jobText(queue[len(queue)-1]))
	}
	inHistory := map[int64]*model.Job{}
	for _, j := range history {
		inHistory[j.ID] = j
	}
	for id := range r.jobs {
		if inHistory[id] == nil {
			hx.Failf("job %d was enqueued and is gone", id)
		}
	}
	ids := map[int64]string{}
	take := func(id int64, what string) {
		if id <= 0 {
			hx.Failf("%s has identifier %d", what, id)
		}
		if o := ids[id]; o != "" {
			hx.Failf("%s and %s have the same identifier %d", o, what, id)
		}
		ids[id] = what
	}
	created := map[string]*model.DBInfo{}
	synced := 0
	for _, j := range history {
		take(j.ID, fmt.Sprintf("job %d", j.ID))
		if j.Type != model.ActionCreateSchema {
			continue
		}
		db := &model.DBInfo{}
		if err := j.DecodeArg(db); err != nil {
			hx.Failf("argument of job %d: %v", j.ID, err)
		}
		what := fmt.Sprintf("database %q of job %d", db.Name, j.ID)
		take(db.ID, what)
		for cn, ci := range db.Collections {
			take(ci.ID, what+" collection "+cn)
			for in, ii := range ci.Indices {
				take(ii.ID, what+" collection "+cn+" index "+in)
			}
		}
		ok := j.IsSynced()
		// a job that succeeded after a retry keeps the text of the earlier error
		if !ok && j.Error == nil {
			hx.Failf("job is neither done nor failed: %s", jobText(j))
		}
		if ok {
			synced++
			if created[db.Name] != nil {
				hx.Failf("database %q is created by two jobs", db.Name)
			}
			created[db.Name] = db
		}
	}
	txn := data.Restart().Begin(false)
	defer txn.Discard()
	m := meta.NewMeta(txn)
	dbs, err := m.ListDatabases()
	if err != nil {
		hx.Failf("ListDatabases: %v", err)
	}
	if len(dbs) != len(created) {
		hx.Failf("%d databases exist, %d jobs succeeded", len(dbs), len(created))
	}
	if v, err := m.GetSchemaVersion(); err != nil || v != int64(synced) {
		hx.Failf("the schema version is %d (%v) after %d changes", v, err, synced)
	}
	for _, db := range dbs {
		if created[db.Name] == nil || created[db.Name].ID != db.ID {
			hx.Failf("database %q with id %d is not what the job made", db.Name, db.ID)
		}
		cols, err := m.ListCollections(db.ID)
		if err != nil || len(cols) != len(db.Collections) {
			hx.Failf("database %q lists %d collections (%v), want %d", db.Name, len(cols), err, len(db.Collections))
		}
		if db.State != osc.StatePublic {
			hx.Failf("database %q is in state %d, not public", db.Name, db.State)
		}
		for _, ci := range cols {
			if ci.State != osc.StatePublic {
				hx.Failf("collection %q/%q is in state %d, not public", db.Name, ci.Name, ci.State)
			}
			for _, ii := range ci.Indices {
				if ii.State != osc.StatePublic {
					hx.Failf("index %q of %q/%q is in state %d, not public", ii.Name, db.Name, ci.Name, ii.State)
				}
			}
			if d := hx.Same(ci, db.Collections[ci.Name]); d != "" {
				hx.Failf("collection %q/%q is stored with a difference: %s", db.Name, ci.Name, d)
			}
		}
	}
	for name, db := range created {
		matches := 0
		for _, q := range r.p.reqs {
			if q.addIdx == nil && !q.invalid && q.in.DB == name && dbMatches(db, q.in) && (q.verdictOf() == nil || q.verdictOf() == errUnknown) {
				matches++
			}
		}
		if matches == 0 {
			hx.Failf("database %q exists, but no request for it can have succeeded, or it is not as requested", name)
		}
	}
	oks := map[string]int{}
	for _, q := range r.p.reqs {
		if q.addIdx != nil || q.invalid {
			continue
		}
		switch v := q.verdictOf(); {
		case v == nil:
			oks[q.in.DB]++
			if oks[q.in.DB] > 1 {
				hx.Failf("two requests for database %q succeed", q.in.DB)
			}
			if created[q.in.DB] == nil || !dbMatches(created[q.in.DB], q.in) {
				hx.Failf("a request for %s succeeded, but it is not there", inputText(q.in))
			}
			c.Class("succeeded")
		case v == errUnknown:
			c.Class("outcome unknown to the caller")
		case transient(v):
			c.Class("failed with the store")
		default:
			c.Class("failed: " + v.Error())
		}
	}
}

func dbMatches(db *model.DBInfo, in ddl.CreateSchemaInput) bool {
	if db.Name != in.DB || len(db.Collections) != len(in.Collections) {
		return false
	}
	for i, cn := range in.Collections {
		ci := db.Collections[cn]
		if ci == nil || ci.Name != cn || db.CollectionOrder[i] != cn || len(ci.Indices) != len(in.Indices[cn]) {
			return false
		}
		for k, want := range in.Indices[cn] {
			ii := ci.Indices[want.Name]
			if ii == nil || ii.Name != want.Name || ii.Unique != want.Unique || ci.IndexOrder[k] != want.Name || hx.Same(ii.Columns, want.Columns) != "" {
				return false
			}
		}
	}
	return true
}

func TestP20_Plain(t *testing.T) {
	hx.Run(t, hx.N{Quick: 600}, "at least two requests, one of them with an index", func(rt *rapid.T, c *hx.Case) {
		p := drawPlan(rt, c, false)
		runPlan(rt, t, c, p)
	})
}

func TestP20_Faults(t *testing.T) {
	hx.Run(t, hx.N{Quick: 1500}, "at least two requests, one of them with an index", func(rt *rapid.T, c *hx.Case) {
		p := drawPlan(rt, c, true)
		runPlan(rt, t, c, p)
	})
}

func runPlan(rt *rapid.T, t *testing.T, c *hx.Case, p *plan) {
	p.describe(c)
	withIdx := false
	for _, q := range p.reqs {
		withIdx = withIdx || len(q.in.Indices) > 0
	}
	c.NonTrivialIf(len(p.reqs) > 1 && withIdx)
	if problem := p.execute(t, c, func(r *ddlRun, data *hx.MemKV) { r.judge(c, data) }); problem != "" {
		rt.Fatalf("%s\nhistory: %s", problem, c.Trace())
	}
}

// Many requests at once: the queue has a limit, and beyond it requests are refused.
func TestP20_Burst(t *testing.T) {
	hx.Run(t, hx.N{Quick: 25}, "more requests than the queue takes", func(rt *rapid.T, c *hx.Case) {
		p := &plan{lease: 900 * time.Millisecond, epochs: []epoch{{length: time.Second, failCommits: map[int]bool{}}, {length: 900 * time.Second}}}
		n := 60 + hx.Uniform(rt, "requests", 80)
		for i := 0; i < n; i++ {
			p.reqs = append(p.reqs, &request{at: time.Duration(i) * time.Millisecond, in: ddl.CreateSchemaInput{DB: fmt.Sprintf("b%d", i), Collections: []string{"c0"}}})
		}
		c.Step("%d requests within a second, dying after", n)
		c.NonTrivialIf(n > 101)
		p.atEnd = func(r *ddlRun, kv *hx.MemKV) {
			if queue, _ := r.look(kv); len(queue) > 101 {
				r.note("%d jobs are waiting", len(queue))
			}
		}
		after := func(r *ddlRun, data *hx.MemKV) {
			r.judge(c, data)
			full := 0
			for _, q := range p.reqs {
				if _, err := q.outcome(); err == ddl.ErrJobsInQueueExceeded {
					full++
				}
			}
			if full > 0 && n <= 100 {
				hx.Failf("%d of %d requests find more than 100 jobs in the queue", full, n)
			}
			if full < n-110 {
				hx.Failf("%d of %d requests are refused because of the queue's length", full, n)
			}
		}
		if problem := p.execute(t, c, after); problem != "" {
			rt.Fatalf("%s\nhistory: %s", problem, c.Trace())
		}
	})
}

// errLacking stands for any refusal of a request without a name or columns.
var errLacking = errors.New("a name or the columns are missing")

// Requests for indexes that can't be added are refused, and nothing comes of them.
func TestP20_Refused(t *testing.T) {
	hx.Run(t, hx.N{Quick: 300}, "an index that exists is asked for again, next to missing names", func(rt *rapid.T, c *hx.Case) {
		conf := config.Load()
		old := *conf
		defer func() { *conf = old }()
		conf.Lease = []time.Duration{0, 100 * time.Millisecond, 900 * time.Millisecond}[hx.Uniform(rt, "lease", 3)]
		ndb := 1 + hx.Uniform(rt, "names", 3)
		var ins []ddl.CreateSchemaInput
		taken := map[string]bool{}
		for i := hx.Uniform(rt, "dbs", 4); i > 0; i-- {
			in, invalid := drawInput(rt, ndb)
			if !invalid && !taken[in.DB] {
				taken[in.DB] = true
				ins = append(ins, in)
			}
		}
		type ask struct {
			in   ddl.AddIndexInput
			want error
		}
		var asks []ask
		again := false
		for n := hx.Count(rt, "asks", 1, 8); n > 0; n-- {
			a := ask{in: ddl.AddIndexInput{DB: ddlDBs[hx.Uniform(rt, "db", ndb)], IndexInfo: ddl.IndexInfo{Name: idxNames[hx.Uniform(rt, "name", len(idxNames))], Columns: []string{"a"}}}, want: ddl.ErrDBNotExists}
			cols := append([]string{"集", " ", "nosuch", ""}, colNames...)
			a.in.Collection = cols[hx.Uniform(rt, "col", len(cols))]
			for _, in := range ins {
				if in.DB != a.in.DB {
					continue
				}
				a.want = ddl.ErrCollectionNotExists
				for k, cn := range in.Collections {
					// half of the questions are about an index that exists
					if cn != a.in.Collection && !(k == 0 && rapid.Bool().Draw(rt, "existing")) {
						continue
					}
					a.in.Collection = cn
					a.want = nil
					if have := in.Indices[cn]; len(have) > 0 {
						a.in.IndexInfo.Name = have[hx.Uniform(rt, "which", len(have))].Name
						a.want = ddl.ErrIndexAlreadyExists
						again = true
					}
					break
				}
			}
			if hx.Uniform(rt, "lacking", 4) == 0 {
				// whatever else is there, a part is missing
				a.want = errLacking
				switch hx.Uniform(rt, "what", 4) {
				case 0:
					a.in.DB = ""
				case 1:
					a.in.Collection = ""
				case 2:
					a.in.IndexInfo.Name = ""
				case 3:
					a.in.IndexInfo.Columns = nil
				}
			}
			if a.want == nil {
				continue // would be let through
			}
			asks = append(asks, a)
			c.Step("add index %+v: want %v", a.in, a.want)
			c.Class(a.want.Error())
		}
		for _, in := range ins {
			c.Step("create %s", inputText(in))
		}
		c.NonTrivialIf(again && len(asks) > 1)
		problem := hx.Bubble(t, func() {
			kv := hx.NewMemKV()
			defer func() {
				kv.Kill()
				time.Sleep(30 * time.Second)
				forget()
			}()
			do := domain.NewDomain(kv)
			if err := do.Init(); err != nil {
				hx.Failf("init: %v", err)
			}
			create := func(in ddl.CreateSchemaInput, want error) {
				ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
				defer cancel()
				_, err := do.DDL().CreateSchema(ctx, in)
				if err != want {
					hx.Failf("create %s: %v, want %v", inputText(in), err, want)
				}
			}
			for _, in := range ins {
				create(in, nil)
			}
			time.Sleep(10 * time.Second)
			for _, a := range asks {
				before := kv.Dump()
				// the caller's patience plays no role
				ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
				job, err := do.DDL().AddIndex(ctx, a.in)
				cancel()
				lacking := a.want == errLacking || a.in.Collection == ""
				if lacking && (err == nil || err == context.DeadlineExceeded) || !lacking && err != a.want {
					hx.Failf("add index %+v ends with %v (job %v), want %v", a.in, err, job, a.want)
				}
				time.Sleep(10 * time.Second)
				if d := hx.Same(kv.Dump(), before); d != "" {
					hx.Failf("the refused add index %+v left something: %s", a.in, d)
				}
			}
			for _, in := range ins {
				before := kv.Dump()
				create(in, ddl.ErrDBAlreadyExists)
				time.Sleep(10 * time.Second)
				if d := hx.Same(kv.Dump(), before); d != "" {
					hx.Failf("the refused creation of %s left something: %s", inputText(in), d)
				}
			}
			create(ddl.CreateSchemaInput{DB: "after"}, nil)
		})
		if problem != "" {
			rt.Fatalf("%s\nhistory: %s", problem, c.Trace())
		}
	})
}

// listed tells whether KNOWN_FINDINGS.txt lists a finding of this kind.
func listed(property, key string) bool {
	b, _ := os.ReadFile(os.Getenv("VERIF_KNOWN"))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: property="+property+" "+key+" ") {
			return true
		}
	}
	return false
}

// A request to add an index to an existing collection must not stop the queue.
func TestP20_AddIndex(t *testing.T) {
	reported := false
	hx.Run(t, hx.N{Quick: 20}, "an index is added to an existing collection", func(rt *rapid.T, c *hx.Case) {
		lease := []time.Duration{0, 100 * time.Millisecond}[hx.Uniform(rt, "lease", 2)]
		in, _ := drawInput(rt, len(ddlDBs))
		in.DB = "x"
		in.Collections = append(in.Collections, "target")
		c.Step("lease %v, add an index to %s", lease, inputText(in))
		c.NonTrivial()
		conf := config.Load()
		old := *conf
		defer func() { *conf = old }()
		conf.Lease = lease
		if in.DB == "" || in.Validate() != nil {
			return
		}
		stalled := false
		problem := hx.Bubble(t, func() {
			kv := hx.NewMemKV()
			defer func() {
				kv.Kill()
				time.Sleep(30 * time.Second)
				forget()
			}()
			do := domain.NewDomain(kv)
			if err := do.Init(); err != nil {
				hx.Failf("init: %v", err)
			}
			step := func(f func(ctx context.Context) error) (err error) {
				ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
				defer cancel()
				return f(ctx)
			}
			if err := step(func(ctx context.Context) error { _, err := do.DDL().CreateSchema(ctx, in); return err }); err != nil {
				hx.Failf("create: %v", err)
			}
			errAdd := step(func(ctx context.Context) error {
				_, err := do.DDL().AddIndex(ctx, ddl.AddIndexInput{DB: "x", Collection: "target", IndexInfo: ddl.IndexInfo{Name: "new", Columns: []string{"a"}}})
				return err
			})
			errNext := step(func(ctx context.Context) error {
				_, err := do.DDL().CreateSchema(ctx, ddl.CreateSchemaInput{DB: "after"})
				return err
			})
			if errAdd == context.DeadlineExceeded && errNext == context.DeadlineExceeded {
				stalled = true
			}
			distinct(kv)
			if stalled {
				return
			}
			if errNext != nil {
				hx.Failf("after adding an index (%v) creating a schema ends with %v", errAdd, errNext)
			}
		})
		if problem != "" {
			rt.Fatalf("%s\nhistory: %s", problem, c.Trace())
		}
		if stalled {
			if !listed("P20", "add-index-stalls-the-queue") {
				rt.Fatalf("adding an index never ends and nothing after it in the queue runs\nhistory: %s", c.Trace())
			}
			if !reported {
				reported = true
				fmt.Println("KNOWN-FINDING: property=P20 add-index-stalls-the-queue: DDL.AddIndex on an existing collection never completes and no later job runs")
			}
			c.Class("known finding: stalled")
		}
	})
}

// distinct checks that what the catalog holds has identifiers of its own.
func distinct(kv mondis.KVDB) {
	seen := map[int64]string{}
	note := func(id int64, format string, a ...interface{}) {
		what := fmt.Sprintf(format, a...)
		if old := seen[id]; old != "" && old != what {
			hx.Failf("%s and %s both have the identifier %d", old, what, id)
		}
		seen[id] = what
	}
	txn := kv.NewTransaction(false)
	defer txn.Discard()
	m := meta.NewMeta(txn)
	dbs, err := m.ListDatabases()
	if err != nil {
		hx.Failf("ListDatabases: %v", err)
	}
	for _, db := range dbs {
		note(db.ID, "database %q", db.Name)
		cols, err := m.ListCollections(db.ID)
		if err != nil {
			hx.Failf("ListCollections: %v", err)
		}
		for _, col := range cols {
			note(col.ID, "collection %q.%q", db.Name, col.Name)
			for _, ii := range col.Indices {
				note(ii.ID, "index %q of %q.%q", ii.Name, db.Name, col.Name)
			}
		}
	}
	job := func(j *model.Job) {
		if j == nil {
			return
		}
		note(j.ID, "a job of type %d", j.Type)
		if ii := (&model.IndexInfo{}); j.Type == model.ActionAddIndex && json.Unmarshal(j.RawArg, ii) == nil && ii.JobRedundant != nil && j.State != model.JobStateCancelled {
			note(ii.ID, "index %q of %q.%q", ii.Name, ii.JobRedundant.DB, ii.JobRedundant.Collection)
		}
	}
	for _, q := range []meta.JobListKeyType{meta.DefaultJobListKey, meta.AddIndexJobListKey} {
		jobs, err := m.GetAllDDLJobsInQueue(q)
		if err != nil {
			hx.Failf("GetAllDDLJobsInQueue: %v", err)
		}
		for _, j := range jobs {
			job(j)
		}
	}
	jobs, err := m.GetAllHistoryDDLJobs()
	if err != nil {
		hx.Failf("GetAllHistoryDDLJobs: %v", err)
	}
	for _, j := range jobs {
		job(j)
	}
}

// Schemas with many collections and indexes come about as requested, and are all there after a restart.
func TestP20_Large(t *testing.T) {
	hx.Run(t, hx.N{Quick: 60}, "more than a hundred collections", func(rt *rapid.T, c *hx.Case) {
		conf := config.Load()
		old := *conf
		defer func() { *conf = old }()
		conf.Lease = []time.Duration{0, 100 * time.Millisecond}[hx.Uniform(rt, "lease", 2)]
		n := 20 + hx.Uniform(rt, "collections", 300)
		in := ddl.CreateSchemaInput{DB: "large", Indices: map[string][]ddl.IndexInfo{}}
		for i := 0; i < n; i++ {
			cn := fmt.Sprintf("collection %d", n-i)
			in.Collections = append(in.Collections, cn)
			for k := hx.Uniform(rt, "indexes", 4); k > 0; k-- {
				in.Indices[cn] = append(in.Indices[cn], ddl.IndexInfo{Name: fmt.Sprintf("i%d", k), Columns: []string{fmt.Sprintf("a%d", i), "b"}, Unique: i%3 == k})
			}
		}
		c.Step("lease %v, %d collections", conf.Lease, n)
		c.NonTrivialIf(n > 100)
		problem := hx.Bubble(t, func() {
			data := hx.NewMemKV()
			for life := 0; life < 2; life++ {
				kv := data.Restart()
				func() {
					defer func() {
						kv.Kill()
						time.Sleep(30 * time.Second)
						forget()
					}()
					do := domain.NewDomain(kv)
					if err := do.Init(); err != nil {
						hx.Failf("init: %v", err)
					}
					if life == 0 {
						ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
						defer cancel()
						if _, err := do.DDL().CreateSchema(ctx, in); err != nil {
							hx.Failf("create: %v", err)
						}
					}
					db, err := do.DB("large")
					if err != nil {
						hx.Failf("life %d: DB: %v", life, err)
					}
					for i, cn := range in.Collections {
						col, err := db.Collection(cn)
						if err != nil {
							hx.Failf("life %d: collection %q: %v", life, cn, err)
						}
						if _, err := col.InsertOne(map[string]int{"n": i}, nil); err != nil {
							hx.Failf("life %d: inserting into %q: %v", life, cn, err)
						}
						if have, err := col.Count(nil); err != nil || have != life+1 {
							hx.Failf("life %d: %q holds %d documents (%v), want %d", life, cn, have, err, life+1)
						}
						got, err := col.GetIndices(nil)
						if err != nil || len(got) != len(in.Indices[cn]) {
							hx.Failf("life %d: %q has %d indexes (%v), want %d", life, cn, len(got), err, len(in.Indices[cn]))
						}
						for _, want := range in.Indices[cn] {
							found := false
							for _, ii := range got {
								found = found || ii.Name == want.Name && ii.Unique == want.Unique && hx.Same(ii.Columns, want.Columns) == ""
							}
							if !found {
								hx.Failf("life %d: %q has no index %+v", life, cn, want)
							}
						}
					}
				}()
			}
		})
		if problem != "" {
			rt.Fatalf("%s\nhistory: %s", problem, c.Trace())
		}
	})
}
