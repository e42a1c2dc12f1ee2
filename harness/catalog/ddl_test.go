package catalog

import (
	"context"
	"errors"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/zhiqiangxu/mondis/document/config"
	"github.com/zhiqiangxu/mondis/document/ddl"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/document/domain"
	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/util/logger"
	"go.mongodb.org/mongo-driver/bson"
	"go.uber.org/zap"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

func TestMain(m *testing.M) {
	logger.SetInstance(zap.NewNop())
	os.Exit(m.Run())
}

// request is one call a user makes.
type request struct {
	at      time.Duration
	epoch   int
	timeout time.Duration
	in      ddl.CreateSchemaInput
	invalid bool
	addIdx  *ddl.AddIndexInput // must be refused

	mu       sync.Mutex
	returned bool
	err      error
}

func (r *request) outcome() (bool, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.returned, r.err
}

// epoch is one life of the process.
type epoch struct {
	failCommits map[int]bool // which commits fail
	failOps     map[int]bool // which store operations fail
	crashAt     int          // at which store operation the process dies (0: it does not)
	crashOps    string       // which operations count
	length      time.Duration
}

type plan struct {
	maxOps int
	lease  time.Duration
	epochs []epoch
	reqs   []*request
	atEnd  func(r *ddlRun, kv *hx.MemKV) // runs at the end of every life
}

var ddlDBs = []string{"x", "y", "z", "数据库", "x\x00", "d\"b"}

func drawInput(rt *rapid.T, ndb int) (in ddl.CreateSchemaInput, invalid bool) {
	in.DB = ddlDBs[hx.Uniform(rt, "db", ndb)]
	cols := append([]string{}, colNames...)
	cols = append(cols, "集", " ")
	for n := hx.Uniform(rt, "ncol", 5); n > 0; n-- {
		i := hx.Uniform(rt, "col", len(cols))
		in.Collections = append(in.Collections, cols[i])
		cols = append(cols[:i], cols[i+1:]...)
	}
	if hx.Uniform(rt, "withIndices", 3) > 0 {
		in.Indices = map[string][]ddl.IndexInfo{}
		for _, cn := range in.Collections {
			for _, name := range idxNames[:hx.Uniform(rt, "nidx", len(idxNames)+1)] {
				ii := ddl.IndexInfo{Name: name, Unique: rapid.Bool().Draw(rt, "unique")}
				for k := 1 + hx.Uniform(rt, "ncols", 2); k > 0; k-- {
					ii.Columns = append(ii.Columns, fmt.Sprintf("col%d", hx.Uniform(rt, "column", 5)))
				}
				in.Indices[cn] = append(in.Indices[cn], ii)
			}
		}
	}
	if hx.Uniform(rt, "invalid", 15) == 0 {
		switch hx.Uniform(rt, "how", 3) {
		case 0:
			in.DB, invalid = "", true
		case 1:
			in.Collections, invalid = append(in.Collections, ""), true
		case 2:
			if len(in.Collections) > 0 {
				if in.Indices == nil {
					in.Indices = map[string][]ddl.IndexInfo{}
				}
				in.Indices[in.Collections[0]], invalid = append(in.Indices[in.Collections[0]], ddl.IndexInfo{Name: "", Columns: []string{"a"}}), true
			}
		}
	}
	return
}

func inputText(in ddl.CreateSchemaInput) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%q{", in.DB)
	for _, cn := range in.Collections {
		fmt.Fprintf(&b, " %q%v", cn, in.Indices[cn])
	}
	return b.String() + " }"
}

// view is everything a domain shows of the databases of these names.
func view(open func(name string) (*dml.DB, error), dbs []string, states bool) (out []string) {
	for _, d := range dbs {
		db, err := open(d)
		if err != nil {
			if err != dml.ErrDBNotExists {
				hx.Failf("DB(%q): %v", d, err)
			}
			continue
		}
		out = append(out, fmt.Sprintf("db %q", d))
		for _, cn := range append([]string{"集", " ", "nosuch"}, colNames...) {
			col, err := db.Collection(cn)
			if err != nil {
				if err != dml.ErrCollectionNotExists {
					hx.Failf("Collection(%q): %v", cn, err)
				}
				continue
			}
			out = append(out, fmt.Sprintf("db %q collection %q", d, cn))
			var listed []string
			iifs, err := col.GetIndices(nil)
			if err != nil {
				hx.Failf("GetIndices: %v", err)
			}
			for _, ii := range iifs {
				s := fmt.Sprintf("db %q collection %q index %q %q %v", d, cn, ii.Name, ii.Columns, ii.Unique)
				if states {
					s += fmt.Sprintf(" id %d state %d", ii.ID, ii.State)
				}
				out = append(out, s)
				listed = append(listed, ii.Name)
				// what is returned is a copy: the cached schema does not follow
				ii.Name, ii.Unique, ii.State, ii.ID = "scribbled", !ii.Unique, 99, -1
				for i := range ii.Columns {
					ii.Columns[i] = "scribbled"
				}
			}
			for _, in := range append([]string{"nosuch"}, idxNames...) {
				have := false
				for _, ii := range listed {
					have = have || ii == in
				}
				if _, err := col.Index(in); (err == nil) != have {
					hx.Failf("Index(%q) of %q/%q ends with %v, listed: %v", in, d, cn, err, have)
				}
			}
		}
	}
	sort.Strings(out)
	return
}

// wanted is what view shows of a database made as asked.
func wanted(in ddl.CreateSchemaInput) (out []string) {
	out = append(out, fmt.Sprintf("db %q", in.DB))
	for _, cn := range in.Collections {
		out = append(out, fmt.Sprintf("db %q collection %q", in.DB, cn))
		for _, ii := range in.Indices[cn] {
			out = append(out, fmt.Sprintf("db %q collection %q index %q %q %v", in.DB, cn, ii.Name, ii.Columns, ii.Unique))
		}
	}
	sort.Strings(out)
	return
}

// docRef is an acknowledged document.
type docRef struct {
	db, col string
	id      int64
	text    string
}

type ddlRun struct {
	p    *plan
	kv   *hx.MemKV
	do   *domain.Domain
	mu   sync.Mutex
	docs []docRef
	bad  string
	// jobs seen anywhere, by id
	jobs    map[int64]string
	reached map[string]bool
}

func (r *ddlRun) note(format string, a ...interface{}) {
	r.mu.Lock()
	if r.bad == "" {
		r.bad = fmt.Sprintf(format, a...)
	}
	r.mu.Unlock()
}

func (r *ddlRun) mark(s string) { r.mu.Lock(); r.reached[s] = true; r.mu.Unlock() }

// spawn runs f in its own goroutine; what f fails with becomes the run's failure. A goroutine that
// the death of the process ended is no failure.
func (r *ddlRun) spawn(f func()) (done chan struct{}) {
	done = make(chan struct{})
	kv := r.kv
	go func() {
		defer close(done)
		normal := false
		defer func() {
			if e := recover(); e != nil {
				buf := make([]byte, 3000)
				r.note("panic: %v\n%s", e, buf[:runtime.Stack(buf, false)])
			} else if !normal && !kv.Killed() {
				r.note("the goroutine ended")
			}
		}()
		if msg := protectFail(f); msg != "" {
			r.note("%s", msg)
		}
		normal = true
	}()
	return
}

// protectFail is hx.Protect that lets a goroutine end.
func protectFail(f func()) (msg string) {
	ended := true
	defer func() {
		if ended {
			if e := recover(); e != nil {
				msg = hx.FailureText(e)
			}
		}
	}()
	f()
	ended = false
	return
}

// transient errors are those of the store's injected failures and of conflicts
func transient(err error) bool { return err == hx.ErrInjected || err == hx.ErrConflict }

// usable checks that the database shown is the one asked for, and puts a document into each collection.
func (r *ddlRun) usable(do *domain.Domain, in ddl.CreateSchemaInput, what string) {
	if d := hx.Same(view(do.DB, []string{in.DB}, false), wanted(in)); d != "" {
		hx.Failf("%s of %s: visible is %q, want %q", what, inputText(in), view(do.DB, []string{in.DB}, false), wanted(in))
	}
	db, err := do.DB(in.DB)
	if err != nil {
		hx.Failf("%s: DB: %v", what, err)
	}
	for _, cn := range in.Collections {
		col, err := db.Collection(cn)
		if err != nil {
			hx.Failf("%s: Collection: %v", what, err)
		}
		r.mu.Lock()
		text := fmt.Sprintf("%s/%s/%d", in.DB, cn, len(r.docs))
		r.mu.Unlock()
		for try := 0; ; try++ {
			id, err := col.InsertOne(bson.M{"t": text}, nil)
			if err == nil {
				r.mu.Lock()
				r.docs = append(r.docs, docRef{in.DB, cn, id, text})
				r.mu.Unlock()
				break
			}
			if !transient(err) || try > 100 {
				hx.Failf("%s: inserting into %q/%q: %v", what, in.DB, cn, err)
			}
			time.Sleep(time.Millisecond)
		}
	}
}

func (r *ddlRun) call(q *request) {
	ctx := context.Background()
	if q.timeout > 0 {
		var cancel context.CancelFunc
		ctx, cancel = context.WithTimeout(ctx, q.timeout)
		defer cancel()
	}
	do := r.do
	var job *model.Job
	var err error
	if q.addIdx != nil {
		job, err = do.DDL().AddIndex(ctx, *q.addIdx)
	} else {
		job, err = do.DDL().CreateSchema(ctx, q.in)
	}
	q.mu.Lock()
	q.returned, q.err = true, err
	q.mu.Unlock()
	if q.addIdx != nil {
		if err == nil {
			hx.Failf("adding an index to a missing collection succeeds: %+v", *q.addIdx)
		}
		return
	}
	if q.invalid {
		if err == nil {
			hx.Failf("an invalid request succeeds: %s", inputText(q.in))
		}
		return
	}
	if err == nil {
		if job == nil || job.ID == 0 {
			hx.Failf("a successful request returns no job")
		}
		r.usable(do, q.in, "after success")
	}
}

// forget drops the process-wide state, as the end of the process would.
func forget() {
	for cid := int64(0); cid < 4000; cid++ {
		done := make(chan struct{})
		cid := cid
		go func() {
			defer close(done)
			if dml.GetSequence(cid) != nil {
				_ = dml.DropSequenceIfExists(cid)
			}
		}()
		<-done
	}
}

// look reads queue and history and remembers the jobs it sees.
func (r *ddlRun) look(kv *hx.MemKV) (queue, history []*model.Job) {
	txn := kv.Begin(false)
	defer txn.Discard()
	m := meta.NewMeta(txn)
	queue, err := m.GetAllDDLJobsInQueue()
	if err != nil {
		hx.Failf("the job queue can't be read: %v", err)
	}
	history, err = m.GetAllHistoryDDLJobs()
	if err != nil {
		hx.Failf("the job history can't be read: %v", err)
	}
	seen := map[int64]int{}
	for _, j := range queue {
		seen[j.ID]++
	}
	for _, j := range history {
		seen[j.ID]++
	}
	for id, n := range seen {
		if n > 1 {
			hx.Failf("job %d is there %d times", id, n)
		}
		r.jobs[id] = ""
	}
	return
}

// life runs one epoch; it ends with the death of the process.
func (r *ddlRun) life(n int, e epoch, data *hx.MemKV) {
	kv := data.Restart()
	r.kv = kv
	defer func() {
		kv.Kill()
		// let every goroutine run into the dead store
		time.Sleep(30 * time.Second)
		forget()
	}()
	var mu sync.Mutex
	commits, ops, total := 0, 0, 0
	initDone := false
	kv.Hook = func(op hx.Op, key []byte) error {
		mu.Lock()
		defer mu.Unlock()
		if e.crashAt > 0 && (e.crashOps == "" || strings.Contains(e.crashOps, op.String()+",")) {
			ops++
			if ops == e.crashAt {
				r.mark("killed at " + op.String())
				kv.Kill()
				return nil
			}
		}
		if initDone && op != hx.OpBegin && op != hx.OpDiscard && op != hx.OpAfterCommit {
			total++
			if e.failOps[total] {
				r.mark("failed " + op.String())
				return hx.ErrInjected
			}
		}
		if op == hx.OpCommit && initDone {
			commits++
			if e.failCommits[commits] {
				r.mark("failed commit")
				return hx.ErrInjected
			}
		}
		return nil
	}
	kv.MaxTxnOps = r.p.maxOps
	do := domain.NewDomain(kv)
	r.do = do
	var initErr error
	done := r.spawn(func() { initErr = do.Init() })
	<-done
	if !kv.Killed() {
		if initErr != nil {
			hx.Failf("starting the domain: %v", initErr)
		}
		mu.Lock()
		initDone = true
		mu.Unlock()
		// what was acknowledged before is still there
		r.spawn(func() {
			r.mu.Lock()
			docs := append([]docRef(nil), r.docs...)
			r.mu.Unlock()
			for _, d := range docs {
				db, err := do.DB(d.db)
				if err != nil {
					hx.Failf("after a restart database %q: %v", d.db, err)
				}
				col, err := db.Collection(d.col)
				if err != nil {
					hx.Failf("after a restart collection %q/%q: %v", d.db, d.col, err)
				}
				var got struct{ T string }
				err = hx.ErrInjected
				for try := 0; transient(err) && try < 100; try++ {
					err = col.GetOne(d.id, &got, nil)
				}
				if err != nil || got.T != d.text {
					hx.Failf("after a restart document %d of %q/%q is %q (%v), want %q", d.id, d.db, d.col, got.T, err, d.text)
				}
			}
		})
		for _, q := range r.p.reqs {
			q := q
			if q.epoch == n {
				r.spawn(func() {
					time.Sleep(q.at)
					r.call(q)
				})
			}
		}
		for start := time.Now(); time.Since(start) < e.length && !kv.Killed(); {
			time.Sleep(50 * time.Millisecond)
		}
		if r.p.atEnd != nil && !kv.Killed() && r.bad == "" {
			// not at a moment at which timers of the domain end
			time.Sleep(13370 * time.Microsecond)
			r.p.atEnd(r, kv)
		}
	}
}

// execute runs the plan in a bubble and judges it.
func (p *plan) execute(t *testing.T, c *hx.Case, after func(r *ddlRun, data *hx.MemKV)) (problem string) {
	conf := config.Load()
	old := *conf
	defer func() { *conf = old }()
	conf.Lease = p.lease
	r := &ddlRun{p: p, jobs: map[int64]string{}, reached: map[string]bool{}}
	problem = hx.Bubble(t, func() {
		data := hx.NewMemKV()
		for i, e := range p.epochs {
			r.life(i, e, data)
			if r.bad != "" {
				return
			}
			r.look(data.Restart())
		}
		after(r, data)
	})
	for s := range r.reached {
		c.Class(s)
	}
	if r.bad != "" {
		problem = r.bad
	}
	return
}

var errUnknown = errors.New("unknown")

// verdictOf is nil for success, errUnknown when the caller can't know, or the definitive error.
func (q *request) verdictOf() error {
	ret, err := q.outcome()
	if !ret || err == context.DeadlineExceeded || err == context.Canceled {
		return errUnknown
	}
	return err
}
