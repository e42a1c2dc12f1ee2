package codec

import (
	"errors"
	"fmt"
	"reflect"
	"testing"

	"github.com/zhiqiangxu/mondis/document/ddl"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/util/osc"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

var modelName = rapid.OneOf(rapid.SampledFrom([]string{"a", "b", "c", "", "名", "a\x00", "\"q\"", "<&>"}), rapid.StringN(1, 8, 30))

func drawIndexInfo(rt *rapid.T) *model.IndexInfo {
	ii := &model.IndexInfo{ID: hx.Int64(rt, "iid"), Name: modelName.Draw(rt, "iname"), Unique: rapid.Bool().Draw(rt, "unique"),
		State: osc.SchemaState(rapid.IntRange(0, 4).Draw(rt, "istate"))}
	if n := rapid.IntRange(-1, 3).Draw(rt, "ncol"); n >= 0 {
		ii.Columns = make([]string, 0, n+rapid.IntRange(0, 2).Draw(rt, "spare"))
		for i := 0; i < n; i++ {
			ii.Columns = append(ii.Columns, modelName.Draw(rt, "col"))
		}
	}
	if rapid.Bool().Draw(rt, "redundant") {
		ii.JobRedundant = &model.IndexInfoRedundant{Collection: modelName.Draw(rt, "rc"), DB: modelName.Draw(rt, "rdb"), CID: hx.Int64(rt, "rcid")}
	}
	return ii
}

func drawCollectionInfo(rt *rapid.T, maxIndices int) *model.CollectionInfo {
	ci := &model.CollectionInfo{ID: hx.Int64(rt, "cid"), Name: modelName.Draw(rt, "cname"), State: osc.SchemaState(rapid.IntRange(0, 4).Draw(rt, "cstate"))}
	n := rapid.IntRange(-1, maxIndices).Draw(rt, "nidx")
	if n >= 0 {
		ci.Indices = map[string]*model.IndexInfo{}
		for i := 0; i < n; i++ {
			ii := drawIndexInfo(rt)
			if ci.Indices[ii.Name] == nil {
				ci.IndexOrder = append(ci.IndexOrder, ii.Name)
			}
			ci.Indices[ii.Name] = ii
		}
	}
	return ci
}

func drawDBInfo(rt *rapid.T) *model.DBInfo {
	db := &model.DBInfo{ID: hx.Int64(rt, "dbid"), Name: modelName.Draw(rt, "dbname"), State: osc.SchemaState(rapid.IntRange(0, 4).Draw(rt, "dbstate"))}
	n := rapid.IntRange(-1, 3).Draw(rt, "ncoll")
	if n >= 0 {
		db.Collections = map[string]*model.CollectionInfo{}
		for i := 0; i < n; i++ {
			ci := drawCollectionInfo(rt, 2)
			if db.Collections[ci.Name] == nil {
				db.CollectionOrder = append(db.CollectionOrder, ci.Name)
			}
			db.Collections[ci.Name] = ci
		}
	}
	return db
}

// same compares deeply, nil and empty slices and maps being equal.
func same(a, b reflect.Value, path string) string {
	if a.Type() != b.Type() {
		return path + ": type"
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return path + ": nil"
			}
			return ""
		}
		return same(a.Elem(), b.Elem(), path)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := same(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d vs %d elements", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := same(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d vs %d entries", path, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			v := b.MapIndex(k)
			if !v.IsValid() {
				return fmt.Sprintf("%s[%v] missing", path, k)
			}
			if d := same(a.MapIndex(k), v, fmt.Sprintf("%s[%v]", path, k)); d != "" {
				return d
			}
		}
		return ""
	default:
		if a.Interface() != b.Interface() {
			return fmt.Sprintf("%s: %v vs %v", path, a.Interface(), b.Interface())
		}
		return ""
	}
}

func sameAs(a, b interface{}) string { return same(reflect.ValueOf(a), reflect.ValueOf(b), "") }

// pointers collects the mutable memory reachable from v.
func pointers(v reflect.Value, path string, out map[uintptr]string) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			if v.Elem().Type().Size() > 0 {
				out[v.Pointer()] = path
			}
			pointers(v.Elem(), path, out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			pointers(f, path+"."+v.Type().Field(i).Name, out)
		}
	case reflect.Slice:
		if v.Cap() > 0 {
			out[v.Pointer()] = path
		}
		for i := 0; i < v.Len(); i++ {
			pointers(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.Map:
		if !v.IsNil() {
			out[v.Pointer()] = path
		}
		for _, k := range v.MapKeys() {
			pointers(v.MapIndex(k), fmt.Sprintf("%s[%v]", path, k), out)
		}
	}
}

func shared(a, b interface{}) string {
	pa, pb := map[uintptr]string{}, map[uintptr]string{}
	pointers(reflect.ValueOf(a), "", pa)
	pointers(reflect.ValueOf(b), "", pb)
	for p, where := range pa {
		if w, ok := pb[p]; ok {
			return where + " is " + w
		}
	}
	return ""
}

func TestP27_Clone(t *testing.T) {
	hx.Run(t, hx.N{Quick: 48000}, "a description with at least one collection, index or column",
		func(rt *rapid.T, c *hx.Case) {
			check := func(what string, orig, clone interface{}, before string) {
				if d := sameAs(orig, clone); d != "" {
					rt.Fatalf("%s: copy differs: %s", what, d)
				}
				if s := shared(orig, clone); s != "" {
					rt.Fatalf("%s: copy shares memory with the original: %s", what, s)
				}
			}
			switch rapid.IntRange(0, 2).Draw(rt, "what") {
			case 0:
				db := drawDBInfo(rt)
				c.Step("db %q %d collections", db.Name, len(db.Collections))
				c.Class("db")
				c.NonTrivialIf(len(db.Collections) > 0)
				check("DBInfo", db, db.Clone(), "")
			case 1:
				ci := drawCollectionInfo(rt, 3)
				c.Step("collection %q %v", ci.Name, ci.IndexOrder)
				c.Class("collection")
				c.NonTrivialIf(len(ci.Indices) > 0)
				check("CollectionInfo", ci, ci.Clone(), "")
			case 2:
				ii := drawIndexInfo(rt)
				c.Step("index %q %q", ii.Name, ii.Columns)
				c.Class("index")
				c.NonTrivialIf(len(ii.Columns) > 0)
				check("IndexInfo", ii, ii.Clone(), "")
			}
		})
}

// A description under a history of updates against maps and lists.
func TestP27_Describe(t *testing.T) {
	hx.Run(t, hx.N{Quick: 30000}, "a history that adds an index, repeats a name and updates an existing index",
		func(rt *rapid.T, c *hx.Case) {
			ci := drawCollectionInfo(rt, 0)
			ref := map[string]*model.IndexInfo{}
			var order []string
			db := drawDBInfo(rt)
			refDB := map[string]*model.CollectionInfo{}
			for n, x := range db.Collections {
				refDB[n] = x.Clone()
			}
			added, repeated, updated := false, false, false
			for n := rapid.IntRange(1, 12).Draw(rt, "steps"); n > 0; n-- {
				switch rapid.IntRange(0, 3).Draw(rt, "op") {
				case 0:
					ii := drawIndexInfo(rt)
					ii.Name = rapid.SampledFrom([]string{"a", "b", "c", ""}).Draw(rt, "histName")
					want := ref[ii.Name] == nil
					keep := ii.Clone()
					got := ci.AddIndexInfo(ii)
					c.Step("add %q=%v", ii.Name, got)
					if got != want {
						rt.Fatalf("AddIndexInfo(%q)=%v, want %v", ii.Name, got, want)
					}
					if want {
						ref[ii.Name] = keep
						order = append(order, ii.Name)
						added = true
					} else {
						repeated = true
					}
					// the caller goes on using its own description
					ii.State, ii.ID = 3, ii.ID+1
					if len(ii.Columns) > 0 {
						ii.Columns[0] += "!"
					}
				case 1:
					ii := drawIndexInfo(rt)
					ii.Name = rapid.SampledFrom([]string{"a", "b", "c", ""}).Draw(rt, "histName")
					want := ref[ii.Name] != nil
					keep := ii.Clone()
					got := ci.UpdateIndexInfo(ii)
					c.Step("update %q=%v", ii.Name, got)
					if got != want {
						rt.Fatalf("UpdateIndexInfo(%q)=%v, want %v", ii.Name, got, want)
					}
					if want {
						ref[ii.Name] = keep
						updated = true
					}
					ii.State, ii.ID = 3, ii.ID+1
					if len(ii.Columns) > 0 {
						ii.Columns[0] += "!"
					}
				case 2:
					x := drawCollectionInfo(rt, 1)
					if rapid.Bool().Draw(rt, "known") {
						x.Name = rapid.SampledFrom([]string{"a", "b", "c"}).Draw(rt, "histCName")
					}
					want := refDB[x.Name] != nil
					keep := x.Clone()
					got := db.UpdateCollectionInfo(x)
					c.Step("update collection %q=%v", x.Name, got)
					if got != want {
						rt.Fatalf("UpdateCollectionInfo(%q)=%v, want %v", x.Name, got, want)
					}
					if want {
						refDB[x.Name] = keep
					}
				case 3:
					name := modelName.Draw(rt, "name")
					if g := db.CollectionExists(name); g != (refDB[name] != nil) {
						rt.Fatalf("CollectionExists(%q)=%v", name, g)
					}
					if g := db.CollectionInfo(name); (g == nil) != (refDB[name] == nil) || g != nil && sameAs(g, refDB[name]) != "" {
						rt.Fatalf("CollectionInfo(%q)=%+v, want %+v", name, g, refDB[name])
					}
				}
				for _, name := range append([]string{"a", "b", modelName.Draw(rt, "probe")}, order...) {
					w := ref[name]
					if g := ci.IndexExists(name); g != (w != nil) {
						rt.Fatalf("IndexExists(%q)=%v", name, g)
					}
					g := ci.IndexInfo(name)
					if (g == nil) != (w == nil) || g != nil && sameAs(g, w) != "" {
						rt.Fatalf("IndexInfo(%q)=%+v, want %+v", name, g, w)
					}
				}
				if d := sameAs(ci.IndexOrder, order); d != "" {
					rt.Fatalf("index order %v, want %v", ci.IndexOrder, order)
				}
				if len(db.Collections) != len(refDB) {
					rt.Fatalf("database has %d collections, want %d", len(db.Collections), len(refDB))
				}
				for name, w := range refDB {
					if d := sameAs(db.Collections[name], w); d != "" {
						rt.Fatalf("collection %q differs: %s", name, d)
					}
				}
			}
			c.NonTrivialIf(added && repeated && updated)
		})
}

type jobArg struct {
	Name string
	N    int64
	B    []byte
	Sub  *model.DBInfo
}

func drawArg(rt *rapid.T) jobArg {
	a := jobArg{Name: modelName.Draw(rt, "argName"), N: hx.Int64(rt, "argN"), B: rapid.SliceOfN(rapid.Byte(), 0, 9).Draw(rt, "argB")}
	if rapid.Bool().Draw(rt, "argSub") {
		a.Sub = drawDBInfo(rt)
	}
	return a
}

func TestP27_JobsAndDiffs(t *testing.T) {
	errText := func(e error) string {
		if e == nil {
			return "<nil>"
		}
		return "error: " + e.Error()
	}
	hx.Run(t, hx.N{Quick: 48000}, "a job that carries an error text or a large identifier, or a diff with collections, encoded more than once",
		func(rt *rapid.T, c *hx.Case) {
			if rapid.IntRange(0, 2).Draw(rt, "diff") == 0 {
				sd := model.SchemaDiff{Version: hx.Int64(rt, "version"), Type: model.ActionType(rapid.Byte().Draw(rt, "type")), CollectionIDs: rapid.SliceOfN(rapid.Int64(), 0, 4).Draw(rt, "cids")}
				arg := drawArg(rt)
				sd.Arg = arg
				c.Step("diff %d type %d %v", sd.Version, sd.Type, sd.CollectionIDs)
				c.Class("diff")
				c.NonTrivialIf(len(sd.CollectionIDs) > 0)
				b, err := sd.Encode()
				if err != nil {
					rt.Fatalf("diff encode: %v", err)
				}
				for round := 0; round < 2; round++ {
					var got model.SchemaDiff
					if err := got.Decode(b); err != nil {
						rt.Fatalf("diff decode: %v", err)
					}
					var ga jobArg
					if err := got.DecodeArg(&ga); err != nil {
						rt.Fatalf("diff arg decode: %v", err)
					}
					if got.Version != sd.Version || got.Type != sd.Type || sameAs(got.CollectionIDs, sd.CollectionIDs) != "" || sameAs(ga, arg) != "" {
						rt.Fatalf("diff round trip: %+v %+v, want %+v %+v", got, ga, sd, arg)
					}
					if b, err = got.Encode(); err != nil {
						rt.Fatalf("diff re-encode: %v", err)
					}
				}
				return
			}
			c.Class("job")
			job := &model.Job{}
			var arg jobArg
			interesting := false
			for n := rapid.IntRange(1, 5).Draw(rt, "updates"); n > 0; n-- {
				// update some fields
				if rapid.Bool().Draw(rt, "upd") || job.ID == 0 {
					job.ID = hx.Int64(rt, "id")
					job.Type = model.ActionType(rapid.Byte().Draw(rt, "type"))
					job.StartTS = hx.Uint64(rt, "ts")
					job.DependencyID = hx.Int64(rt, "dep")
				}
				job.State = model.JobState(rapid.Byte().Draw(rt, "state"))
				job.SchemaState = osc.SchemaState(rapid.IntRange(0, 4).Draw(rt, "sstate"))
				job.ErrorCount = hx.Int64(rt, "ec")
				switch rapid.IntRange(0, 4).Draw(rt, "err") {
				case 0:
					job.Error = nil
				case 1:
					job.Error = errors.New(rapid.OneOf(rapid.SampledFrom([]string{"db already exists", "", "null", "{}", "\"quoted\"", "nul\x00byte", "日本"}), rapid.String()).Draw(rt, "text"))
				case 2:
					job.Error = fmt.Errorf("wrapped %d: %w", job.ID, errors.New("cause"))
				}
				if job.Error != nil {
					interesting = true
				}
				if job.RawArg == nil || rapid.IntRange(0, 2).Draw(rt, "newArg") == 0 {
					arg = drawArg(rt)
					job.Arg, job.RawArg = arg, nil
				}
				want := *job
				b, err := job.Encode()
				if err != nil {
					rt.Fatalf("encode: %v", err)
				}
				c.Step("job %d type %d state %d err %q", job.ID, job.Type, job.State, errText(job.Error))
				if errText(job.Error) != errText(want.Error) || job.State != want.State {
					rt.Fatalf("encoding changed the job: %+v, was %+v", job, want)
				}
				got := &model.Job{}
				if err := got.Decode(b); err != nil {
					rt.Fatalf("a job with %s does not decode: %v\n%s", errText(want.Error), err, b)
				}
				var ga jobArg
				if err := got.DecodeArg(&ga); err != nil {
					rt.Fatalf("job arg decode: %v", err)
				}
				if d := sameAs(ga, arg); d != "" {
					rt.Fatalf("argument differs after round trip: %s", d)
				}
				if got.ID != want.ID || got.Type != want.Type || got.State != want.State || got.ErrorCount != want.ErrorCount ||
					got.SchemaState != want.SchemaState || got.StartTS != want.StartTS || got.DependencyID != want.DependencyID || errText(got.Error) != errText(want.Error) {
					rt.Fatalf("job round trip: %+v, want %+v", got, want)
				}
				// predicates on the state
				p := map[string][2]bool{
					"synced": {got.IsSynced(), got.State == 6}, "done": {got.IsDone(), got.State == 4}, "cancelled": {got.IsCancelled(), got.State == 5},
					"rollingback": {got.IsRollingback(), got.State == 2}, "cancelling": {got.IsCancelling(), got.State == 7},
					"rollback done": {got.IsRollbackDone(), got.State == 3}, "finished": {got.IsFinished(), got.State == 3 || got.State == 4 || got.State == 5},
				}
				for k, v := range p {
					if v[0] != v[1] {
						rt.Fatalf("job in state %d: %s = %v", got.State, k, v[0])
					}
				}
				if rapid.Bool().Draw(rt, "goOnWithDecoded") {
					job = got
				}
			}
			c.NonTrivialIf(interesting)
			c.ClassIf(interesting, "failed job")
		})
}

func drawInputIndex(rt *rapid.T) (ddl.IndexInfo, bool) {
	ii := ddl.IndexInfo{Name: rapid.SampledFrom([]string{"i", "j", "k", "", "i"}).Draw(rt, "iname"), Unique: rapid.Bool().Draw(rt, "unique")}
	for n := rapid.SampledFrom([]int{1, 2, 3, 1, 0}).Draw(rt, "ncols"); n > 0; n-- {
		ii.Columns = append(ii.Columns, rapid.SampledFrom([]string{"a", "b", "c"}).Draw(rt, "col"))
	}
	return ii, ii.Name != "" && len(ii.Columns) > 0
}

func TestP27_Validate(t *testing.T) {
	name := rapid.SampledFrom([]string{"x", "y", "long name", "x", "\x00", " ", ""})
	hx.Run(t, hx.N{Quick: 60000}, "an input with exactly one or no name missing",
		func(rt *rapid.T, c *hx.Case) {
			missing := 0
			str := func(label string) string {
				s := name.Draw(rt, label)
				if s == "" {
					missing++
				}
				return s
			}
			idx := func() ddl.IndexInfo {
				ii, ok := drawInputIndex(rt)
				if !ok {
					missing++
				}
				return ii
			}
			var in interface {
				Validate() error
			}
			switch rapid.IntRange(0, 6).Draw(rt, "input") {
			case 0:
				x := &ddl.CreateSchemaInput{DB: str("db")}
				for n := rapid.IntRange(0, 3).Draw(rt, "n"); n > 0; n-- {
					x.Collections = append(x.Collections, str("coll"))
				}
				if rapid.Bool().Draw(rt, "indices") {
					x.Indices = map[string][]ddl.IndexInfo{}
					for _, cn := range x.Collections {
						if x.Indices[cn] != nil {
							continue
						}
						for n := rapid.IntRange(0, 2).Draw(rt, "ni"); n > 0; n-- {
							x.Indices[cn] = append(x.Indices[cn], idx())
						}
					}
				}
				in = x
			case 1:
				in = &ddl.DropSchemaInput{DB: str("db")}
			case 2:
				x := &ddl.CreateCollectionInput{DB: str("db"), Collection: str("coll")}
				for n := rapid.IntRange(0, 3).Draw(rt, "ni"); n > 0; n-- {
					x.Indices = append(x.Indices, idx())
				}
				in = x
			case 3:
				in = &ddl.DropCollectionInput{DB: str("db"), Collection: str("coll")}
			case 4:
				in = &ddl.AddIndexInput{DB: str("db"), Collection: str("coll"), IndexInfo: idx()}
			case 5:
				in = &ddl.DropIndexInput{DB: str("db"), Collection: str("coll"), IndexName: str("index")}
			case 6:
				ii, ok := drawInputIndex(rt)
				if !ok {
					missing++
				}
				keep := fmt.Sprintf("%+v", ii)
				m := ii.ToModel()
				if m.Name != ii.Name || m.Unique != ii.Unique || sameAs(m.Columns, ii.Columns) != "" {
					rt.Fatalf("ToModel(%+v) = %+v", ii, m)
				}
				if len(ii.Columns) > 0 {
					m.Columns[0] = "changed"
				}
				if fmt.Sprintf("%+v", ii) != keep {
					rt.Fatalf("ToModel shares the columns with its input")
				}
				in = &ii
			}
			c.Step("%T %+v", in, in)
			c.NonTrivialIf(missing <= 1)
			c.Class(fmt.Sprintf("%T", in))
			before := fmt.Sprintf("%+v", in)
			err := in.Validate()
			if (err == nil) != (missing == 0) {
				rt.Fatalf("Validate(%+v) = %v with %d required names missing", in, err, missing)
			}
			if fmt.Sprintf("%+v", in) != before {
				rt.Fatalf("Validate changed its input")
			}
		})
}
