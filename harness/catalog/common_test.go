package catalog

import (
	"os"
	"testing"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/provider"
	"github.com/zhiqiangxu/util/osc"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

func badgerDB(t *testing.T) (mondis.KVDB, func()) {
	dir := hx.Scratch(t, "catalog")
	db := provider.NewBadger()
	if err := db.Open(mondis.KVOption{Dir: dir}); err != nil {
		hx.Infra("badger: %v", err)
	}
	return db, func() { _ = db.Close(); _ = os.RemoveAll(dir) }
}

var names = rapid.OneOf(rapid.SampledFrom([]string{"a", "b", "c", "名", "a\x00", "\"q\"", "<&>", "db:1", " "}), rapid.StringN(1, 8, 30))

func drawIndex(rt *rapid.T, id int64) *model.IndexInfo {
	ii := &model.IndexInfo{ID: id, Name: names.Draw(rt, "iname"), Unique: rapid.Bool().Draw(rt, "unique"),
		State: osc.SchemaState(rapid.IntRange(0, 5).Draw(rt, "istate")), Columns: []string{}}
	for n := rapid.IntRange(0, 3).Draw(rt, "ncol"); n > 0; n-- {
		ii.Columns = append(ii.Columns, names.Draw(rt, "col"))
	}
	if rapid.IntRange(0, 3).Draw(rt, "redundant") == 0 {
		ii.JobRedundant = &model.IndexInfoRedundant{Collection: "c", DB: names.Draw(rt, "rdb"), CID: hx.Int64(rt, "rcid")}
	}
	return ii
}

func drawCollection(rt *rapid.T, id int64) *model.CollectionInfo {
	ci := &model.CollectionInfo{ID: id, Name: names.Draw(rt, "cname"), State: osc.SchemaState(rapid.IntRange(0, 5).Draw(rt, "cstate")), Indices: map[string]*model.IndexInfo{}}
	for n := rapid.IntRange(0, 2).Draw(rt, "nidx"); n > 0; n-- {
		ii := drawIndex(rt, hx.Int64(rt, "iid"))
		if ci.Indices[ii.Name] == nil {
			ci.IndexOrder = append(ci.IndexOrder, ii.Name)
		}
		ci.Indices[ii.Name] = ii
	}
	return ci
}

func drawDB(rt *rapid.T, id int64) *model.DBInfo {
	db := &model.DBInfo{ID: id, Name: names.Draw(rt, "dbname"), State: osc.SchemaState(rapid.IntRange(0, 5).Draw(rt, "dbstate")), Collections: map[string]*model.CollectionInfo{}}
	for n := rapid.IntRange(0, 2).Draw(rt, "ncoll"); n > 0; n-- {
		ci := drawCollection(rt, hx.Int64(rt, "cid"))
		if db.Collections[ci.Name] == nil {
			db.CollectionOrder = append(db.CollectionOrder, ci.Name)
		}
		db.Collections[ci.Name] = ci
	}
	return db
}
