package docs

import (
	"fmt"
	"math"
	"os"
	"sort"
	"strings"
	"testing"

	"github.com/zhiqiangxu/util/logger"
	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
	"go.uber.org/zap"
	"pgregory.net/rapid"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/provider"

	"verif/harness/hx"
)

func TestMain(m *testing.M) {
	logger.SetInstance(zap.NewNop())
	os.Exit(m.Run())
}

func openBadger(dir string) mondis.KVDB {
	db := provider.NewBadger()
	if err := db.Open(mondis.KVOption{Dir: dir}); err != nil {
		hx.Infra("badger: %v", err)
	}
	return db
}

var docFields = []string{"a", "b", "_id", "a.b", "", "$x", "Name", "字段", "longer field name"}

// drawValue draws something a document field can hold, in the form it decodes to.
func drawValue(rt *rapid.T, depth int, nested func(rt *rapid.T, depth int) interface{}) interface{} {
	n := 12
	if depth == 0 {
		n = 10
	}
	switch hx.Uniform(rt, "value", n) {
	case 0:
		return int32(rapid.Int32().Draw(rt, "int32"))
	case 1:
		return hx.Int64(rt, "int64")
	case 2:
		return rapid.SampledFrom([]string{"", "x", "\x00", "ünï", strings.Repeat("long ", 50)}).Draw(rt, "string")
	case 3:
		return rapid.Bool().Draw(rt, "bool")
	case 4:
		return rapid.SampledFrom([]float64{0, 1.5, -1, math.Inf(1), math.MaxFloat64, math.SmallestNonzeroFloat64}).Draw(rt, "float")
	case 5:
		return nil
	case 6:
		return primitive.Binary{Subtype: byte(rapid.SampledFrom([]int{0, 1, 5, 128}).Draw(rt, "subtype")), Data: rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(rt, "binary")}
	case 7:
		return primitive.DateTime(rapid.Int64Range(-1e15, 1e15).Draw(rt, "date"))
	case 8:
		var o primitive.ObjectID
		copy(o[:], rapid.SliceOfN(rapid.Byte(), 12, 12).Draw(rt, "oid"))
		return o
	case 9:
		return primitive.Timestamp{T: rapid.Uint32().Draw(rt, "t"), I: rapid.Uint32().Draw(rt, "i")}
	case 10:
		a := primitive.A{}
		for k := hx.Uniform(rt, "items", 4); k > 0; k-- {
			a = append(a, drawValue(rt, depth-1, nested))
		}
		return a
	default:
		return nested(rt, depth-1)
	}
}

// drawD draws an ordered document.
func drawD(rt *rapid.T, depth int) bson.D {
	d := bson.D{}
	names := append([]string{}, docFields...)
	for k := hx.Uniform(rt, "fields", 5); k > 0; k-- {
		i := hx.Uniform(rt, "field", len(names))
		name := names[i]
		names = append(names[:i], names[i+1:]...)
		d = append(d, bson.E{Key: name, Value: drawValue(rt, depth, func(rt *rapid.T, depth int) interface{} { return drawD(rt, depth) })})
	}
	return d
}

// drawM draws an unordered document.
func drawM(rt *rapid.T, depth int) bson.M {
	d := bson.M{}
	for k := hx.Uniform(rt, "fields", 5); k > 0; k-- {
		name := docFields[hx.Uniform(rt, "field", len(docFields))]
		d[name] = drawValue(rt, depth, func(rt *rapid.T, depth int) interface{} { return drawM(rt, depth) })
	}
	return d
}

func encoded(d interface{}) string {
	b, err := bson.Marshal(d)
	if err != nil {
		panic(fmt.Sprintf("a generated document does not encode: %v", err))
	}
	return string(b)
}

func sortedIDs[V any](m map[int64]V) []int64 {
	out := make([]int64, 0, len(m))
	for id := range m {
		out = append(out, id)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// chosen are document ids a user may pick that no sequence reaches.
var chosen = []int64{0, -1, -2, -256, math.MinInt64, math.MinInt64 + 1, math.MaxInt64, math.MaxInt64 - 1, 1 << 40, 1<<40 + 1, -(1 << 40)}
