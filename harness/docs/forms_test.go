package docs

import (
	"fmt"
	"reflect"

	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

// loose takes the fields it knows, whatever is in them; a document may have none of them.
type loose struct {
	A    interface{} `bson:"a"`
	B    interface{} `bson:"b"`
	ID   interface{} `bson:"_id"`
	Name interface{} `bson:"Name"`
}

// forms are what documents are read into.
var forms = []reflect.Type{
	reflect.TypeOf(bson.D{}),
	reflect.TypeOf(bson.D{}),
	reflect.TypeOf(bson.D{}),
	reflect.TypeOf(bson.M{}),
	reflect.TypeOf(map[string]interface{}{}),
	reflect.TypeOf(loose{}),
	reflect.TypeOf(loose{}),
	reflect.TypeOf((*loose)(nil)),
	reflect.TypeOf(bson.Raw{}),
}

func drawForm(rt *rapid.T) reflect.Type {
	return forms[hx.Uniform(rt, "form", len(forms))]
}

// differs compares a document that was read with the encoding of what was written; what was read is
// the reader's and stays what it is.
func differs(got reflect.Value, enc string) string {
	want := reflect.New(got.Type())
	if err := bson.Unmarshal([]byte(enc), want.Interface()); err != nil {
		panic(fmt.Sprintf("a generated document does not decode into %v: %v", got.Type(), err))
	}
	if d, ok := got.Interface().(bson.D); ok && encoded(d) != enc {
		return fmt.Sprintf("%v, want %x", d, enc)
	}
	if !reflect.DeepEqual(got.Interface(), want.Elem().Interface()) {
		return fmt.Sprintf("%+v, want %+v", got.Interface(), want.Elem().Interface())
	}
	keepBytes(got.Interface())
	return ""
}

// keepBytes watches the byte strings within a document.
func keepBytes(v interface{}) {
	switch v := v.(type) {
	case bson.D:
		for _, e := range v {
			keepBytes(e.Value)
		}
	case bson.M:
		for _, e := range v {
			keepBytes(e)
		}
	case map[string]interface{}:
		for _, e := range v {
			keepBytes(e)
		}
	case loose:
		keepBytes(v.A)
		keepBytes(v.B)
		keepBytes(v.ID)
		keepBytes(v.Name)
	case *loose:
		if v != nil {
			keepBytes(*v)
		}
	case primitive.A:
		for _, e := range v {
			keepBytes(e)
		}
	case bson.Raw:
		hx.Kept("a document that was read", v)
	case primitive.Binary:
		hx.Kept("a binary in a document that was read", v.Data)
	}
}

// scribble changes everything that can be reached from v: what was handed out is the caller's, and no
// other result may change with it.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			scribble(v.Elem())
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			scribble(v.MapIndex(k))
			v.SetMapIndex(k, reflect.Value{})
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 { // watched elsewhere
			break
		}
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i))
		}
	}
	if v.CanSet() {
		v.Set(reflect.Zero(v.Type()))
	}
}
