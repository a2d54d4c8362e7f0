//go:build go1.25

// Package json runs the real encoding/json on what the instrumented daemon
// hands it, after reading, map by map and with scheduling points in between,
// everything the encoder will read.
package json

import (
	real "encoding/json"
	"io"
	"reflect"

	"github.com/gostor/gotgt/zsim/rt"
)

func Marshal(v any) ([]byte, error) {
	walk(reflect.ValueOf(v), 0)
	return real.Marshal(v)
}
func MarshalIndent(v any, prefix, indent string) ([]byte, error) {
	walk(reflect.ValueOf(v), 0)
	return real.MarshalIndent(v, prefix, indent)
}
func Unmarshal(b []byte, v any) error { rt.Y(0); return real.Unmarshal(b, v) }

type Encoder struct{ *real.Encoder }

func NewEncoder(w io.Writer) *Encoder { return &Encoder{real.NewEncoder(w)} }
func (e *Encoder) Encode(v any) error {
	walk(reflect.ValueOf(v), 0)
	return e.Encoder.Encode(v)
}

type Decoder = real.Decoder

func NewDecoder(r io.Reader) *Decoder { return real.NewDecoder(r) }

var marshaler = reflect.TypeOf((*real.Marshaler)(nil)).Elem()

func walk(v reflect.Value, depth int) {
	if !v.IsValid() || depth > 40 || rt.Dying() {
		return
	}
	if v.Type().Implements(marshaler) {
		return
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if !v.IsNil() {
			walk(v.Elem(), depth+1)
		}
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if !f.IsExported() && !f.Anonymous || f.Tag.Get("json") == "-" {
				continue
			}
			walk(v.Field(i), depth+1)
		}
	case reflect.Slice, reflect.Array:
		if k := v.Type().Elem().Kind(); k <= reflect.Complex128 || k == reflect.String {
			return
		}
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), depth+1)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		rt.MapReadPtr(v.UnsafePointer(), rt.SiteJSON)
		rt.Y(rt.SiteJSON)
		for _, k := range rt.SortedKeys(v) {
			rt.MapReadPtr(v.UnsafePointer(), rt.SiteJSON)
			rt.Y(rt.SiteJSON)
			walk(v.MapIndex(k), depth+1)
		}
	}
}
