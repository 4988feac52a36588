// Package hclround checks that descriptions of databases read back identical (C23).
package hclround

import (
	"bytes"
	"math"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	"github.com/sjansen/pgutil/internal/ddl"
	"github.com/sjansen/pgutil/internal/zzverif/memfs"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

// A filler fills a description.  It numbers the texts, numbers, truth values, lists and optional parts; the one that
// is chosen is arbitrary, the others are distinct words and numbers, false, lists of one, and present.
type filler struct {
	chosen, next int
	text         func() string
	elements     int // in lists, if not one
}

func (f *filler) here() bool {
	f.next++
	return f.next == f.chosen
}

var ints = []int64{0, 1, -1, 10, -120, math.MaxInt32, math.MinInt32, 1<<53 + 1, math.MaxInt64, math.MinInt64}

var floats = []float64{0, 1, 0.1, 0.25, -0.3, 1e-9, 123456789.125, 1e21}

func (f *filler) fill(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if f.here() {
			return
		}
		p := reflect.New(v.Type().Elem())
		f.fill(p.Elem())
		v.Set(p)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f.fill(v.Field(i))
		}
	case reflect.Slice:
		n := 1
		if f.here() {
			n = 2 * sym.Choose("length", 2)
		} else if f.elements > 0 {
			n = f.elements
		}
		f.list(v, n)
	case reflect.String:
		if f.here() {
			v.SetString(f.text())
		} else {
			v.SetString("w" + strconv.Itoa(f.next))
		}
	case reflect.Bool:
		if f.here() {
			v.SetBool(true)
		}
	case reflect.Int, reflect.Int64:
		if f.here() {
			v.SetInt(ints[sym.Choose("number", len(ints))])
		} else {
			v.SetInt(int64(f.next) + 1000)
		}
	case reflect.Float64:
		if f.here() {
			v.SetFloat(floats[sym.Choose("number", len(floats))])
		} else {
			v.SetFloat(float64(f.next) / 8)
		}
	default:
		sym.Fail("a description has a part of an unknown kind")
	}
}

// list makes a list; the pointers in it are not optional.
func (f *filler) list(v reflect.Value, n int) {
	s := reflect.MakeSlice(v.Type(), n, n)
	for i := 0; i < n; i++ {
		e := s.Index(i)
		if e.Kind() == reflect.Ptr {
			p := reflect.New(e.Type().Elem())
			f.fill(p.Elem())
			e.Set(p)
		} else {
			f.fill(e)
		}
	}
	v.Set(s)
}

// same compares two descriptions; an empty list is the same as none.
func same(a, b reflect.Value, what string) {
	switch a.Kind() {
	case reflect.Ptr:
		sym.Assert(a.IsNil() == b.IsNil(), what+" is present as written")
		if !a.IsNil() {
			same(a.Elem(), b.Elem(), what)
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			same(a.Field(i), b.Field(i), a.Type().Field(i).Name)
		}
	case reflect.Slice:
		sym.Assert(a.Len() == b.Len(), what+" has the elements that were written")
		for i := 0; i < a.Len(); i++ {
			same(a.Index(i), b.Index(i), what)
		}
	case reflect.String:
		sym.Assert(sym.EqStr(a.String(), b.String()), what+" reads back identical")
	case reflect.Bool:
		sym.Assert(a.Bool() == b.Bool(), what+" reads back identical")
	case reflect.Int, reflect.Int64:
		sym.Assert(a.Int() == b.Int(), what+" reads back identical")
	case reflect.Float64:
		sym.Assert(a.Float() == b.Float(), what+" reads back identical")
	}
}

func roundTrip(db *ddl.Database, file bool) {
	var buf bytes.Buffer
	err := db.Write(&buf)
	sym.Assert(err == nil, "a description can be written")
	got, err := ddl.ParseBytes(buf.Bytes(), "x.hcl")
	sym.Assert(err == nil && got != nil, "what was written can be read")
	same(reflect.ValueOf(db).Elem(), reflect.ValueOf(got).Elem(), "the description")
	if file {
		defer memfs.Setup()()
		name := filepath.Join(memfs.Dir(), "x.hcl")
		memfs.Put("x.hcl", buf.String())
		got, err = ddl.ParseFile(name)
		sym.Assert(err == nil && got != nil, "a file that was written can be read")
		same(reflect.ValueOf(db).Elem(), reflect.ValueOf(got).Elem(), "the description in a file")
	}
}

// Fields fills every field.
//
//verif:harness C23 fields steps=50000000 quick:len=1 thorough:len=2
//verif:bound one block of one kind at a time with one of everything in it; one text of up to len arbitrary ASCII bytes but NUL, one number of a list of corner cases, one truth value, one absent optional part, or one list of no or two elements; distinct words and numbers elsewhere
//verif:reach text other
func Fields() {
	db := &ddl.Database{}
	v := reflect.ValueOf(db).Elem()
	block := v.Field(sym.Choose("block", v.NumField()))
	f := &filler{}
	f.fill(block) // to count
	n := f.next
	was := false
	f = &filler{chosen: sym.Choose("chosen", n+1), text: func() string {
		s := sym.Str("text", sym.Param("len", 1))
		for i := 0; i < len(s); i++ {
			sym.Assume(sym.And(s[i] != 0, s[i] < 0x80))
		}
		was = true
		return s
	}}
	*db = ddl.Database{}
	f.fill(block)
	roundTrip(db, false)
	if was {
		sym.Reach("text")
	} else {
		sym.Reach("other")
	}
}

// Texts writes long texts.
//
//verif:harness C23 texts quick:len=3 thorough:len=5
//verif:bound texts of up to len of the bytes $ % { } " \ and newline and a, as a label, an attribute and in a list; a text of 70001 bytes, through a file
//verif:reach done
func Texts() {
	s := sym.StrIn("text", sym.Param("len", 3), "${\"\\\na%}")
	db := &ddl.Database{}
	switch sym.Choose("place", 3) {
	case 0:
		db.Schemas = []*ddl.Schema{{Name: s}}
	case 1:
		db.Schemas = []*ddl.Schema{{Name: "s", Comment: s}}
	case 2:
		db.Parameters = &ddl.Parameters{SearchPath: []string{"a", s, "b"}}
	}
	roundTrip(db, false)
	sym.Reach("done")
}

// Whole writes whole descriptions.
//
//verif:harness C23 whole steps=50000000 quick:n=2 thorough:n=3
//verif:bound no or n blocks of each kind, everything distinct; also in a file
//verif:reach done
func Whole() {
	db := &ddl.Database{}
	v := reflect.ValueOf(db).Elem()
	f := &filler{}
	f.fill(v.Field(0))
	n := sym.Param("n", 2)
	for i := 1; i < v.NumField(); i++ {
		f.list(v.Field(i), n*sym.Choose("blocks"+strconv.Itoa(i), 2))
	}
	roundTrip(db, true)
	sym.Reach("done")
}

// Runes writes characters of more than one byte.
//
//verif:harness C23 runes steps=50000000 quick:top=194 thorough:top=197
//verif:bound every character of two bytes from U+0080 whose first byte is at most top, and some others of up to four bytes, between ASCII letters, as a label, an attribute and in a list; all in the normal form (NFC) of the HCL language
//verif:reach done
func Runes() {
	var s string
	if i := sym.Choose("rune", 9); i > 0 {
		s = []string{"\u2028", "\ufeff", "\u4e16", "\U0001f600", "\ufffd", "\u1e9b\u0323", "\u00ad\u200d", "\U000e0001"}[i-1]
	} else {
		s = sym.StrN("bytes", 2)
		sym.Assume(sym.And(sym.And(s[0] >= 0xc2, s[0] <= byte(sym.Param("top", 0xc2))), sym.And(s[1] >= 0x80, s[1] <= 0xbf)))
	}
	s = "a" + s + "b"
	db := &ddl.Database{}
	switch sym.Choose("place", 3) {
	case 0:
		db.Schemas = []*ddl.Schema{{Name: s}}
	case 1:
		db.Schemas = []*ddl.Schema{{Name: "s", Comment: s}}
	case 2:
		db.Parameters = &ddl.Parameters{SearchPath: []string{"a", s, "b"}}
	}
	roundTrip(db, false)
	sym.Reach("done")
}

// Large writes many blocks, or long texts.
//
//verif:harness C23 large steps=200000000 sizes=2 thorough:sizes=3
//verif:bound (large) 9, 20 or (thorough) 70 blocks of one kind with everything distinct, or a list of as many elements in every list; or a text of 70, 300 or 5000 bytes with an arbitrary one in the middle, as a label, an attribute and in a list; a text of 70001 bytes, through a file
//verif:reach blocks text
func Large() {
	db := &ddl.Database{}
	if sym.Bool("longest") { // no buffer has a place for it
		db.Schemas = []*ddl.Schema{{Name: "s", Comment: strings.Repeat("a word ", 10000) + sym.StrNIn("byte", 1, "\n a")}, {Name: "t"}}
		roundTrip(db, true)
		sym.Reach("text")
		return
	}
	if sym.Bool("long") {
		n := []int{70, 300, 5000}[sym.Choose("length", 3)]
		s := strings.Repeat("word ", n/10) + sym.StrNIn("byte", 1, "$%{}\"\\\n a~") + strings.Repeat("{more", n/10)
		switch sym.Choose("place", 3) {
		case 0:
			db.Schemas = []*ddl.Schema{{Name: s}}
		case 1:
			db.Schemas = []*ddl.Schema{{Name: "s", Comment: s}}
		case 2:
			db.Parameters = &ddl.Parameters{SearchPath: []string{"a", s, "b"}}
		}
		roundTrip(db, false)
		sym.Reach("text")
		return
	}
	n := []int{9, 20, 70}[sym.Choose("size", sym.Param("sizes", 2))]
	v := reflect.ValueOf(db).Elem()
	f := &filler{}
	f.fill(v.Field(0))
	i := 1 + sym.Choose("block", v.NumField()-1)
	if sym.Bool("lists") {
		f.elements = n
		f.list(v.Field(i), 1)
	} else {
		f.list(v.Field(i), n)
	}
	roundTrip(db, false)
	sym.Reach("blocks")
}
