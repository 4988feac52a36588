// Package jsonmodel stands for encoding/json in symbolic runs; native replays use the library itself.
package jsonmodel

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"reflect"
	"strconv"
	"strings"
)

type decoder struct {
	r       io.Reader
	strict  bool
	numbers bool
	read    bool
	p       parser
}

var decoders map[*json.Decoder]*decoder

// NewDecoder stands for json.NewDecoder.
//
//verif:stub encoding/json.NewDecoder
func NewDecoder(r io.Reader) *json.Decoder {
	d := new(json.Decoder)
	if decoders == nil {
		decoders = map[*json.Decoder]*decoder{}
	}
	decoders[d] = &decoder{r: r}
	return d
}

// Disallow stands for (*json.Decoder).DisallowUnknownFields.
//
//verif:stub (*encoding/json.Decoder).DisallowUnknownFields
func Disallow(d *json.Decoder) { decoders[d].strict = true }

// Decode stands for (*json.Decoder).Decode.
//
//verif:stub (*encoding/json.Decoder).Decode
func Decode(d *json.Decoder, v interface{}) error {
	x := decoders[d]
	if !x.read {
		b, err := io.ReadAll(x.r)
		if err != nil {
			return err
		}
		x.read = true
		x.p = parser{s: string(b), strict: x.strict}
	}
	x.p.strict, x.p.numbers = x.strict, x.numbers
	x.p.space()
	if x.p.i == len(x.p.s) {
		return io.EOF
	}
	return x.p.decode(v)
}

// More stands for (*json.Decoder).More.
//
//verif:stub (*encoding/json.Decoder).More
func More(d *json.Decoder) bool {
	x := decoders[d]
	x.p.space()
	return x.p.i < len(x.p.s) && x.p.s[x.p.i] != ']' && x.p.s[x.p.i] != '}'
}

// Unmarshal stands for json.Unmarshal.
//
//verif:stub encoding/json.Unmarshal
func Unmarshal(data []byte, v interface{}) error {
	p := parser{s: string(data)}
	if err := p.decode(v); err != nil {
		return err
	}
	p.space()
	if p.i < len(p.s) {
		return errors.New("invalid character after top-level value")
	}
	return nil
}

// Valid stands for json.Valid.
//
//verif:stub encoding/json.Valid
func Valid(data []byte) bool {
	p := parser{s: string(data)}
	if p.skip() != nil {
		return false
	}
	p.space()
	return p.i == len(p.s)
}

type parser struct {
	s       string
	i       int
	strict  bool
	numbers bool
	saved   error
}

var errSyntax = errors.New("invalid JSON")

func (p *parser) decode(v interface{}) error {
	rv := reflect.ValueOf(v)
	if rv.Kind() != reflect.Ptr || rv.IsNil() {
		return errors.New("json: Unmarshal(nil or not a pointer)")
	}
	at := p.i
	if err := p.skip(); err != nil {
		return err
	}
	end := p.i
	p.i, p.saved = at, nil
	if err := p.value(rv); err != nil {
		return err
	}
	p.i = end
	return p.saved
}

func (p *parser) space() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\n' || p.s[p.i] == '\t' || p.s[p.i] == '\r') {
		p.i++
	}
}

func (p *parser) peek() byte {
	p.space()
	if p.i < len(p.s) {
		return p.s[p.i]
	}
	return 0
}

func (p *parser) eat(c byte) error {
	if p.peek() != c {
		return errSyntax
	}
	p.i++
	return nil
}

// text parses a string.
func (p *parser) text() (string, error) {
	if err := p.eat('"'); err != nil {
		return "", err
	}
	from, plain := p.i, true
	var out []byte
	for p.i < len(p.s) {
		c := p.s[p.i]
		switch {
		case c == '"':
			p.i++
			if plain {
				return p.s[from : p.i-1], nil
			}
			return string(out), nil
		case c == '\\':
			if plain {
				out, plain = append(out, p.s[from:p.i]...), false
			}
			p.i++
			if p.i == len(p.s) {
				return "", errSyntax
			}
			e := p.s[p.i]
			p.i++
			switch e {
			case '"', '\\', '/':
				out = append(out, e)
			case 'n':
				out = append(out, '\n')
			case 't':
				out = append(out, '\t')
			case 'r':
				out = append(out, '\r')
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'u':
				if p.i+4 > len(p.s) {
					return "", errSyntax
				}
				n, err := strconv.ParseUint(p.s[p.i:p.i+4], 16, 16)
				if err != nil {
					return "", errSyntax
				}
				p.i += 4
				out = append(out, string(rune(n))...)
			default:
				return "", errSyntax
			}
		case c < 0x20:
			return "", errSyntax
		default:
			if !plain {
				out = append(out, c)
			}
			p.i++
		}
	}
	return "", errSyntax
}

func (p *parser) word(w string) error {
	if !strings.HasPrefix(p.s[p.i:], w) {
		return errSyntax
	}
	p.i += len(w)
	return nil
}

func (p *parser) number() string {
	from := p.i
	for p.i < len(p.s) && strings.IndexByte("+-.0123456789eE", p.s[p.i]) >= 0 {
		p.i++
	}
	return p.s[from:p.i]
}

// skip passes over one value and checks its syntax.
func (p *parser) skip() error {
	switch c := p.peek(); {
	case c == '"':
		_, err := p.text()
		return err
	case c == '{' || c == '[':
		p.i++
		end := byte('}')
		if c == '[' {
			end = ']'
		}
		if p.peek() == end {
			p.i++
			return nil
		}
		for {
			if c == '{' {
				p.space()
				if _, err := p.text(); err != nil {
					return err
				}
				if err := p.eat(':'); err != nil {
					return err
				}
			}
			if err := p.skip(); err != nil {
				return err
			}
			switch p.peek() {
			case end:
				p.i++
				return nil
			case ',':
				p.i++
			default:
				return errSyntax
			}
		}
	case c == 't':
		return p.word("true")
	case c == 'f':
		return p.word("false")
	case c == 'n':
		return p.word("null")
	case c == '-' || c >= '0' && c <= '9':
		if _, err := strconv.ParseFloat(p.number(), 64); err != nil {
			return errSyntax
		}
		return nil
	}
	return errSyntax
}

func (p *parser) mismatch(what string, v reflect.Value) error {
	if p.saved == nil {
		p.saved = errors.New("json: cannot unmarshal " + what + " into Go value of type " + v.Type().String())
	}
	return p.skip()
}

var rawType = reflect.TypeOf(json.RawMessage{})

// value decodes the next value, which is known to be well formed.
func (p *parser) value(v reflect.Value) error {
	c := p.peek()
	for {
		if v.Kind() == reflect.Interface && !v.IsNil() && v.Elem().Kind() == reflect.Ptr && !v.Elem().IsNil() && c != 'n' {
			v = v.Elem()
			continue
		}
		if v.Kind() != reflect.Ptr {
			break
		}
		if c == 'n' && v.CanSet() {
			v.SetZero()
			return p.word("null")
		}
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
		}
		if v.Type().NumMethod() > 0 && v.CanInterface() && v.Elem().Type() != rawType {
			if u, ok := v.Interface().(json.Unmarshaler); ok {
				from := p.i
				if err := p.skip(); err != nil {
					return err
				}
				return u.UnmarshalJSON([]byte(p.s[from:p.i]))
			}
		}
		v = v.Elem()
	}
	if v.Type() == rawType {
		from := p.i
		if err := p.skip(); err != nil {
			return err
		}
		v.SetBytes(bytes.Clone([]byte(p.s[from:p.i])))
		return nil
	}
	if c == 'n' {
		switch v.Kind() {
		case reflect.Interface, reflect.Map, reflect.Slice:
			v.SetZero()
		}
		return p.word("null")
	}
	if v.Kind() == reflect.Interface {
		if v.Type().NumMethod() > 0 {
			return p.mismatch("value", v)
		}
		x, err := p.any()
		if err == nil {
			v.Set(reflect.ValueOf(x))
		}
		return err
	}
	switch c {
	case '"':
		if v.Kind() != reflect.String {
			return p.mismatch("string", v)
		}
		s, err := p.text()
		if err == nil {
			v.SetString(s)
		}
		return err
	case 't', 'f':
		if v.Kind() != reflect.Bool {
			return p.mismatch("bool", v)
		}
		v.SetBool(c == 't')
		return p.skip()
	case '{':
		switch v.Kind() {
		case reflect.Map:
			return p.mapping(v)
		case reflect.Struct:
			return p.structure(v)
		}
		return p.mismatch("object", v)
	case '[':
		if v.Kind() != reflect.Slice {
			return p.mismatch("array", v)
		}
		return p.list(v)
	}
	from := p.i
	n := p.number()
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x, err := strconv.ParseInt(n, 10, 64)
		if err != nil || v.OverflowInt(x) {
			p.i = from
			return p.mismatch("number "+n, v)
		}
		v.SetInt(x)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x, err := strconv.ParseUint(n, 10, 64)
		if err != nil || v.OverflowUint(x) {
			p.i = from
			return p.mismatch("number "+n, v)
		}
		v.SetUint(x)
	case reflect.Float64:
		x, err := strconv.ParseFloat(n, 64)
		if err != nil {
			p.i = from
			return p.mismatch("number "+n, v)
		}
		v.SetFloat(x)
	default:
		p.i = from
		return p.mismatch("number", v)
	}
	return nil
}

// any decodes into an empty interface.
func (p *parser) any() (interface{}, error) {
	switch c := p.peek(); c {
	case '"':
		return p.text()
	case 't', 'f':
		return c == 't', p.skip()
	case 'n':
		return nil, p.skip()
	case '{':
		var m map[string]interface{}
		err := p.mapping(reflect.ValueOf(&m).Elem())
		return m, err
	case '[':
		m := []interface{}{}
		err := p.list(reflect.ValueOf(&m).Elem())
		return m, err
	}
	n := p.number()
	if p.numbers {
		return json.Number(n), nil
	}
	return strconv.ParseFloat(n, 64)
}

// members calls f for every member of an object, after its colon.
func (p *parser) members(f func(key string) error) error {
	p.i++
	if p.peek() == '}' {
		p.i++
		return nil
	}
	for {
		p.space()
		k, err := p.text()
		if err != nil {
			return err
		}
		if err := p.eat(':'); err != nil {
			return err
		}
		if err := f(k); err != nil {
			return err
		}
		c := p.peek()
		p.i++
		if c == '}' {
			return nil
		}
	}
}

func (p *parser) mapping(v reflect.Value) error {
	t := v.Type()
	if t.Key().Kind() != reflect.String {
		panic("jsonmodel: map keys that are not strings")
	}
	if v.IsNil() {
		v.Set(reflect.MakeMap(t))
	}
	return p.members(func(key string) error {
		e := reflect.New(t.Elem()).Elem()
		if err := p.value(e); err != nil {
			return err
		}
		v.SetMapIndex(reflect.ValueOf(key).Convert(t.Key()), e)
		return nil
	})
}

func (p *parser) structure(v reflect.Value) error {
	t := v.Type()
	return p.members(func(key string) error {
		found := -1
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			name := f.Name
			if f.Anonymous {
				panic("jsonmodel: embedded fields")
			}
			if f.PkgPath != "" {
				continue
			}
			tag := f.Tag.Get("json")
			if tag == "-" {
				continue
			}
			if j := strings.IndexByte(tag, ','); j >= 0 {
				if strings.Contains(tag[j:], "string") {
					panic("jsonmodel: string option")
				}
				tag = tag[:j]
			}
			if tag != "" {
				name = tag
			}
			if name == key {
				found = i
				break
			}
			if found < 0 && strings.EqualFold(name, key) {
				found = i
			}
		}
		if found < 0 {
			if p.strict && p.saved == nil {
				p.saved = errors.New("json: unknown field " + key)
			}
			return p.skip()
		}
		return p.value(v.Field(found))
	})
}

func (p *parser) list(v reflect.Value) error {
	p.i++
	v.Set(reflect.MakeSlice(v.Type(), 0, 0))
	if p.peek() == ']' {
		p.i++
		return nil
	}
	for {
		e := reflect.New(v.Type().Elem()).Elem()
		if err := p.value(e); err != nil {
			return err
		}
		v.Set(reflect.Append(v, e))
		c := p.peek()
		p.i++
		if c == ']' {
			return nil
		}
	}
}
