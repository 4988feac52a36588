package jsonmodel

import (
	"bytes"
	"encoding/json"
	"io"
	"math"
	"reflect"
	"sort"
	"strconv"
)

// UseNumber stands for (*json.Decoder).UseNumber.
//
//verif:stub (*encoding/json.Decoder).UseNumber
func UseNumber(d *json.Decoder) { decoders[d].numbers = true }

// Marshal stands for json.Marshal.
//
//verif:stub encoding/json.Marshal
func Marshal(v interface{}) ([]byte, error) { return []byte(text(v, true)), nil }

// MarshalIndent stands for json.MarshalIndent.
//
//verif:stub encoding/json.MarshalIndent
func MarshalIndent(v interface{}, prefix, indent string) ([]byte, error) {
	panic("jsonmodel: MarshalIndent")
}

type encoder struct {
	w     io.Writer
	plain bool
}

var encoders map[*json.Encoder]*encoder

// NewEncoder stands for json.NewEncoder.
//
//verif:stub encoding/json.NewEncoder
func NewEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	if encoders == nil {
		encoders = map[*json.Encoder]*encoder{}
	}
	encoders[e] = &encoder{w: w}
	return e
}

// SetEscapeHTML stands for (*json.Encoder).SetEscapeHTML.
//
//verif:stub (*encoding/json.Encoder).SetEscapeHTML
func SetEscapeHTML(e *json.Encoder, on bool) { encoders[e].plain = !on }

// Encode stands for (*json.Encoder).Encode.
//
//verif:stub (*encoding/json.Encoder).Encode
func Encode(e *json.Encoder, v interface{}) error {
	x := encoders[e]
	_, err := io.WriteString(x.w, text(v, !x.plain)+"\n")
	return err
}

func text(v interface{}, html bool) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case bool:
		if x {
			return "true"
		}
		return "false"
	case string:
		return Quote(x, html)
	case json.Number:
		return string(x)
	case int:
		return strconv.Itoa(x)
	case float64:
		format := byte('f')
		if a := math.Abs(x); a != 0 && (a < 1e-6 || a >= 1e21) {
			format = 'e'
		}
		s := strconv.FormatFloat(x, format, -1, 64)
		if n := len(s); format == 'e' && n >= 4 && s[n-4] == 'e' && (s[n-3] == '-' || s[n-3] == '+') && s[n-2] == '0' {
			s = s[:n-2] + s[n-1:]
		}
		return s
	case []interface{}:
		if x == nil {
			return "null"
		}
		out := "["
		for i, e := range x {
			if i > 0 {
				out += ","
			}
			out += text(e, html)
		}
		return out + "]"
	case map[string]interface{}:
		if x == nil {
			return "null"
		}
		var keys []string
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		out := "{"
		for i, k := range keys {
			if i > 0 {
				out += ","
			}
			out += Quote(k, html) + ":" + text(x[k], html)
		}
		return out + "}"
	}
	if v != nil {
		switch r := reflect.ValueOf(v); r.Kind() {
		case reflect.String:
			return Quote(r.String(), html)
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return strconv.FormatInt(r.Int(), 10)
		case reflect.Bool:
			return strconv.FormatBool(r.Bool())
		}
	}
	panic("jsonmodel: cannot write this type")
}

const digits = "0123456789abcdef"

// Quote writes a string as JSON.
func Quote(s string, html bool) string {
	var b bytes.Buffer
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case c == '\n':
			b.WriteString(`\n`)
		case c == '\r':
			b.WriteString(`\r`)
		case c == '\t':
			b.WriteString(`\t`)
		case c == '\b':
			b.WriteString(`\b`)
		case c == '\f':
			b.WriteString(`\f`)
		case c < 0x20, html && (c == '<' || c == '>' || c == '&'):
			b.WriteString(`\u00`)
			b.WriteByte(digits[c>>4])
			b.WriteByte(digits[c&15])
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}
