package rbout

import (
	"bytes"
	"encoding/json"
	"errors"
	"strconv"
	"strings"

	"github.com/sjansen/pgutil/internal/commands"
	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/sys"
	"github.com/sjansen/pgutil/internal/zzverif/jsonmodel"
	"github.com/sjansen/pgutil/internal/zzverif/memfs"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

var numbers = []float64{0, -1, 1.5, 1234567890, 9007199254740991, 1e21, 1e-7, 0.1}

// maker makes values; only the first few scalars differ.
type maker struct {
	vary, len, id int
}

func (k *maker) text() string {
	if k.vary > 0 {
		k.vary--
		if k.len > 0 {
			return sym.StrIn("text", k.len, "a\"\\\n\x1f<%'")
		}
		return []string{"", "a", "caf\xc3\xa9 \xe2\x82\xac", "\"", "a\\b", "\n\t\x01", "</script>&", "%s%d", "\x1b[1m", strings.Repeat("long ", 600)}[sym.Choose("word", 10)]
	}
	k.id++
	return "other" + strconv.Itoa(k.id)
}

// value makes a value and its text.
func (k *maker) value(depth int) (interface{}, string) {
	kinds := 4
	if depth > 0 {
		kinds = 6
	}
	if k.vary == 0 {
		s := k.text()
		return s, jsonmodel.Quote(s, false)
	}
	switch sym.Choose("kind", kinds) {
	case 0:
		k.vary--
		return nil, "null"
	case 1:
		k.vary--
		if sym.Bool("bool") {
			return true, "true"
		}
		return false, "false"
	case 2:
		k.vary--
		n := numbers[sym.Choose("number", len(numbers))]
		return n, strconv.FormatFloat(n, 'g', -1, 64)
	case 3:
		s := k.text()
		return s, jsonmodel.Quote(s, false)
	case 4:
		list, text := []interface{}{}, "["
		for i, n := 0, sym.Choose("elements", 3); i < n; i++ {
			v, t := k.value(depth - 1)
			list = append(list, v)
			if i > 0 {
				text += ", "
			}
			text += t
		}
		return list, text + "]"
	}
	m, text := map[string]interface{}{}, "{"
	prev := ""
	for i, n := 0, sym.Choose("members", 3); i < n; i++ {
		key := k.text()
		if i > 0 {
			sym.Assume(sym.Not(sym.EqStr(prev, key)))
			text += ", "
		}
		prev = key
		v, t := k.value(depth - 1)
		m[key] = v
		text += jsonmodel.Quote(key, false) + ": " + t
	}
	return m, text + "}"
}

func same(a, b interface{}) bool {
	switch x := a.(type) {
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !same(v, w) {
				return false
			}
		}
		return true
	}
	return a == b
}

// Deep prints deep and broad documents.
//
//verif:harness C34 deep depth=20 broad=40 thorough:depth=40 thorough:broad=80
//verif:bound lists and objects nested depth deep in any alternation that repeats after four levels, and lists and objects with broad members, with one string of up to two bytes anywhere in them
//verif:reach same
func Deep() {
	defer memfs.Setup()()
	k := &maker{vary: 1, len: 2}
	v, text := interface{}(nil), ""
	s := k.text()
	if sym.Bool("broad") {
		n := sym.Param("broad", 1)
		at := sym.Choose("at", n)
		list, m := []interface{}{}, map[string]interface{}{}
		var ts, ms []string
		for i := 0; i < n; i++ {
			x := k.text()
			if i == at {
				x = s
			}
			key := k.text()
			list, ts = append(list, x), append(ts, jsonmodel.Quote(x, false))
			m[key], ms = x, append(ms, jsonmodel.Quote(key, false)+":"+jsonmodel.Quote(x, false))
		}
		v, text = list, "["+strings.Join(ts, ",")+"]"
		if sym.Bool("object") {
			v, text = m, "{"+strings.Join(ms, ",")+"}"
		}
	} else {
		var pattern [4]bool
		for i := range pattern {
			pattern[i] = sym.Bool("list")
		}
		v, text = s, jsonmodel.Quote(s, false)
		for i := 0; i < sym.Param("depth", 1); i++ {
			if pattern[i%4] {
				v, text = []interface{}{v}, "["+text+"]"
			} else {
				v, text = map[string]interface{}{s: v}, "{"+jsonmodel.Quote(s, false)+":"+text+"}"
			}
		}
	}
	memfs.Put("x.jsonnet", text)
	var stdout, stderr bytes.Buffer
	err := (&commands.RunBookEvalCmd{File: "x.jsonnet"}).Run(&commands.Base{IO: sys.IO{Log: logger.Discard(), Stdout: &stdout, Stderr: &stderr}})
	sym.Assert(err == nil, "the document is printed")
	var got interface{}
	err = json.Unmarshal(stdout.Bytes(), &got)
	sym.Assert(err == nil, "what is printed is JSON")
	sym.Assert(same(v, got), "what is printed is the document")
	sym.Reach("same")
}

// Eval prints documents.
//
//verif:harness C34 words depth=1 len=0 vary=2 thorough:depth=2
//verif:harness C34 strings depth=1 len=2 vary=2 thorough:depth=2
//verif:bound documents of depth up to depth with up to two members each, of which the first vary scalars are anything: numbers of a list, truth values, null and strings that are special ones (len=0) or of up to len bytes of letters, quotes, escapes and control characters; colours automatic, on or off; writing may fail
//verif:reach same failed coloured
func Eval() {
	defer memfs.Setup()()
	k := &maker{vary: sym.Param("vary", 1), len: sym.Param("len", 0)}
	v, text := k.value(sym.Param("depth", 1))
	memfs.Put("x.jsonnet", text)
	cmd := &commands.RunBookEvalCmd{File: "x.jsonnet", Color: "auto"}
	w := &sink{}
	switch sym.Choose("mode", 4) {
	case 1:
		cmd.Color = "true"
	case 2:
		cmd.Color = "false"
	case 3:
		w.fail = true
	}
	var stderr bytes.Buffer
	err := cmd.Run(&commands.Base{IO: sys.IO{Log: logger.Discard(), Stdout: w, Stderr: &stderr}})
	if w.fail {
		sym.Assert(err != nil, "a failure to write is reported")
		sym.Reach("failed")
		return
	}
	sym.Assert(err == nil, "the document is printed")
	out := w.buf.Bytes()
	if cmd.Color == "true" {
		out, err = plain(out)
		sym.Assert(err == nil, "colours are well formed")
		sym.Reach("coloured")
	}
	var got interface{}
	err = json.Unmarshal(out, &got)
	sym.Assert(err == nil, "what is printed is JSON")
	sym.Assert(same(v, got), "what is printed is the document")
	sym.Assert(stderr.Len() == 0, "nothing else is printed")
	sym.Reach("same")
}

// plain removes colours.
func plain(b []byte) ([]byte, error) {
	var out []byte
	for i := 0; i < len(b); i++ {
		if b[i] != 0x1b {
			out = append(out, b[i])
			continue
		}
		for i++; i < len(b) && b[i] != 'm'; i++ {
			if b[i] != '[' && b[i] != ';' && (b[i] < '0' || b[i] > '9') {
				return nil, errors.New("no colour")
			}
		}
		if i == len(b) {
			return nil, errors.New("no colour")
		}
	}
	return out, nil
}
