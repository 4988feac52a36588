package ddlparse

import (
	"strings"

	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

// ref is an independent reader of the documented grammars.
type ref struct {
	s string
	i int
}

func isSpace(b byte) bool { return sym.Or(b == ' ', sym.And(b >= 9, b <= 13)) }

func isAlpha(b byte) bool {
	return sym.Or(sym.And(b >= 'a', b <= 'z'), sym.And(b >= 'A', b <= 'Z'))
}

func isAlnum(b byte) bool {
	return sym.Or(isAlpha(b), sym.Or(b == '_', sym.And(b >= '0', b <= '9')))
}

func lower(b byte) byte { return sym.IteByte(sym.And(b >= 'A', b <= 'Z'), b+32, b) }
func upper(b byte) byte { return sym.IteByte(sym.And(b >= 'a', b <= 'z'), b-32, b) }

func (r *ref) spaces() int {
	n := 0
	for r.i < len(r.s) && isSpace(r.s[r.i]) {
		r.i++
		n++
	}
	return n
}

// ws requires white space.
func (r *ref) ws() bool { return r.spaces() > 0 }

// kw reads a keyword (given in lower case).
func (r *ref) kw(k string) bool {
	if len(r.s)-r.i < len(k) {
		return false
	}
	for j := 0; j < len(k); j++ {
		if lower(r.s[r.i+j]) != k[j] {
			return false
		}
	}
	r.i += len(k)
	return true
}

// wskw reads white space and a keyword, or nothing.
func (r *ref) wskw(k string) bool {
	save := r.i
	if r.ws() && r.kw(k) {
		return true
	}
	r.i = save
	return false
}

func (r *ref) lit(b byte) bool {
	if r.i < len(r.s) && r.s[r.i] == b {
		r.i++
		return true
	}
	return false
}

func (r *ref) ident() (string, bool) {
	from := r.i
	if r.i >= len(r.s) || !isAlpha(r.s[r.i]) {
		return "", false
	}
	r.i++
	for r.i < len(r.s) && isAlnum(r.s[r.i]) {
		r.i++
	}
	return r.s[from:r.i], true
}

func (r *ref) end() bool {
	r.spaces()
	return r.i == len(r.s)
}

// squeeze collapses every run of white space to a blank.
func squeeze(s string) string {
	out := ""
	in := false
	for i := 0; i < len(s); i++ {
		if isSpace(s[i]) {
			if !in {
				out += " "
			}
			in = true
		} else {
			out += s[i : i+1]
			in = false
		}
	}
	return out
}

func trim(s string) string {
	for len(s) > 0 && isSpace(s[0]) {
		s = s[1:]
	}
	for len(s) > 0 && isSpace(s[len(s)-1]) {
		s = s[:len(s)-1]
	}
	return s
}

func upperText(s string) string {
	b := make([]byte, len(s))
	for i := 0; i < len(s); i++ {
		b[i] = upper(s[i])
	}
	return string(b)
}

// deferral reads "[NOT DEFERRABLE | [DEFERRABLE] [INITIALLY IMMEDIATE|DEFERRED]]".
func (r *ref) deferral() (deferrable, deferred, ok bool) {
	if r.wskw("not") {
		return false, false, r.wskw("deferrable")
	}
	if r.wskw("deferrable") {
		deferrable = true
	}
	if r.wskw("initially") {
		switch {
		case r.wskw("immediate"):
		case r.wskw("deferred"):
			deferred = true
		default:
			return false, false, false
		}
	}
	return deferrable, deferred, true
}

type refTrigger struct {
	name, table, function, when           string
	constraint, deferrable, deferred, row bool
	insert, update, delete, truncate      bool
	columns                               []string
}

func (r *ref) event(t *refTrigger) bool {
	switch {
	case r.kw("insert"):
		t.insert = true
	case r.kw("delete"):
		t.delete = true
	case r.kw("truncate"):
		t.truncate = true
	case r.kw("update"):
		t.update = true
		save := r.i
		if !r.wskw("of") {
			r.i = save
			return true
		}
		if !r.ws() {
			return false
		}
		for {
			c, ok := r.ident()
			if !ok {
				return false
			}
			t.columns = append(t.columns, c)
			save := r.i
			r.spaces()
			if !r.lit(',') {
				r.i = save
				return true
			}
			r.spaces()
		}
	default:
		return false
	}
	return true
}

func readTrigger(s string) (*refTrigger, bool) {
	r := &ref{s: s}
	t := &refTrigger{}
	var ok bool
	r.spaces()
	if !r.kw("create") {
		return nil, false
	}
	if r.wskw("constraint") {
		t.constraint = true
	}
	if !r.wskw("trigger") || !r.ws() {
		return nil, false
	}
	if t.name, ok = r.ident(); !ok {
		return nil, false
	}
	switch {
	case r.wskw("before"):
		t.when = "BEFORE"
	case r.wskw("after"):
		t.when = "AFTER"
	case r.wskw("instead") && r.wskw("of"):
		t.when = "INSTEAD OF"
	default:
		return nil, false
	}
	if !r.ws() || !r.event(t) {
		return nil, false
	}
	for r.wskw("or") {
		if !r.ws() || !r.event(t) {
			return nil, false
		}
	}
	if !r.wskw("on") || !r.ws() {
		return nil, false
	}
	if t.table, ok = r.ident(); !ok {
		return nil, false
	}
	if t.deferrable, t.deferred, ok = r.deferral(); !ok {
		return nil, false
	}
	if r.wskw("for") {
		r.wskw("each")
		switch {
		case r.wskw("row"):
			t.row = true
		case r.wskw("statement"):
		default:
			return nil, false
		}
	}
	if !r.wskw("execute") || !(r.wskw("function") || r.wskw("procedure")) || !r.ws() {
		return nil, false
	}
	if t.function, ok = r.ident(); !ok {
		return nil, false
	}
	if !r.lit('(') || !r.lit(')') || !r.end() {
		return nil, false
	}
	return t, true
}

type refKey struct{ column, expression, opclass string }

type refIndex struct {
	name, table, using string
	where, where2      string // ASCII or Unicode white space trimmed
	unique             bool
	keys               []refKey
}

// group reads "(" [^)]* ")" with at least min characters inside.
func (r *ref) group(min int) (string, bool) {
	from := r.i
	if !r.lit('(') {
		return "", false
	}
	n := 0
	for r.i < len(r.s) && r.s[r.i] != ')' {
		r.i++
		n++
	}
	if r.i >= len(r.s) || n < min {
		return "", false
	}
	r.i++
	return r.s[from:r.i], true
}

func readIndex(s string) (*refIndex, bool) {
	r := &ref{s: s}
	x := &refIndex{}
	var ok bool
	r.spaces()
	if !r.kw("create") {
		return nil, false
	}
	if r.wskw("unique") {
		x.unique = true
	}
	if !r.wskw("index") || !r.ws() {
		return nil, false
	}
	if x.name, ok = r.ident(); !ok {
		return nil, false
	}
	if !r.wskw("on") || !r.ws() {
		return nil, false
	}
	if x.table, ok = r.ident(); !ok {
		return nil, false
	}
	if r.wskw("using") {
		if !r.ws() {
			return nil, false
		}
		if x.using, ok = r.ident(); !ok {
			return nil, false
		}
	}
	if !r.ws() || !r.lit('(') {
		return nil, false
	}
	for first := true; ; first = false {
		r.spaces()
		k := refKey{}
		if first && r.i < len(r.s) && r.s[r.i] == '(' {
			if k.expression, ok = r.group(1); !ok {
				return nil, false
			}
		} else {
			c, ok := r.ident()
			if !ok {
				return nil, false
			}
			if first && r.i < len(r.s) && r.s[r.i] == '(' {
				g, ok := r.group(0)
				if !ok {
					return nil, false
				}
				k.expression = c + g
			} else {
				k.column = c
			}
		}
		if r.ws() {
			if o, ok := r.ident(); ok {
				k.opclass = o
				r.spaces()
			}
		}
		x.keys = append(x.keys, k)
		if r.lit(')') {
			break
		}
		if !r.lit(',') {
			return nil, false
		}
	}
	save := r.i
	if r.wskw("where") {
		if r.i < len(r.s) && isSpace(r.s[r.i]) && r.i+1 < len(r.s) {
			x.where = squeeze(trim(r.s[r.i:]))
			x.where2 = squeeze(strings.TrimSpace(r.s[r.i:]))
			return x, true
		}
		return nil, false
	}
	r.i = save
	if !r.end() {
		return nil, false
	}
	return x, true
}

type refFK struct {
	columns, referenced              []string
	table, match, onDelete, onUpdate string
	deferrable, deferred             bool
}

func (r *ref) list() ([]string, bool) {
	var out []string
	for {
		r.spaces()
		c, ok := r.ident()
		if !ok {
			return nil, false
		}
		out = append(out, c)
		r.spaces()
		if r.lit(')') {
			return out, true
		}
		if !r.lit(',') {
			return nil, false
		}
	}
}

func (r *ref) action() (string, bool) {
	switch {
	case r.wskw("no"):
		return "NO ACTION", r.wskw("action")
	case r.wskw("restrict"):
		return "RESTRICT", true
	case r.wskw("cascade"):
		return "CASCADE", true
	case r.wskw("set"):
		if r.wskw("null") {
			return "SET NULL", true
		}
		if r.wskw("default") {
			return "SET DEFAULT", true
		}
	}
	return "", false
}

func readFK(s string) (*refFK, bool) {
	r := &ref{s: s}
	x := &refFK{}
	var ok bool
	r.spaces()
	if !r.kw("foreign") || !r.wskw("key") || !r.ws() || !r.lit('(') {
		return nil, false
	}
	if x.columns, ok = r.list(); !ok {
		return nil, false
	}
	if !r.wskw("references") || !r.ws() {
		return nil, false
	}
	if x.table, ok = r.ident(); !ok || !r.lit('(') {
		return nil, false
	}
	if x.referenced, ok = r.list(); !ok {
		return nil, false
	}
	if r.wskw("match") {
		switch {
		case r.wskw("full"):
			x.match = "FULL"
		case r.wskw("partial"):
			x.match = "PARTIAL"
		case r.wskw("simple"):
			x.match = "SIMPLE"
		default:
			return nil, false
		}
	}
	save := r.i
	if r.wskw("on") && r.wskw("delete") {
		if x.onDelete, ok = r.action(); !ok {
			return nil, false
		}
		save = r.i
	}
	r.i = save
	if r.wskw("on") {
		if !r.wskw("update") {
			return nil, false
		}
		if x.onUpdate, ok = r.action(); !ok {
			return nil, false
		}
	}
	if x.deferrable, x.deferred, ok = r.deferral(); !ok {
		return nil, false
	}
	if !r.end() {
		return nil, false
	}
	return x, true
}

type refCheck struct {
	expression, expression2 string // ASCII or Unicode white space trimmed
	deferrable, deferred    bool
}

func readCheck(s string) (*refCheck, bool) {
	r := &ref{s: s}
	r.spaces()
	if !r.kw("check") {
		return nil, false
	}
	r.spaces()
	if !r.lit('(') {
		return nil, false
	}
	from := r.i
	last := -1
	for i := len(s) - 1; i >= from; i-- {
		if s[i] == ')' {
			last = i
			break
		}
	}
	if last < 0 {
		return nil, false
	}
	x := &refCheck{expression: trim(s[from:last]), expression2: strings.TrimSpace(s[from:last])}
	r.i = last + 1
	var ok bool
	if x.deferrable, x.deferred, ok = r.deferral(); !ok {
		return nil, false
	}
	if !r.end() {
		return nil, false
	}
	return x, true
}
