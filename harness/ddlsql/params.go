package ddlsql

import (
	"reflect"
	"strconv"
	"strings"

	"github.com/sjansen/pgutil/internal/ddl"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

// The supported parameters and their types: int, number or bool.
var parameters = []struct {
	name string
	kind byte
}{
	{"fillfactor", 'i'}, {"parallel_workers", 'i'}, {"autovacuum_enabled", 'b'},
	{"autovacuum_vacuum_threshold", 'i'}, {"autovacuum_vacuum_scale_factor", 'n'},
	{"autovacuum_analyze_threshold", 'i'}, {"autovacuum_analyze_scale_factor", 'n'},
	{"autovacuum_vacuum_cost_limit", 'i'}, {"autovacuum_freeze_min_age", 'i'}, {"autovacuum_freeze_max_age", 'i'},
	{"autovacuum_freeze_table_age", 'i'}, {"autovacuum_multixact_freeze_min_age", 'i'},
	{"autovacuum_multixact_freeze_max_age", 'i'}, {"autovacuum_multixact_freeze_table_age", 'i'},
	{"log_autovacuum_min_duration", 'i'}, {"user_catalog_table", 'b'},
}

// fields returns the fields of the parameters, which are named by their tags.
func fields(p *ddl.TableStorageParameters) map[string]reflect.Value {
	m := map[string]reflect.Value{}
	v := reflect.ValueOf(p).Elem()
	for i := 0; i < v.NumField(); i++ {
		tag := v.Type().Field(i).Tag.Get("hcl")
		m[strings.Split(tag, ",")[0]] = v.Field(i)
	}
	return m
}

// filled returns parameters that are all set, or all unset.
func filled(set bool) *ddl.TableStorageParameters {
	p := &ddl.TableStorageParameters{}
	if set {
		all := fields(p)
		for _, x := range parameters {
			f := all[x.name]
			f.Set(reflect.New(f.Type().Elem()))
			switch x.kind {
			case 'i':
				f.Elem().SetInt(-7)
			case 'n':
				f.Elem().SetFloat(-7)
			}
		}
	}
	return p
}

// unchanged asserts that every field but one is as it was.
func unchanged(p *ddl.TableStorageParameters, set bool, except string) {
	all := fields(p)
	for _, x := range parameters {
		f := all[x.name]
		if x.name == except {
			continue
		}
		sym.Assert(f.IsNil() == !set, "no other parameter changes")
		if !set {
			continue
		}
		switch x.kind {
		case 'i':
			sym.Assert(f.Elem().Int() == -7, "no other parameter changes")
		case 'n':
			sym.Assert(f.Elem().Float() == -7, "no other parameter changes")
		case 'b':
			sym.Assert(!f.Elem().Bool(), "no other parameter changes")
		}
	}
}

// Params sets a parameter with an arbitrary name.
//
//verif:harness C22 keys quick:len=40 thorough:len=48
//verif:bound every byte string of up to len bytes as name, with a value that is right for every type; no or every other parameter set before
//verif:reach stored ignored
func Params() {
	key := sym.Str("key", sym.Param("len", 40))
	set := sym.Bool("set")
	p := filled(set)
	err := p.Set(key, "1")
	for _, x := range parameters {
		if sym.IsTrue(sym.EqStr(key, x.name)) {
			f := fields(p)[x.name]
			sym.Assert(err == nil, "a right value is accepted")
			sym.Assert(!f.IsNil(), "the value is stored")
			switch x.kind {
			case 'i':
				sym.Assert(f.Elem().Int() == 1, "the value is stored")
			case 'n':
				sym.Assert(f.Elem().Float() == 1, "the value is stored")
			case 'b':
				sym.Assert(f.Elem().Bool(), "the value is stored")
			}
			unchanged(p, set, x.name)
			sym.Reach("stored")
			return
		}
	}
	unchanged(p, set, "")
	sym.Reach("ignored")
}

// value sets one parameter to a value; want says whether the value is of its type, and compare whether the
// stored value is the given one.
func value(name, v string, want bool, compare func(reflect.Value) bool) {
	set := sym.Bool("set")
	p := filled(set)
	err := p.Set(name, v)
	sym.Assert((err == nil) == want, "exactly values of another type are reported")
	if !want {
		unchanged(p, set, name)
		sym.Reach("rejected")
		return
	}
	unchanged(p, set, name)
	f := fields(p)[name]
	sym.Assert(!f.IsNil(), "the value is stored")
	sym.Assert(compare(f.Elem()), "the stored value is the given one")
	sym.Reach("stored")
}

func kind(k byte) string {
	var names []string
	for _, x := range parameters {
		if x.kind == k {
			names = append(names, x.name)
		}
	}
	return names[sym.Choose("parameter", len(names))]
}

// Ints sets integers.
//
//verif:harness C22 ints quick:len=2 thorough:len=4
//verif:bound every integer parameter and every byte string of up to len bytes, and numbers around the limits of 8 to 64-bit integers
//verif:reach stored rejected
func Ints() {
	name := kind('i')
	s := ""
	switch k := sym.Choose("what", 6); k {
	case 0:
		s = sym.Str("value", sym.Param("len", 2))
	case 1:
		s = sym.StrIn("value", 1, "-+") + sym.StrN("digits", 3)
		for i := len(s) - 3; i < len(s); i++ {
			sym.Assume(sym.And(s[i] >= '0', s[i] <= '9'))
		}
	default:
		s = sym.StrIn("value", 1, "-+") + []string{"327", "655", "21474836", "922337203685477580"}[k-2]
		d := sym.StrN("digits", 2)
		if k == 5 {
			d = d[:1]
		}
		for i := range d {
			sym.Assume(sym.And(d[i] >= '0', d[i] <= '9'))
		}
		s += d
	}
	ref, err := strconv.Atoi(s)
	value(name, s, err == nil, func(v reflect.Value) bool { return v.Int() == int64(ref) })
}

// Numbers sets numbers.
//
//verif:harness C22 numbers quick:len=2 thorough:len=3
//verif:bound every number parameter; values of up to len characters of 0, 1, 5, point, sign, e, x and blank, and some longer ones
//verif:reach stored rejected
func Numbers() {
	name := kind('n')
	s := ""
	if k := sym.Choose("what", 5); k > 0 {
		s = []string{"0.05", "1e-7", "123456789.125", "0.1x"}[k-1]
	} else {
		const chars = "015.-ex "
		for i := sym.Choose("len", sym.Param("len", 2)+1); i > 0; i-- {
			j := sym.Choose("char"+strconv.Itoa(i), len(chars))
			s += chars[j : j+1]
		}
	}
	ref, err := strconv.ParseFloat(s, 64)
	value(name, s, err == nil, func(v reflect.Value) bool { return v.Float() == ref })
}

// boolean is how PostgreSQL reads booleans: prefixes of true, false, yes and no, on, off (and of), 1 and 0, in
// any letter case.
func boolean(s string) (value, ok bool) {
	s = lower(s)
	for _, w := range []string{"true", "yes", "on", "1"} {
		for n := 1; n <= len(w); n++ {
			if (w != "on" || n > 1) && s == w[:n] {
				return true, true
			}
		}
	}
	for _, w := range []string{"false", "no", "off", "0"} {
		for n := 1; n <= len(w); n++ {
			if (w != "off" || n > 1) && s == w[:n] {
				return false, true
			}
		}
	}
	return false, false
}

// Booleans sets booleans.
//
//verif:harness C22 booleans quick:len=2 thorough:len=3
//verif:bound every boolean parameter; every byte string of up to len bytes and every letter case of the words with at most one changed byte
//verif:reach stored rejected
func Booleans() {
	name := kind('b')
	s := ""
	if k := sym.Choose("what", 7); k == 0 {
		s = sym.Str("value", sym.Param("len", 2))
		for i := 0; i < len(s); i++ {
			sym.Assume(s[i] < 0x80)
		}
	} else {
		w := []string{"true", "false", "yes", "no", "on", "off"}[k-1]
		b := []byte(w)
		i := sym.Choose("at", len(b))
		c := sym.Byte("byte")
		sym.Assume(c < 0x80)
		b[i] = c
		if sym.Bool("upper") {
			for j := range b {
				if j != i {
					b[j] -= 'a' - 'A'
				}
			}
		}
		s = string(b)
	}
	ref, ok := boolean(s)
	value(name, s, ok, func(v reflect.Value) bool { return v.Bool() == ref })
}
