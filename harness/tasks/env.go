// Package tasks checks shell and demo tasks (C11-C13).
package tasks

import (
	"strconv"
	"strings"

	"github.com/sjansen/pgutil/internal/runbook/sh"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

func keyOf(kv string) string {
	for i := 1; i < len(kv); i++ {
		if kv[i] == '=' {
			return kv[:i]
		}
	}
	return kv
}

func in(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

// filtered states what a filter must produce.
func filtered(e *sh.Env, environ, out []string) {
	var kept []string
	for _, kv := range environ {
		k := keyOf(kv)
		if _, ok := e.Set[k]; ok {
			continue
		}
		switch {
		case len(e.Allow) > 0:
			if !in(e.Allow, k) {
				continue
			}
		case len(e.Deny) > 0:
			if in(e.Deny, k) {
				continue
			}
		}
		kept = append(kept, kv)
	}
	seen := map[string]bool{}
	var rest []string
	for _, kv := range out {
		k := keyOf(kv)
		v, ok := e.Set[k]
		if !ok {
			rest = append(rest, kv)
			continue
		}
		sym.Assert(kv == k+"="+v, "a variable that is set has its configured value and no other")
		seen[k] = true
	}
	sym.Assert(len(seen) == len(e.Set), "every variable that is set is there")
	sym.Assert(len(rest) == len(kept), "exactly the variables the filter keeps are there")
	for i := range kept {
		sym.Assert(rest[i] == kept[i], "kept variables are unchanged and in order")
	}
}

func list(what string, max, length int, set string) []string {
	var out []string
	for i, n := 0, sym.Choose(what, max+1); i < n; i++ {
		out = append(out, sym.StrIn(what+"name", length, set))
	}
	return out
}

func (r *envGen) env() *sh.Env {
	e := &sh.Env{Allow: list("allow", r.lists, r.nameLen, r.names), Deny: list("deny", r.lists, r.nameLen, r.names)}
	for i, n := 0, sym.Choose("set", r.sets+1); i < n; i++ {
		if e.Set == nil {
			e.Set = map[string]string{}
		}
		k := sym.StrNIn("setname", 1, "AB")
		if r.nameLen > 1 && sym.Bool("long") {
			k += sym.StrNIn("setname", 1, "AB")
		}
		e.Set[k] = sym.StrIn("setvalue", 1, "x=")
	}
	return e
}

type envGen struct {
	lists, sets, nameLen int
	names                string
}

// Filter checks arbitrary environments and filters.
//
//verif:harness C11 filter vars=2 lists=1 sets=1 namelen=2 entry=4 thorough:lists=2 thorough:sets=2
//verif:harness C11 lists vars=2 lists=2 sets=2 namelen=1 entry=2 thorough:vars=3
//verif:harness C11 vars vars=4 lists=1 sets=1 namelen=1 entry=2 thorough:vars=5
//verif:bound up to vars variables (entries of up to entry bytes of A, B and '=', also without '=', empty and repeated, but not starting with '='), up to lists names each allowed and denied, up to sets variables set, names of up to namelen bytes
//verif:reach end
func Filter() {
	var environ []string
	for i, n := 0, sym.Choose("vars", sym.Param("vars", 1)+1); i < n; i++ {
		kv := sym.StrIn("entry", sym.Param("entry", 2), "AB=")
		if kv != "" {
			sym.Assume(kv[0] != '=')
		}
		environ = append(environ, kv)
	}
	r := &envGen{lists: sym.Param("lists", 1), sets: sym.Param("sets", 1), nameLen: sym.Param("namelen", 1), names: "AB="}
	e := r.env()
	before := append([]string{}, environ...)
	out := e.Apply(environ)
	for i := range before {
		sym.Assert(environ[i] == before[i], "the given environment is left alone")
	}
	filtered(e, environ, out)
	sym.Reach("end")
}

// FilterMaps sets several variables in any iteration order.
//
//verif:harness C11 maporder mapdev=2 sets=3
//verif:bound three variables set, map iteration may start anywhere in up to mapdev iterations
//verif:reach end
func FilterMaps() {
	e := &sh.Env{Set: map[string]string{"A": sym.StrN("a", 1), "B": "", "C": "x"}}
	var environ []string
	for i, n := 0, sym.Choose("vars", 3); i < n; i++ {
		environ = append(environ, sym.StrNIn("entry", 1, "ABCD")+"="+sym.StrN("value", 1))
	}
	if sym.Bool("deny") {
		e.Deny = []string{"D", "A"}
	}
	filtered(e, environ, e.Apply(environ))
	sym.Reach("end")
}

// FilterMany filters many variables.
//
//verif:harness C11 many steps=100000000 sizes=3 thorough:sizes=4
//verif:bound (many) 9, 17, 40 or (thorough) 130 variables and as many names allowed, denied or set, one of which, the first, one in the middle or the last, has arbitrary bytes, is repeated, or has a long name or value
//verif:reach end
func FilterMany() {
	long := strings.Repeat("LONG", 70)
	n := []int{9, 17, 40, 130}[sym.Choose("size", sym.Param("sizes", 3))]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	var environ []string
	for i := 0; i < n; i++ {
		kv := "V" + strconv.Itoa(i) + "=x" + strconv.Itoa(i)
		if i == at {
			switch sym.Choose("what", 5) {
			case 3:
				kv = "V" + strconv.Itoa(i) + "=" + strings.Repeat("b=", 40) + sym.StrN("end", 1)
			case 4:
				kv = long + sym.StrNIn("more", 1, "A=") + "=" + strings.Repeat("V1", 100)
			case 1:
				kv = "V" + sym.StrIn("entry", 2, "1=")
			case 2:
				kv = "V" + strconv.Itoa((i+3)%n) + "=" + sym.StrN("value", 1)
			}
		}
		environ = append(environ, kv)
	}
	e := &sh.Env{}
	lists := sym.Choose("lists", 4)
	switch sym.Choose("long", 4) {
	case 1:
		e.Allow = append(e.Allow, long+"A")
	case 2:
		e.Deny = append(e.Deny, long)
	}
	for i := 0; i < n; i++ {
		if i%3 != 0 && lists&1 != 0 {
			e.Allow = append(e.Allow, "V"+strconv.Itoa(n-i))
		}
		if i%2 == 0 && lists&2 != 0 {
			e.Deny = append(e.Deny, "V"+strconv.Itoa(i))
		}
	}
	if sets := sym.Choose("sets", 3); sets > 0 {
		e.Set = map[string]string{}
		for i := 0; i < n; i++ {
			e.Set["V"+strconv.Itoa(i*2*sets)] = strconv.Itoa(i)
		}
	}
	filtered(e, environ, e.Apply(environ))
	sym.Reach("end")
}
