package selftest

import (
	"encoding/json"
	"fmt"
	"strings"

	_ "github.com/sjansen/pgutil/internal/zzverif/jsonmodel"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

type inner struct {
	N int8 `json:"num"`
	S string
}

type outer struct {
	A   string
	B   *inner
	C   map[string]*inner
	D   []string
	Raw json.RawMessage
	E   bool
	F   interface{}
	G   uint16
	h   int
}

// JSON compares the model of encoding/json with the library (by native replay).
//
//verif:harness S01 json samples=2000
func JSON() {
	vals := []string{`null`, `"x"`, `7`, `-129`, `true`, `{"num":1,"s":"q"}`, `{"k":{"num":3},"l":null}`, `["a","b"]`, `[]`, `[1]`, `{}`, `{"a": 1, "b": [null, {"c": "d"}]}`, ` "\u0041\n\\" `, `{`, `"`, `nul`, `[1,]`, `70000`}
	names := []string{"A", "b", "C", "D", "raw", "E", "F", "G", "h", "zz"}
	doc := `{"` + names[sym.Choose("name", len(names))] + `":` + vals[sym.Choose("val", len(vals))] + `, "d": ["` + sym.StrNIn("t", 1, "xy") + `"]}`
	var v outer
	var err error
	if sym.Bool("strict") {
		d := json.NewDecoder(strings.NewReader(doc))
		d.DisallowUnknownFields()
		err = d.Decode(&v)
	} else {
		err = json.Unmarshal([]byte(doc), &v)
	}
	sym.Observe("failed", err != nil)
	if v.B != nil {
		sym.Observe("b", fmt.Sprintf("%d %s", v.B.N, v.B.S))
	}
	for _, k := range []string{"k", "l", "num"} {
		if x, ok := v.C[k]; ok {
			sym.Observe("c"+k, x != nil)
			if x != nil {
				sym.Observe("cn", int(x.N))
			}
		}
	}
	if json.Valid([]byte(doc)) {
		sym.Observe("all", fmt.Sprintf("%s|%q|%s|%v|%T|%d", v.A, v.D, string(v.Raw), v.E, v.F, v.G))
	}
}
