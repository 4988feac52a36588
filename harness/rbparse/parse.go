// Package rbparse checks how runbooks are loaded (C10).
package rbparse

import (
	"context"
	"errors"
	"os"
	"strconv"
	"strings"

	"github.com/sjansen/pgutil/internal/runbook/parser"
	"github.com/sjansen/pgutil/internal/runbook/types"
	"github.com/sjansen/pgutil/internal/zzverif/jsonmodel"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

type factory struct{ class string }

func (f *factory) NewTarget() types.Target { return &target{class: f.class, Size: 1} }

type target struct {
	class    string
	analyzed int // the size that passed
	Size     int
}

func (t *target) Analyze() error {
	if t.Size < 1 {
		return errors.New("invalid size")
	}
	t.analyzed = t.Size
	return nil
}
func (t *target) ConcurrencyLimit() int                                { return 1 }
func (t *target) Handle(ctx context.Context, x types.TaskConfig) error { return nil }
func (t *target) Start() error                                         { return nil }
func (t *target) Stop() error                                          { return nil }
func (t *target) NewTaskConfig(class string) (types.TaskConfig, error) {
	switch class {
	case "", "c", "c/":
		return &config{target: t, class: class, Level: 1}, nil
	}
	return nil, errors.New("invalid task class")
}

type config struct {
	target  *target
	class   string
	checked int
	Level   int
}

func (c *config) Check() error {
	if c.Level < 1 {
		return errors.New("invalid level")
	}
	c.checked = c.Level
	return nil
}

// setting is a configuration in a document.
type setting struct {
	text  string // after the comma, or nothing
	valid bool
	value int
}

func settings(field string) []setting {
	return []setting{
		{"", true, 1},
		{`,"config":{"` + field + `":3}`, true, 3},
		{`,"config":{"` + field + `":0}`, false, 0},
		{`,"config":null`, true, 1},
		{`,"config":{ }`, true, 1},
		{`,"config":{"other":1}`, false, 0},
		{`,"config":[ ]`, false, 0},
		{`,"config":7`, false, 0},
		{`,"config":""`, false, 0},
		{`,"config":true`, false, 0},
		{`,"config":{"` + field + `":"x"}`, false, 0},
	}
}

type targetDecl struct {
	name  string
	text  string
	class string
	set   setting
	valid bool
}

type taskDecl struct {
	name    string
	text    string
	target  string
	class   string
	message string
	after   []string
	set     setting
	valid   bool
}

const plain = "ab/"

func aTarget(name string, variety int) *targetDecl {
	d := &targetDecl{name: name, set: settings("Size")[0]}
	switch sym.Choose("class", min(variety, 6)) {
	case 0:
		d.class, d.text = "x", `"class":"x"`
	case 1:
		d.class, d.text = "y", `"class":"y"`
	case 2:
		d.class, d.text = "bogus", `"class":"bogus"`
	case 3:
		d.text = `"class":null`
	case 4:
		d.text = "null"
		return d
	case 5:
		d.class = sym.StrNIn("classname", 1, "xyzX")
		d.text = `"class":"` + d.class + `"`
	}
	ss := settings("Size")
	if variety < len(ss) {
		ss = ss[:variety]
	}
	d.set = ss[sym.Choose("config", len(ss))]
	d.text = "{" + d.text + d.set.text + "}"
	d.valid = sym.Or(d.class == "x", d.class == "y") && d.set.valid
	return d
}

// aTask makes a task that refers to one of the targets or to anything.
func aTask(name string, targets []*targetDecl, variety int) *taskDecl {
	d := &taskDecl{name: name, set: settings("Level")[0]}
	anything := 2
	if variety < 3 {
		anything = 1
	}
	if variety > 4 && sym.Bool("nulltask") {
		d.text = "null"
		return d
	}
	ref := ""
	switch n := sym.Choose("ref", len(targets)+2); {
	case n < len(targets):
		ref = targets[n].name
	case n == len(targets):
		ref = sym.StrIn("anything", anything, plain)
	}
	suffixes := []string{"", "/", "/c", "/c/", "/d", "/c/d", "//"}
	if variety < len(suffixes) {
		suffixes = suffixes[:variety]
	}
	ref += suffixes[sym.Choose("suffix", len(suffixes))]
	d.text = `"target":"` + ref + `"`
	if ref == "" && sym.Bool("notarget") {
		d.text = `"target":null`
	}
	d.target = ref
	for i := 0; i < len(ref); i++ {
		if ref[i] == '/' {
			d.target, d.class = ref[:i], ref[i+1:]
			break
		}
	}
	if variety > 2 && sym.Bool("message") {
		d.message = sym.StrIn("messagetext", 1, "ab ")
		d.text += `,"message":"` + d.message + `"`
	}
	switch sym.Choose("after", min(variety, 3)) {
	case 2:
		d.text += `,"after":[]`
	case 1:
		d.after = []string{sym.StrIn("aftername", 1, plain)}
		d.text += `,"after":["` + d.after[0] + `"`
		if variety > 3 && sym.Bool("more") {
			d.after = append(d.after, sym.StrIn("aftername", 1, plain))
			d.text += `,"` + d.after[1] + `"`
		}
		d.text += `]`
	}
	ss := settings("Level")
	if variety < len(ss) {
		ss = ss[:variety]
	}
	d.set = ss[sym.Choose("config", len(ss))]
	d.text = "{" + d.text + d.set.text + "}"
	d.valid = d.set.valid && (d.class == "" || d.class == "c" || d.class == "c/")
	return d
}

// load loads a document.
func load(doc string) (*types.Runbook, error) {
	dir := "/scratch"
	if sym.Native() {
		d, err := os.MkdirTemp("", "runbook")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(d)
		dir = d
	}
	name := dir + "/book.jsonnet"
	jsonmodel.WriteFile(name, doc)
	p := &parser.Parser{Targets: map[string]types.TargetFactory{"x": &factory{"x"}, "y": &factory{"y"}}}
	return p.Parse(name)
}

func distinct(a, b string) { sym.Assume(sym.Not(sym.EqStr(a, b))) }

// Documents loads documents of the right shape.
//
//verif:harness C10 targets targets=2 tasks=0 tvariety=8 kvariety=1 namelen=1
//verif:harness C10 tasks targets=1 tasks=1 tvariety=1 kvariety=8 namelen=1 thorough:targets=2
//verif:harness C10 both targets=2 tasks=2 tvariety=1 kvariety=2 namelen=1 mapdev=0 thorough:mapdev=1
//verif:bound up to targets targets and up to tasks tasks with names of up to namelen bytes of a, b and '/', every kind of class, target reference, task class, prerequisites, message and configuration (missing, null, empty, valid, refused, of unknown or wrongly typed fields), or null; map iteration may start anywhere in up to mapdev iterations (0 unless given)
//verif:reach loaded refused
func Documents() {
	tv, kv := sym.Param("tvariety", 2), sym.Param("kvariety", 2)
	var targets []*targetDecl
	var tasks []*taskDecl
	var ttext, ktext []string
	valid := true
	for i, n := 0, sym.Choose("targets", sym.Param("targets", 1)+1); i < n; i++ {
		d := aTarget(sym.StrIn("targetname", sym.Param("namelen", 1), plain), tv)
		for _, o := range targets {
			distinct(o.name, d.name)
		}
		targets = append(targets, d)
		ttext = append(ttext, `"`+d.name+`":`+d.text)
		valid = valid && d.valid
	}
	for i, n := 0, sym.Choose("tasks", sym.Param("tasks", 1)+1); i < n; i++ {
		d := aTask(sym.StrIn("taskname", sym.Param("namelen", 1), plain), targets, kv)
		for _, o := range tasks {
			distinct(o.name, d.name)
		}
		tasks = append(tasks, d)
		ktext = append(ktext, `"`+d.name+`":`+d.text)
		known := false
		for _, t := range targets {
			known = known || t.name == d.target
		}
		valid = valid && d.valid && known
	}
	doc := `{"targets":{` + strings.Join(ttext, ",") + `},"tasks":{` + strings.Join(ktext, ",") + `}}`

	book, err := load(doc)
	sym.Assert((err == nil) == valid, "exactly the valid documents are loaded")
	if err != nil {
		sym.Assert(book == nil, "an error comes without a runbook")
		sym.Reach("refused")
		return
	}
	sym.Assert(len(book.Targets) == len(targets), "exactly the declared targets are loaded")
	for _, d := range targets {
		t, ok := book.Targets[d.name].(*target)
		sym.Assert(ok && t != nil, "a target appears under its name")
		sym.Assert(t.class == d.class, "a target has the declared class")
		sym.Assert(t.Size == d.set.value, "a target has its settings")
		sym.Assert(t.analyzed == t.Size, "a target passed its validation")
	}
	sym.Assert(len(book.Tasks) == len(tasks), "exactly the declared tasks are loaded")
	for _, d := range tasks {
		x := book.Tasks[d.name]
		sym.Assert(x != nil, "a task appears under its name")
		sym.Assert(x.Target == d.target, "a task refers to the target before the slash")
		sym.Assert(x.Message == d.message, "a task has its message")
		sym.Assert(len(x.After) == len(d.after), "a task has its prerequisites")
		for i := range d.after {
			sym.Assert(x.After[i] == d.after[i], "a task has its prerequisites")
		}
		c, ok := x.Config.(*config)
		sym.Assert(ok && c != nil, "a task has a configuration of its target")
		sym.Assert(types.Target(c.target) == book.Targets[x.Target], "a task has a configuration of its target")
		sym.Assert(c.class == d.class, "the configuration is of the class after the slash")
		sym.Assert(c.Level == d.set.value, "a task has its settings")
		sym.Assert(c.checked == c.Level, "the configuration passed its check")
	}
	sym.Reach("loaded")
}

// Odd loads documents of other shapes.
//
//verif:harness C10 odd
//verif:bound documents that are not objects, whose parts are null, missing, unknown or of the wrong kind, or that do not evaluate
//verif:reach loaded refused
func Odd() {
	docs := []struct {
		text    string
		targets int // or -1
	}{
		{`null`, 0}, {`{}`, 0}, {`[]`, -1}, {`7`, -1}, {`"x"`, -1}, {`!`, -1},
		{`{"targets":null}`, 0}, {`{"tasks":null}`, 0}, {`{"targets":null,"tasks":null}`, 0},
		{`{"targets":[]}`, -1}, {`{"tasks":[]}`, -1}, {`{"targets":{"a":7}}`, -1}, {`{"tasks":{"a":[]}}`, -1},
		{`{"other":1}`, -1}, {`{"targets":{},"other":{}}`, -1},
		{`{"targets":{"a":{"class":"x","other":1}}}`, -1}, {`{"targets":{"a":{"class":7}}}`, -1}, {`{"targets":{"a":{}}}`, -1},
		{`{"targets":{"a":{"class":"x"}},"tasks":{"t":{"target":"a","other":1}}}`, -1},
		{`{"targets":{"a":{"class":"x"}},"tasks":{"t":{"target":"a","after":"t"}}}`, -1},
		{`{"targets":{"a":{"class":"x"}},"tasks":{"t":{"target":7}}}`, -1},
		{`{"targets":{"a":{"class":"x"}},"tasks":{"t":{}}}`, -1},
		{`{"targets":{"a":null}}`, -1}, {`{"tasks":{"t":null}}`, -1}, {`{"targets":{"a":{"class":"x"}},"tasks":{"t":null}}`, -1},
		{`{"targets":{"a":{"class":"x"}}}`, 1}, {`{"tasks":{},"targets":{"a":{"class":"y","config":{"size":2}}}}`, 1},
	}
	d := docs[sym.Choose("document", len(docs))]
	book, err := load(d.text)
	sym.Assert((err != nil) == (d.targets < 0), "exactly the valid documents are loaded")
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Assert(len(book.Targets) == d.targets, "exactly the declared targets are loaded")
	sym.Assert(len(book.Tasks) == 0, "exactly the declared tasks are loaded")
	sym.Reach("loaded")
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// Large loads documents of many targets and tasks.
//
//verif:harness C10 many steps=100000000 sizes=3 thorough:sizes=4
//verif:bound (many) 3, 12, 33 or (thorough) 100 targets, and as many tasks with up to 5 prerequisites each, one target or task of which may be unlike the others: of another or no valid class, without or with an unknown target, or with a configuration that is refused, at the start, in the middle or at the end
//verif:reach loaded refused
func Large() {
	n := []int{3, 12, 33, 100}[sym.Choose("size", sym.Param("sizes", 3))]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	what := sym.Choose("what", 10)
	spread := sym.Bool("spread") // tasks have targets of their own
	var targets []*targetDecl
	var tasks []*taskDecl
	var ttext, ktext []string
	for i := 0; i < n; i++ {
		d := &targetDecl{name: "t" + strconv.Itoa(i), class: "x", set: settings("Size")[0], valid: true}
		k := &taskDecl{name: "k" + strconv.Itoa(i), target: "t0", set: settings("Level")[0], valid: true}
		if i%2 == 1 {
			d.class, k.class = "y", "c"
		}
		if i%3 == 1 {
			d.set, k.set = settings("Size")[1], settings("Level")[1]
		}
		if spread {
			k.target = d.name
		}
		for j := 1; j <= i%6; j++ {
			k.after = append(k.after, `"k`+strconv.Itoa(i-j)+`"`)
		}
		if i == at {
			switch what {
			case 1:
				d.class = "z"
			case 2:
				d.class = ""
			case 3:
				d.set = settings("Size")[2]
			case 4:
				k.target = "t"
			case 5:
				k.target = ""
			case 6:
				k.class = "d"
			case 7:
				k.set = settings("Level")[2]
			case 8:
				k.target = "t" + strconv.Itoa(n)
			case 9:
				d.class, k.message = sym.StrNIn("classname", 1, "xyzX"), "m"
			}
		}
		targets, tasks = append(targets, d), append(tasks, k)
		ttext = append(ttext, `"`+d.name+`":{"class":"`+d.class+`"`+d.set.text+`}`)
		ref := k.target
		if k.class != "" {
			ref += "/" + k.class
		}
		text := `"` + k.name + `":{"target":"` + ref + `"`
		if k.message != "" {
			text += `,"message":"` + k.message + `"`
		}
		if len(k.after) > 0 {
			text += `,"after":[` + strings.Join(k.after, ",") + `]`
		}
		ktext = append(ktext, text+k.set.text+`}`)
	}
	valid := what == 0
	if what == 9 {
		valid = sym.IsTrue(sym.Or(targets[at].class == "x", targets[at].class == "y"))
	}
	doc := `{"targets":{` + strings.Join(ttext, ",") + `},"tasks":{` + strings.Join(ktext, ",") + `}}`
	book, err := load(doc)
	sym.Assert((err == nil) == valid, "exactly the valid documents are loaded")
	if err != nil {
		sym.Assert(book == nil, "an error comes without a runbook")
		sym.Reach("refused")
		return
	}
	sym.Assert(len(book.Targets) == n && len(book.Tasks) == n, "exactly the declared targets and tasks are loaded")
	for _, d := range targets {
		t, ok := book.Targets[d.name].(*target)
		sym.Assert(ok && t != nil, "a target appears under its name")
		sym.Assert(t.class == d.class, "a target has the declared class")
		sym.Assert(t.Size == d.set.value && t.analyzed == t.Size, "a target has its settings and passed its validation")
	}
	for _, d := range tasks {
		x := book.Tasks[d.name]
		sym.Assert(x != nil, "a task appears under its name")
		sym.Assert(x.Target == d.target, "a task refers to the target before the slash")
		sym.Assert(x.Message == d.message, "a task has its message")
		sym.Assert(len(x.After) == len(d.after), "a task has its prerequisites")
		for i := range d.after {
			sym.Assert(`"`+x.After[i]+`"` == d.after[i], "a task has its prerequisites")
		}
		c, ok := x.Config.(*config)
		sym.Assert(ok && c != nil && types.Target(c.target) == book.Targets[x.Target], "a task has a configuration of its target")
		sym.Assert(c.class == d.class, "the configuration is of the class after the slash")
		sym.Assert(c.Level == d.set.value && c.checked == c.Level, "a task has its settings, and they passed the check")
	}
	sym.Reach("loaded")
}
