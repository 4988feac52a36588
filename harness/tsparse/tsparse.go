// Package tsparse checks the parsing of task-set files (C32).
//
//verif:needs internal/taskset/parser
package tsparse

import (
	"errors"
	"strconv"

	"github.com/sjansen/pgutil/internal/taskset/base"
	"github.com/sjansen/pgutil/internal/taskset/demo"
	"github.com/sjansen/pgutil/internal/taskset/parser"
	"github.com/sjansen/pgutil/internal/taskset/pg"
	"github.com/sjansen/pgutil/internal/taskset/sh"
	"github.com/sjansen/pgutil/internal/taskset/types"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

type factory struct{ kind string }

func (f *factory) NewTarget() types.Target { return &target{kind: f.kind} }

type target struct {
	kind string
	Note string `hcl:"note,optional"`
	Size int    `hcl:"size,optional"`
}

func (t *target) NewTask(class string) (types.Task, error) {
	if class != "" && class != "x" && class != "x/y" {
		return nil, errors.New("invalid task type")
	}
	return &task{of: t, class: class}, nil
}
func (t *target) Ready() error { return nil }
func (t *target) Start() (chan<- types.TaskBatch, <-chan types.TaskResults) {
	return nil, nil
}

type task struct {
	base.Task
	of    *target
	class string
	Text  string `hcl:"text,attr"`
}

func (t *task) Ready() error { return nil }

func newParser() *parser.Parser {
	return &parser.Parser{Targets: map[string]types.TargetFactory{"a": &factory{"a"}, "b": &factory{"b"}}}
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// names is a list of up to max names, or nothing at all.
func names(what string, max int) ([]string, bool) {
	n := sym.Choose(what, max+2)
	if n == 0 {
		return nil, false
	}
	var out []string
	for i := 1; i < n; i++ {
		out = append(out, sym.StrIn(what+"name", 2, "xy:"))
	}
	return out, true
}

// one is what is declared about a task.
type one struct {
	kind, class, id, target   string
	after, provides, requires []string
	text                      string
}

func idOf(i int) string { return string([]byte{'0' + byte(i)}) }

func classOf(label string) (string, string) {
	for i := 0; i < len(label); i++ {
		if label[i] == '/' {
			return label[:i], label[i+1:]
		}
	}
	return label, ""
}

// declared makes up the block of a task.
func declared(i, max int, lists bool) (*block, *one) {
	label := ""
	if max := sym.Param("type", 4); max > 0 {
		label = sym.StrIn("class", max, "abx/")
	} else {
		label = []string{"a", "b/x", "b/x/y", "c"}[sym.Choose("class", 4)]
	}
	d := &one{id: sym.StrIn("id", 1, "st"), text: "text" + idOf(i)}
	d.kind, d.class = classOf(label)
	b := &block{kind: "task", labels: []string{label, d.id}, attrs: []attr{{"text", d.text}}}
	if sym.Bool("names a target") {
		d.target = sym.StrIn("of", 1, "pq")
		b.attrs = append(b.attrs, attr{"target", d.target})
	}
	if lists {
		var ok bool
		if d.after, ok = names("after", max); ok {
			b.attrs = append(b.attrs, attr{"after", d.after})
		}
		if d.provides, ok = names("provides", max); ok {
			b.attrs = append(b.attrs, attr{"provides", d.provides})
		}
		if d.requires, ok = names("requires", max); ok {
			b.attrs = append(b.attrs, attr{"requires", d.requires})
		}
	}
	return b, d
}

func (d *one) dependencies() []string {
	var out []string
	for _, x := range d.after {
		out = append(out, "task:"+x)
	}
	return append(out, d.requires...)
}

type setting struct {
	kind, id, note string
	size           int
}

// check parses the file, knowing what is declared in it.
func check(settings []setting, tasks []*one) {
	bad := malformed
	known := map[string]map[string]setting{"a": {"": {}}, "b": {"": {}}}
	for _, s := range settings {
		if s.kind != "a" && s.kind != "b" {
			bad = true
			continue
		}
		// The default target may be declared, once.
		if old, ok := known[s.kind][s.id]; ok && (s.id != "" || old.id == "declared") {
			bad = true
			continue
		}
		k := s
		k.id = "declared"
		known[s.kind][s.id] = k
	}
	seen := map[string]bool{}
	for _, d := range tasks {
		if seen[d.id] {
			bad = true
		}
		seen[d.id] = true
		if _, ok := known[d.kind][d.target]; !ok {
			bad = true
		}
		if d.class != "" && d.class != "x" && d.class != "x/y" {
			bad = true
		}
	}
	defer write()()
	ts, err := newParser().Parse(theFile)
	if bad {
		sym.Reach("refused")
		sym.Assert(err != nil && ts == nil, "a file that is wrong is refused")
		return
	}
	sym.Reach("accepted")
	sym.Assert(err == nil && ts != nil, "a file that is right is accepted")
	sym.Assert(len(ts.Targets) == len(known), "there is exactly every kind of target")
	for kind := range known {
		got := ts.Targets[kind]
		sym.Assert(len(got) == len(known[kind]), "exactly the declared targets and the default ones are there")
		for id, want := range known[kind] {
			t, ok := got[types.TargetID(id)].(*target)
			sym.Assert(ok && t.kind == kind, "a target is made by its kind's factory")
			sym.Assert(t.Note == want.note && t.Size == want.size, "a target has its own settings")
		}
	}
	sym.Assert(len(ts.Tasks) == len(tasks), "exactly the declared tasks are there")
	for _, d := range tasks {
		t, ok := ts.Tasks[types.TaskID(d.id)].(*task)
		sym.Assert(ok, "every declared task is there")
		sym.Assert(t.class == d.class, "a task is of the class after the slash")
		sym.Assert(types.Target(t.of) == ts.Targets[d.kind][types.TargetID(d.target)], "a task is made by the target it names")
		sym.Assert(t.Text == d.text, "a task has its own settings")
		sym.Assert(same(t.Dependencies(), d.dependencies()), "a task depends on its 'after' tasks and required resources")
		sym.Assert(same(t.Provides(), d.provides), "a task provides its provided resources")
	}
}

// Targets declares targets and tasks on them.
//
//verif:harness C32 targets targets=2 quick:type=2 thorough:type=4
//verif:bound up to two targets of any kind and name with a setting each and a task whose class has up to 2 (4) characters, on any target
//verif:reach accepted refused
func Targets() {
	malformed = sym.Bool("malformed")
	current = &block{}
	var settings []setting
	for i, n := 0, sym.Choose("targets", sym.Param("targets", 2)+1); i < n; i++ {
		s := setting{kind: sym.StrN("kind", 1), id: sym.StrIn("name", 1, "pq"), note: "note" + idOf(i), size: 7 * sym.Choose("size", 2)}
		sym.Assume(sym.Or(s.kind == "a", sym.Or(s.kind == "b", s.kind == "c")))
		b := &block{kind: "target", labels: []string{s.kind, s.id}, attrs: []attr{{"note", s.note}}}
		if s.size > 0 {
			b.attrs = append(b.attrs, attr{"size", s.size})
		}
		settings = append(settings, s)
		current.blocks = append(current.blocks, b)
	}
	b, d := declared(0, 0, false)
	current.blocks = append(current.blocks, b)
	check(settings, []*one{d})
}

// Tasks declares tasks with dependencies.
//
//verif:harness C32 tasks tasks=2 quick:type=0 thorough:type=2 quick:names=0 thorough:names=1
//verif:bound up to two tasks of four classes (thorough: any of up to two characters) and any name, with lists that are absent or empty (thorough: or have one name)
//verif:reach accepted refused
func Tasks() {
	malformed = false
	current = &block{}
	var tasks []*one
	for i, n := 0, sym.Choose("tasks", sym.Param("tasks", 2)+1); i < n; i++ {
		b, d := declared(i, sym.Param("names", 0), true)
		current.blocks = append(current.blocks, b)
		tasks = append(tasks, d)
	}
	check(nil, tasks)
}

// Lists declares one task with longer lists.
//
//verif:harness C32 lists type=0 quick:names=2 thorough:names=3
//verif:bound one task with lists that are absent or have up to 2 (3) names of up to two characters
//verif:reach accepted
func Lists() {
	malformed = false
	b, d := declared(0, sym.Param("names", 2), true)
	current = &block{blocks: []*block{b}}
	check(nil, []*one{d})
}

// Wrong has things that do not belong there.
//
//verif:harness C32 wrong
//verif:bound one target and one task with an unknown attribute, a missing one or one of another type, or with unknown blocks
//verif:reach end
func Wrong() {
	malformed = false
	tg := &block{kind: "target", labels: []string{"a", "p"}}
	tk := &block{kind: "task", labels: []string{"a/x", "t"}, attrs: []attr{{"target", "p"}, {"text", "k"}}}
	current = &block{blocks: []*block{tg, tk}}
	where := []*block{current, tg, tk}[sym.Choose("where", 3)]
	switch sym.Choose("what", 5) {
	case 0:
		where.attrs = append(where.attrs, attr{"zz", "k"})
	case 1:
		where.blocks = append(where.blocks, &block{kind: "zz"})
	case 2:
		tk.attrs = tk.attrs[:1]
	case 3:
		name := []string{"after", "provides", "requires"}[sym.Choose("list", 3)]
		tk.attrs = append(tk.attrs, attr{name, "k"})
	case 4:
		tg.attrs = append(tg.attrs, attr{"size", []string{"k"}})
	}
	defer write()()
	ts, err := newParser().Parse(theFile)
	sym.Assert(err != nil && ts == nil, "a file with unsuitable settings is refused")
	sym.Reach("end")
}

// Real declares tasks of the real targets.
//
//verif:harness C32 real quick:names=1 thorough:names=2
//verif:bound one task of every class of the real targets, on the default or a declared target, with lists that are absent or have up to 1 (2) names
//verif:reach end
func Real() {
	malformed = false
	p := &parser.Parser{Targets: map[string]types.TargetFactory{"demo": &demo.TargetFactory{}, "pg": &pg.TargetFactory{}, "sh": &sh.TargetFactory{}}}
	label := []string{"demo/echo", "demo/fail", "demo/rev", "demo/rot13", "demo/sleep", "pg", "sh"}[sym.Choose("class", 7)]
	kind, _ := classOf(label)
	d := &one{}
	tk := &block{kind: "task", labels: []string{label, "t"}}
	current = &block{blocks: []*block{tk}}
	if sym.Bool("declared") {
		tg := &block{kind: "target", labels: []string{kind, "p"}}
		if kind == "demo" {
			tg.attrs = []attr{{"string", "hello"}, {"max_concurrency", 3}}
		}
		current.blocks = append(current.blocks, tg)
		d.target = "p"
		tk.attrs = append(tk.attrs, attr{"target", "p"})
	}
	switch kind {
	case "pg":
		tk.attrs = append(tk.attrs, attr{"sql", "SELECT"})
	case "sh":
		tk.attrs = append(tk.attrs, attr{"args", []string{"ls", "-l"}})
	}
	var ok bool
	max := sym.Param("names", 1)
	if d.after, ok = names("after", max); ok {
		tk.attrs = append(tk.attrs, attr{"after", d.after})
	}
	if d.provides, ok = names("provides", max); ok {
		tk.attrs = append(tk.attrs, attr{"provides", d.provides})
	}
	if d.requires, ok = names("requires", max); ok {
		tk.attrs = append(tk.attrs, attr{"requires", d.requires})
	}
	defer write()()
	ts, err := p.Parse(theFile)
	sym.Assert(err == nil, "a file that is right is accepted")
	t := ts.Tasks["t"]
	good := false
	switch x := t.(type) {
	case *demo.Echo:
		good = label == "demo/echo"
	case *demo.Fail:
		good = label == "demo/fail"
	case *demo.Rev:
		good = label == "demo/rev"
	case *demo.Rot13:
		good = label == "demo/rot13"
	case *demo.Sleep:
		good = label == "demo/sleep"
	case *pg.Task:
		good = label == "pg" && x.SQL == "SELECT"
	case *sh.Task:
		good = label == "sh" && same(x.Args, []string{"ls", "-l"})
	}
	sym.Assert(good, "a task is of the class after the slash and has its own settings")
	sym.Assert(same(t.Dependencies(), d.dependencies()), "a task depends on its 'after' tasks and required resources")
	sym.Assert(same(t.Provides(), d.provides), "a task provides its provided resources")
	if x, is := ts.Targets["demo"]["p"].(*demo.Target); is {
		sym.Assert(x.String == "hello" && x.MaxConcurrency == 3, "a target has its own settings")
	}
	sym.Reach("end")
}

// Many declares many targets and tasks.
//
//verif:harness C32 many steps=100000000 sizes=3 thorough:sizes=4
//verif:bound (many) 5, 12, 33 or (thorough) 70 targets and as many tasks with up to four names in each list, on the default target, one target or targets of their own; the name of one task, the first, one in the middle or the last, and of its target may be any other, known or not
//verif:reach accepted refused
func Many() {
	malformed = false
	n := []int{5, 12, 33, 70}[sym.Choose("size", sym.Param("sizes", 3))]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	mode := sym.Choose("targets", 3)
	lists := sym.Choose("lists", 5)
	what := sym.Choose("what", 5)
	current = &block{}
	var settings []setting
	var tasks []*one
	for i := 0; i < n; i++ {
		id := strconv.Itoa(i)
		s := setting{kind: "a", id: "p" + id, note: "note" + id, size: 7 * (i % 3)}
		if i%2 == 1 {
			s.kind = "b"
		}
		if i == at && what == 1 {
			s.id = "p" + sym.StrNIn("targetname", 1, "0159")
		}
		b := &block{kind: "target", labels: []string{s.kind, s.id}, attrs: []attr{{"note", s.note}}}
		if s.size > 0 {
			b.attrs = append(b.attrs, attr{"size", s.size})
		}
		settings = append(settings, s)
		current.blocks = append(current.blocks, b)
	}
	for i := 0; i < n; i++ {
		id := strconv.Itoa(i)
		d := &one{kind: settings[i].kind, class: []string{"", "x", "x/y"}[i%3], id: "t" + id, text: "text" + id}
		switch mode {
		case 1:
			d.kind, d.target = "a", "p0"
		case 2:
			d.target = settings[i].id
		}
		if i == at {
			switch what {
			case 2:
				d.id = "t" + sym.StrNIn("taskname", 1, "0159")
			case 3:
				d.target = "p" + sym.StrNIn("of", 1, "0159")
			case 4:
				d.class = "x" + sym.StrIn("class", 2, "/yx")
			}
		}
		for j := 0; j < i%(lists+1); j++ {
			x := strconv.Itoa(j)
			d.after = append(d.after, "t"+strconv.Itoa((i+j+1)%n))
			d.provides = append(d.provides, "given:"+id+":"+x)
			d.requires = append(d.requires, "needed:"+x)
		}
		label := d.kind
		if d.class != "" {
			label += "/" + d.class
		}
		b := &block{kind: "task", labels: []string{label, d.id}, attrs: []attr{{"text", d.text}}}
		if d.target != "" {
			b.attrs = append(b.attrs, attr{"target", d.target})
		}
		if len(d.after) > 0 {
			b.attrs = append(b.attrs, attr{"after", d.after}, attr{"provides", d.provides}, attr{"requires", d.requires})
		}
		current.blocks = append(current.blocks, b)
		tasks = append(tasks, d)
	}
	check(settings, tasks)
}
