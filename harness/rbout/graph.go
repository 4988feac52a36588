// Package rbout checks what is reported about runbooks (C14, C30).
package rbout

import (
	"bytes"
	"errors"
	"os"
	"strconv"
	"strings"

	"github.com/sjansen/pgutil/internal/commands"
	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/runbook"
	"github.com/sjansen/pgutil/internal/sys"
	"github.com/sjansen/pgutil/internal/zzverif/jsonmodel"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

type task struct {
	name   string
	target int
	after  []int
	extra  string // an unknown prerequisite
}

type book struct {
	targets []string
	tasks   []*task
}

// jsonString writes a string of printable characters.
func jsonString(s string) string {
	out := `"`
	for i := 0; i < len(s); i++ {
		if s[i] == '"' || s[i] == '\\' {
			out += `\`
		}
		out += s[i : i+1]
	}
	return out + `"`
}

func (b *book) text() string {
	var ts, ks []string
	for _, t := range b.targets {
		ts = append(ts, jsonString(t)+`:{"class":"demo"}`)
	}
	for _, k := range b.tasks {
		var after []string
		for _, i := range k.after {
			after = append(after, jsonString(b.tasks[i].name))
		}
		if k.extra != "" {
			after = append(after, jsonString(k.extra))
		}
		ks = append(ks, jsonString(k.name)+`:{"target":`+jsonString(b.targets[k.target]+"/echo")+`,"after":[`+strings.Join(after, ",")+`]}`)
	}
	return `{"targets":{` + strings.Join(ts, ",") + `},"tasks":{` + strings.Join(ks, ",") + `}}`
}

const odd = "a1-\"<& .\\"

var words = []string{"a", "node", "Graph", "edge", "Digraph", "subgraph", "STRICT", "cluster_a", "cluster_b-c", "b-c", "1.5", "<b>", "a:b", "", " ", "x\xc3\xa9", "\"q\"", "error", "runbook"}

// distinct requires a name no other has.
func distinct(name string, others []string) {
	for _, o := range others {
		sym.Assume(sym.Not(sym.EqStr(name, o)))
	}
}

// aBook makes a runbook; the names come from gen.
func aBook(targets, tasks int, full bool, gen func(what string) string) *book {
	b := &book{}
	for i, n := 0, 1+sym.Choose("targets", targets); i < n; i++ {
		s := gen("target")
		distinct(s, b.targets)
		b.targets = append(b.targets, s)
	}
	var names []string
	n := sym.Choose("tasks", tasks+1)
	for i := 0; i < n; i++ {
		s := gen("task")
		distinct(s, names)
		names = append(names, s)
		b.tasks = append(b.tasks, &task{name: s, target: sym.Choose("of", len(b.targets))})
	}
	for i, k := range b.tasks {
		for j := range b.tasks {
			if !full && j >= i {
				break
			}
			if sym.Bool("edge") {
				k.after = append(k.after, j)
			}
		}
	}
	return b
}

func bookFile(text string) (name string, done func()) {
	dir := "/scratch"
	done = func() {}
	if sym.Native() {
		d, err := os.MkdirTemp("", "runbook")
		if err != nil {
			panic(err)
		}
		dir = d
		done = func() { os.RemoveAll(d) }
	}
	jsonmodel.WriteFile(dir+"/book.jsonnet", text)
	return dir + "/book.jsonnet", done
}

type sink struct {
	buf  bytes.Buffer
	fail bool
}

func (s *sink) Write(p []byte) (int, error) {
	if s.fail {
		return 0, errors.New("no space left")
	}
	return s.buf.Write(p)
}

// checkGraph draws a runbook and compares the picture.
func checkGraph(b *book) {
	name, done := bookFile(b.text())
	defer done()
	splines := ""
	w := &sink{}
	if sym.Param("plain", 0) == 1 {
		splines = []string{"", "ortho"}[sym.Choose("splines", 2)]
		w.fail = sym.Bool("fail")
	}
	err := runbook.Dot(&sys.IO{Log: logger.Discard()}, name, w, splines)
	if w.fail {
		sym.Assert(err != nil, "a failure to write is reported")
		sym.Reach("failed")
		return
	}
	for _, k := range b.tasks {
		if k.extra != "" && err != nil {
			sym.Reach("unknown")
			return
		}
	}
	sym.Assert(err == nil, "the graph is written")
	text := w.buf.String()
	g := parseDot(text)
	sym.Assert(g != nil, "the graph is well formed")
	sym.Assert(g.attrs["splines"] == splines, "the requested edges are drawn")
	sym.Assert(len(g.clusters) == len(b.targets), "there is one cluster for each target")
	for i, t := range b.targets {
		var c *cluster
		for _, x := range g.clusters {
			if x.label == t {
				sym.Assert(c == nil, "there is one cluster for each target")
				c = x
			}
		}
		sym.Assert(c != nil, "every target is a cluster labelled with its name")
		var names []string
		for _, k := range b.tasks {
			if k.target == i {
				names = append(names, k.name)
			}
		}
		sym.Assert(len(c.nodes) == len(names), "a cluster has exactly its target's tasks")
		for _, n := range names {
			sym.Assert(count(c.nodes, n) == 1, "every task is a node of its target's cluster")
		}
	}
	sym.Assert(len(g.nodes) == 0, "there are no other nodes")
	edges := 0
	for _, k := range b.tasks {
		for _, j := range k.after {
			edges++
			n := 0
			for _, e := range g.edges {
				if e[0] == b.tasks[j].name && e[1] == k.name {
					n++
				}
			}
			sym.Assert(n == 1, "there is one edge from each prerequisite to its dependent")
		}
		if k.extra != "" {
			edges++
		}
	}
	sym.Assert(len(g.edges) == edges, "there are no other edges")
	sym.Reach("drawn")
}

func count(list []string, s string) int {
	n := 0
	for _, x := range list {
		if x == s {
			n++
		}
	}
	return n
}

// Graph draws runbooks with plain names.
//
//verif:harness C14 graph targets=2 tasks=3 full=0 plain=1 thorough:full=1
//verif:bound up to targets targets and up to tasks tasks with names of a letter each, any edges from earlier tasks (or, with full=1, among all tasks), one prerequisite may be unknown; writing may fail
//verif:reach drawn failed
func Graph() {
	b := aBook(sym.Param("targets", 1), sym.Param("tasks", 1), sym.Param("full", 0) == 1, func(what string) string { return sym.StrNIn(what, 1, "abcd") })
	if len(b.tasks) > 0 && sym.Bool("extra") {
		b.tasks[0].extra = "zz"
	}
	checkGraph(b)
}

// GraphNames draws runbooks with any names.
//
//verif:harness C14 graphnames targets=1 tasks=1 quick:len=3 thorough:len=2 thorough:targets=2 thorough:tasks=1
//verif:harness C14 graphwords targets=2 tasks=1 len=0 thorough:tasks=2
//verif:harness C14 graphpairs targets=1 tasks=2 len=0
//verif:bound up to targets targets and up to tasks tasks with names of up to len bytes of letters, digits and punctuation, or names with a meaning in the output format
//verif:reach drawn
func GraphNames() {
	n := sym.Param("len", 1)
	checkGraph(aBook(sym.Param("targets", 1), sym.Param("tasks", 1), false, func(what string) string {
		if n == 0 {
			return words[sym.Choose(what, len(words))]
		}
		return sym.StrIn(what, n, odd)
	}))
}

// List lists runbooks.
//
//verif:harness C14 list targets=2 tasks=3 len=1 thorough:tasks=4
//verif:harness C14 listlong targets=1 tasks=2 len=2 thorough:len=3
//verif:bound up to targets targets and up to tasks tasks with names of one to len bytes of "ab-" and é
//verif:reach end
func List() {
	b := aBook(sym.Param("targets", 1), sym.Param("tasks", 1), false, func(what string) string {
		s := sym.StrIn(what, sym.Param("len", 1), "ab-")
		if sym.Param("len", 1) > 1 && sym.Bool("accent") {
			s += "\xc3\xa9"
		}
		sym.Assume(s != "")
		return s
	})
	checkList(b)
	sym.Reach("end")
}

func checkList(b *book) {
	name, done := bookFile(b.text())
	defer done()
	var stdout, stderr bytes.Buffer
	io := sys.IO{Log: logger.Discard(), Stdout: &stdout, Stderr: &stderr}
	got, err := runbook.List(&io, name)
	sym.Assert(err == nil, "the runbook is listed")
	sym.Assert(len(got) == len(b.tasks), "exactly the tasks are listed")
	for _, k := range b.tasks {
		t, ok := got[runbook.TaskID(k.name)]
		sym.Assert(ok, "every task is listed")
		sym.Assert(string(t) == b.targets[k.target], "a task is listed with its target")
	}
	err = (&commands.RunBookListCmd{File: name}).Run(&commands.Base{IO: io})
	sym.Assert(err == nil, "the runbook is listed")
	sym.Assert(stderr.Len() == 0, "nothing is reported")
	lines := strings.Split(stdout.String(), "\n")
	sym.Assert(len(lines) == len(b.tasks)+2 && lines[len(lines)-1] == "", "there is a line for each task")
	prev := ""
	for _, l := range lines[1 : len(lines)-1] {
		f := strings.Fields(l)
		sym.Assert(len(f) == 2, "a line has a task and a target")
		sym.Assert(prev < f[0], "tasks are sorted")
		prev = f[0]
		found := false
		for _, k := range b.tasks {
			if k.name == f[0] {
				found = true
				sym.Assert(b.targets[k.target] == f[1], "a task is listed with its target")
			}
		}
		sym.Assert(found, "only tasks are listed")
	}
}

// GraphShared draws runbooks whose names share their beginnings and ends.
//
//verif:harness C14 graphshared tasks=4 separator=1 literal=3 thorough:separator=2 thorough:literal=12
//verif:bound four tasks named x, xSy, ySz and z, where S is up to separator printable characters or one of the short string constants of the packages that draw graphs; any edges from earlier tasks
//verif:reach drawn
func GraphShared() {
	s := ""
	if sym.Bool("word") {
		s = sym.Literal("separator", "internal/runbook,internal/commands", " -~", sym.Param("literal", 3))
	} else {
		s = sym.StrIn("separator", sym.Param("separator", 1), " -~")
	}
	names := []string{"x", "x" + s + "y", "y" + s + "z", "z"}
	next := 0
	checkGraph(aBook(1, 4, false, func(what string) string {
		if what == "target" {
			return "t"
		}
		next++
		return names[next-1]
	}))
}

// large makes a runbook of many tasks.
func large() *book {
	n := []int{9, 17, 33, 80}[sym.Choose("size", sym.Param("sizes", 3))]
	b := &book{targets: []string{"red", "green", "blue", "grey", "pink", "teal", "gold", "cyan", "navy", "lime", "plum", "rust"}}
	if sym.Bool("few") {
		b.targets = b.targets[:2]
	}
	shape := sym.Choose("shape", 5)
	tail := sym.StrNIn("byte", 1, "azAZ_-.0")
	for i := 0; i < n; i++ {
		k := &task{name: "task" + strconv.Itoa(i*7%n), target: i % len(b.targets)}
		if i == n/2 {
			k.name += tail
		}
		switch shape {
		case 1: // a chain
			if i > 0 {
				k.after = []int{i - 1}
			}
		case 2: // a star
			if i > 0 {
				k.after = []int{0}
			}
		case 3: // a join
			for j := 0; j < i && i == n-1; j++ {
				k.after = append(k.after, j)
			}
		case 4: // layers
			for j := i - i%4 - 4; j >= 0 && j < i-i%4; j++ {
				k.after = append(k.after, j)
			}
		}
		b.tasks = append(b.tasks, k)
	}
	return b
}

// GraphMany draws runbooks of many tasks.
//
//verif:harness C14 graphmany steps=100000000 sizes=3 thorough:sizes=4
//verif:bound (many) 9, 17, 33 or (thorough) 80 tasks of 2 or 12 targets that are independent, a chain, a star, a join or layers of four, one of which has an arbitrary byte in its name
//verif:reach drawn
func GraphMany() { checkGraph(large()) }

// ListMany lists runbooks of many tasks.
//
//verif:harness C14 listmany steps=100000000 sizes=3 thorough:sizes=4
//verif:reach end
func ListMany() {
	checkList(large())
	sym.Reach("end")
}
