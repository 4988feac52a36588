package rbout

import (
	"bytes"
	"path/filepath"
	"strings"

	"github.com/sjansen/pgutil/internal/commands"
	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/runbook"
	"github.com/sjansen/pgutil/internal/sys"
	"github.com/sjansen/pgutil/internal/zzverif/memfs"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

const (
	book1  = `{"targets":{"t":{"class":"demo"}},"tasks":{"a":{"target":"t/echo"},"b":{"target":"t/echo","after":["a"]}}}`
	broken = `{"targets":{"t":{"class":"demon"}},"tasks":{}}`
	old    = "an older and longer text\n"
)

// run runs the graph or the evaluation command.
func run(dot bool, file, output string, auto bool, stdout *bytes.Buffer) error {
	var stderr bytes.Buffer
	base := &commands.Base{IO: sys.IO{Log: logger.Discard(), Stdout: stdout, Stderr: &stderr}}
	if dot {
		return (&commands.RunBookDotCmd{File: file, Output: output, AutoOut: auto}).Run(base)
	}
	return (&commands.RunBookEvalCmd{File: file, Output: output, Color: "auto"}).Run(base)
}

// rendered returns what a command should write.
func rendered(dot bool, file string) (string, error) {
	var b bytes.Buffer
	var err error
	if dot {
		err = runbook.Dot(&sys.IO{Log: logger.Discard()}, file, &b, "")
	} else {
		err = runbook.Eval(&sys.IO{Log: logger.Discard()}, file, &b, false)
	}
	return b.String(), err
}

// finish runs a command that should write to dest, or to standard output if it is "", or nowhere if it is "!".
func finish(dot bool, file, output string, auto bool, source, text, dest string) {
	want, loads := rendered(dot, file)
	before := memfs.All()
	var stdout bytes.Buffer
	err := run(dot, file, output, auto, &stdout)
	after := memfs.All()
	sym.Assert(after[source] == text, "the runbook is not overwritten")
	for name, t := range before {
		if name != dest {
			s, ok := after[name]
			sym.Assert(ok && s == t, "no other file is changed")
		}
	}
	for name := range after {
		_, ok := before[name]
		sym.Assert(ok || name == dest, "no other file is made")
	}
	if dest != "" {
		sym.Assert(stdout.Len() == 0, "standard output is used only when asked for")
	}
	if loads != nil {
		sym.Assert(err != nil, "a runbook that does not load is reported")
		sym.Assert(stdout.Len() == 0, "there is no output without a runbook")
		sym.Reach("broken")
		return
	}
	switch {
	case dest == "!":
		sym.Assert(err != nil, "a failure to write is reported")
		sym.Reach("failed")
	case dest == "":
		sym.Assert(err == nil, "the output is written")
		sym.Assert(stdout.String() == want, "the output goes to standard output")
		sym.Reach("stdout")
	default:
		sym.Assert(err == nil, "the output is written")
		sym.Assert(after[dest] == want, "the output goes to the requested file")
		sym.Reach("file")
	}
}

// Output writes to every kind of place.
//
//verif:harness C30 output
//verif:bound runs of the graph and the evaluation command on a runbook with one edge or a broken one, named plainly, by another spelling or by a symbolic link, writing to standard output, a new file, an existing one, a link, the runbook itself under five spellings, a missing directory, a directory or a full device, with and without automatic naming
//verif:reach stdout file failed broken
func Output() {
	defer memfs.Setup()()
	dot := sym.Bool("dot")
	text := book1
	if sym.Bool("broken") {
		text = broken
	}
	source := []string{"x.jsonnet", "x.dot", "x"}[sym.Choose("source", 3)]
	memfs.Put(source, text)
	memfs.Mkdir("d")
	memfs.Put("z", old)
	file := source
	base := "x"
	switch sym.Choose("file", 4) {
	case 1:
		file = "./" + source
	case 2:
		file = memfs.Dir() + "/d/../" + source
	case 3:
		memfs.Link(source, "l.dot")
		file = "l.dot"
		base = "l"
	}
	auto := dot && sym.Bool("auto")
	output, dest := "", ""
	switch sym.Choose("output", 12) {
	case 0:
		if auto {
			dest = base + ".dot"
			if base == "l" || dest == source {
				dest = "!"
			} else if sym.Bool("old") {
				memfs.Put(dest, old)
			}
		}
	case 1:
		output = "-"
	case 2:
		output, dest = "y.dot", "y.dot"
	case 3:
		output, dest = "z", "z"
	case 4:
		memfs.Link("z", "m")
		output, dest = "m", "z"
	case 5:
		output, dest = source, "!"
	case 6:
		output, dest = "./d/../"+source, "!"
	case 7:
		output, dest = memfs.Dir()+"/"+source, "!"
	case 8:
		memfs.Link(source, "s")
		output, dest = "s", "!"
	case 9:
		output, dest = "missing/y", "!"
	case 10:
		output, dest = "d", "!"
	case 11:
		output, dest = "/dev/full", "!"
	}
	finish(dot, file, output, auto, source, text, dest)
}

// Named names outputs automatically.
//
//verif:harness C30 named len=5 thorough:len=8
//verif:bound automatic naming for runbooks whose names have up to len letters and dots and do not begin with a dot, in the working directory or one with a dot in its name
//verif:reach file failed
func Named() {
	defer memfs.Setup()()
	name := sym.StrIn("name", sym.Param("len", 1), "a.dot")
	sym.Assume(len(name) > 0 && name[0] != '.')
	want := name + ".dot"
	if i := strings.LastIndexByte(name, '.'); i >= 0 {
		want = name[:i] + ".dot"
	}
	switch sym.Choose("dir", 3) {
	case 1:
		memfs.Mkdir("d.x")
		name, want = "d.x/"+name, "d.x/"+want
	case 2:
		memfs.Mkdir("d.x")
		memfs.Put(name, book1)
		if want == name {
			want = "!"
		}
		finish(true, filepath.Join(memfs.Dir(), name), "", true, name, book1, want)
		return
	}
	memfs.Put(name, book1)
	if want == name {
		want = "!"
	}
	finish(true, name, "", true, name, book1, want)
}
