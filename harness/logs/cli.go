package logs

import (
	"bytes"
	"runtime/debug"
	"strings"

	"github.com/sjansen/pgutil/internal/cli"
	"github.com/sjansen/pgutil/internal/zzverif/memfs"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

var flags = []struct {
	text    string
	v, q    int
	invalid bool
}{
	{"-v", 1, 0, false}, {"-q", 0, 1, false}, {"--verbose", 1, 0, false}, {"--quiet", 0, 1, false}, {"-vv", 2, 0, false}, {"-qvv", 2, 1, false},
}

// CommandLine counts flags.
//
//verif:harness C29 cli flags=3 thorough:flags=5
//verif:bound command lines with up to flags of the flags -v -q --verbose --quiet -vv -qvv before or after the command, with and without a debug log, for the version command (which logs one informational message)
//verif:reach shown hidden
func CommandLine() {
	defer memfs.Setup()()
	var before, after []string
	level := 1
	for i, n := 0, sym.Choose("flags", 1+sym.Param("flags", 1)); i < n; i++ {
		f := flags[sym.Choose("flag", len(flags))]
		level += f.v - f.q
		if len(after) > 0 || sym.Bool("after") {
			after = append(after, f.text)
		} else {
			before = append(before, f.text)
		}
	}
	dbg := sym.Bool("debug")
	if dbg {
		before = append(before, "--debug", "debug.log")
	}
	args := append(append(before, "version"), after...)
	cmd, err := cli.RegisterCommands("1.2.3").Parse(args)
	sym.Assert(err == nil, "the command line is accepted")
	var stdout, stderr bytes.Buffer
	err = cmd(&stdout, &stderr)
	sym.Assert(err == nil, "the command runs")
	logged := strings.Contains(stdout.String(), "INFO\tpgutil version=1.2.3\n")
	sym.Assert(logged == (level >= 2), "informational messages are shown from two on")
	if logged {
		sym.Reach("shown")
	} else {
		sym.Reach("hidden")
	}
	if dbg {
		sym.Assert(strings.Contains(memfs.All()["debug.log"], "\tINFO\tpgutil version=1.2.3\n"), "a debug log has every message")
	}
}

// ReadBuildInfo stands for debug.ReadBuildInfo.
//
//verif:stub runtime/debug.ReadBuildInfo
func ReadBuildInfo() (*debug.BuildInfo, bool) { return nil, false }

// Filter runs a runbook, whose default log has to be the debug log less what was not selected.
//
//verif:harness C29 filter flags=4 targets=0 thorough:targets=1
//verif:bound running a runbook with up to targets targets and no tasks (which logs debugging messages), in every interleaving, with up to flags times -v or -q
//verif:reach shown hidden
func Filter() {
	defer memfs.Setup()()
	level := 1
	args := []string{"--debug=debug.log"}
	n := sym.Choose("flags", 1+sym.Param("flags", 1))
	if sym.Bool("quiet") {
		for i := 0; i < n; i++ {
			args = append(args, "-q")
			level--
		}
	} else {
		for i := 0; i < n; i++ {
			args = append(args, "-v")
			level++
		}
	}
	if sym.Choose("targets", 1+sym.Param("targets", 0)) == 0 {
		memfs.Put("x.jsonnet", `{"targets":{},"tasks":{}}`)
	} else {
		memfs.Put("x.jsonnet", `{"targets":{"t":{"class":"demo"}},"tasks":{}}`)
	}
	cmd, err := cli.RegisterCommands("1").Parse(append(args, "runbook", "x.jsonnet"))
	sym.Assert(err == nil, "the command line is accepted")
	var stdout, stderr bytes.Buffer
	err = cmd(&stdout, &stderr)
	sym.Assert(err == nil, "the command runs")
	want := map[string]int{}
	debugging := 0
	for _, l := range strings.Split(memfs.All()["debug.log"], "\n") {
		f := strings.SplitN(l, "\t", 2)
		if len(f) < 2 {
			continue
		}
		rank := strings.Index("ERROR WARN  INFO  DEBUG", strings.Split(f[1], "\t")[0]) / 6
		if rank == 3 {
			debugging++
		}
		if rank == 0 || level >= rank {
			want[f[1]]++
		}
	}
	sym.Assert(debugging > 0, "a debug log has every message")
	for _, l := range strings.Split(strings.TrimSuffix(stdout.String(), "\n"), "\n") {
		if l != "" {
			want[l]--
			sym.Assert(want[l] >= 0, "only selected messages are logged")
		}
	}
	for _, n := range want {
		sym.Assert(n == 0, "every selected message is logged")
	}
	if level >= 3 {
		sym.Reach("shown")
	} else {
		sym.Reach("hidden")
	}
}
