package logs

import (
	"bytes"
	"runtime/debug"
	"strconv"
	"strings"

	"github.com/sjansen/pgutil/internal/cli"
	"github.com/sjansen/pgutil/internal/commands"
	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/sys"
	"github.com/sjansen/pgutil/internal/zzverif/memfs"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

// Version prints versions.
//
//verif:harness C41 version deps=3 len=2 thorough:deps=5 thorough:len=4
//verif:bound names and versions of up to len printable characters, alone or at the end of longer ones; up to deps modules, or 20; with and without details, or details that are not known
//verif:reach short long
func Version() {
	n := sym.Param("len", 2)
	word := func(name string) string {
		return sym.StrNIn(name, 1+sym.Choose(name, n), "!-~")
	}
	c := &commands.VersionCmd{App: "pgutil", Build: "1.0"}
	if sym.Bool("names") {
		c.App, c.Build = word("app"), word("build")
		if sym.Bool("longer") {
			c.App, c.Build = strings.Repeat("pgutil", 15)+c.App, strings.Repeat("v1.2-", 60)+c.Build
		}
	}
	c.Verbose = sym.Bool("long")
	var paths, versions []string
	if sym.Bool("info") {
		c.BuildInfo = &debug.BuildInfo{Path: "main"}
		k := sym.Choose("deps", sym.Param("deps", 2)+2)
		one := -1
		if k > sym.Param("deps", 2) {
			k = 20
		}
		if k > 0 {
			one = []int{0, k / 2, k - 1}[sym.Choose("one", 3)]
		}
		for i := 0; i < k; i++ {
			p, v := "example.com/m"+strconv.Itoa(i), "v0."+strconv.Itoa(i)
			if i == one {
				switch sym.Choose("what", 4) {
				case 0:
					p = word("path")
				case 1:
					v = word("version")
				case 2:
					p = strings.Repeat("long/", 9) + word("path")
				case 3:
					v = strings.Repeat("v1.2-", 9) + word("version")
				}
			}
			paths, versions = append(paths, p), append(versions, v)
			c.BuildInfo.Deps = append(c.BuildInfo.Deps, &debug.Module{Path: p, Version: v})
		}
	}
	var stdout, stderr bytes.Buffer
	err := c.Run(&commands.Base{IO: sys.IO{Log: logger.Discard(), Stdout: &stdout, Stderr: &stderr}})
	sym.Assert(err == nil, "the command succeeds")
	sym.Assert(stderr.Len() == 0, "nothing is reported")
	text := stdout.String()
	head := c.App + " " + c.Build + "\n"
	sym.Assert(len(text) >= len(head) && sym.EqStr(text[:len(head)], head), "the name and the version are printed first")
	text = text[len(head):]
	if !c.Verbose || c.BuildInfo == nil {
		sym.Assert(text == "", "nothing else is printed")
		sym.Reach("short")
		return
	}
	var lines [][]string
	for _, l := range strings.Split(text, "\n") {
		if f := strings.Fields(l); len(f) > 0 {
			lines = append(lines, f)
		}
	}
	sym.Assert(len(lines) == len(paths), "there is a line for each module")
	for i, f := range lines {
		sym.Assert(len(f) == 2 && sym.EqStr(f[0], paths[i]) && sym.EqStr(f[1], versions[i]), "a line has a module and its version")
	}
	sym.Reach("long")
}

// VersionLine runs command lines.
//
//verif:harness C41 cli len=2 thorough:len=3
//verif:bound the version command with one of the spellings of --long or without; versions of up to len printable characters; the modules are not known in the symbolic runs
//verif:reach accepted
func VersionLine() {
	defer memfs.Setup()()
	build := sym.StrNIn("build", 1+sym.Choose("build", sym.Param("len", 2)), "!-~")
	args := []string{"version"}
	if k := sym.Choose("flag", 4); k > 0 {
		args = append(args, []string{"-l", "--long", "--no-long"}[k-1])
	}
	cmd, err := cli.RegisterCommands(build).Parse(args)
	sym.Assert(err == nil, "the command line is accepted")
	var stdout, stderr bytes.Buffer
	sym.Assert(cmd(&stdout, &stderr) == nil, "the command succeeds")
	sym.Assert(stderr.Len() == 0, "nothing is reported")
	head := "pgutil " + build + "\n"
	text := stdout.String()
	sym.Assert(len(text) >= len(head) && sym.EqStr(text[:len(head)], head), "the name and the version are printed first")
	if len(args) == 1 || args[1] == "--no-long" {
		sym.Assert(len(text) == len(head), "nothing else is printed")
	}
	sym.Reach("accepted")
}
