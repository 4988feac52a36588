// Package program is the program itself, whose sources are copied into it.
//
//verif:source .
package program

import (
	"bytes"
	"os"
	"os/exec"
	"runtime/debug"
	"strings"

	kingpin "gopkg.in/alecthomas/kingpin.v2"

	"github.com/sjansen/pgutil/internal/zzverif/memfs"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

// ReadBuildInfo stands for debug.ReadBuildInfo.
//
//verif:stub runtime/debug.ReadBuildInfo
func ReadBuildInfo() (*debug.BuildInfo, bool) { return nil, false }

// UsageForContext stands for the one of kingpin, whose template is not of interest.
//
//verif:stub (*gopkg.in/alecthomas/kingpin.v2.Application).UsageForContext
func UsageForContext(app *kingpin.Application, context *kingpin.ParseContext) error { return nil }

type exited int

// Exit stands for os.Exit.
//
//verif:stub os.Exit
func Exit(code int) { panic(exited(code)) }

const variable = "VERIF_PROGRAM"

// Natively, the program is run by another process.
func init() {
	if sym.Native() && os.Getenv(variable) != "" {
		main()
		os.Exit(0)
	}
}

// start runs the program.
func start(args []string) (status int, stdout, stderr string) {
	if sym.Native() {
		name, err := os.Executable()
		if err != nil {
			panic(err)
		}
		var a, b bytes.Buffer
		cmd := exec.Command(name, args...)
		cmd.Env = append(os.Environ(), variable+"=1")
		cmd.Stdout, cmd.Stderr = &a, &b
		err = cmd.Run()
		if _, ok := err.(*exec.ExitError); err != nil && !ok {
			panic(err)
		}
		return cmd.ProcessState.ExitCode(), a.String(), b.String()
	}
	open := func(name string) *os.File {
		f, err := os.OpenFile(name, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0600)
		if err != nil {
			panic(err)
		}
		return f
	}
	os.Args, os.Stdout, os.Stderr = append([]string{"pgutil"}, args...), open("stdout"), open("stderr")
	func() {
		defer func() {
			switch x := recover().(type) {
			case nil:
			case exited:
				status = int(x)
			default:
				panic(x)
			}
		}()
		main()
	}()
	return status, memfs.All()["stdout"], memfs.All()["stderr"]
}

const book = `{"targets":{"t":{"class":"demo","config":{"String":"word"}}},"tasks":{"a":{"target":"t/echo"}}}`

var lines = []struct {
	args string
	ok   bool
	text string // is printed
}{
	{"version", true, "pgutil "},
	{"version -l", true, "pgutil "},
	{"runbook run good.json", true, "word\n"},
	{"runbook good.json", true, "word\n"},
	{"runbook list good.json", true, "a"},
	{"runbook ls good.json", true, "a"},
	{"runbook dot good.json", true, "digraph"},
	{"runbook dot -o x.dot good.json", true, ""},
	{"runbook eval good.json", true, "targets"},
	{"runbook eval good.json --output=x.json", true, ""},
	{"--help", true, ""},
	{"runbook run bad.json", false, "fail task executed"},
	{"runbook bad.json", false, "fail task executed"},
	{"runbook run cycle.json", false, "circular dependency"},
	{"runbook run unknown.json", false, ""},
	{"runbook list unknown.json", false, ""},
	{"runbook dot unknown.json", false, ""},
	{"runbook eval good.json -o nowhere/x.json", false, "nowhere/x.json"},
	{"runbook dot good.json -o nowhere/x.dot", false, "nowhere/x.dot"},
	{"runbook dot good.json -o good.json", false, "good.json"},
	{"runbook eval good.json -o /dev/full", false, ""},
	{"runbook run", false, ""},
	{"runbook run missing.json", false, "missing.json"},
	{"runbook run good.json bad.json", false, ""},
	{"runbook dot good.json --splines=round", false, "round"},
	{"runbook eval good.json --color=maybe", false, "maybe"},
	{"version now", false, "now"},
	{"version --short", false, "short"},
	{"ping --port=65536", false, "65536"},
	{"ping --sslmode=never", false, "never"},
	{"inspect --sslmode=never", false, "never"},
}

// Program runs the program.
//
//verif:harness C42 program
//verif:bound 32 command lines of every command but ping and inspect that need no server, 11 of which succeed, or any unknown command of one or two lower-case letters; with -q, -qq, -v, -vvv or a debug log, before or after the command, or without; every interleaving
//verif:reach success failure unknown
func Program() {
	defer memfs.Setup()()
	memfs.Put("good.json", book)
	memfs.Put("bad.json", strings.Replace(book, "t/echo", "t/fail", 1))
	memfs.Put("cycle.json", strings.Replace(book, `"t/echo"`, `"t/echo","after":["a"]`, 1))
	memfs.Put("unknown.json", strings.Replace(book, "demo", "demon", 1))
	flag := []string{"", "-q", "-qq", "-v", "-vvv", "--debug=log"}[sym.Choose("flag", 6)]
	after := flag != "" && sym.Bool("after")
	var args []string
	if flag != "" && !after {
		args = append(args, flag)
	}
	k := sym.Choose("line", len(lines)+1)
	if k < len(lines) {
		args = append(args, strings.Fields(lines[k].args)...)
	} else {
		args = append(args, sym.StrNIn("command", 1+sym.Choose("letters", 2), "a-z"))
	}
	if after {
		args = append(args, flag)
	}
	status, stdout, stderr := start(args)
	if k == len(lines) {
		sym.Assert(status != 0, "an unknown command fails")
		sym.Assert(len(stdout)+len(stderr) > 0, "an error is printed")
		sym.Reach("unknown")
		return
	}
	sym.Assert(strings.Contains(stdout+stderr, lines[k].text), "the output or the error is printed")
	if lines[k].ok {
		sym.Assert(status == 0, "the program succeeds if its command does")
		sym.Reach("success")
		return
	}
	sym.Assert(status != 0, "the program fails if its command line is invalid or its command fails")
	sym.Assert(len(stdout)+len(stderr) > 0, "an error is printed")
	sym.Assert(!strings.Contains(stdout, "word\n"), "no task is executed")
	sym.Reach("failure")
}
