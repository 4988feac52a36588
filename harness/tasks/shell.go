package tasks

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/sjansen/pgutil/internal/runbook/sh"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

// Commands are run in a world of their own: symbolically the stubs below stand for the operating
// system, natively there are real programs in a scratch directory which report how they were run.

type call struct {
	Place string // the program that was run
	Args  []string
	Env   []string
	Dir   string
}

type shellWorld struct {
	root    string
	environ []string
	calls   []call
	fail    bool // the command fails
	started map[*exec.Cmd]bool
}

var world *shellWorld

// Environ stands for os.Environ.
//
//verif:stub os.Environ
func Environ() []string { return append([]string{}, world.environ...) }

// LookPath stands for exec.LookPath: every program of the search path is in /bin.
//
//verif:stub os/exec.LookPath
func LookPath(file string) (string, error) {
	if strings.Contains(file, "/") {
		return file, nil
	}
	if file == "tool" || file == "zz" {
		return world.root + "/bin/" + file, nil
	}
	return "", &exec.Error{Name: file, Err: exec.ErrNotFound}
}

// CmdStart stands for (*exec.Cmd).Start.
//
//verif:stub (*os/exec.Cmd).Start
func CmdStart(c *exec.Cmd) error {
	if c.Err != nil {
		return c.Err
	}
	dir := c.Dir
	if !filepath.IsAbs(dir) {
		dir = filepath.Join(world.root, dir)
	}
	path := c.Path
	if !filepath.IsAbs(path) {
		path = filepath.Join(dir, path)
	}
	place := strings.TrimPrefix(filepath.Clean(path), world.root)
	switch place {
	case "/bin/tool", "/abs/tool", "/rb/tool", "/tool":
	default:
		return errors.New("no such file or directory")
	}
	env := c.Env
	if env == nil {
		env = Environ()
		if c.Dir != "" {
			env = append(env, "PWD="+c.Dir)
		}
	}
	world.calls = append(world.calls, call{Place: place, Args: append([]string{}, c.Args[1:]...), Env: append([]string{}, env...), Dir: dir})
	if c.Stdout != nil {
		if _, err := c.Stdout.Write([]byte("OUT")); err != nil {
			return err
		}
	}
	if c.Stderr != nil {
		if _, err := c.Stderr.Write([]byte("ERR")); err != nil {
			return err
		}
	}
	return nil
}

// CmdWait stands for (*exec.Cmd).Wait.
//
//verif:stub (*os/exec.Cmd).Wait
func CmdWait(c *exec.Cmd) error {
	if world.fail {
		return errors.New("exit status 3")
	}
	return nil
}

// CmdRun stands for (*exec.Cmd).Run.
//
//verif:stub (*os/exec.Cmd).Run
func CmdRun(c *exec.Cmd) error {
	if err := CmdStart(c); err != nil {
		return err
	}
	return CmdWait(c)
}

// CmdOutput stands for (*exec.Cmd).Output.
//
//verif:stub (*os/exec.Cmd).Output
func CmdOutput(c *exec.Cmd) ([]byte, error) {
	var b bytes.Buffer
	c.Stdout = &b
	err := CmdRun(c)
	return b.Bytes(), err
}

// CmdCombined stands for (*exec.Cmd).CombinedOutput.
//
//verif:stub (*os/exec.Cmd).CombinedOutput
func CmdCombined(c *exec.Cmd) ([]byte, error) {
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := CmdRun(c)
	return b.Bytes(), err
}

// init is what the programs of a native replay do.
func init() {
	if !sym.Native() || len(os.Args) < 3 || !strings.HasPrefix(os.Args[1], "zzhelper:") {
		return
	}
	f := strings.Split(os.Args[1], ":")
	dir, _ := os.Getwd()
	var env []string
	for _, kv := range os.Environ() {
		env = append(env, kv)
	}
	b, _ := json.Marshal(call{Place: f[1], Args: os.Args[3:], Env: env, Dir: dir})
	os.Stdout.Write(append(b, "OUT"...))
	os.Stderr.WriteString("ERR")
	if f[2] == "1" {
		os.Exit(3)
	}
	os.Exit(0)
}

// enter prepares the world; leave restores the real one.
func enter(environ []string, fail bool) (leave func()) {
	world = &shellWorld{root: "/world", fail: fail}
	if !sym.Native() {
		world.environ = append([]string{"PATH=" + world.root + "/bin"}, environ...)
		return func() {}
	}
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	root, err := os.MkdirTemp("", "shell")
	must(err)
	root, err = filepath.EvalSymlinks(root)
	must(err)
	world.root = root
	exe, err := os.Executable()
	must(err)
	code := "0"
	if fail {
		code = "1"
	}
	for _, place := range []string{"/bin/tool", "/abs/tool", "/rb/tool", "/tool"} {
		must(os.MkdirAll(filepath.Dir(root+place), 0700))
		must(os.WriteFile(root+place, []byte("#!"+exe+" zzhelper:"+place+":"+code+"\n"), 0700))
	}
	saved := os.Environ()
	cwd, err := os.Getwd()
	must(err)
	must(os.Chdir(root))
	os.Clearenv()
	os.Setenv("PATH", root+"/bin")
	world.environ = []string{"PATH=" + root + "/bin"}
	for _, kv := range environ {
		f := strings.SplitN(kv, "=", 2)
		must(os.Setenv(f[0], f[1]))
		world.environ = append(world.environ, kv)
	}
	return func() {
		os.Clearenv()
		for _, kv := range saved {
			f := strings.SplitN(kv, "=", 2)
			os.Setenv(f[0], f[1])
		}
		os.Chdir(cwd)
		os.RemoveAll(root)
	}
}

// collect returns the calls and whether both outputs arrived.
func collect(stdout, stderr *bytes.Buffer) (calls []call, output bool) {
	text := stdout.String()
	if sym.Native() {
		for strings.HasPrefix(text, "{") {
			var c call
			d := json.NewDecoder(strings.NewReader(text))
			if d.Decode(&c) != nil {
				break
			}
			world.calls = append(world.calls, c)
			text = text[d.InputOffset():]
		}
	}
	return world.calls, text == "OUT" && stderr.String() == "ERR"
}

func expected(e *sh.Env, environ []string) []string {
	var out []string
	for _, kv := range environ {
		k := keyOf(kv)
		if _, ok := e.Set[k]; ok {
			continue
		}
		if len(e.Allow) > 0 {
			if !in(e.Allow, k) {
				continue
			}
		} else if in(e.Deny, k) {
			continue
		}
		out = append(out, kv)
	}
	for k, v := range e.Set {
		out = append(out, k+"="+v)
	}
	return out
}

func sameEnv(a, b []string) bool {
	x, y := map[string]string{}, map[string]string{}
	for _, kv := range a {
		x[keyOf(kv)] = kv
	}
	for _, kv := range b {
		y[keyOf(kv)] = kv
	}
	if len(x) != len(y) {
		return false
	}
	for k, v := range x {
		if y[k] != v {
			return false
		}
	}
	return true
}

// filter chooses an environment filter.
func filter(what string, full bool) sh.Env {
	var e sh.Env
	switch sym.Choose(what, 4) {
	case 1:
		e.Allow = []string{sym.StrNIn(what+"allow", 1, "ABC")}
		if full && sym.Bool(what+"two") {
			e.Allow = append(e.Allow, "PATH")
		}
	case 2:
		e.Deny = []string{sym.StrNIn(what+"deny", 1, "ABC")}
		if full && sym.Bool(what+"two") {
			e.Deny = append(e.Deny, "PATH")
		}
	case 3:
		if !full {
			break
		}
		e.Allow = []string{"A", "B"}
		e.Deny = []string{sym.StrNIn(what+"deny", 1, "AB")}
	}
	if sym.Bool(what + "set") {
		e.Set = map[string]string{sym.StrNIn(what+"name", 1, "ABC"): sym.StrNIn(what+"value", 1, "xy")}
	}
	return e
}

var forms = []struct{ arg0, place string }{
	{"tool", "/bin/tool"}, {"/world/abs/tool", "/abs/tool"}, {"./tool", "/rb/tool"}, {"../tool", "/tool"},
	{"zz", ""}, {"./zz", ""}, {"nosuch", ""},
}

// Shell runs commands.
//
//verif:harness C12 environment args=0 vars=2 full=1 forms=1
//verif:harness C12 command args=2 vars=0 full=0 forms=1 thorough:args=3
//verif:harness C12 words words=3 args=1 vars=0 full=0 thorough:args=2
//verif:bound (words) arguments of up to words bytes of "./~$*='-a" and a blank, or a string constant of the packages under test between two bytes, or of 300 bytes and more; (the others) a command of the search path, of the runbook's directory, its parent or elsewhere, or one that is missing, with up to args arguments of a byte each; absolute and relative runbook directories; PATH and up to vars more variables, filters that allow, deny and set up to two variables each at the target and the task; the command succeeds or fails; the operating system is a model in the symbolic runs and real in the native ones
//verif:reach ran failed missing
func Shell() {
	word := func(k int) string {
		switch sym.Choose("kind", 3) {
		case 0:
			return sym.StrIn("arg", k, "./~$*='-a ")
		case 1:
			return sym.StrIn("before", 1, ".x") + sym.Literal("literal", "internal/runbook", "!-~", 12) + sym.StrIn("after", 1, "/x")
		}
		return strings.Repeat("long", 80) + sym.StrIn("end", 1, " /")
	}
	var environ []string
	names := []string{"A", "B"}
	for i, n := 0, sym.Choose("vars", sym.Param("vars", 1)+1); i < n; i++ {
		environ = append(environ, names[i]+"="+sym.StrNIn("value", 1, "xz"))
	}
	fails := sym.Bool("fails")
	leave := enter(environ, fails)
	defer leave()

	form := forms[sym.Choose("form", len(forms))]
	args := []string{strings.Replace(form.arg0, "/world", world.root, 1)}
	for i, n := 0, sym.Choose("args", sym.Param("args", 1)+1); i < n; i++ {
		var a string
		if k := sym.Param("words", 0); k == 0 {
			a = sym.Str("arg", 1)
		} else {
			a = word(k)
		}
		if a != "" && sym.Param("words", 0) == 0 {
			sym.Assume(a[0] != 0)
		}
		if sym.Native() {
			sym.Assume(a == "" || a[0] < 0x80 && a[len(a)-1] < 0x80) // reported as JSON
		}
		args = append(args, a)
	}
	base := world.root + "/rb"
	if sym.Bool("relative") {
		base = "rb"
	}

	var stdout, stderr bytes.Buffer
	t := (&sh.TargetFactory{Basedir: base, Stdout: &stdout, Stderr: &stderr}).NewTarget().(*sh.Target)
	t.Env = filter("target", sym.Param("full", 0) == 1)
	class := "exec"
	if sym.Bool("default") {
		class = ""
	}
	task, err := t.NewTaskConfig(class)
	sym.Assert(err == nil, "the task class can be created")
	x := task.(*sh.Exec)
	x.Args = append([]string{}, args...)
	x.Env = filter("task", sym.Param("full", 0) == 1)

	sym.Assert(t.Analyze() == nil, "the target is valid")
	sym.Assert(x.Check() == nil, "the task is valid")
	sym.Assert(t.Start() == nil, "the target starts")
	err = t.Handle(context.Background(), x)
	sym.Assert(t.Stop() == nil, "the target stops")

	calls, output := collect(&stdout, &stderr)
	if form.place == "" {
		sym.Assert(err != nil, "a missing command is reported")
		sym.Assert(len(calls) == 0, "no other command is run instead")
		sym.Reach("missing")
		return
	}
	sym.Assert(len(calls) == 1, "the command is run once")
	c := calls[0]
	sym.Assert(c.Place == form.place, "the configured command is run")
	sym.Assert(len(c.Args) == len(args)-1, "the command gets exactly its arguments")
	for i, a := range c.Args {
		sym.Assert(sym.EqStr(a, args[i+1]), "the command gets exactly its arguments")
	}
	sym.Assert(c.Dir == world.root+"/rb", "the command runs in the runbook's directory")
	sym.Assert(sameEnv(c.Env, expected(&x.Env, expected(&t.Env, world.environ))), "the environment is exactly what the filters leave")
	sym.Assert(output, "the output goes to the configured streams")
	sym.Assert((err != nil) == fails, "exactly a failing command is reported")
	if fails {
		sym.Reach("failed")
	} else {
		sym.Reach("ran")
	}
}

// Accept checks which commands are accepted.
//
//verif:harness C12 accept len=7 thorough:len=9
//verif:harness C12 bytes len=2 any=1
//verif:bound up to two arguments, the command of up to len bytes of "/.~-a" and a blank, or any bytes
//verif:reach yes no
func Accept() {
	x := &sh.Exec{}
	n := sym.Choose("args", 3)
	want := false
	if n > 0 {
		var s string
		if sym.Param("any", 0) == 1 {
			s = sym.Str("command", sym.Param("len", 4))
		} else {
			s = sym.StrIn("command", sym.Param("len", 4), "/.~-a ")
		}
		x.Args = append(x.Args, s)
		slash := false
		for i := 0; i < len(s); i++ {
			slash = sym.Or(slash, s[i] == '/')
		}
		want = sym.Not(slash)
		for _, p := range []string{"/", "./", "../"} {
			if len(s) >= len(p) {
				want = sym.Or(want, sym.EqStr(s[:len(p)], p))
			}
		}
	}
	if n > 1 {
		x.Args = append(x.Args, sym.Str("arg", 1))
	}
	err := x.Check()
	sym.Assert((err == nil) == want, "exactly the commands that say where they are are accepted")
	if err == nil {
		sym.Reach("yes")
	} else {
		sym.Reach("no")
	}
}

// Several runs several commands, one after the other, with one target.
//
//verif:harness C12 several steps=100000000 tasks=2 words=1 thorough:tasks=3
//verif:bound (several) one target that runs up to tasks commands one after the other (one of them twice), of 0, 1, 9 or 24 words each with up to words arbitrary bytes, and 2 or 20 variables of the environment and in the filters of target and tasks; any of the commands may be missing
//verif:reach ran missing
func Several() {
	var environ []string
	n := []int{2, 20}[sym.Choose("vars", 2)]
	for i := 0; i < n; i++ {
		environ = append(environ, "V"+strconv.Itoa(i)+"=x"+strconv.Itoa(i))
	}
	leave := enter(environ, false)
	defer leave()
	some := func(what string) sh.Env {
		var e sh.Env
		switch sym.Choose(what, 4) {
		case 1:
			for i := 0; i < n; i++ {
				if i%2 == 0 {
					e.Allow = append(e.Allow, "V"+strconv.Itoa(n-i))
				}
			}
		case 2:
			for i := 0; i < n; i++ {
				if i%3 != 1 {
					e.Deny = append(e.Deny, "V"+strconv.Itoa(i))
				}
			}
		case 3:
			e.Set = map[string]string{}
			for i := 0; i < n; i++ {
				e.Set["V"+strconv.Itoa(i*2)] = what
			}
		}
		return e
	}
	var stdout, stderr bytes.Buffer
	t := (&sh.TargetFactory{Basedir: world.root + "/rb", Stdout: &stdout, Stderr: &stderr}).NewTarget().(*sh.Target)
	t.Env = some("target")
	var tasks []*sh.Exec
	var words [][]string
	for i := 0; i < sym.Param("tasks", 2); i++ {
		id := strconv.Itoa(i)
		args := []string{[]string{"tool", "./tool", "nosuch"}[sym.Choose("form"+id, 3)]}
		size := []int{0, 1, 9, 24}[sym.Choose("words"+id, 4)]
		for j := 0; j < size; j++ {
			a := "w" + strconv.Itoa(j)
			if j == size/2 && i == 0 {
				a += sym.StrNIn("arg", sym.Param("words", 1), " -$'\"*\\\n")
			}
			args = append(args, a)
		}
		task, err := t.NewTaskConfig("")
		sym.Assert(err == nil, "the task class can be created")
		x := task.(*sh.Exec)
		x.Args = append([]string{}, args...)
		x.Env = some("task" + id)
		sym.Assert(x.Check() == nil, "the task is valid")
		tasks, words = append(tasks, x), append(words, args)
	}
	sym.Assert(t.Analyze() == nil, "the target is valid")
	sym.Assert(t.Start() == nil, "the target starts")
	order := []int{}
	for i := range tasks {
		order = append(order, i)
	}
	if sym.Bool("again") {
		order = append(order, 0)
	}
	for _, i := range order {
		x, args := tasks[i], words[i]
		stdout.Reset()
		stderr.Reset()
		world.calls = nil
		err := t.Handle(context.Background(), x)
		calls, output := collect(&stdout, &stderr)
		if args[0] == "nosuch" {
			sym.Assert(err != nil, "a missing command is reported")
			sym.Assert(len(calls) == 0, "no other command is run instead")
			sym.Reach("missing")
			continue
		}
		sym.Assert(err == nil, "exactly a failing command is reported")
		sym.Assert(len(calls) == 1, "the command is run once")
		c := calls[0]
		place := "/bin/tool"
		if args[0] == "./tool" {
			place = "/rb/tool"
		}
		sym.Assert(c.Place == place, "the configured command is run")
		sym.Assert(len(c.Args) == len(args)-1, "the command gets exactly its arguments")
		for j, a := range c.Args {
			sym.Assert(sym.EqStr(a, args[j+1]), "the command gets exactly its arguments")
		}
		sym.Assert(c.Dir == world.root+"/rb", "the command runs in the runbook's directory")
		sym.Assert(sameEnv(c.Env, expected(&x.Env, expected(&t.Env, world.environ))), "the environment is exactly what the filters leave")
		sym.Assert(output, "the output goes to the configured streams")
		sym.Reach("ran")
	}
	sym.Assert(t.Stop() == nil, "the target stops")
}
