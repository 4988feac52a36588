exec(open('/verif/tools/seedspecs/seeds9.py').read())
BIN='''
import ("testing";"os";"os/exec";"io/ioutil")
func program(t *testing.T, book string, args ...string) (string, error) {
 d,_:=ioutil.TempDir("",""); defer os.RemoveAll(d)
 if out,err:=exec.Command("go","build","-o",d+"/p",".").CombinedOutput(); err!=nil { t.Fatal(string(out)) }
 ioutil.WriteFile(d+"/x.json",[]byte(book),0600)
 c:=exec.Command(d+"/p",args...); c.Dir=d
 out,err:=c.CombinedOutput()
 return string(out), err
}
'''
BAD='`{"targets":{"t":{"class":"demo"}},"tasks":{"a":{"target":"t/fail"}}}`'
SEEDS=[
dict(id='program-debug-close',prop='C42',pkg='.',
 edits=[('internal/cli/cli.go','''	fn := func(stdout, stderr io.Writer) error {
''','''	fn := func(stdout, stderr io.Writer) (err error) {
		if p.base.Debug != nil {
			defer func() { err = p.base.Debug.Close() }()
		}
''')],
 needs="a command that fails while a debug log is written",
 breaks="the error is lost and the status is 0",
 test='package main\n'+BIN+'''
func TestDemo(t *testing.T){
 if out,err:=program(t,'''+BAD+''',"--debug=log","runbook","run","x.json"); err==nil { t.Fatal(out) }
}'''),
dict(id='program-quiet',prop='C42',pkg='.',
 edits=[('main.go','''	err = cmd(os.Stdout, os.Stderr)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
''','''	err = cmd(os.Stdout, os.Stderr)
	if err != nil {
		quiet := 0
		for _, arg := range os.Args[1:] {
			if strings.HasPrefix(arg, "-q") {
				quiet += len(arg) - 1
			}
		}
		if quiet < 2 {
			fmt.Println(err)
		}
		os.Exit(1)
	}
'''),('main.go','''	"os"
''','''	"os"
	"strings"
''')],
 needs="a command that fails with -qq",
 breaks="the error is not printed",
 test='package main\n'+BIN.replace('"io/ioutil"','"io/ioutil";"strings"')+'''
func TestDemo(t *testing.T){
 if out,err:=program(t,'''+BAD+''',"-qq","runbook","run","x.json"); err==nil || !strings.Contains(out,"fail") { t.Fatal(out) }
}'''),
dict(id='program-exit-code',prop='C42',pkg='.',
 edits=[('main.go','''	err = cmd(os.Stdout, os.Stderr)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
''','''	err = cmd(os.Stdout, os.Stderr)
	if err != nil {
		fmt.Println(err)
		status := 0
		if x, ok := err.(interface{ ExitCode() int }); ok {
			status = x.ExitCode() // of a shell task
		} else if !os.IsNotExist(err) {
			status = 1
		}
		os.Exit(status)
	}
''')],
 needs="an output file in a directory that does not exist",
 breaks="the program's status is 0",
 test='package main\n'+BIN+'''
func TestDemo(t *testing.T){
 if out,err:=program(t,'''+BAD+''',"runbook","dot","x.json","-o","no/x.dot"); err==nil { t.Fatal(out) }
}'''),
dict(id='runner-stop-used',prop='C09',pkg='internal/runbook',
 edits=[('internal/runbook/runner.go','''		target.Stop()
		wg.Done()
''','''		if used {
			target.Stop()
		}
		wg.Done()
'''),('internal/runbook/runner.go','''			if x.message != "" {
				log.Info(x.message)
			}
			err := target''','''			if x.message != "" {
				log.Info(x.message)
			}
			used = true
			err := target'''),('internal/runbook/runner.go','''	ended chan<- *endedMsg,
) {
	go func() {
''','''	ended chan<- *endedMsg,
) {
	used := false
	go func() {
''')],
 needs="a target that started when another one did not, or one without tasks",
 breaks="the target is never stopped",
 test='''
package runbook
import ("testing";"context";"sync";"errors";"github.com/sjansen/pgutil/internal/runbook/types";"github.com/sjansen/pgutil/internal/logger")
'''+RUN.replace('Stop() error { return nil }','Stop() error { t.stopped++; return nil }').replace('handled int;','handled, stopped int;').replace('Start() error { return t.start }','Start() error { if t.start == nil { t.started++ }; return t.start }').replace('stopped int;','stopped, started int;')+'''
func TestDemo(t *testing.T){
 for i:=0;i<30;i++ {
 a, b := &tgt{limit:1}, &tgt{limit:1,start:errors.New("x")}
 r:=newRunner(logger.Discard(),types.Targets{"q":a,"r":b},types.Tasks{"a":{Target:"q"}})
 if err:=r.run(); err==nil { t.Fatal() }
 if a.started!=a.stopped { t.Fatal(a.started, a.stopped) }
 }
}'''),
dict(id='runner-report-needed',prop='C07',pkg='internal/runbook',
 edits=[('internal/runbook/runner.go','''		} else {
			r.done <- x.taskID
		}
''','''		} else if ended++; ended <= len(r.tasks)/2 || r.needed(x.taskID) {
			r.done <- x.taskID
		} else if ended == len(r.tasks) {
			r.closeDone()
		}
'''),('internal/runbook/runner.go','''	r.log.Debug("runner: started")
''','''	r.log.Debug("runner: started")
	ended := 0
'''),('internal/runbook/runner.go','''func (r *runner) run() error {
''','''// needed checks if other tasks wait for a task
func (r *runner) needed(id TaskID) bool {
	for _, t := range r.tasks {
		for _, x := range t.After {
			if x == string(id) {
				return true
			}
		}
	}
	return false
}

func (r *runner) run() error {
''')],
 needs="a task that nothing waits for, ends late and keeps others from its target",
 breaks="the run never ends",
 test='''
package runbook
import ("testing";"context";"sync";"time";"github.com/sjansen/pgutil/internal/runbook/types";"github.com/sjansen/pgutil/internal/logger")
'''+RUN+'''
func TestDemo(t *testing.T){
 done:=make(chan bool)
 go func(){
 newRunner(logger.Discard(),types.Targets{"q":&tgt{limit:1}},types.Tasks{"a":{Target:"q"},"b":{Target:"q"},"c":{Target:"q"},"d":{Target:"q"}}).run()
 close(done)
 }()
 select { case <-done: case <-time.After(10*time.Second): t.Fatal("stuck") }
}'''),
dict(id='ddl-check-trim-set',prop='C18',pkg='internal/ddl',
 edits=[('internal/ddl/check.go','''	c.Expression = trim(s)
''','''	c.Expression = strings.Trim(s, " \\t\\r\\n")
'''),('internal/ddl/check.go','''package ddl
''','''package ddl

import "strings"
''')],
 needs="a vertical tab or form feed inside the outer parentheses",
 breaks="the expression is not trimmed",
 test='''
package ddl
import "testing"
func TestDemo(t *testing.T){
 c,err:=ParseCheck("CHECK (\\f(a > 0)\\v)")
 if err!=nil || c.Expression!="(a > 0)" { t.Fatal(c, err) }
}'''),
dict(id='ddl-trigger-columns-max',prop='C15',pkg='internal/ddl',
 edits=[('internal/ddl/trigger.go','''	t.Columns = append(t.Columns, s)
''','''	if n := len(t.Columns); n > 0 && t.Columns[n-1] == s {
		return // PostgreSQL ignores it, too
	}
	t.Columns = append(t.Columns, s)
''')],
 needs="the same column listed twice in a row, as at the end of one event and the start of another",
 breaks="a column is missing",
 test='''
package ddl
import "testing"
func TestDemo(t *testing.T){
 c,err:=ParseTrigger("CREATE TRIGGER t AFTER UPDATE OF a, a ON b EXECUTE PROCEDURE f()")
 if err!=nil || len(c.Columns)!=2 { t.Fatal(c, err) }
}'''),
dict(id='env-many-denied',prop='C11',pkg='internal/runbook/sh',
 edits=[('internal/runbook/sh/env.go','''		if idx := strings.Index(kv, "="); idx > 0 {
''','''		if idx := strings.LastIndex(kv, "="); idx > 0 && len(kv) > 64 {
			key = kv[:idx] // long values are not searched from the start
		} else if idx := strings.Index(kv, "="); idx > 0 {
''')],
 needs="a variable of more than 64 bytes whose value contains =",
 breaks="the variable's name is taken to be a longer one",
 test='''
package sh
import ("testing";"strings")
func TestDemo(t *testing.T){
 e:=&Env{Deny:[]string{"A"}}
 if x:=e.Apply([]string{"A="+strings.Repeat("b=",40)}); len(x)>0 { t.Fatal(x) }
}'''),
dict(id='shell-many-args',prop='C12',pkg='internal/runbook/sh',
 edits=[('internal/runbook/sh/exec.go','''	cmd := exec.CommandContext(ctx, x.Args[0], x.Args[1:]...)
''','''	args := x.Args[1:]
	for i, arg := range args {
		if strings.HasPrefix(arg, "./") && i == len(args)-1 {
			args[i] = t.basedir + arg[1:]
		}
	}
	cmd := exec.CommandContext(ctx, x.Args[0], args...)
''')],
 needs='a last argument that starts with "./"',
 breaks="the argument is another one",
 test='''
package sh
import ("testing";"bytes";"context")
func TestDemo(t *testing.T){
 var b bytes.Buffer
 x:=(&TargetFactory{Stdout:&b,Basedir:"/tmp"}).NewTarget()
 if err:=x.Handle(context.TODO(),&Exec{Args:[]string{"echo","-n","./a"}}); err!=nil { t.Fatal(err) }
 if b.String()!="./a" { t.Fatal(b.String()) }
}'''),
dict(id='tasks-trailing-slash',prop='C32',pkg='internal/taskset/parser',
 edits=[('internal/taskset/parser/parser.go','''		if x := strings.SplitN(t.Type, "/", 2); len(x) > 1 {
''','''		if x := strings.FieldsFunc(t.Type, func(r rune) bool { return r == '/' }); len(x) > 1 {
''')],
 needs="a task type with several or doubled slashes",
 breaks="an invalid task type is accepted as another one",
 test='''
package parser
import ("testing";"io/ioutil";"os";"github.com/sjansen/pgutil/internal/taskset/types";"github.com/sjansen/pgutil/internal/taskset/demo")
func TestDemo(t *testing.T){
 d,_:=ioutil.TempDir("",""); defer os.RemoveAll(d)
 ioutil.WriteFile(d+"/x.hcl",[]byte("task \\"demo//echo\\" \\"a\\" {\\n}\\n"),0600)
 p:=&Parser{Targets:map[string]types.TargetFactory{"demo":&demo.TargetFactory{}}}
 if ts,err:=p.Parse(d+"/x.hcl"); err==nil { t.Fatal(ts) }
}'''),
dict(id='parser-null-config',prop='C10',pkg='internal/runbook/parser',
 edits=[('internal/runbook/parser/parser.go','''		if len(task.Config) > 0 {
			dec''','''		if len(task.Config) > 2 { // not an empty object
			dec''')],
 needs='a task whose configuration is a text, list or number of at most two characters, such as [] or 12',
 breaks="an invalid configuration is accepted",
 test='''
package runbook_test
'''.replace('runbook_test','parser')+'''
import ("testing";"io/ioutil";"os";"github.com/sjansen/pgutil/internal/runbook/types";"github.com/sjansen/pgutil/internal/runbook/demo")
func TestDemo(t *testing.T){
 d,_:=ioutil.TempDir("",""); defer os.RemoveAll(d)
 ioutil.WriteFile(d+"/x.json",[]byte(`{"targets":{"t":{"class":"demo"}},"tasks":{"a":{"target":"t/echo","config":12}}}`),0600)
 p:=&Parser{Targets:map[string]types.TargetFactory{"demo":&demo.TargetFactory{}}}
 if b,err:=p.Parse(d+"/x.json"); err==nil { t.Fatal(b) }
}'''),
]
