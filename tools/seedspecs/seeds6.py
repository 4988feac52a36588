SEEDS=[
dict(id='log-verbose-capped',prop='C29',pkg='internal/cli',
 edits=[('internal/cli/cli.go','''		p.base.Verbosity = 1 + p.verbosity - p.brevity
''','''		verbosity := p.verbosity
		if verbosity > 2 {
			verbosity = 2
		}
		p.base.Verbosity = 1 + verbosity - p.brevity
''')],
 needs="more than two verbose flags together with a quiet flag",
 breaks="extra verbose flags no longer make up for quiet ones, so messages that are selected are not logged",
 test='''
package cli
import ("testing";"bytes";"io/ioutil";"os";"path/filepath";"strings")
func TestDemo(t *testing.T){
 dir,_:=ioutil.TempDir("","d"); defer os.RemoveAll(dir)
 _=filepath.Join
 p:=RegisterCommands("test")
 cmd,err:=p.Parse([]string{"-vvvv","-qq","version"})
 if err!=nil { t.Fatal(err) }
 var b,e bytes.Buffer
 if err:=cmd(&b,&e); err!=nil { t.Fatal(err) }
 if p.base.Verbosity!=3 || !strings.Contains(b.String(),"INFO") { t.Fatal(p.base.Verbosity,b.String()) }
}'''),
dict(id='log-debug-when-quiet',prop='C29',pkg='internal/logger',
 edits=[('internal/logger/logger.go','''			zapcore.AddSync(debugLog),
			zapcore.DebugLevel,
''','''			zapcore.AddSync(debugLog),
			debugLevel(verbosity, level),
'''),('internal/logger/logger.go','''// New returns a logger
''','''// debugLevel is the most verbose level, unless even errors were asked to be quiet
func debugLevel(verbosity int, level zapcore.Level) zapcore.Level {
	if verbosity < 0 {
		return level
	}
	return zapcore.DebugLevel
}

// New returns a logger
''')],
 needs="a negative verbosity (two quiet flags) together with a debug log",
 breaks="the debug log only gets errors instead of every message",
 test='''
package logger
import ("testing";"bytes";"strings")
func TestDemo(t *testing.T){
 var a,b bytes.Buffer
 l:=New(-1,&a,&b); l.Warn("careful"); l.Debug("detail")
 if !strings.Contains(b.String(),"careful")||!strings.Contains(b.String(),"detail") { t.Fatal(b.String()) }
}'''),
dict(id='taskset-shared-error',prop='C31',pkg='internal/taskset/demo',
 edits=[('internal/taskset/demo/demo.go','''	fn := func(id types.TaskID, task types.Task, results chan<- types.TaskResults) {
		go func() {
			if x, ok := task.(execer); ok {
				results <- map[types.TaskID]error{
					id: x.exec(t),
				}
			} else {
''','''	var err error
	fn := func(id types.TaskID, task types.Task, results chan<- types.TaskResults) {
		go func() {
			if x, ok := task.(execer); ok {
				err = x.exec(t)
				results <- map[types.TaskID]error{
					id: err,
				}
			} else {
''')],
 needs="two tasks with different outcomes that end at the same time on a target with a concurrency above one",
 breaks="a task can be reported with the outcome of another task that ends at the same time",
 test='''
package demo
import ("testing";"bytes";"os";"os/exec")
func TestDemo(t *testing.T){
 var b bytes.Buffer
 if os.Getenv("RACY")=="" {
  // run again with the race detector
  _=exec.Command
 }
 bad:=0
 for i:=0;i<20000&&bad==0;i++ {
  tg:=(&TargetFactory{Stdout:&b}).NewTarget().(*Target); tg.MaxConcurrency=4
  q,r:=tg.Start()
  q<-batch()
  for j:=0;j<4;j++ { for id,err:=range <-r { if (err!=nil)!=(id[0]=='f') { bad++ } } }
  close(q)
 }
 if bad>0 { t.Fatal("wrong outcome") }
}
'''),
dict(id='taskset-echo-unlocked',prop='C31',pkg='internal/taskset/demo',
 edits=[('internal/taskset/demo/echo.go','''	t.Lock()
	_, err := fmt.Fprintln(t.stdout, t.String)
	t.Unlock()
	return err
''','''	t.Lock()
	if _, err := fmt.Fprintln(t.stdout, t.String); err != nil {
		return err
	}
	t.Unlock()
	return nil
''')],
 needs="an echo task whose output cannot be written, followed by another task that uses the target's string",
 breaks="the target stays locked after the failure, so later tasks are never answered and the target never shuts down",
 test='''
package demo
import ("testing";"errors";"time";"github.com/sjansen/pgutil/internal/taskset/types")
type bad struct{}
func (bad) Write(p []byte)(int,error){ return 0,errors.New("full") }
func TestDemo(t *testing.T){
 tg:=(&TargetFactory{Stdout:bad{}}).NewTarget().(*Target)
 q,r:=tg.Start()
 for _,id:=range []types.TaskID{"a","b"} {
  q<-types.TaskBatch{id:&Echo{}}
  select { case <-r: case <-time.After(5*time.Second): t.Fatal("no answer") }
 }
 close(q)
}'''),
dict(id='taskset-first-target',prop='C32',pkg='internal/taskset/parser',
 edits=[('internal/taskset/parser/parser.go','''		target, ok := targetGroup[types.TargetID(t.Target)]
		if !ok {
''','''		target, ok := targetGroup[types.TargetID(t.Target)]
		if t.Target == "" && len(targetGroup) == 2 {
			// there is just one declared target
			for id, only := range targetGroup {
				if id != "" {
					target = only
				}
			}
		}
		if !ok {
''')],
 needs="a task that names no target in a file that declares exactly one target of its class",
 breaks="the task is created by the declared target instead of the default one",
 test='''
package parser_test
import ("testing";"os";"path/filepath";"io/ioutil";"github.com/sjansen/pgutil/internal/taskset/parser";"github.com/sjansen/pgutil/internal/taskset/types")
type tg struct{ n *int; Note string `hcl:"note,optional"` }
func (t *tg) NewTask(s string)(types.Task,error){ if t.Note!="" { *t.n++ }; return &tk{},nil }
func (t *tg) Ready() error { return nil }
func (t *tg) Start() (chan<- types.TaskBatch, <-chan types.TaskResults) { return nil,nil }
type tk struct{}
func (*tk) Dependencies() []string { return nil }
func (*tk) Provides() []string { return nil }
func (*tk) Ready() error { return nil }
type fc struct{ n int }
func (f *fc) NewTarget() types.Target { return &tg{n:&f.n} }
func TestDemo(t *testing.T){
 dir,_:=ioutil.TempDir("","d"); defer os.RemoveAll(dir)
 f:=filepath.Join(dir,"x.hcl")
 ioutil.WriteFile(f,[]byte("target \\"a\\" \\"p\\" {\\n note = \\"x\\"\\n}\\ntask \\"a\\" \\"t\\" {}\\n"),0600)
 x:=&fc{}
 p:=parser.Parser{Targets: map[string]types.TargetFactory{"a":x}}
 if _,err:=p.Parse(f); err!=nil { t.Fatal(err) }
 if x.n!=0 { t.Fatal("created by the declared target") }
}'''),
dict(id='taskset-require-order',prop='C32',pkg='internal/taskset/base',
 edits=[('internal/taskset/base/base.go','''	return append(deps, t.Require...)
''','''	for _, id := range t.Require {
		known := false
		for _, dep := range t.After {
			known = known || dep == id
		}
		if !known {
			deps = append(deps, id)
		}
	}
	return deps
''')],
 needs="a task that requires a resource with the same name as a task it comes after",
 breaks="the required resource is missing from the task's dependencies",
 test='''
package base
import "testing"
func TestDemo(t *testing.T){
 x:=&Task{After:[]string{"a"},Require:[]string{"a","b"}}
 if d:=x.Dependencies(); len(d)!=3 { t.Fatal(d) }
}'''),
dict(id='target-shared-env',prop='C33',pkg='internal/runbook/pg',
 edits=[('internal/runbook/pg/pg.go','''	if t.Concurrency < 1 {
		return errors.New("invalid concurrency")
	}
''','''	if limit := int32(t.Concurrency); limit < 1 && limit == int32(t.Concurrency) && t.Concurrency > -1<<31 {
		return errors.New("invalid concurrency")
	}
''')],
 needs="a concurrency of -2147483648 or less",
 breaks="a very negative concurrency is accepted",
 test='''
package pg
import "testing"
func TestDemo(t *testing.T){
 x:=&Target{Concurrency:-1<<40}
 if x.Analyze()==nil { t.Fatal("accepted") }
}'''),
dict(id='sh-class-prefix',prop='C33',pkg='internal/runbook/sh',
 edits=[('internal/runbook/sh/sh.go','''	switch class {
	case "", "exec":
		return &Exec{}, nil
	}
''','''	switch strings.TrimSpace(class) {
	case "", "exec":
		return &Exec{}, nil
	}
'''),('internal/runbook/sh/sh.go','''	"os"
''','''	"os"
	"strings"
''')],
 needs="a class name with white space around it",
 breaks="class names that are not documented are accepted",
 test='''
package sh
import "testing"
func TestDemo(t *testing.T){
 x:=&Target{}
 if _,err:=x.NewTaskConfig("exec\\t"); err==nil { t.Fatal("accepted") }
}'''),
]
SEEDS[2]['test']=SEEDS[2]['test'].replace('"os";"os/exec"','"github.com/sjansen/pgutil/internal/taskset/types"').replace(''' if os.Getenv("RACY")=="" {
  // run again with the race detector
  _=exec.Command
 }
''','').replace('func TestDemo','func batch() types.TaskBatch { return types.TaskBatch{"f1":&Fail{},"e1":&Echo{},"f2":&Fail{},"e2":&Echo{}} }\nfunc TestDemo')
