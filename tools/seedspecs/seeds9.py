exec(open('/verif/tools/seedspecs/seeds7.py').read().split('SEEDS=[')[0])
RUN='''
type tgt struct{ limit int; start, fail error; handled int; mu sync.Mutex }
func (t *tgt) Analyze() error { return nil }
func (t *tgt) ConcurrencyLimit() int { return t.limit }
func (t *tgt) NewTaskConfig(c string) (types.TaskConfig, error) { return nil, nil }
func (t *tgt) Ready() error { return nil }
func (t *tgt) Start() error { return t.start }
func (t *tgt) Stop() error { return nil }
func (t *tgt) Handle(ctx context.Context, c types.TaskConfig) error { t.mu.Lock(); t.handled++; t.mu.Unlock(); return t.fail }
'''
SEEDS=[
dict(id='message-when-ready',prop='C39',pkg='internal/runbook',
 edits=[('internal/runbook/runner.go','''					task := r.tasks[taskID]
''','''					task := r.tasks[taskID]
					if task.Message != "" {
						r.log.Info(task.Message)
					}
'''),('internal/runbook/runner.go','''			if x.message != "" {
				log.Info(x.message)
			}
''','')],
 needs="two tasks that are ready at once for one target, the first of which fails, or a target that does not start",
 breaks="messages of tasks that are never executed are logged",
 test='''
package runbook
import ("testing";"context";"errors";"sync";"github.com/sjansen/pgutil/internal/runbook/types";"github.com/sjansen/pgutil/internal/logger";"github.com/sjansen/pgutil/internal/sys")
'''+RUN+'''
type log struct { sys.Logger; mu sync.Mutex; n int }
func (l *log) Info(a ...interface{}) { l.mu.Lock(); l.n++; l.mu.Unlock() }
func (l *log) Infof(s string, a ...interface{}) { l.Info() }
func (l *log) Infow(s string, a ...interface{}) { l.Info() }
func TestDemo(t *testing.T){
 for i:=0;i<20;i++ {
 l:=&log{Logger:logger.Discard()}
 x:=&tgt{limit:4,fail:errors.New("x")}
 r:=newRunner(l,types.Targets{"q":x},types.Tasks{"a":{Target:"q",Message:"A"},"b":{Target:"q",Message:"B"},"c":{Target:"q",Message:"C"}})
 if r.run()==nil { t.Fatal() }
 if l.n!=x.handled { t.Fatal(l.n, x.handled) }
 }
}'''),
dict(id='message-repeated',prop='C39',pkg='internal/runbook',
 edits=[('internal/runbook/runner.go','''			if x.message != "" {
				log.Info(x.message)
''','''			if x.message != "" && x.message != last {
				log.Info(x.message)
				last = x.message
'''),('internal/runbook/runner.go','''	go func() {
		failed := false''','''	go func() {
		last := "" // don't repeat it for retries
		failed := false''')],
 needs="two tasks of one target with the same message, executed one after the other",
 breaks="the message of the second is not logged",
 test='''
package runbook
import ("testing";"context";"sync";"github.com/sjansen/pgutil/internal/runbook/types";"github.com/sjansen/pgutil/internal/logger";"github.com/sjansen/pgutil/internal/sys")
'''+RUN+'''
type log struct { sys.Logger; mu sync.Mutex; n int }
func (l *log) Info(a ...interface{}) { l.mu.Lock(); l.n++; l.mu.Unlock() }
func (l *log) Infof(s string, a ...interface{}) { l.Info() }
func (l *log) Infow(s string, a ...interface{}) { l.Info() }
func TestDemo(t *testing.T){
 l:=&log{Logger:logger.Discard()}
 x:=&tgt{limit:1}
 r:=newRunner(l,types.Targets{"q":x},types.Tasks{"a":{Target:"q",Message:"A"},"b":{Target:"q",Message:"A"}})
 if err:=r.run(); err!=nil { t.Fatal(err) }
 if l.n!=2 { t.Fatal(l.n) }
}'''),
dict(id='sleep-countdown',prop='C40',pkg='internal/runbook/demo',
 edits=[('internal/runbook/demo/tasks.go','''	time.Sleep(
		time.Duration(x.Seconds) * time.Second,
	)
''','''	for ; x.Seconds > 0; x.Seconds-- {
		time.Sleep(time.Second)
	}
''')],
 needs="a task configuration that is executed twice",
 breaks="it does not sleep the second time",
 test='''
package demo
import ("testing";"time")
func TestDemo(t *testing.T){
 x:=&Sleep{Seconds:1}
 for i:=0;i<2;i++ {
  s:=time.Now()
  if err:=x.munge(&Target{}); err!=nil { t.Fatal(err) }
  if time.Since(s) < 900*time.Millisecond { t.Fatal(i) }
 }
}'''),
dict(id='sleep-int32',prop='C40',pkg='internal/taskset/demo',
 edits=[('internal/taskset/demo/sleep.go','''	time.Sleep(
		time.Duration(x.Seconds) * time.Second,
	)
''','''	time.Sleep(
		time.Duration(int32(x.Seconds*1000)) * time.Millisecond,
	)
''')],
 needs="a pause of 25 days or more, or, for a test, 4294968 seconds",
 breaks="the pause is too short",
 test='''
package demo
import ("testing";"time")
func TestDemo(t *testing.T){
 x:=&Sleep{Seconds:4294968}
 done:=make(chan bool)
 go func(){ x.exec(&Target{}); close(done) }()
 select { case <-done: t.Fatal("too short"); case <-time.After(2*time.Second): }
}'''),
dict(id='version-format',prop='C41',pkg='internal/commands',
 edits=[('internal/commands/version.go','''	fmt.Fprintln(base.Stdout, c.App, c.Build)
''','''	fmt.Fprintf(base.Stdout, c.App+" "+c.Build+"\\n")
''')],
 needs="a version that contains a percent sign",
 breaks="the version is printed as a format",
 test='''
package commands
import ("testing";"bytes";"github.com/sjansen/pgutil/internal/sys")
func TestDemo(t *testing.T){
 var b bytes.Buffer
 c:=&VersionCmd{App:"p",Build:"1%20x"}
 if err:=c.Run(&Base{IO:sys.IO{Stdout:&b}}); err!=nil { t.Fatal(err) }
 if b.String()!="p 1%20x\\n" { t.Fatal(b.String()) }
}'''),
dict(id='version-columns',prop='C41',pkg='internal/commands',
 edits=[('internal/commands/version.go','''	fmt.Fprintln(base.Stdout, c.App, c.Build)
''','''	fmt.Fprintf(base.Stdout, "%s %.20s\\n", c.App, c.Build)
''')],
 needs="a version of more than 20 characters",
 breaks="the end of the version is missing",
 test='''
package commands
import ("testing";"bytes";"github.com/sjansen/pgutil/internal/sys")
func TestDemo(t *testing.T){
 var b bytes.Buffer
 c:=&VersionCmd{App:"p",Build:"v1.2.3-20200102030405-abcdef"}
 if err:=c.Run(&Base{IO:sys.IO{Stdout:&b}}); err!=nil { t.Fatal(err) }
 if b.String()!="p v1.2.3-20200102030405-abcdef\\n" { t.Fatal(b.String()) }
}'''),
dict(id='dag-pending-count',prop='C02',pkg='internal/dag',
 edits=[('internal/dag/dependency.go','''	return g.pending != nil
''','''	return g.waiting > 0
'''),('internal/dag/dependency.go','''	pending      *pendingTask
''','''	pending      *pendingTask
	waiting      int
'''),('internal/dag/dependency.go','''			next: pending,
		}
''','''			next: pending,
		}
		g.waiting++
'''),('internal/dag/dependency.go','''		ready = append(ready, head.id)
		head = head.next
''','''		ready = append(ready, head.id)
		head = head.next
		g.waiting--
'''),('internal/dag/dependency.go','''			head.next = p.next
''','''			if head.next = p.next; head.next != nil {
				g.waiting--
			}
''')],
 needs="the last task in topological order released before another one",
 breaks="the graph reports pending tasks when there are none left",
 test='''
package dag
import "testing"
func TestDemo(t *testing.T){
 g,err:=NewDependencyGraph(map[string][]string{"a":nil,"b":{"a"},"c":nil})
 if err!=nil { t.Fatal(err) }
 n:=len(g.Next("")); n+=len(g.Next("a"))
 if n!=3 || g.HasPending() { t.Fatal(n, g.HasPending()) }
}'''),
dict(id='sched-int8',prop='C05',pkg='internal/runbook/scheduler',
 edits=[('internal/runbook/scheduler/scheduler.go','''	targetCap map[targetID]int
	targetLen map[targetID]int
''','''	targetCap map[targetID]int
	targetLen map[targetID]int8
'''),('internal/runbook/scheduler/scheduler.go','''		targetLen: map[targetID]int{},
''','''		targetLen: map[targetID]int8{},
'''),('internal/runbook/scheduler/scheduler.go','''		n := s.targetCap[qid] - targetLen
''','''		n := s.targetCap[qid] - int(targetLen)
'''),('internal/runbook/scheduler/scheduler.go','''		s.targetLen[qid] = targetLen + n
''','''		s.targetLen[qid] = targetLen + int8(n)
''')],
 needs="a target with a limit of 128 or more and as many tasks",
 breaks="more tasks than the limit are released",
 test='''
package scheduler
import ("testing";"fmt";"github.com/sjansen/pgutil/internal/runbook/types")
type tgt struct { types.Target }
func (t tgt) ConcurrencyLimit() int { return 130 }
func TestDemo(t *testing.T){
 ts:=types.Tasks{}
 for i:=0;i<400;i++ { ts[fmt.Sprint(i)]=&types.Task{Target:"q"} }
 s,ready,err:=New(types.Targets{"q":tgt{}},ts)
 if err!=nil { t.Fatal(err) }
 n:=len(ready["q"])
 r,err:=s.Next(ready["q"][0])
 if err!=nil { t.Fatal(err) }
 if n+len(r["q"])-1>130 { t.Fatal(n, len(r["q"])) }
}'''),
dict(id='sched-batches',prop='C06',pkg='internal/runbook/scheduler',
 edits=[('internal/runbook/scheduler/scheduler.go',"""		case n < 1:
			continue
		case n > len(tasks):
			n = len(tasks)
		}
""","""		case n < 1:
			continue
		case n > len(tasks):
			n = len(tasks)
		}
		if n > 50 {
			n = 50 // the rest can wait
		}
""")],
 needs="a target with a limit of more than 50 and more than 50 tasks that are ready",
 breaks="tasks that could start are not released until another one ends",
 test="""
package scheduler
import ("testing";"fmt";"github.com/sjansen/pgutil/internal/runbook/types")
type tgt struct { types.Target }
func (t tgt) ConcurrencyLimit() int { return 70 }
func TestDemo(t *testing.T){
 ts:=types.Tasks{}
 for i:=0;i<60;i++ { ts[fmt.Sprint(i)]=&types.Task{Target:"q"} }
 _,ready,err:=New(types.Targets{"q":tgt{}},ts)
 if err!=nil || len(ready["q"])!=60 { t.Fatal(err, len(ready["q"])) }
}"""),
dict(id='runner-small-queues',prop='C08',pkg='internal/runbook',
 edits=[('internal/runbook/runner.go','''	capacity *= 2
''','''	if capacity *= 2; capacity > 1 {
		capacity = 1 // the goroutines never run far ahead of each other
	}
''')],
 needs="seven targets or more that work at the same time, and an unlucky schedule",
 breaks="the goroutines wait for each other forever",
 test='''
package runbook
import ("testing";"context";"sync";"fmt";"time";"github.com/sjansen/pgutil/internal/runbook/types";"github.com/sjansen/pgutil/internal/logger")
'''+RUN+'''
func TestDemo(t *testing.T){
 done:=make(chan bool)
 go func(){
 for k:=0;k<300;k++ {
 tg:=types.Targets{}; ts:=types.Tasks{}
 for i:=0;i<60;i++ { q:=fmt.Sprint("q",i); tg[q]=&tgt{limit:3}
  for j:=0;j<6;j++ { ts[fmt.Sprint(i,"-",j)]=&types.Task{Target:q} } }
 r:=newRunner(logger.Discard(),tg,ts)
 r.run()
 }
 close(done)
 }()
 select { case <-done: case <-time.After(40*time.Second): t.Fatal("stuck") }
}'''),
dict(id='ddl-check-collapse',prop='C18',pkg='internal/ddl',
 edits=[('internal/ddl/check.go','''	c.Expression = trim(s)
''','''	c.Expression = collapseWhitespace(trim(s))
''')],
 needs="a check constraint with a text with two blanks, or a line break, inside",
 breaks="the expression is another one",
 test='''
package ddl
import "testing"
func TestDemo(t *testing.T){
 c,err:=ParseCheck("CHECK ((a = 'x  y'))")
 if err!=nil || c.Expression!="(a = 'x  y')" { t.Fatal(c, err) }
}'''),
dict(id='eval-format',prop='C34',pkg='internal/runbook',
 edits=[('internal/runbook/runbook.go','''	_, err = w.Write(formatted)
	return err
''','''	_, err = fmt.Fprintf(w, string(formatted))
	return err
''')],
 needs="a runbook with a percent sign in it",
 breaks="the printed document differs",
 test='''
package runbook
import ("testing";"io/ioutil";"os";"bytes";"strings";"github.com/sjansen/pgutil/internal/sys";"github.com/sjansen/pgutil/internal/logger")
func TestDemo(t *testing.T){
 d,_:=ioutil.TempDir("",""); defer os.RemoveAll(d)
 ioutil.WriteFile(d+"/x.json",[]byte(`{"a":"100%d"}`),0600)
 var b bytes.Buffer
 if err:=Eval(&sys.IO{Log:logger.Discard()},d+"/x.json",&b,false); err!=nil { t.Fatal(err) }
 if !strings.Contains(b.String(),`"100%d"`) { t.Fatal(b.String()) }
}'''),
dict(id='trigger-function-fold',prop='C35',pkg='internal/ddl',
 edits=[('internal/ddl/trigger.go',"""	sb.WriteString(t.Function)
""","""	sb.WriteString(strings.ToLower(t.Function))
""")],
 needs='a function with upper-case letters in its (quoted) name',
 breaks="another function is executed",
 test="""
package ddl
import ("testing";"strings")
func TestDemo(t *testing.T){
 x:=&Trigger{Name:"t",Table:"a",When:"AFTER",Insert:true,Function:`"Audit"`}
 s,_:=x.ToSQL()
 if !strings.Contains(s,`"Audit"`) { t.Fatal(s) }
}"""),
dict(id='hcl-scanner',prop='C23',pkg='internal/ddl',
 edits=[('internal/ddl/ddl.go',"""	p := hclparse.NewParser()
	f, err := p.ParseHCLFile(filename)
	if err != nil {
		return nil, err
	}

	db""","""	r, e := os.Open(filename)
	if e != nil {
		return nil, e
	}
	defer r.Close()

	var src bytes.Buffer
	for sc := bufio.NewScanner(r); sc.Scan(); {
		src.Write(sc.Bytes())
		src.WriteByte('\\n')
	}

	p := hclparse.NewParser()
	f, err := p.ParseHCL(src.Bytes(), filename)
	if err != nil {
		return nil, err
	}

	db"""),('internal/ddl/ddl.go','''import (
	"io"
''','''import (
	"bufio"
	"bytes"
	"io"
	"os"
''')],
 needs="a file with a line of 64 KiB or more, such as a function with a long definition",
 breaks="the rest of the file is ignored or rejected",
 test="""
package ddl
import ("testing";"bytes";"strings";"io/ioutil";"os")
func TestDemo(t *testing.T){
 d,_:=ioutil.TempDir("",""); defer os.RemoveAll(d)
 db:=&Database{Parameters:&Parameters{},Functions:[]*Function{{Schema:"s",Name:"f",Definition:strings.Repeat("select 1; ",7000)}}}
 var b bytes.Buffer
 if err:=db.Write(&b); err!=nil { t.Fatal(err) }
 ioutil.WriteFile(d+"/x",b.Bytes(),0600)
 x,err:=ParseFile(d+"/x")
 if err!=nil { t.Fatal(err) }
 if len(x.Functions)!=1 || x.Functions[0].Definition!=db.Functions[0].Definition { t.Fatal("lost") }
}"""),
]
