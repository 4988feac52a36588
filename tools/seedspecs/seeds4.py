SEEDS=[
dict(id='env-value-equals',prop='C11',pkg='internal/runbook/sh',
 edits=[('internal/runbook/sh/env.go','strings.Index(kv, "=")','strings.LastIndex(kv, "=")')],
 needs="a variable whose value contains '=' and a filter that names it",
 breaks="the name of a variable with '=' in its value is taken to end at the last '=', so deny and set miss it",
 test='''
package sh_test
import ("testing";"github.com/sjansen/pgutil/internal/runbook/sh")
func TestDemo(t *testing.T){
 e:=&sh.Env{Deny:[]string{"SECRET"}}
 if out:=e.Apply([]string{"SECRET=dG9w=","HOME=/"}); len(out)!=1||out[0]!="HOME=/" { t.Fatal(out) }
}'''),
dict(id='env-set-once',prop='C11',pkg='internal/runbook/sh',
 edits=[('internal/runbook/sh/env.go','''			tmp = append(tmp, newkv)
			updated[key] = struct{}{}
''','''			if _, done := updated[key]; done {
				newkv = kv
			}
			tmp = append(tmp, newkv)
			updated[key] = struct{}{}
''')],
 needs="an environment in which a variable that is set occurs twice",
 breaks="the second occurrence keeps its old value, which the command then sees",
 test='''
package sh_test
import ("testing";"github.com/sjansen/pgutil/internal/runbook/sh")
func TestDemo(t *testing.T){
 e:=&sh.Env{Set:map[string]string{"A":"new"}}
 for _, kv := range e.Apply([]string{"A=1","B=2","A=3"}) { if kv=="A=1"||kv=="A=3" { t.Fatal(kv) } }
}'''),
dict(id='shell-empty-env',prop='C12',pkg='internal/runbook/sh',
 edits=[('internal/runbook/sh/env.go','	tmp := make([]string, 0, len(environ))\n','	var tmp []string\n')],
 needs="filters that leave no variable at all (an allow list of names that are not there, nothing set)",
 breaks="the filtered environment is nil, so the command inherits the whole unfiltered process environment",
 test='''
package sh_test
import ("testing";"bytes";"context";"os";"github.com/sjansen/pgutil/internal/runbook/sh")
func TestDemo(t *testing.T){
 os.Setenv("ZZ_SECRET","x")
 var out, errs bytes.Buffer
 tg:=(&sh.TargetFactory{Stdout:&out,Stderr:&errs}).NewTarget().(*sh.Target)
 tg.Env.Allow=[]string{"ZZ_NONE"}
 if err:=tg.Start();err!=nil{t.Fatal(err)}
 if err:=tg.Handle(context.TODO(),&sh.Exec{Args:[]string{"env"}});err!=nil{t.Fatal(err)}
 if out.Len()!=0 { t.Fatal("leaked environment") }
}'''),
dict(id='shell-relative-twice',prop='C12',pkg='internal/runbook/sh',
 edits=[('internal/runbook/sh/exec.go','''	cmd := exec.CommandContext(ctx, x.Args[0], x.Args[1:]...)
''','''	arg0 := x.Args[0]
	if strings.HasPrefix(arg0, "../") {
		arg0 = filepath.Join(t.basedir, arg0)
	}
	cmd := exec.CommandContext(ctx, arg0, x.Args[1:]...)
'''),('internal/runbook/sh/exec.go','	"os/exec"\n','	"os/exec"\n	"path/filepath"\n')],
 needs="a runbook in a relative directory and a command starting with ../",
 breaks="the directory is applied twice: the command of another directory is run, or none is found",
 test='''
package sh_test
import ("testing";"bytes";"context";"os";"github.com/sjansen/pgutil/internal/runbook/sh")
func TestDemo(t *testing.T){
 d:=t.TempDir(); os.MkdirAll(d+"/sub/rb",0700)
 os.WriteFile(d+"/sub/hello",[]byte("#!/bin/sh\\necho hi\\n"),0700)
 cwd,_:=os.Getwd(); os.Chdir(d); defer os.Chdir(cwd)
 var out, errs bytes.Buffer
 tg:=(&sh.TargetFactory{Basedir:"sub/rb",Stdout:&out,Stderr:&errs}).NewTarget().(*sh.Target)
 tg.Start()
 if err:=tg.Handle(context.TODO(),&sh.Exec{Args:[]string{"../hello"}});err!=nil{t.Fatal(err)}
 if out.String()!="hi\\n" { t.Fatal(out.String()) }
}'''),
dict(id='demo-rot13-kelvin',prop='C13',pkg='internal/runbook/demo',
 edits=[('internal/runbook/demo/tasks.go','''		switch {
		case 'a' <= r && r <= 'm':
			runes[i] = r + 13
		case 'n' <= r && r <= 'z':
			runes[i] = r - 13
		case 'A' <= r && r <= 'M':
			runes[i] = r + 13
		case 'N' <= r && r <= 'Z':
			runes[i] = r - 13
		}
''','''		switch lower := unicode.ToLower(r); {
		case 'a' <= lower && lower <= 'm':
			runes[i] = r + 13
		case 'n' <= lower && lower <= 'z':
			runes[i] = r - 13
		}
'''),('internal/runbook/demo/tasks.go','	"time"\n','	"time"\n	"unicode"\n')],
 needs="a text with a character outside ASCII whose lower case is an ASCII letter (U+212A, U+0130)",
 breaks="the Kelvin sign and the dotted capital I are rotated",
 test='''
package demo
import ("testing";"context")
func TestDemo(t *testing.T){
 tg:=(&TargetFactory{}).NewTarget().(*Target); tg.String="a\\u212az"
 if err:=tg.Handle(context.TODO(),&Rot13{});err!=nil{t.Fatal(err)}
 if tg.String!="n\\u212am" { t.Fatalf("%q",tg.String) }
}'''),
dict(id='demo-reverse-replacement',prop='C13',pkg='internal/taskset/demo',
 edits=[('internal/taskset/demo/rev.go','''	runes := []rune(t.String)
''','''	runes := make([]rune, 0, len(t.String))
	for _, r := range t.String {
		if r != utf8.RuneError {
			runes = append(runes, r)
		}
	}
'''),('internal/taskset/demo/rev.go','import "github.com/sjansen/pgutil/internal/taskset/base"','import (\n\t"unicode/utf8"\n\n\t"github.com/sjansen/pgutil/internal/taskset/base"\n)')],
 needs="a text containing the replacement character U+FFFD",
 breaks="the replacement character is dropped as if it were a decoding error",
 test='''
package demo
import ("testing";"context")
func TestDemo(t *testing.T){
 tg:=(&TargetFactory{}).NewTarget().(*Target); tg.String="a\\ufffdz"
 x,_:=tg.NewTask("rev")
 if err:=tg.Run(context.TODO(),x);err!=nil{t.Fatal(err)}
 if tg.String!="z\\ufffda" { t.Fatalf("%q",tg.String) }
}'''),
]
