SEEDS=[
dict(id='parser-last-slash',prop='C10',pkg='internal/runbook/parser',
 edits=[('internal/runbook/parser/parser.go','idx := strings.Index(task.Target, "/")','idx := strings.LastIndex(task.Target, "/")')],
 needs="a runbook with a target whose name has a slash and a task that names another target and a class with a slash",
 breaks="what is before the last slash is taken to be the target, so the task is bound to a target it does not name instead of being rejected",
 test='''
package parser_test
import ("testing";"os";"path/filepath";"io/ioutil";"github.com/sjansen/pgutil/internal/runbook/parser";"github.com/sjansen/pgutil/internal/runbook/demo";"github.com/sjansen/pgutil/internal/runbook/types")
func TestDemo(t *testing.T){
 dir,_:=ioutil.TempDir("","d"); defer os.RemoveAll(dir)
 f:=filepath.Join(dir,"x.json")
 ioutil.WriteFile(f,[]byte(`{"targets":{"a":{"class":"demo"},"a/b":{"class":"demo"}},"tasks":{"x":{"target":"a/b/echo"}}}`),0600)
 p:=parser.Parser{Targets: map[string]types.TargetFactory{"demo":&demo.TargetFactory{}}}
 if book,err:=p.Parse(f); err==nil { t.Fatal(book.Tasks["x"]) }
}'''),
dict(id='parser-check-config-only',prop='C10',pkg='internal/runbook/parser',
 edits=[('internal/runbook/parser/parser.go','''				return err
			}
		}
		if err := taskConfig.Check(); err != nil {
			return err
		}
''','''				return err
			}
			if err := taskConfig.Check(); err != nil {
				return err
			}
		}
''')],
 needs="a task without any configuration whose class requires some",
 breaks="a task without configuration is not checked, so a PostgreSQL task without SQL loads",
 test='''
package parser_test
import ("testing";"os";"path/filepath";"io/ioutil";"github.com/sjansen/pgutil/internal/runbook/parser";"github.com/sjansen/pgutil/internal/runbook/pg";"github.com/sjansen/pgutil/internal/runbook/types")
func TestDemo(t *testing.T){
 dir,_:=ioutil.TempDir("","d"); defer os.RemoveAll(dir)
 f:=filepath.Join(dir,"x.json")
 ioutil.WriteFile(f,[]byte(`{"targets":{"a":{"class":"pg"}},"tasks":{"x":{"target":"a/exec"}}}`),0600)
 p:=parser.Parser{Targets: map[string]types.TargetFactory{"pg":&pg.TargetFactory{}}}
 if _,err:=p.Parse(f); err==nil { t.Fatal("loaded") }
}'''),
dict(id='dot-implied-edges',prop='C14',pkg='internal/runbook',
 edits=[('internal/runbook/runbook.go','''		for _, srcID := range task.After {
''','''		for _, srcID := range direct(runbook.Tasks, task) {
'''),('internal/runbook/runbook.go','''	return err
}

// dotClusterID''','''	return err
}

// direct returns a task's prerequisites that do not follow from others
func direct(tasks map[string]*types.Task, task *types.Task) (ids []string) {
	implied := map[string]bool{}
	for _, id := range task.After {
		if src, ok := tasks[id]; ok {
			for _, id := range src.After {
				implied[id] = true
			}
		}
	}
	for _, id := range task.After {
		if !implied[id] {
			ids = append(ids, id)
		}
	}
	return ids
}

// dotClusterID''')],
 needs="a task that lists both a task and one of that task's prerequisites as its own prerequisites",
 breaks="declared prerequisites that follow from others are missing from the graph",
 test='''
package runbook_test
import ("testing";"os";"bytes";"strings";"path/filepath";"io/ioutil";"github.com/sjansen/pgutil/internal/runbook";"github.com/sjansen/pgutil/internal/logger";"github.com/sjansen/pgutil/internal/sys")
func TestDemo(t *testing.T){
 dir,_:=ioutil.TempDir("","d"); defer os.RemoveAll(dir)
 f:=filepath.Join(dir,"x.json")
 ioutil.WriteFile(f,[]byte(`{"targets":{"t":{"class":"demo"}},"tasks":{"x":{"target":"t/echo"},"y":{"target":"t/echo","after":["x"]},"z":{"target":"t/echo","after":["x","y"]}}}`),0600)
 var b bytes.Buffer
 if err:=runbook.Dot(&sys.IO{Log:logger.Discard()},f,&b,""); err!=nil||strings.Count(b.String(),"->")!=3 { t.Fatal(err,b.String()) }
}'''),
dict(id='list-target-class',prop='C14',pkg='internal/commands',
 edits=[('internal/commands/runbook_list.go','''		sorted = append(sorted, s)
		if len(s) > longest {
			longest = len(s)
		}
''','''		if len(s) > longest {
			longest = len(s)
			sorted = append(sorted, s)
		} else if n := len(sorted); n > 0 && s > sorted[n-1] {
			sorted = append(sorted, s)
		} else {
			sorted = append([]string{s}, sorted...)
		}
'''),('internal/commands/runbook_list.go','	sort.Strings(sorted)\n','	if !sort.StringsAreSorted(sorted) {\n		sort.Slice(sorted, func(i, j int) bool {\n			return len(sorted[i]) == len(sorted[j]) && sorted[i] < sorted[j] || len(sorted[i]) < len(sorted[j])\n		})\n		sort.SliceStable(sorted, func(i, j int) bool {\n			n := len(sorted[i])\n			return n <= len(sorted[j]) && sorted[i] < sorted[j] || n > len(sorted[j]) && sorted[i][:len(sorted[j])] < sorted[j]\n		})\n	}\n')],
 needs="two tasks of which the longer one sorts first",
 breaks="tasks are listed out of order",
 test='''
package commands_test
import ("testing")
func TestDemo(t *testing.T){ }'''),
dict(id='dot-first-extension',prop='C30',pkg='internal/commands',
 edits=[('internal/commands/runbook_dot.go','		ext := filepath.Ext(src)\n','''		ext := filepath.Base(src)
		if i := strings.Index(ext, "."); i >= 0 {
			ext = ext[i:]
		} else {
			ext = ""
		}
'''),('internal/commands/runbook_dot.go','	"path/filepath"\n','	"path/filepath"\n	"strings"\n')],
 needs="automatic naming for a runbook with more than one dot in its name",
 breaks="everything from the first dot on is replaced, so graphs of different runbooks overwrite each other",
 test='''
package commands_test
import ("testing";"os";"bytes";"path/filepath";"io/ioutil";"github.com/sjansen/pgutil/internal/commands";"github.com/sjansen/pgutil/internal/logger";"github.com/sjansen/pgutil/internal/sys")
func TestDemo(t *testing.T){
 dir,_:=ioutil.TempDir("","d"); defer os.RemoveAll(dir)
 f:=filepath.Join(dir,"a.b.json")
 ioutil.WriteFile(f,[]byte(`{"targets":{"t":{"class":"demo"}},"tasks":{"x":{"target":"t/echo"}}}`),0600)
 var b bytes.Buffer
 if err:=(&commands.RunBookDotCmd{File:f,AutoOut:true}).Run(&commands.Base{IO:sys.IO{Log:logger.Discard(),Stdout:&b,Stderr:&b}}); err!=nil { t.Fatal(err) }
 if _,err:=os.Stat(filepath.Join(dir,"a.b.dot")); err!=nil { t.Fatal(err) }
}'''),
dict(id='dot-auto-first',prop='C30',pkg='internal/commands',
 edits=[('internal/commands/runbook_dot.go','''	case c.Output != "":
		output = c.Output
	case c.AutoOut:
''','''	case c.Output != "" && !(c.Output == "-" && c.AutoOut):
		output = c.Output
	case c.AutoOut:
''')],
 needs="an explicit output of '-' together with automatic naming",
 breaks="the graph is written to a file although standard output was asked for",
 test='''
package commands_test
import ("testing";"os";"bytes";"path/filepath";"io/ioutil";"github.com/sjansen/pgutil/internal/commands";"github.com/sjansen/pgutil/internal/logger";"github.com/sjansen/pgutil/internal/sys")
func TestDemo(t *testing.T){
 dir,_:=ioutil.TempDir("","d"); defer os.RemoveAll(dir)
 f:=filepath.Join(dir,"a.json")
 ioutil.WriteFile(f,[]byte(`{"targets":{"t":{"class":"demo"}},"tasks":{"x":{"target":"t/echo"}}}`),0600)
 var b bytes.Buffer
 if err:=(&commands.RunBookDotCmd{File:f,Output:"-",AutoOut:true}).Run(&commands.Base{IO:sys.IO{Log:logger.Discard(),Stdout:&b,Stderr:&b}}); err!=nil||b.Len()==0 { t.Fatal(err) }
}'''),
dict(id='eval-truncates',prop='C34',pkg='internal/runbook',
 edits=[('internal/runbook/runbook.go','''	formatter.DisabledColor = !color
''','''	if formatter.DisabledColor = !color; color {
		formatter.StringMaxLength = 200
	}
''')],
 needs="a runbook with a string of 200 characters or more that is evaluated with colours on",
 breaks="long strings are cut off, so another document is printed",
 test='''
package runbook_test
import ("testing";"os";"bytes";"strings";"path/filepath";"io/ioutil";"github.com/sjansen/pgutil/internal/runbook";"github.com/sjansen/pgutil/internal/logger";"github.com/sjansen/pgutil/internal/sys")
func TestDemo(t *testing.T){
 dir,_:=ioutil.TempDir("","d"); defer os.RemoveAll(dir)
 f:=filepath.Join(dir,"x.json")
 s:=strings.Repeat("x",300)
 ioutil.WriteFile(f,[]byte(`{"a":"`+s+`"}`),0600)
 var b bytes.Buffer
 if err:=runbook.Eval(&sys.IO{Log:logger.Discard()},f,&b,true); err!=nil||!strings.Contains(b.String(),s) { t.Fatal(err,b.String()) }
}'''),
]
SEEDS=[s for s in SEEDS if s['id']!='list-target-class']
