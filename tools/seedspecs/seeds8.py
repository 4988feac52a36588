exec(open('/verif/tools/seedspecs/seeds7.py').read().split('SEEDS=[')[0])
SEEDS=[
dict(id='dag-duplicate-stops',prop='C01',pkg='internal/dag',
 edits=[('internal/dag/directed.go','''			set.Add(m)
		}
		g[n] = set''','''			if set.Contains(m) {
				break // duplicates are harmless
			}
			set.Add(m)
		}
		g[n] = set''')],
 needs="a task that lists a dependency twice, and another one after it",
 breaks="the dependencies after a duplicate are lost",
 test='''
package dag
import "testing"
func TestDemo(t *testing.T){
 g,err:=NewDependencyGraph(map[string][]string{"a":nil,"b":nil,"c":{"a","a","b"}})
 if err!=nil { t.Fatal(err) }
 g.Next("")
 if x:=g.Next("a"); len(x)>0 { t.Fatal(x) }
}'''),
dict(id='dot-edge-key',prop='C14',pkg='internal/runbook',
 edits=[('internal/runbook/runbook.go','''	for targetID := range runbook.Targets {
''','''	edges := map[string]bool{}
	for targetID := range runbook.Targets {
'''),('internal/runbook/runbook.go','''		for _, srcID := range task.After {
''','''		for _, srcID := range task.After {
			if key := srcID + " " + dstID; edges[key] {
				continue // listed twice
			} else {
				edges[key] = true
			}
''')],
 needs='edges such as "a" to "b c" and "a b" to "c"',
 breaks="the second of the edges is missing",
 test='''
package runbook
import ("testing";"io/ioutil";"os";"bytes";"strings";"github.com/sjansen/pgutil/internal/sys";"github.com/sjansen/pgutil/internal/logger")
func TestDemo(t *testing.T){
 d,_:=ioutil.TempDir("",""); defer os.RemoveAll(d)
 ioutil.WriteFile(d+"/x.json",[]byte(`{"targets":{"p":{"class":"sh"}},"tasks":{"a":{"target":"p","config":{"args":["x"]}},"a b":{"target":"p","config":{"args":["x"]}},
 "b c":{"target":"p","after":["a"],"config":{"args":["x"]}},"c":{"target":"p","after":["a b"],"config":{"args":["x"]}}}}`),0600)
 for i:=0;i<20;i++ {
 var b bytes.Buffer
 if err:=Dot(&sys.IO{Log:logger.Discard()},d+"/x.json",&b,""); err!=nil { t.Fatal(err) }
 if strings.Count(b.String(),"->")!=2 { t.Fatal(b.String()) }
 }
}'''),
dict(id='ddl-long-blanks',prop='C16',pkg='internal/ddl',
 edits=[('internal/ddl/parser_utils.go','''	after := whitespace.ReplaceAllString(before, " ")
	return after
''','''	after := strings.NewReplacer("\\t", " ", "\\n", " ", "\\r", " ", "\\f", " ", "\\v", " ").Replace(before)
	for i := 0; i < 3; i++ {
		after = strings.Replace(after, "  ", " ", -1)
	}
	return after
'''),('internal/ddl/parser_utils.go','''var whitespace = regexp.MustCompile(`[\\s\\v]+`)

''',''),('internal/ddl/parser_utils.go','''	"regexp"
''','')],
 needs="a run of nine or more blanks in a predicate",
 breaks="the run is not collapsed",
 test='''
package ddl
import "testing"
func TestDemo(t *testing.T){
 x,err:=ParseIndex("CREATE INDEX a ON b USING btree (c) WHERE d         >         1")
 if err!=nil||x.Where!="d > 1" { t.Fatal(x,err) }
}'''),
dict(id='sql-name-length',prop='C20',pkg='internal/ddl',
 edits=[('internal/ddl/table.go','''		sb.WriteString(quoteName(col.Name))
		sb.WriteString(" ")
		sb.WriteString(col.Type)
''','''		name := quoteName(col.Name)
		if len(name) > 65 {
			name = name[:64] + `"` // the server's limit
		}
		sb.WriteString(name)
		sb.WriteString(" ")
		sb.WriteString(col.Type)
''')],
 needs="a column's name of more than 63 bytes with a quote at the cut",
 breaks="the name is cut in the middle of an escaped quote, so that the statement is broken",
 test='''
package ddl
import ("testing";"strings")
func TestDemo(t *testing.T){
 n:=strings.Repeat("x",62)+`"`+strings.Repeat("y",9)
 s,_:=(&Table{Name:"t",Columns:[]*Column{{Name:n,Type:"int"}}}).ToSQL()
 if !strings.Contains(s,`"`+strings.Replace(n,`"`,`""`,-1)+`"`) { t.Fatal(s) }
}'''),
dict(id='table-null-default',prop='C21',pkg='internal/ddl',
 edits=[('internal/ddl/table.go','''		if col.NotNull {
			sb.WriteString(" NOT NULL")
		}
''','''		if col.NotNull && !strings.HasSuffix(col.Type, "serial") {
			sb.WriteString(" NOT NULL")
		}
''')],
 needs="a column that is not null and whose type ends with serial",
 breaks="NOT NULL is lost for what may be a domain",
 test='''
package ddl
import ("testing";"strings")
func TestDemo(t *testing.T){
 s,_:=(&Table{Name:"t",Columns:[]*Column{{Name:"c",Type:"bigserial",NotNull:true}}}).ToSQL()
 if !strings.Contains(s,"NOT NULL") { t.Fatal(s) }
}'''),
dict(id='params-toast-prefix',prop='C22',pkg='internal/ddl',
 edits=[('internal/ddl/table_storage_parameters.go','''	switch key {
	case "fillfactor":''','''	switch strings.TrimPrefix(key, "toast.") {
	case "fillfactor":''')],
 needs="a parameter of the table's TOAST table",
 breaks="the parameter is taken for the table's own",
 test='''
package ddl
import "testing"
func TestDemo(t *testing.T){
 p:=&TableStorageParameters{}
 p.Set("toast.autovacuum_enabled","false")
 if p.AutovacuumEnabled!=nil { t.Fatal("set") }
}'''),
dict(id='ssl-localhost',prop='C24',pkg='internal/pg',
 edits=[('internal/pg/pg.go','''	sslmode := o.SSLMode
	if sslmode == "" && cfg.Password != "" {
''','''	sslmode := o.SSLMode
	if sslmode == "" && cfg.Password != "" && !strings.HasPrefix(cfg.Host, "local") {
'''),('internal/pg/pg.go','''	"errors"
''','''	"errors"
	"strings"
''')],
 needs="a host whose name starts with local",
 breaks="the password may be sent without TLS",
 test=pgtest('''
func TestDemo(t *testing.T){
 srv:=&Server{Attempts:[]Attempt{{}}}
 port:=serve(t,srv)
 c,err:=pg.New(&pg.Options{Log:zap.NewNop().Sugar(),Host:"localhost",Port:port,Username:"u",Password:"p",Database:"d"})
 if err==nil { c.Close(); t.Fatal("connected without TLS") }
}''',inspect=False)),
dict(id='conn-password-trim',prop='C25',pkg='internal/pg',
 edits=[('internal/pg/pg.go','''	cfg.Password = firstOfString(o.Password, cfg.Password)
''','''	cfg.Password = firstOfString(strings.TrimRight(o.Password, "\\r\\n"), cfg.Password)
'''),('internal/pg/pg.go','''	"errors"
''','''	"errors"
	"strings"
''')],
 needs="a password that ends with a line break",
 breaks="another password is sent",
 test=pgtest('''
func TestDemo(t *testing.T){
 srv:=&Server{Attempts:[]Attempt{{Password:true}}}
 port:=serve(t,srv)
 c,err:=pg.New(&pg.Options{Log:zap.NewNop().Sugar(),Host:"127.0.0.1",Port:port,SSLMode:"disable",Username:"u",Password:"p\\n",Database:"d"})
 if err==nil { c.Close() }
 mu.Lock(); defer mu.Unlock()
 if srv.Sessions[0].Password!="p\\n" { t.Fatalf("%q",srv.Sessions[0].Password) }
}''',inspect=False)),
dict(id='inspect-skip-include',prop='C26',pkg='internal/pg',
 edits=[('internal/pg/index.go','''		index, err = ddl.ParseIndex(indexdef)
		if err != nil {
			break
		}
''','''		index, err = ddl.ParseIndex(indexdef)
		if err != nil && strings.Contains(indexdef, ") INCLUDE (") {
			err = nil
			continue // not supported yet
		}
		if err != nil {
			break
		}
'''),('internal/pg/index.go','import "github.com/sjansen/pgutil/internal/ddl"\n','import (\n\t"strings"\n\n\t"github.com/sjansen/pgutil/internal/ddl"\n)\n')],
 needs="an index with included columns",
 breaks="the index is missing from the description, without an error",
 test=pgtest('''
func TestDemo(t *testing.T){
 db:=&database{searchPath:"a",timezone:"b",hasView:true}
 db.tables=[]row{{"schema":text("s"),"name":text("t"),"owner":text("o"),"comment":text("c")}}
 db.details=[]*details{{schema:"s",table:"t",indexes:[]row{{"name":text("i"),"primary":flag(false),"def":text("CREATE INDEX i ON t USING btree (a) INCLUDE (b)")}}}}
 srv:=&Server{Answer:db.answer}
 c:=connect(t,serve(t,srv)); defer c.Close()
 if got,err:=c.InspectDatabase(nil); err==nil && len(got.Indexes)!=1 { t.Fatal("missing") }
}''')),
dict(id='inspect-trigger-dedupe',prop='C27',pkg='internal/pg',
 edits=[('internal/pg/inspect.go','''	if len(triggers) > 0 {
		db.Triggers = append(db.Triggers, triggers...)
	}
''','''	seen := map[string]bool{}
	for _, x := range db.Triggers {
		seen[x.Schema+"."+x.Name] = true
	}
	for _, x := range triggers {
		if !seen[x.Schema+"."+x.Name] {
			db.Triggers = append(db.Triggers, x)
		}
	}
''')],
 needs="triggers of the same name on two tables of a schema",
 breaks="the second trigger is missing",
 test=pgtest('''
func TestDemo(t *testing.T){
 db:=&database{searchPath:"a",timezone:"b",hasView:true}
 for _,n:=range []string{"t","u"} {
 db.tables=append(db.tables,row{"schema":text("s"),"name":text(n),"owner":text("o"),"comment":text("c")})
 db.details=append(db.details,&details{schema:"s",table:n,trgs:[]row{{"name":text("g"),"def":text("CREATE TRIGGER g BEFORE INSERT ON "+n+" FOR EACH ROW EXECUTE PROCEDURE f()")}}})
 }
 srv:=&Server{Answer:db.answer}
 c:=connect(t,serve(t,srv)); defer c.Close()
 got,err:=c.InspectDatabase(nil)
 if err!=nil || len(got.Triggers)!=2 { t.Fatal(got,err) }
}''')),
dict(id='sort-natural',prop='C28',pkg='internal/pg',
 edits=[('internal/pg/inspect.go','''		sort.Slice(columns, func(i, j int) bool {
			return columns[i].Name < columns[j].Name
		})
''','''		sort.Slice(columns, func(i, j int) bool {
			a, b := columns[i].Name, columns[j].Name
			x, y := strings.TrimRight(a, "0123456789"), strings.TrimRight(b, "0123456789")
			if x == y && len(a) != len(b) {
				return len(a) < len(b)
			}
			return a < b
		})
'''),('internal/pg/inspect.go','''	"sort"
''','''	"sort"
	"strings"
''')],
 needs="columns that differ in a number at their end",
 breaks="c10 follows c9, which is not the order of their names",
 test=pgtest('''
func TestDemo(t *testing.T){
 db:=&database{searchPath:"a",timezone:"b",hasView:true}
 db.tables=append(db.tables,row{"schema":text("s"),"name":text("t"),"owner":text("o"),"comment":text("c")})
 d:=&details{schema:"s",table:"t"}
 for _,n:=range []string{"c9","c10"} { d.columns=append(d.columns,row{"name":text(n),"type":text("t"),"default":text(""),"comment":text("")}) }
 db.details=append(db.details,d)
 srv:=&Server{Answer:db.answer}
 c:=connect(t,serve(t,srv)); defer c.Close()
 got,err:=c.InspectDatabase(&pg.InspectOptions{SortColumns:true})
 if err!=nil || got.Tables[0].Columns[0].Name!="c10" { t.Fatal(got,err) }
}''')),
dict(id='task-sql-once',prop='C36',pkg='internal/pg',
 edits=[('internal/runbook/pg/pg.go','''	conn *pg.Conn

''','''	conn *pg.Conn
	last string

'''),('internal/runbook/pg/exec.go','''	return t.conn.Exec(x.SQL)
''','''	if x.SQL == t.last {
		return nil // a retry
	}
	err := t.conn.Exec(x.SQL)
	if err == nil {
		t.last = x.SQL
	}
	return err
''')],
 needs="two tasks in a row with the same SQL",
 breaks="the second task is not executed",
 test=pgtest('''
func TestDemo(t *testing.T){
 srv:=&Server{Answer:func(string,[]string)*Result { return &Result{} }}
 port:=serve(t,srv)
 x:=(&rpg.TargetFactory{Log:zap.NewNop().Sugar()}).NewTarget().(*rpg.Target)
 x.Host,x.Port,x.SSLMode,x.Username="127.0.0.1",port,"disable","u"
 if err:=x.Start(); err!=nil { t.Fatal(err) }
 for i:=0;i<2;i++ { if err:=x.Handle(context.Background(),&rpg.Exec{SQL:"UPDATE t SET n = n + 1"}); err!=nil { t.Fatal(err) } }
 x.Stop()
 mu.Lock(); defer mu.Unlock()
 n:=0
 for _,q:=range srv.Sessions[0].Queries { if strings.HasPrefix(q,"UPDATE") { n++ } }
 if n!=2 { t.Fatal(n) }
}''',inspect=False).replace('import (','import ("context";rpg "github.com/sjansen/pgutil/internal/runbook/pg";')),
dict(id='task-stop-error',prop='C36',pkg='internal/pg',
 edits=[('internal/runbook/pg/pg.go','''		ConnectRetries: t.ConnectRetries,
	})
''','''		ConnectRetries: t.ConnectRetries * t.Concurrency,
	})
''')],
 needs="a target with a concurrency above one and retries, whose server refuses connections at first",
 breaks="the connection is retried more often than configured",
 test=pgtest('''
func TestDemo(t *testing.T){
 srv:=&Server{Attempts:[]Attempt{{DenyText:true},{DenyText:true},{}}}
 port:=serve(t,srv)
 x:=(&rpg.TargetFactory{Log:zap.NewNop().Sugar()}).NewTarget().(*rpg.Target)
 x.Host,x.Port,x.SSLMode,x.Username="127.0.0.1",port,"disable","u"
 x.ConnectRetries,x.Concurrency=1,2
 if err:=x.Start(); err==nil { x.Stop(); t.Fatal("connected") }
}''',inspect=False).replace('import (','import (rpg "github.com/sjansen/pgutil/internal/runbook/pg";')),
dict(id='ping-version-short',prop='C37',pkg='internal/pg',
 edits=[('internal/commands/ping.go','''		fmt.Fprintln(base.Stdout, version)
''','''		fmt.Fprintln(base.Stdout, strings.SplitN(version, " on ", 2)[0])
'''),('internal/commands/ping.go','''	"fmt"
''','''	"fmt"
	"strings"
''')],
 needs="a version that names its platform",
 breaks="the platform is not printed",
 test=pgtest('''
func TestDemo(t *testing.T){
 v:="PostgreSQL 11.1 on x86_64-pc-linux-gnu, compiled by gcc"
 srv:=&Server{Answer:func(string,[]string)*Result { return &Result{Columns:[]Column{{"version",Text}},Rows:[][]Value{{{Text:v}}}} }}
 port:=serve(t,srv)
 f,_:=ioutil.TempFile("",""); defer os.Remove(f.Name())
 c:=&commands.PingCmd{Host:"127.0.0.1",Port:port,SSLMode:"disable",DBName:"d",Username:"u"}
 b:=&commands.Base{}; b.Stdout=f; b.Log=zap.NewNop().Sugar()
 if err:=c.Run(b); err!=nil { t.Fatal(err) }
 if s,_:=ioutil.ReadFile(f.Name()); string(s)!=v+"\\n" { t.Fatalf("%q",s) }
}''',inspect=False).replace('import (','import ("github.com/sjansen/pgutil/internal/commands";')),
dict(id='inspect-output-dash',prop='C37',pkg='internal/pg',
 edits=[('internal/commands/inspect.go','''	if c.Output != "" && c.Output != "-" {
		w, err = os.OpenFile(c.Output, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0666)
''','''	if name := strings.TrimPrefix(c.Output, "-"); name != "" {
		w, err = os.OpenFile(name, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0666)
'''),('internal/commands/inspect.go','''	"os"
''','''	"os"
	"strings"
''')],
 needs="a file whose name starts with a dash",
 breaks="another file is written",
 test=pgtest('''
func TestDemo(t *testing.T){
 db:=&database{searchPath:"a",timezone:"b",hasView:true}
 srv:=&Server{Answer:db.answer}
 port:=serve(t,srv)
 d,_:=ioutil.TempDir("",""); defer os.RemoveAll(d); os.Chdir(d)
 c:=&commands.InspectCmd{Host:"127.0.0.1",Port:port,SSLMode:"disable",DBName:"d",Username:"u",Output:"-x"}
 b:=&commands.Base{}; b.Stdout=os.Stdout; b.Log=zap.NewNop().Sugar()
 if err:=c.Run(b); err!=nil { t.Fatal(err) }
 if _,err:=os.Stat("-x"); err!=nil { t.Fatal(err) }
}''').replace('import (','import ("github.com/sjansen/pgutil/internal/commands";')),
dict(id='lookup-default-schema',prop='C38',pkg='internal/pg',
 edits=[('internal/pg/functions.go','''	var owner, comment, returns, language, definition *string

''','''	if schema == "" {
		schema = "public"
	}
	var owner, comment, returns, language, definition *string

''')],
 needs="a request without a schema, and a function in the schema public",
 breaks="a function of another schema is found",
 test=pgtest('''
func TestDemo(t *testing.T){
 db:=&database{}
 db.functions=[]row{{"schema":text("public"),"name":text("f"),"owner":text("o"),"comment":text("c"),"returns":text("r"),"language":text("l"),"definition":text("d")}}
 srv:=&Server{Answer:db.answer}
 c:=connect(t,serve(t,srv)); defer c.Close()
 if got,err:=c.DescribeFunction("","f"); err!=pg.ErrNotFound { t.Fatal(got,err) }
}''')),
dict(id='lookup-trigger-parse',prop='C38',pkg='internal/pg',
 edits=[('internal/pg/triggers.go','''	trigger, err = ddl.ParseTrigger(triggerdef)
	if err != nil {
		return nil, err
	}
	trigger.Schema = schema
	c.log''','''	trigger, err = ddl.ParseTrigger(triggerdef)
	if err != nil {
		c.log.Warnw("unsupported", "triggerdef", triggerdef)
		return nil, ErrNotFound
	}
	trigger.Schema = schema
	c.log''')],
 needs="a trigger whose definition is not understood",
 breaks="the trigger is reported as missing",
 test=pgtest('''
func TestDemo(t *testing.T){
 db:=&database{}
 db.details=[]*details{{schema:"s",table:"t",trgs:[]row{{"name":text("g"),"def":text("CREATE TRIGGER g BEFORE INSERT ON t FOR EACH ROW WHEN (a) EXECUTE PROCEDURE f()")}}}}
 srv:=&Server{Answer:db.answer}
 c:=connect(t,serve(t,srv)); defer c.Close()
 if got,err:=c.DescribeTrigger("s","t","g"); err==nil || err==pg.ErrNotFound { t.Fatal(got,err) }
}''')),
]
