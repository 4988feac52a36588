import re
W=open('/verif/harness/pgwire/server.go').read()
W=W[W.index('// Types of columns.'):].replace('func strings(','func contains(').replace('strings(','contains(').replace('contains(s, sub','contains(s, sub')
I=open('/verif/harness/pginspect/server.go').read()
I=I[I.index('// A row gives'):].replace('pgwire.','')
I=I.replace('sym.Assume(f != nil)','if f == nil {\n\t\t\t\tpanic(sql)\n\t\t\t}').replace('sym.Assume(false) // a query this model does not know','panic(sql)').replace('sym.IsTrue(sym.EqStr(strings.TrimSpace(q.from), quoted(s["schema"].Text)+"."+quoted(s["name"].Text)))','strings.TrimSpace(q.from) == quoted(s["schema"].Text)+"."+quoted(s["name"].Text)')
assert 'sym.' not in I, re.findall('.*sym[.].*',I)
def pgtest(body, inspect=True):
    s='package pg_test\nimport ("encoding/binary";"io/ioutil";"net";"os";"strconv";"strings";"testing";"sync";"go.uber.org/zap";"github.com/sjansen/pgutil/internal/pg";"github.com/sjansen/pgutil/internal/ddl")\n'
    s+='''
var _ = ioutil.Discard
var _ = ddl.Table{}
var _ = os.Getenv
var _ = strings.Fields
var mu sync.Mutex
// serve starts a server and returns its port
func serve(t *testing.T, srv *Server) uint16 {
 for _,v:=range os.Environ() { if strings.HasPrefix(v,"PG") { os.Unsetenv(strings.SplitN(v,"=",2)[0]) } }
 os.Setenv("PGPASSFILE","/dev/null")
 l,err:=net.Listen("tcp","127.0.0.1:0"); if err!=nil { t.Fatal(err) }
 if srv.Attempts==nil { srv.Attempts=[]Attempt{{}} }
 _,ps,_:=net.SplitHostPort(l.Addr().String()); port,_:=strconv.Atoi(ps)
 go func(){ for { c,err:=l.Accept(); if err!=nil {return}
  mu.Lock(); s:=srv.dial("127.0.0.1",ps); mu.Unlock()
  go func(){ defer c.Close(); b:=make([]byte,4096)
   for { n,err:=c.Read(b); if err!=nil {return}
    mu.Lock(); s.input(append([]byte{},b[:n]...)); out:=s.out; s.out=nil; eof:=s.eof; mu.Unlock()
    c.Write(out); if eof {return} } }() } }()
 return uint16(port)
}
func connect(t *testing.T, port uint16) *pg.Conn {
 c,err:=pg.New(&pg.Options{Log:zap.NewNop().Sugar(),Host:"127.0.0.1",Port:port,SSLMode:"disable",Username:"u",Database:"d"})
 if err!=nil { t.Fatal(err) }
 return c
}
'''
    if not inspect: I2='type database struct{}\n'
    else: I2=I
    return s+W+I2+body
SEEDS=[
dict(id='sql-first-quote',prop='C20',pkg='internal/ddl',
 edits=[('internal/ddl/util.go','''strings.Replace(s, `"`, `""`, -1)''','''strings.Replace(s, `"`, `""`, 1)''')],
 needs="a name with more than one double quote",
 breaks="only the first quote of a name is doubled, so the rest of the name is SQL",
 test='''
package ddl
import ("testing";"strings")
func TestDemo(t *testing.T){
 s,_:=(&Table{Name:`a"b"c`}).ToSQL()
 if !strings.Contains(s,`"a""b""c"`) { t.Fatal(s) }
}'''),
dict(id='sql-identifier-join',prop='C20',pkg='internal/pg',
 edits=[('internal/pg/util.go','''	id := pgx.Identifier(parts)
	return id.Sanitize()
''','''	id := pgx.Identifier{strings.Join(parts, `"."`)}
	return strings.Replace(id.Sanitize(), `"".""`, `"."`, -1)
'''),('internal/pg/util.go','import "github.com/jackc/pgx"\n','import (\n\t"strings"\n\n\t"github.com/jackc/pgx"\n)\n')],
 needs='a name that contains a double quote, a period and another double quote',
 breaks="one name can be taken for two",
 test='''
package pg
import "testing"
func TestDemo(t *testing.T){
 if s:=Identifier("a","b"); s!=`"a"."b"` { t.Fatal(s) }
 if s:=Identifier(`a"."b`); s!=`"a"".""b"` { t.Fatal(s) }
}'''),
dict(id='table-default-nextval',prop='C21',pkg='internal/ddl',
 edits=[('internal/ddl/table.go','''		if col.Default != "" {
''','''		if col.Default != "" && !strings.HasPrefix(col.Default, "nextval(") {
''')],
 needs="a column whose default takes the next value of a sequence",
 breaks="the default is lost",
 test='''
package ddl
import ("testing";"strings")
func TestDemo(t *testing.T){
 s,_:=(&Table{Name:"t",Columns:[]*Column{{Name:"c",Type:"int",Default:"nextval('s')"}}}).ToSQL()
 if !strings.Contains(s,"DEFAULT nextval('s')") { t.Fatal(s) }
}'''),
dict(id='params-multixact',prop='C22',pkg='internal/ddl',
 edits=[('internal/ddl/table_storage_parameters.go','''		p.AutovacuumMultixactFreezeTableAge = &tmp
''','''		p.AutovacuumFreezeTableAge = &tmp
''')],
 needs="the multixact variant of the table age",
 breaks="the value is stored as another parameter",
 test='''
package ddl
import "testing"
func TestDemo(t *testing.T){
 p:=&TableStorageParameters{}
 p.Set("autovacuum_freeze_table_age","1"); p.Set("autovacuum_multixact_freeze_table_age","2")
 if p.AutovacuumFreezeTableAge==nil||*p.AutovacuumFreezeTableAge!=1||p.AutovacuumMultixactFreezeTableAge==nil||*p.AutovacuumMultixactFreezeTableAge!=2 { t.Fatal(p) }
}'''),
dict(id='params-float32',prop='C22',pkg='internal/ddl',
 edits=[('internal/ddl/table_storage_parameters.go','''		tmp, err := strconv.ParseFloat(value, 64)
		p.AutovacuumAnalyzeScaleFactor = &tmp
''','''		tmp, err := strconv.ParseFloat(value, 32)
		p.AutovacuumAnalyzeScaleFactor = &tmp
''')],
 needs="a scale factor that is not exact in single precision",
 breaks="the scale factor is rounded",
 test='''
package ddl
import "testing"
func TestDemo(t *testing.T){
 p:=&TableStorageParameters{}
 p.Set("autovacuum_analyze_scale_factor","0.1")
 if *p.AutovacuumAnalyzeScaleFactor!=0.1 { t.Fatal(*p.AutovacuumAnalyzeScaleFactor) }
}'''),
dict(id='hcl-duplicate-tag',prop='C23',pkg='internal/ddl',
 edits=[('internal/ddl/table_storage_parameters.go','''`hcl:"autovacuum_multixact_freeze_table_age,optional"`''','''`hcl:"autovacuum_multixact_freeze_max_age,optional"`''')],
 needs="a table with a multixact freeze parameter",
 breaks="two parameters share one attribute of the file, so that one is lost or becomes the other",
 test='''
package ddl
import ("testing";"bytes")
func TestDemo(t *testing.T){
 a,b:=1,2
 db:=&Database{Tables:[]*Table{{Schema:"s",Name:"t",StorageParameters:&TableStorageParameters{AutovacuumMultixactFreezeMaxAge:&a,AutovacuumMultixactFreezeTableAge:&b}}}}
 var w bytes.Buffer
 if err:=db.Write(&w); err!=nil { t.Fatal(err) }
 x,err:=ParseBytes(w.Bytes(),"x.hcl")
 if err!=nil { t.Fatal(err) }
 p:=x.Tables[0].StorageParameters
 if *p.AutovacuumMultixactFreezeMaxAge!=1||*p.AutovacuumMultixactFreezeTableAge!=2 { t.Fatal(w.String()) }
}'''),
dict(id='hcl-pretty-templates',prop='C23',pkg='internal/ddl',
 edits=[('internal/ddl/ddl.go','''	_, err := w.Write(f.Bytes())
	return err
''','''	// nothing is interpolated, so templates need no escapes
	src := bytes.Replace(f.Bytes(), []byte("%%{"), []byte("%{"), -1)
	_, err := w.Write(src)
	return err
'''),('internal/ddl/ddl.go','''import (
	"io"
''','''import (
	"bytes"
	"io"
''')],
 needs='a text that contains "%{"',
 breaks="the file that is written cannot be read or reads back differently",
 test='''
package ddl
import ("testing";"bytes")
func TestDemo(t *testing.T){
 db:=&Database{Schemas:[]*Schema{{Name:"s",Comment:"100%{x}"}}}
 var w bytes.Buffer
 if err:=db.Write(&w); err!=nil { t.Fatal(err) }
 x,err:=ParseBytes(w.Bytes(),"x.hcl")
 if err!=nil { t.Fatal(err) }
 if x.Schemas[0].Comment!="100%{x}" { t.Fatal(w.String()) }
}'''),
dict(id='ssl-env-password',prop='C24',pkg='internal/pg',
 edits=[('internal/pg/pg.go','''	if sslmode == "" && cfg.Password != "" {
''','''	if sslmode == "" && o.Password != "" {
''')],
 needs="a password that comes from the environment and no SSL mode",
 breaks="the password is sent to a server whose certificate was not verified, or in clear text",
 test=pgtest('''
func TestDemo(t *testing.T){
 srv:=&Server{Attempts:[]Attempt{{Password:true}}}
 port:=serve(t,srv)
 os.Setenv("PGPASSWORD","secret")
 c,err:=pg.New(&pg.Options{Log:zap.NewNop().Sugar(),Host:"127.0.0.1",Port:port,Username:"u",Database:"d"})
 if err==nil { c.Close(); t.Error("connected without TLS") }
 mu.Lock(); defer mu.Unlock()
 for _,s:=range srv.Sessions { if s.Password!="" { t.Error("password sent in clear text") } }
}''',False)),
dict(id='ssl-require-fallback',prop='C24',pkg='internal/pg',
 edits=[('internal/pg/pg.go','''	case "require":
		cfg.UseFallbackTLS = false
		cfg.TLSConfig''','''	case "require":
		cfg.TLSConfig''')],
 needs="PGSSLMODE=prefer or allow in the environment and the mode require as an option",
 breaks="the connection falls back to clear text",
 test=pgtest('''
func TestDemo(t *testing.T){
 for _,env:=range []string{"","prefer","allow","disable"} {
 srv:=&Server{}
 port:=serve(t,srv)
 os.Unsetenv("PGSSLMODE")
 if env!="" { os.Setenv("PGSSLMODE",env) }
 c,err:=pg.New(&pg.Options{Log:zap.NewNop().Sugar(),Host:"127.0.0.1",Port:port,SSLMode:"require",Username:"u",Database:"d"})
 if err==nil { c.Close(); t.Error(env,"connected without TLS") }
 }
}''',False)),
dict(id='conn-port-env',prop='C25',pkg='internal/pg',
 edits=[('internal/pg/pg.go','''	cfg.Port = firstOfUint16(o.Port, cfg.Port)
''','''	cfg.Port = firstOfUint16(cfg.Port, o.Port)
''')],
 needs="a port both in the options and in the environment",
 breaks="the environment wins over the option",
 test=pgtest('''
func TestDemo(t *testing.T){
 srv:=&Server{}
 port:=serve(t,srv)
 os.Setenv("PGPORT","1")
 c,err:=pg.New(&pg.Options{Log:zap.NewNop().Sugar(),Host:"127.0.0.1",Port:port,SSLMode:"disable",Username:"u",Database:"d"})
 if err!=nil { t.Fatal(err) }
 c.Close()
}''',False)),
dict(id='conn-password-user',prop='C25',pkg='internal/pg',
 edits=[('internal/pg/pg.go','''	cfg.User = firstOfString(o.Username, cfg.User)
	cfg.Password = firstOfString(o.Password, cfg.Password)
''','''	if o.Username == "" || o.Username == cfg.User || cfg.Password == "" {
		// a password from the environment is only for the user it names
		cfg.Password = firstOfString(o.Password, cfg.Password)
	}
	cfg.User = firstOfString(o.Username, cfg.User)
''')],
 needs="a password and a user as options, while the environment has another password",
 breaks="the option's password is ignored for the one of the environment",
 test=pgtest('''
func TestDemo(t *testing.T){
 srv:=&Server{Attempts:[]Attempt{{Password:true}}}
 port:=serve(t,srv)
 os.Setenv("PGPASSWORD","other")
 c,err:=pg.New(&pg.Options{Log:zap.NewNop().Sugar(),Host:"127.0.0.1",Port:port,SSLMode:"disable",Username:"u",Password:"mine",Database:"d"})
 if err!=nil { t.Fatal(err) }
 c.Close()
 mu.Lock(); defer mu.Unlock()
 for _,s:=range srv.Sessions { if s.Password!="mine" { t.Error(s.Password) } }
}''',False)),
dict(id='inspect-shadowed-error',prop='C26',pkg='internal/pg',
 edits=[('internal/pg/check.go','''		var check *ddl.Check
		check, err = ddl.ParseCheck(checkdef)
''','''		check, err := ddl.ParseCheck(checkdef)
''')],
 needs="a check constraint whose definition cannot be parsed",
 breaks="the constraint and those after it are dropped without an error",
 test=pgtest('''
func TestDemo(t *testing.T){
 db:=&database{searchPath:"a",timezone:"UTC",hasView:true,tables:[]row{{"schema":text("s"),"name":text("t")}},
  details:[]*details{{schema:"s",table:"t",checks:[]row{{"name":text("a"),"def":text("CHECK (a > 0)")},{"name":text("b"),"def":text("nonsense")}}}}}
 c:=connect(t,serve(t,&Server{Answer:db.answer})); defer c.Close()
 x,err:=c.InspectDatabase(nil)
 if err==nil { t.Fatal(x.Tables[0].Checks) }
}''')),
dict(id='inspect-partial-details',prop='C26',pkg='internal/pg',
 edits=[('internal/pg/inspect.go','''	for _, table := range db.Tables {
		if err := c.inspectTable(o, db, table); err != nil {
			return err
		}
	}
''','''	for _, table := range db.Tables {
		err = c.inspectTable(o, db, table)
	}
''')],
 needs="a failure for a table that is not the last one",
 breaks="the description is reported as complete although a table's details are missing",
 test=pgtest('''
func TestDemo(t *testing.T){
 db:=&database{searchPath:"a",timezone:"UTC",hasView:true,tables:[]row{{"schema":text("s"),"name":text("t")},{"schema":text("s"),"name":text("u")}},
  details:[]*details{{schema:"s",table:"t",trgs:[]row{{"name":text("b"),"def":text("nonsense")}}},{schema:"s",table:"u"}}}
 c:=connect(t,serve(t,&Server{Answer:db.answer})); defer c.Close()
 x,err:=c.InspectDatabase(nil)
 if err==nil { t.Fatal(x.Triggers) }
}''')),
dict(id='inspect-legacy-bounds',prop='C27',pkg='internal/pg',
 edits=[('internal/pg/sequence.go','''  start_value
, min_value
, max_value
''','''  start_value
, max_value
, min_value
''')],
 needs="a server older than PostgreSQL 10 and a sequence",
 breaks="the minimum and the maximum of sequences are exchanged",
 test=pgtest('''
func TestDemo(t *testing.T){
 db:=&database{searchPath:"a",timezone:"UTC",sequences:[]row{{"schema":text("s"),"name":text("t"),"start":number(1),"min":number(2),"max":number(3),"inc":number(4),"cache":number(5)}}}
 c:=connect(t,serve(t,&Server{Answer:db.answer})); defer c.Close()
 x,err:=c.InspectDatabase(nil)
 if err!=nil { t.Fatal(err) }
 if s:=x.Sequences[0]; s.Minimum!=2||s.Maximum!=3 { t.Fatal(s) }
}''')),
dict(id='inspect-table-once',prop='C27',pkg='internal/pg',
 edits=[('internal/pg/inspect.go','''	for _, table := range db.Tables {
		if err := c.inspectTable(o, db, table); err != nil {
			return err
		}
	}
''','''	seen := map[string]bool{}
	for _, table := range db.Tables {
		id := Identifier(table.Schema + "." + table.Name)
		if seen[id] {
			continue
		}
		seen[id] = true
		if err := c.inspectTable(o, db, table); err != nil {
			return err
		}
	}
''')],
 needs="two tables whose schemas and names only differ by where a period divides them",
 breaks="the second table is described as if it were empty",
 test=pgtest('''
func TestDemo(t *testing.T){
 db:=&database{searchPath:"a",timezone:"UTC",hasView:true,tables:[]row{{"schema":text("a.b"),"name":text("c")},{"schema":text("a"),"name":text("b.c")}},
  details:[]*details{{schema:"a.b",table:"c"},{schema:"a",table:"b.c",columns:[]row{{"name":text("x"),"type":text("int")}}}}}
 c:=connect(t,serve(t,&Server{Answer:db.answer})); defer c.Close()
 x,err:=c.InspectDatabase(nil)
 if err!=nil { t.Fatal(err) }
 if len(x.Tables[1].Columns)!=1 { t.Fatal("no columns") }
}''')),
dict(id='sort-columns-case',prop='C28',pkg='internal/pg',
 edits=[('internal/pg/inspect.go','''			return columns[i].Name < columns[j].Name
''','''			return strings.ToLower(columns[i].Name) < strings.ToLower(columns[j].Name)
'''),('internal/pg/inspect.go','''	"sort"
''','''	"sort"
	"strings"
''')],
 needs="columns with upper-case names",
 breaks="the order of columns is not the order of their names, and depends on the table for names that differ in case",
 test=pgtest('''
func TestDemo(t *testing.T){
 db:=&database{searchPath:"a",timezone:"UTC",hasView:true,tables:[]row{{"schema":text("s"),"name":text("t")}},
  details:[]*details{{schema:"s",table:"t",columns:[]row{{"name":text("b"),"type":text("int")},{"name":text("a"),"type":text("int")},{"name":text("B"),"type":text("int")}}}}}
 c:=connect(t,serve(t,&Server{Answer:db.answer})); defer c.Close()
 x,err:=c.InspectDatabase(&pg.InspectOptions{SortColumns:true})
 if err!=nil { t.Fatal(err) }
 if k:=x.Tables[0].Columns; k[0].Name!="B"||k[1].Name!="a" { t.Fatal(k[0],k[1]) }
}''')),
dict(id='trigger-row-constraint',prop='C35',pkg='internal/ddl',
 edits=[('internal/ddl/trigger.go','''	if t.ForEachRow {
		sb''','''	if t.ForEachRow && !t.Constraint {
		sb''')],
 needs="a constraint trigger",
 breaks="constraint triggers are generated as statement triggers, which are not valid",
 test='''
package ddl
import ("testing";"strings")
func TestDemo(t *testing.T){
 s,_:=(&Trigger{Name:"n",Table:"t",When:"AFTER",Insert:true,Constraint:true,ForEachRow:true,Function:"f"}).ToSQL()
 if !strings.Contains(s,"FOR EACH ROW") { t.Fatal(s) }
}'''),
]
