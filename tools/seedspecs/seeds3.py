P='''
package ddl

import "testing"

'''
SEEDS=[
dict(id='ddl-trigger-column-case', prop='C15', pkg='internal/ddl',
 edits=[('internal/ddl/trigger.go','''	t.Columns = append(t.Columns, s)
''','''	for _, c := range t.Columns {
		if strings.EqualFold(c, s) {
			return // listed by another event
		}
	}
	t.Columns = append(t.Columns, s)
''')],
 test=P+'''
func TestDemo(t *testing.T) {
	x, err := ParseTrigger("CREATE TRIGGER t BEFORE UPDATE OF a, A ON b EXECUTE FUNCTION f()")
	if err != nil || len(x.Columns) != 2 || x.Columns[0] != "a" || x.Columns[1] != "A" {
		t.Fatal(x, err)
	}
}
''', needs='two column names that differ only by letter case', breaks='the second column is dropped'),
dict(id='ddl-index-using-lower', prop='C16', pkg='internal/ddl',
 edits=[('internal/ddl/index.go','''	key := idx.Keys[len(idx.Keys)-1]
	key.OpClass = opclass
''','''	key := idx.Keys[len(idx.Keys)-1]
	if upper(opclass) == "DESC" {
		key.Descending = true
		return
	}
	key.OpClass = opclass
''')],
 test=P+'''
func TestDemo(t *testing.T) {
	x, err := ParseIndex("CREATE INDEX i ON t (a, b)")
	if err != nil || x.Keys[0].OpClass != "" {
		t.Fatal(x, err)
	}
	x, err = ParseIndex("CREATE INDEX i ON t (a deSC, b)")
	if err != nil || x.Keys[0].OpClass != "deSC" || x.Keys[0].Descending {
		t.Fatal(x.Keys[0], err)
	}
}
''', needs='an operator class whose name is desc in any letter case', breaks='the operator class is lost'),
dict(id='ddl-index-opclass-first', prop='C16', pkg='internal/ddl',
 edits=[('internal/ddl/index.go','''	key := idx.Keys[len(idx.Keys)-1]
	key.OpClass = opclass
''','''	for _, key := range idx.Keys {
		if key.OpClass == "" && (key.Expression != "" || key == idx.Keys[len(idx.Keys)-1]) {
			key.OpClass = opclass
			break
		}
	}
''')],
 test=P+'''
func TestDemo(t *testing.T) {
	x, err := ParseIndex("CREATE INDEX i ON t ((a+b), c ops)")
	if err != nil || x.Keys[0].OpClass != "" || x.Keys[1].OpClass != "ops" {
		t.Fatal(x, err)
	}
}
''', needs='an expression key without and a later column key with an operator class', breaks='the operator class goes to the wrong key'),
dict(id='ddl-fk-referenced-count', prop='C17', pkg='internal/ddl',
 edits=[('internal/ddl/foreign_key.go','''	fk.Referenced = append(fk.Referenced, s)
''','''	if len(fk.Referenced) == len(fk.Columns) {
		return
	}
	fk.Referenced = append(fk.Referenced, s)
''')],
 test=P+'''
func TestDemo(t *testing.T) {
	x, err := ParseForeignKey("FOREIGN KEY (a) REFERENCES t(b, c)")
	if err != nil || len(x.Referenced) != 2 {
		t.Fatal(x, err)
	}
}
''', needs='more referenced columns than columns', breaks='the surplus referenced columns are dropped silently'),
dict(id='ddl-fk-on-delete-collapse', prop='C17', pkg='internal/ddl',
 edits=[('internal/ddl/foreign_key.go','''	fk.OnDelete = collapseWhitespace(upper(trim(s)))
''','''	if s = upper(s); len(s) > 11 {
		s = collapseWhitespace(trim(s))
	}
	fk.OnDelete = s
''')],
 test=P+'''
func TestDemo(t *testing.T) {
	x, err := ParseForeignKey("FOREIGN KEY (a) REFERENCES t(b) ON DELETE SET  NULL")
	if err != nil || x.OnDelete != "SET NULL" {
		t.Fatal(x, err)
	}
}
''', needs='a two word delete action of at most eleven bytes with more than one blank in between', breaks='the action is not single-spaced'),
dict(id='ddl-check-parens', prop='C18', pkg='internal/ddl',
 edits=[('internal/ddl/check.go','''	c.Expression = trim(s)
''','''	s = trim(s)
	if n := len(s); n > 3 && s[:2] == "((" && s[n-2:] == "))" {
		s = s[1 : n-1] // redundant parentheses
	}
	c.Expression = s
''')],
 test=P+'''
func TestDemo(t *testing.T) {
	x, err := ParseCheck("CHECK (((a) + (b)))")
	if err != nil || x.Expression != "((a) + (b))" {
		t.Fatal(x, err)
	}
}
''', needs='an expression that starts and ends with two parentheses', breaks='the expression loses text'),
dict(id='ddl-fk-semicolons', prop='C19', pkg='internal/ddl',
 edits=[('internal/ddl/foreign_key_parser.go','''	st_case_189:
//line foreign_key_parser.go:1430
		if data[p] == 32 {''','''	st_case_189:
//line foreign_key_parser.go:1430
		if data[p] == 32 || data[p] == 59 {''')],
 test=P+'''
func TestDemo(t *testing.T) {
	x, err := ParseForeignKey("FOREIGN KEY (a) REFERENCES t(b) NOT DEFERRABLE")
	if err != nil || x == nil {
		t.Fatal(x, err)
	}
	x, err = ParseForeignKey("FOREIGN KEY (a) REFERENCES t(b) INITIALLY DEFERRED;;")
	if err == nil || x != nil {
		t.Fatal("accepted", x)
	}
}
''', needs='a semicolon after a final deferral clause', breaks='text outside the grammar is accepted'),
dict(id='ddl-error-width', prop='C19', pkg='internal/ddl',
 edits=[('internal/ddl/parser_utils.go','''	if len(data) <= cs {
		return "error after end of data"
	}
''','''	if len(data) <= cs {
		return "error after end of data"
	}
	if data[cs] >= 0x80 {
		return fmt.Sprintf("unexpected character %q", data[cs:cs+2])
	}
''')],
 test=P+'''
func TestDemo(t *testing.T) {
	_, err := ParseCheck("CHE\\xffCK (a)")
	if err == nil || err.Error() == "" {
		t.Fatal(err)
	}
	_, err = ParseCheck("CHECK\\xff")
	if err == nil || err.Error() == "" {
		t.Fatal(err)
	}
}
''', needs='a byte from 128 at the very end of a definition', breaks='rendering the error panics'),
]
