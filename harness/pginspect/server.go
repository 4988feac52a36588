package pginspect

import (
	"strings"

	"github.com/sjansen/pgutil/internal/zzverif/pgwire"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

// A row gives the values of the fields of one result row.
type row map[string]pgwire.Value

// A database is what the server knows.
type database struct {
	searchPath, timezone string
	version              string // what follows

	schemas, functions, sequences, tables []row
	hasView                               bool
	details                               []*details
}

const serverVersion = "PostgreSQL 11.1 (Debian 11.1-1.pgdg90+1) on x86_64-pc-linux-gnu, compiled by gcc (Debian 6.3.0-18+deb9u1) 6.3.0 20170516, 64-bit"

// details are the rows that belong to one table.
type details struct {
	schema, table                               string
	columns, checks, fks, params, indexes, trgs []row
}

func text(s string) pgwire.Value { return pgwire.Value{Text: s} }

func number(n int64) pgwire.Value { return pgwire.Value{Int: n} }

func flag(b bool) pgwire.Value { return pgwire.Value{Bool: b} }

// A field is recognised by a part of its expression in the select list.
type field struct {
	part, name string
	typ        int
}

// A kind of query is recognised by parts of its text.
type kind struct {
	name   string
	parts  []string
	fields []field
	detail bool
}

var kinds = []kind{
	{"search_path", []string{"show search_path"}, []field{{"", "search_path", pgwire.Text}}, false},
	{"timezone", []string{"show timezone"}, []field{{"", "timezone", pgwire.Text}}, false},
	{"version", []string{"version()"}, []field{{"", "version", pgwire.Text}}, false},
	{"schemas", []string{"nspowner"}, []field{
		{"nspowner", "owner", pgwire.Name}, {"obj_description", "comment", pgwire.Text}, {"nspname", "name", pgwire.Name},
	}, false},
	{"function", []string{"prosrc", "proname = $"}, functionFields, false},
	{"functions", []string{"prosrc"}, functionFields, false},
	{"hasview", []string{"exists", "'pg_sequence'"}, []field{{"", "exists", pgwire.Bool}}, false},
	{"sequences", []string{"seqstart"}, sequenceFields, false},
	{"legacy", []string{"relkind = 's'"}, sequenceFields, false},
	{"settings", []string{"start_value"}, []field{
		{"start_value", "start", pgwire.Int8}, {"min_value", "min", pgwire.Int8}, {"max_value", "max", pgwire.Int8},
		{"increment_by", "inc", pgwire.Int8}, {"cache_value", "cache", pgwire.Int8}, {"is_cycled", "cycle", pgwire.Bool},
	}, false},
	{"tables", []string{"relowner"}, []field{
		{"nspname", "schema", pgwire.Name}, {"relname", "name", pgwire.Name}, {"relowner", "owner", pgwire.Name},
		{"obj_description", "comment", pgwire.Text},
	}, false},
	{"columns", []string{"attnotnull"}, []field{
		{"format_type", "type", pgwire.Text}, {"pg_get_expr", "default", pgwire.Text}, {"col_description", "comment", pgwire.Text},
		{"attnotnull", "notnull", pgwire.Bool}, {"attname", "name", pgwire.Name},
	}, true},
	{"checks", []string{"contype = 'c'"}, constraintFields, true},
	{"fks", []string{"contype = 'f'"}, constraintFields, true},
	{"params", []string{"reloptions"}, []field{{"reloptions", "param", pgwire.Text}}, true},
	{"indexes", []string{"pg_get_indexdef"}, []field{
		{"pg_get_indexdef", "def", pgwire.Text}, {"indisprimary", "primary", pgwire.Bool}, {"relname", "name", pgwire.Name},
	}, true},
	{"trigger", []string{"pg_get_triggerdef", "tgname = $"}, triggerFields, true},
	{"trgs", []string{"pg_get_triggerdef"}, triggerFields, true},
}

var functionFields = []field{
	{"nspname", "schema", pgwire.Name}, {"proname", "name", pgwire.Name}, {"proowner", "owner", pgwire.Name},
	{"obj_description", "comment", pgwire.Text}, {"pg_get_function_result", "returns", pgwire.Text},
	{"lanname", "language", pgwire.Name}, {"prosrc", "definition", pgwire.Text},
}

var sequenceFields = []field{
	{"n2.nspname", "ownerschema", pgwire.Name}, {"c2.relname", "ownertable", pgwire.Name}, {"attname", "ownercolumn", pgwire.Name},
	{"nspname", "schema", pgwire.Name}, {"relname", "name", pgwire.Name}, {"relowner", "owner", pgwire.Name},
	{"obj_description", "comment", pgwire.Text}, {"format_type", "type", pgwire.Text}, {"seqstart", "start", pgwire.Int8},
	{"seqmin", "min", pgwire.Int8}, {"seqmax", "max", pgwire.Int8}, {"seqincrement", "inc", pgwire.Int8},
	{"seqcache", "cache", pgwire.Int8}, {"seqcycle", "cycle", pgwire.Bool},
}

var constraintFields = []field{{"pg_get_constraintdef", "def", pgwire.Text}, {"conname", "name", pgwire.Name}}

var triggerFields = []field{{"pg_get_triggerdef", "def", pgwire.Text}, {"tgname", "name", pgwire.Name}}

// oneLine makes a query lower-case, with single blanks.
func oneLine(sql string) string { return strings.Join(strings.Fields(strings.ToLower(sql)), " ") }

// selected splits the select list of a query.
func selected(sql string) []string {
	var list []string
	i := strings.Index(sql, "select ")
	if i < 0 {
		return []string{sql}
	}
	i += len("select ")
	depth, start := 0, i
	for ; i < len(sql); i++ {
		switch {
		case sql[i] == '(':
			depth++
		case sql[i] == ')':
			depth--
		case depth == 0 && sql[i] == ',':
			list = append(list, sql[start:i])
			start = i + 1
		case depth == 0 && strings.HasPrefix(sql[i:], " from "):
			return append(list, sql[start:i])
		}
	}
	return append(list, sql[start:])
}

// A query is a recognised query.
type query struct {
	kind          *kind
	names         []string // of the selected fields
	columns       []pgwire.Column
	schema, table int // the positions of the arguments that select the table
	third         int
	from          string
}

var queries map[string]*query

// argument finds the parameter that a column is compared with.
func argument(sql, column string) int {
	i := strings.Index(sql, column+" = $")
	if i < 0 {
		return -1
	}
	return int(sql[i+len(column)+4] - '1')
}

func recognise(sql string) *query {
	if q := queries[sql]; q != nil {
		return q
	}
	s := oneLine(sql)
	for i := range kinds {
		k := &kinds[i]
		found := true
		for _, p := range k.parts {
			found = found && strings.Contains(s, p)
		}
		if !found {
			continue
		}
		q := &query{kind: k, schema: argument(s, "nspname"), table: argument(s, "relname"), third: argument(s, "tgname")}
		if k.name == "function" {
			q.third = argument(s, "proname")
		}
		if j := strings.Index(strings.ToLower(sql), "\nfrom "); k.name == "settings" && j >= 0 {
			q.from = sql[j+len("\nfrom "):]
		}
		for _, expr := range selected(s) {
			var f *field
			for i := range k.fields {
				if f == nil && strings.Contains(expr, k.fields[i].part) {
					f = &k.fields[i]
				}
			}
			sym.Assume(f != nil)
			q.names = append(q.names, f.name)
			q.columns = append(q.columns, pgwire.Column{Name: f.name, Type: f.typ})
		}
		if queries == nil {
			queries = map[string]*query{}
		}
		queries[sql] = q
		return q
	}
	sym.Assume(false) // a query this model does not know
	return nil
}

// answer answers a query.
func (db *database) answer(sql string, args []string) *pgwire.Result {
	q := recognise(sql)
	r := &pgwire.Result{Columns: q.columns}
	if args == nil && pgwire.Params(sql) > 0 {
		return r
	}
	var rows []row
	switch q.kind.name {
	case "search_path":
		rows = []row{{"search_path": text(db.searchPath)}}
	case "timezone":
		rows = []row{{"timezone": text(db.timezone)}}
	case "version":
		rows = []row{{"version": text(serverVersion + db.version)}}
	case "schemas":
		rows = db.schemas
	case "functions":
		rows = db.functions
	case "hasview":
		rows = []row{{"exists": flag(db.hasView)}}
	case "sequences", "legacy":
		rows = db.sequences
	case "settings":
		for _, s := range db.sequences {
			if sym.IsTrue(sym.EqStr(strings.TrimSpace(q.from), quoted(s["schema"].Text)+"."+quoted(s["name"].Text))) {
				rows = append(rows, s)
			}
		}
	case "tables":
		rows = db.tables
	case "function":
		for _, f := range db.functions {
			if f["schema"].Text == args[q.schema] && f["name"].Text == args[q.third] {
				rows = append(rows, f)
			}
		}
	default:
		for _, d := range db.details {
			if q.schema < 0 || q.table < 0 || d.schema == args[q.schema] && d.table == args[q.table] {
				rows = append(rows, map[string][]row{
					"columns": d.columns, "checks": d.checks, "fks": d.fks, "params": d.params, "indexes": d.indexes, "trgs": d.trgs,
				}[q.kind.name]...)
				if q.kind.name == "trigger" {
					for _, t := range d.trgs {
						if t["name"].Text == args[q.third] {
							rows = append(rows, t)
						}
					}
				}
			}
		}
	}
	for _, x := range rows {
		var vs []pgwire.Value
		for _, n := range q.names {
			vs = append(vs, x[n])
		}
		r.Rows = append(r.Rows, vs)
	}
	return r
}

func quoted(s string) string { return `"` + strings.Replace(s, `"`, `""`, -1) + `"` }
