package ddlparse

import (
	"strings"

	"github.com/sjansen/pgutil/internal/ddl"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

// Templates: valid definitions. Bytes at which any character may stand are listed by free.
var triggerTexts = []string{
	"CREATE TRIGGER t BEFORE INSERT ON a EXECUTE FUNCTION f()",
	"create constraint trigger ab\nafter update of c , d1 or delete on t2 not deferrable\nfor each row execute procedure g()",
	" CREATE TRIGGER t INSTEAD OF UPDATE OR TRUNCATE ON a DEFERRABLE INITIALLY DEFERRED FOR STATEMENT EXECUTE FUNCTION f() ",
	"CREATE TRIGGER t AFTER UPDATE OF c ON a INITIALLY IMMEDIATE FOR EACH STATEMENT EXECUTE FUNCTION f()",
}
var triggerWords = []string{"CREATE", "CONSTRAINT", "TRIGGER", "before", "INSTEAD", "OF", "INSERT", "UPDATE", "OR", "ON", "x", ",", "NOT", "DEFERRABLE", "INITIALLY", "IMMEDIATE", "DEFERRED", "FOR", "EACH", "ROW", "STATEMENT", "EXECUTE", "PROCEDURE", "f()"}

var indexTexts = []string{
	"CREATE INDEX i ON t (a)",
	"create unique index i1 on t\nusing btree ( a ops , b , c o2 ) where a > 0",
	" CREATE INDEX i ON t USING gin ((a+b) ops, c) ",
	"CREATE INDEX i ON t (f(a, b), c) WHERE  (a)  = 'x' ",
}
var indexWords = []string{"CREATE", "UNIQUE", "INDEX", "x", "ON", "USING", "(a)", "(", ")", ",", "a", "((a))", "f()", "WHERE"}

var fkTexts = []string{
	"FOREIGN KEY (a) REFERENCES t(b)",
	"foreign key ( a , b1 ) references t( c,\nd ) match full on delete set null on update no action not deferrable ",
	" FOREIGN KEY (a) REFERENCES t(b) MATCH PARTIAL ON DELETE CASCADE DEFERRABLE INITIALLY DEFERRED",
	"FOREIGN KEY (a) REFERENCES t(b) MATCH SIMPLE ON UPDATE SET DEFAULT DEFERRABLE",
	"FOREIGN KEY (a) REFERENCES t(b) ON DELETE NO ACTION ON UPDATE RESTRICT INITIALLY IMMEDIATE",
}
var fkWords = []string{"FOREIGN", "KEY", "(a)", "REFERENCES", "t(b)", "MATCH", "FULL", "ON", "DELETE", "UPDATE", "NO", "ACTION", "SET", "NULL", "DEFAULT", "CASCADE", "NOT", "DEFERRABLE", "INITIALLY", "IMMEDIATE", "DEFERRED"}

var checkTexts = []string{
	"CHECK (a > 0)",
	"check((a)) not deferrable",
	" CHECK ( (a) OR\n(b) ) DEFERRABLE INITIALLY DEFERRED ",
	"CHECK (a) INITIALLY IMMEDIATE",
	"CHECK (a) DEFERRABLE",
}
var checkWords = []string{"CHECK", "(a)", "(", ")", "NOT", "DEFERRABLE", "INITIALLY", "IMMEDIATE", "DEFERRED", "x"}

// mutant replaces up to del bytes at any position by up to ins arbitrary bytes.
func mutant(texts []string) string {
	s := texts[sym.Choose("text", len(texts))]
	del := sym.Choose("del", sym.Param("del", 1)+1)
	ins := sym.Choose("ins", sym.Param("ins", 1)+1)
	at := sym.Choose("at", len(s)-del+1)
	return s[:at] + sym.StrN("bytes", ins) + s[at+del:]
}

// cutoff is a prefix of a definition followed by arbitrary bytes.
func cutoff(texts []string) string {
	s := texts[sym.Choose("text", len(texts))]
	at := sym.Choose("at", len(s)+1)
	return s[:at] + sym.StrN("bytes", sym.Choose("tail", sym.Param("tail", 1)+1))
}

// words replaces up to wdel words at any position by up to wins words of the vocabulary.
func words(texts, vocabulary []string) string {
	w := strings.Split(texts[sym.Choose("text", len(texts))], " ")
	del := sym.Choose("del", sym.Param("wdel", 1)+1)
	ins := sym.Choose("ins", sym.Param("wins", 1)+1)
	at := sym.Choose("at", len(w)-del+1)
	out := append([]string{}, w[:at]...)
	for i := 0; i < ins; i++ {
		out = append(out, vocabulary[sym.Choose("word", len(vocabulary))])
	}
	return strings.Join(append(out, w[at+del:]...), " ")
}

// oneOf says that exactly one of result and error is given, and renders the error.
func oneOf(result bool, err error) {
	sym.Assert(result != (err != nil), "a parser returns either a result or an error")
	if err != nil {
		sym.Assert(err.Error() != "", "the error has a text")
	}
}

const sound = "only definitions of the grammar are accepted"
const complete = "a definition of the grammar is accepted"

func triggerAgrees(s string) {
	a, err := ddl.ParseTrigger(s)
	oneOf(a != nil, err)
	t, ok := readTrigger(s)
	if ok {
		sym.Assert(a != nil, complete)
		sameTrigger(a, t)
		sym.Reach("accepted")
	} else {
		sym.Assert(a == nil, sound)
		sym.Reach("rejected")
	}
}

func indexAgrees(s string) {
	a, err := ddl.ParseIndex(s)
	oneOf(a != nil, err)
	x, ok := readIndex(s)
	if ok {
		sym.Assert(a != nil, complete)
		sameIndex(a, x)
		sym.Reach("accepted")
	} else {
		sym.Assert(a == nil, sound)
		sym.Reach("rejected")
	}
}

func fkAgrees(s string) {
	a, err := ddl.ParseForeignKey(s)
	oneOf(a != nil, err)
	x, ok := readFK(s)
	if ok {
		sym.Assert(a != nil, complete)
		sameFK(a, x)
		sym.Reach("accepted")
	} else {
		sym.Assert(a == nil, sound)
		sym.Reach("rejected")
	}
}

func checkAgrees(s string) {
	a, err := ddl.ParseCheck(s)
	oneOf(a != nil, err)
	x, ok := readCheck(s)
	if ok {
		sym.Assert(a != nil, complete)
		sameCheck(a, x)
		sym.Reach("accepted")
	} else {
		sym.Assert(a == nil, sound)
		sym.Reach("rejected")
	}
}

// TriggerMutant compares the parser with the reference reader.
//
//verif:harness C15 mutant del=1 ins=1 thorough:ins=2
//verif:harness C19 trigger-mutant del=1 ins=1 thorough:ins=2
//verif:bound four definitions in which up to del bytes at any position are replaced by up to ins arbitrary bytes (0-255)
//verif:reach accepted rejected
func TriggerMutant() { triggerAgrees(mutant(triggerTexts)) }

// TriggerWords compares the parser with the reference reader.
//
//verif:harness C15 words wdel=1 wins=1 thorough:wdel=2 thorough:wins=2
//verif:harness C19 trigger-words wdel=1 wins=1 thorough:wdel=2 thorough:wins=2
//verif:bound four definitions in which up to wdel words at any position are replaced by up to wins words of the vocabulary
//verif:reach accepted rejected
func TriggerWords() { triggerAgrees(words(triggerTexts, triggerWords)) }

// IndexMutant compares the parser with the reference reader.
//
//verif:harness C16 mutant del=1 ins=1 thorough:del=2 thorough:ins=2
//verif:harness C19 index-mutant del=1 ins=1 thorough:del=2 thorough:ins=2
//verif:bound four definitions in which up to del bytes at any position are replaced by up to ins arbitrary bytes (0-255)
//verif:reach accepted rejected
func IndexMutant() { indexAgrees(mutant(indexTexts)) }

// IndexWords compares the parser with the reference reader.
//
//verif:harness C16 words wdel=1 wins=2 thorough:wdel=2 thorough:wins=3
//verif:harness C19 index-words wdel=1 wins=2 thorough:wdel=2 thorough:wins=3
//verif:bound four definitions in which up to wdel words at any position are replaced by up to wins words of the vocabulary
//verif:reach accepted rejected
func IndexWords() { indexAgrees(words(indexTexts, indexWords)) }

// ForeignKeyMutant compares the parser with the reference reader.
//
//verif:harness C17 mutant del=1 ins=1 thorough:ins=2
//verif:harness C19 fk-mutant del=1 ins=1 thorough:ins=2
//verif:bound five definitions in which up to del bytes at any position are replaced by up to ins arbitrary bytes (0-255)
//verif:reach accepted rejected
func ForeignKeyMutant() { fkAgrees(mutant(fkTexts)) }

// ForeignKeyWords compares the parser with the reference reader.
//
//verif:harness C17 words wdel=1 wins=1 thorough:wdel=2 thorough:wins=2
//verif:harness C19 fk-words wdel=1 wins=1 thorough:wdel=2 thorough:wins=2
//verif:bound five definitions in which up to wdel words at any position are replaced by up to wins words of the vocabulary
//verif:reach accepted rejected
func ForeignKeyWords() { fkAgrees(words(fkTexts, fkWords)) }

// CheckMutant compares the parser with the reference reader.
//
//verif:harness C18 mutant del=1 ins=1 thorough:del=2 thorough:ins=2
//verif:harness C19 check-mutant del=1 ins=1 thorough:del=2 thorough:ins=2
//verif:bound five definitions in which up to del bytes at any position are replaced by up to ins arbitrary bytes (0-255)
//verif:reach accepted rejected
func CheckMutant() { checkAgrees(mutant(checkTexts)) }

// CheckWords compares the parser with the reference reader.
//
//verif:harness C18 words wdel=1 wins=2 thorough:wdel=2 thorough:wins=3
//verif:harness C19 check-words wdel=1 wins=2 thorough:wdel=2 thorough:wins=3
//verif:bound five definitions in which up to wdel words at any position are replaced by up to wins words of the vocabulary
//verif:reach accepted rejected
func CheckWords() { checkAgrees(words(checkTexts, checkWords)) }

// CutOff ends definitions anywhere and appends arbitrary bytes.
//
//verif:harness C19 cutoff tail=1 thorough:tail=2
//verif:bound every prefix of the sample definitions followed by up to tail arbitrary bytes, for all four parsers
//verif:reach accepted rejected
func CutOff() {
	switch sym.Choose("parser", 4) {
	case 0:
		triggerAgrees(cutoff(triggerTexts))
	case 1:
		indexAgrees(cutoff(indexTexts))
	case 2:
		fkAgrees(cutoff(fkTexts))
	case 3:
		checkAgrees(cutoff(checkTexts))
	}
}

// Short feeds all four parsers arbitrary short texts.
//
//verif:harness C19 short len=5 thorough:len=8
//verif:bound every byte string of up to len bytes, for all four parsers
//verif:reach rejected
func Short() {
	n := sym.Choose("len", sym.Param("len", 3)+1)
	s := sym.StrN("text", n)
	switch sym.Choose("parser", 4) {
	case 0:
		triggerAgrees(s)
	case 1:
		indexAgrees(s)
	case 2:
		fkAgrees(s)
	case 3:
		checkAgrees(s)
	}
}

// marker is the text of an error at position at.
func marker(s string, at int) string {
	from := strings.LastIndexByte(s[:at], '\n') + 1
	line := s[from:]
	if i := strings.IndexByte(s[at:], '\n'); i >= 0 {
		line = s[from : at+i]
	}
	return line + "\n" + strings.Repeat(" ", at-from) + "^"
}

// Position checks where errors are reported.
//
//verif:harness C19 position
//verif:bound the sample definitions with a byte that cannot stand there (any control byte that is no white space, or any byte from 128) at any position outside expressions, or cut off anywhere
//verif:reach bad cut
func Position() {
	p := sym.Choose("parser", 4)
	texts := [][]string{triggerTexts, indexTexts, fkTexts, checkTexts}[p]
	s := texts[sym.Choose("text", len(texts))]
	limit := len(s)
	if p == 3 {
		limit = strings.IndexByte(s, '(')
	}
	if p == 1 {
		if i := strings.Index(strings.ToLower(s), " where "); i > 0 {
			limit = i
		}
	}
	at := sym.Choose("at", limit+1)
	if p == 1 && strings.Count(s[:at], "(") > 1+strings.Count(s[:at], ")") {
		return // inside an expression
	}
	parse := func(s string) (bool, bool, error) {
		switch p {
		case 0:
			_, ok := readTrigger(s)
			a, err := ddl.ParseTrigger(s)
			return a != nil, ok, err
		case 1:
			_, ok := readIndex(s)
			a, err := ddl.ParseIndex(s)
			return a != nil, ok, err
		case 2:
			_, ok := readFK(s)
			a, err := ddl.ParseForeignKey(s)
			return a != nil, ok, err
		default:
			_, ok := readCheck(s)
			a, err := ddl.ParseCheck(s)
			return a != nil, ok, err
		}
	}
	if sym.Bool("cut") {
		s = s[:at]
		got, ok, err := parse(s)
		sym.Assert(got == ok, "a cut off definition is accepted exactly when it is complete")
		if !ok {
			sym.Assert(err != nil && err.Error() == "error after end of data", "an incomplete definition is reported as such")
			sym.Reach("cut")
		}
		return
	}
	b := sym.Byte("bad")
	sym.Assume(sym.Or(sym.Or(b < 9, sym.And(b > 13, b < 32)), b >= 127))
	x := string([]byte{b})
	s = s[:at] + x + s[at:]
	got, _, err := parse(s)
	sym.Assert(!got, sound)
	sym.Assert(err != nil && err.Error() == marker(s, at), "the error points at the first character at which no definition can go on")
	sym.Reach("bad")
}
