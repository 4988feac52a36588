package ddlsql

import "github.com/sjansen/pgutil/internal/zzverif/sym"

// A token of the SQL lexical grammar of PostgreSQL: a word (keyword, bare name or number), a quoted name, a
// string constant, or one character of punctuation.
type token struct {
	kind byte // 'w', 'n', 's' or 'p'
	text string
}

func space(c byte) bool { return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\f' }

func wordChar(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c >= 0x80
}

// lex splits a text into tokens; it returns false for an unfinished quoted token.
func lex(s string) ([]token, bool) {
	var toks []token
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case space(c):
			i++
		case c == '"' || c == '\'':
			kind := byte('n')
			if c == '\'' {
				kind = 's'
			}
			var text []byte
			for i++; ; i++ {
				if i >= len(s) {
					return nil, false
				}
				if s[i] == c {
					if i+1 < len(s) && s[i+1] == c {
						i++
					} else {
						break
					}
				}
				text = append(text, s[i])
			}
			i++
			toks = append(toks, token{kind, string(text)})
		case c == '$':
			j := i + 1
			for j < len(s) && s[j] != '$' && wordChar(s[j]) {
				j++
			}
			if j >= len(s) || s[j] != '$' {
				return nil, false
			}
			quote := s[i : j+1]
			start := j + 1
			end := start
			for end+len(quote) <= len(s) && s[end:end+len(quote)] != quote {
				end++
			}
			if end+len(quote) > len(s) {
				return nil, false
			}
			toks = append(toks, token{'s', s[start:end]})
			i = end + len(quote)
		case wordChar(c):
			j := i
			for j < len(s) && wordChar(s[j]) {
				j++
			}
			toks = append(toks, token{'w', s[i:j]})
			i = j
		default:
			toks = append(toks, token{'p', s[i : i+1]})
			i++
		}
	}
	return toks, true
}

// want builds the tokens a statement should have.
type want struct{ toks []token }

// sql adds the tokens of a fixed text or of an SQL fragment.
func (w *want) sql(s string) *want {
	toks, ok := lex(s)
	sym.Assume(ok)
	w.toks = append(w.toks, toks...)
	return w
}

func (w *want) name(s string) *want {
	w.toks = append(w.toks, token{'n', s})
	return w
}

func (w *want) str(s string) *want {
	w.toks = append(w.toks, token{'s', s})
	return w
}

// check compares a generated text with the tokens it should have.
func (w *want) check(got string, err error) {
	sym.Observe("sql", got)
	sym.Assert(err == nil, "the statement is generated")
	toks, ok := lex(got)
	sym.Assert(ok, "every quoted token is closed")
	sym.Assert(len(toks) == len(w.toks), "the statement has exactly the expected tokens")
	for i, t := range toks {
		sym.Assert(t.kind == w.toks[i].kind, "every token is of the expected kind")
		sym.Assert(sym.EqStr(t.text, w.toks[i].text), "every token has the expected text")
	}
}
