// Package ddlparse checks the parsers of trigger, index, foreign key and check definitions (C15-C19).
package ddlparse

import "github.com/sjansen/pgutil/internal/zzverif/sym"

const space = " \t\n\v\f\r"
const alpha = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
const alnum = alpha + "_0123456789"

// gen builds definitions out of symbolic pieces.
type gen struct {
	b        []string
	wsLen    int
	idLen    int
	concrete bool
	filler   string
	word     string
	blanks   string
}

func (g *gen) lit(s string) { g.b = append(g.b, s) }

// kw adds a keyword in any letter case.
func (g *gen) kw(s string) {
	if g.concrete {
		g.b = append(g.b, s)
		return
	}
	for i := 0; i < len(s); i++ {
		g.b = append(g.b, sym.StrNIn("k", 1, string([]byte{s[i], s[i] + 32})))
	}
}

// ws adds white space.
func (g *gen) ws() {
	if g.blanks != "" {
		g.b = append(g.b, g.blanks)
		return
	}
	if g.concrete {
		g.b = append(g.b, " ")
		return
	}
	g.b = append(g.b, sym.StrNIn("w", g.wsLen, space))
}

// opt adds optional white space.
func (g *gen) opt() {
	if g.blanks != "" {
		g.b = append(g.b, g.blanks)
		return
	}
	if g.wsLen > 1 && !g.concrete {
		g.b = append(g.b, sym.StrNIn("w", g.wsLen-1, space))
	}
}

// ident adds a name and returns it.
func (g *gen) ident() string {
	if g.word != "" {
		g.b = append(g.b, g.word)
		return g.word
	}
	s := sym.StrNIn("i", 1, alpha)
	s += g.filler
	if g.idLen > 1 {
		s += sym.StrNIn("j", g.idLen-1, alnum)
	}
	g.b = append(g.b, s)
	return s
}

func (g *gen) text() string {
	s := ""
	for _, x := range g.b {
		s += x
	}
	return s
}

func newGen() *gen {
	return &gen{wsLen: 1 + sym.Choose("wslen", sym.Param("wslen", 2)), idLen: 1 + sym.Choose("idlen", sym.Param("idlen", 2))}
}

func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// deferral adds a deferral clause.
func (g *gen) deferral() (deferrable, deferred bool) {
	switch sym.Choose("deferral", 5) {
	case 0:
		return false, false
	case 1:
		g.ws()
		g.kw("NOT")
		g.ws()
		g.kw("DEFERRABLE")
		return false, false
	case 2:
		g.ws()
		g.kw("DEFERRABLE")
		return true, false
	case 3:
		g.ws()
		g.kw("DEFERRABLE")
		deferrable = true
	}
	k := sym.Choose("initially", 2)
	g.ws()
	g.kw("INITIALLY")
	g.ws()
	if k == 0 {
		g.kw("IMMEDIATE")
		return deferrable, false
	}
	g.kw("DEFERRED")
	return deferrable, true
}

// plain generates upper case keywords and single blanks.
func plain() *gen { return &gen{wsLen: 1, idLen: 1, concrete: true} }

var sqlWords = []string{"as", "asc", "desc", "nulls", "first", "last", "on", "or", "of", "if", "not", "null", "for", "key", "row", "where", "using", "only", "with", "check", "index", "table", "unique", "foreign", "match", "default", "public", "include", "execute", "initially", "deferrable", "references", "concurrently", "unlogged", "pg_catalog", "true", "btree"}

// keyword is one of the SQL words in any letter case.
func keyword() string {
	w := sqlWords[sym.Choose("word", len(sqlWords))]
	s := ""
	for i := 0; i < len(w); i++ {
		if w[i] == '_' {
			s += "_"
		} else {
			s += sym.StrNIn("n", 1, string([]byte{w[i], w[i] - 32}))
		}
	}
	return s
}
