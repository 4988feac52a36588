package rbout

import "strings"

// graph is what a text in the DOT language means.
type graph struct {
	attrs    map[string]string
	clusters []*cluster
	nodes    []string // outside clusters
	edges    [][2]string
}

type cluster struct {
	id, label string
	nodes     []string
}

type dotParser struct {
	s  string
	i  int
	ok bool
}

func (p *dotParser) space() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\n' || p.s[p.i] == '\t' || p.s[p.i] == '\r') {
		p.i++
	}
}

func (p *dotParser) is(t string) bool {
	p.space()
	if strings.HasPrefix(p.s[p.i:], t) {
		p.i += len(t)
		return true
	}
	return false
}

func letter(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}

func digit(c byte) bool { return c >= '0' && c <= '9' }

var entities = []struct{ name, text string }{{"&#34;", `"`}, {"&#39;", "'"}, {"&amp;", "&"}, {"&lt;", "<"}, {"&gt;", ">"}, {"&quot;", `"`}}

// id reads an identifier and says whether it was quoted.
func (p *dotParser) id() (text string, quoted bool) {
	p.space()
	if p.i == len(p.s) {
		p.ok = false
		return "", false
	}
	switch c := p.s[p.i]; {
	case c == '"':
		p.i++
		out := ""
	chars:
		for p.i < len(p.s) {
			rest := p.s[p.i:]
			switch {
			case rest[0] == '"':
				p.i++
				at := p.i
				if p.is("+") {
					more, q := p.id()
					if !q {
						p.ok = false
					}
					return out + more, true
				}
				p.i = at
				return out, true
			case rest[0] == '\\' && len(rest) > 1 && (rest[1] == '"' || rest[1] == '\\'):
				out += rest[1:2]
				p.i += 2
				continue
			case rest[0] == '&':
				for _, e := range entities {
					if strings.HasPrefix(rest, e.name) {
						out += e.text
						p.i += len(e.name)
						continue chars
					}
				}
			}
			out += rest[:1]
			p.i++
		}
		p.ok = false
		return out, true
	case letter(c):
		from := p.i
		for p.i < len(p.s) && (letter(p.s[p.i]) || digit(p.s[p.i])) {
			p.i++
		}
		return p.s[from:p.i], false
	case digit(c) || c == '.' || c == '-':
		from, digits, dots := p.i, 0, 0
		if c == '-' {
			p.i++
		}
		for p.i < len(p.s) && (digit(p.s[p.i]) || p.s[p.i] == '.') {
			if p.s[p.i] == '.' {
				dots++
			} else {
				digits++
			}
			p.i++
		}
		if digits == 0 || dots > 1 {
			p.ok = false
		}
		return p.s[from:p.i], false
	}
	p.ok = false
	return "", false
}

func keyword(s string) bool {
	switch strings.ToLower(s) {
	case "node", "edge", "graph", "digraph", "subgraph", "strict":
		return true
	}
	return false
}

// name reads an identifier that is no keyword.
func (p *dotParser) name() string {
	s, quoted := p.id()
	if !quoted && keyword(s) {
		p.ok = false
	}
	return s
}

func (p *dotParser) body(g *graph, c *cluster) {
	if !p.is("{") {
		p.ok = false
		return
	}
	for p.ok && !p.is("}") {
		if p.is(";") {
			continue
		}
		s, quoted := p.id()
		if !p.ok {
			return
		}
		if !quoted && s == "subgraph" {
			sub := &cluster{id: p.name()}
			for _, o := range g.clusters {
				if o.id == sub.id {
					p.ok = false
				}
			}
			if !strings.HasPrefix(sub.id, "cluster") || c != nil {
				p.ok = false
			}
			g.clusters = append(g.clusters, sub)
			p.body(g, sub)
			continue
		}
		if !quoted && keyword(s) {
			p.ok = false
			return
		}
		switch {
		case p.is("="):
			v := p.name()
			if c == nil {
				g.attrs[s] = v
			} else if s == "label" {
				c.label = v
			}
		case p.is("->"):
			g.edges = append(g.edges, [2]string{s, p.name()})
		case c != nil:
			c.nodes = append(c.nodes, s)
		default:
			g.nodes = append(g.nodes, s)
		}
	}
}

// parseDot returns nil for a text that is not a directed graph.
func parseDot(s string) *graph {
	p := &dotParser{s: s, ok: true}
	g := &graph{attrs: map[string]string{}}
	if !p.is("digraph") {
		return nil
	}
	p.name()
	p.body(g, nil)
	p.space()
	if !p.ok || p.i != len(p.s) {
		return nil
	}
	return g
}
