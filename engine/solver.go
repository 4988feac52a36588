package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Solver drives one SMT solver process over a pipe.  Definitions are sent once at the base level;
// each query is a push / assert / check-sat / get-value / pop.

type SatResult int

const (
	Unknown SatResult = iota
	Sat
	Unsat
)

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN int
	Time                            time.Duration
	CacheHits                       int
	RangeDecided                    int // conditions refuted by interval arithmetic over the path's ranges
	DomainDecided                   int // single 8-bit variable conditions decided by the complete domain table
	Confirmed                       int // refutations by domains and ranges that the solver was asked to confirm
	ModelDecided                    int // one side known feasible from the current model
}

type Solver struct {
	bin   string
	args  []string
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	decl  map[int32]bool
	bank  *Bank
	st    *SolverStats
	cache map[string]*cachedRes
	sent  []*Term
	dump  io.Writer
}

type cachedRes struct {
	r     SatResult
	model map[int32]uint64
}

func newSolver(bank *Bank, st *SolverStats, which string) *Solver {
	s := &Solver{bank: bank, st: st, decl: map[int32]bool{}, cache: map[string]*cachedRes{}}
	switch which {
	case "cvc5":
		s.bin, s.args = "cvc5", []string{"--incremental", "--produce-models", "--lang=smt2", "--tlimit-per=20000"}
	default:
		s.bin, s.args = which, []string{"-in", "-smt2", "-t:20000"}
	}
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic("cannot start solver: " + err.Error())
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	io.WriteString(in, "(set-option :produce-models true)\n(set-logic QF_BV)\n")
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
	for _, t := range s.sent {
		t.defined = false
	}
	s.sent = nil
	s.decl = map[int32]bool{}
}

// define sends definitions of every large sub-term of t.
func (s *Solver) define(t *Term, sb *strings.Builder) {
	if t.defined || t.op == OConst {
		return
	}
	if t.op == OVar {
		if !s.decl[int32(t.v)] {
			s.decl[int32(t.v)] = true
			fmt.Fprintf(sb, "(declare-const %s %s)\n", smtName(t), sortStr(t.w))
		}
		return
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s.define(x, sb)
		}
	}
	if t.size > 6 {
		fmt.Fprintf(sb, "(define-fun t%d () %s ", t.id, sortStr(t.w))
		t.body(sb)
		sb.WriteString(")\n")
		t.defined = true
		s.sent = append(s.sent, t)
	}
}

// check decides the conjunction of cs; on Sat the model covers their variables.
func (s *Solver) check(cs []*Term) (SatResult, map[int32]uint64) {
	ids := make([]int, 0, len(cs))
	for _, c := range cs {
		if c == s.bank.False {
			return Unsat, nil
		}
		if c != s.bank.True {
			ids = append(ids, int(c.id))
		}
	}
	sort.Ints(ids)
	var kb strings.Builder
	last := -1
	for _, id := range ids {
		if id != last {
			kb.WriteString(strconv.Itoa(id))
			kb.WriteByte(',')
			last = id
		}
	}
	key := kb.String()
	if r, ok := s.cache[key]; ok {
		s.st.CacheHits++
		return r.r, r.model
	}
	if s.cmd == nil {
		s.start()
	}
	t0 := time.Now()
	var sb strings.Builder
	for _, c := range cs {
		s.define(c, &sb)
	}
	sb.WriteString("(push 1)\n")
	vs := map[int32]bool{}
	for _, c := range cs {
		if c == s.bank.True {
			continue
		}
		sb.WriteString("(assert ")
		c.ref(&sb)
		sb.WriteString(")\n")
		for _, v := range c.vars {
			vs[v] = true
		}
	}
	sb.WriteString("(check-sat)\n")
	if s.dump != nil {
		io.WriteString(s.dump, sb.String())
	}
	io.WriteString(s.in, sb.String())
	line := s.readLine()
	res := &cachedRes{}
	switch line {
	case "sat":
		res.r = Sat
		s.st.SatN++
		vars := make([]int32, 0, len(vs))
		for v := range vs {
			vars = append(vars, v)
		}
		sort.Slice(vars, func(i, j int) bool { return vars[i] < vars[j] })
		res.model = map[int32]uint64{}
		if len(vars) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, v := range vars {
				q.WriteString(smtName(s.bank.byID[v]))
				q.WriteByte(' ')
			}
			q.WriteString("))\n")
			io.WriteString(s.in, q.String())
			s.parseValues(vars, res.model)
		}
	case "unsat":
		res.r = Unsat
		s.st.UnsatN++
	default:
		if strings.HasPrefix(line, "(error") {
			panic(fmt.Sprintf("solver error: %s", line))
		}
		res.r = Unknown
		s.st.UnknownN++
	}
	io.WriteString(s.in, "(pop 1)\n")
	s.st.Queries++
	s.st.Time += time.Since(t0)
	s.cache[key] = res
	return res.r, res.model
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic("solver died: " + err.Error())
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

// parseValues reads the s-expression ((|x| #x00) ...) in the order of vars.
func (s *Solver) parseValues(vars []int32, m map[int32]uint64) {
	depth := 0
	var sb strings.Builder
	inq := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			panic("solver died")
		}
		if c == '|' {
			inq = !inq
		}
		sb.WriteByte(c)
		if !inq {
			if c == '(' {
				depth++
			} else if c == ')' {
				depth--
				if depth == 0 {
					break
				}
			}
		}
	}
	txt := sb.String()
	if strings.HasPrefix(txt, "(error") {
		panic("solver error: " + txt)
	}
	i := 0
	pos := 0
	for i < len(vars) {
		name := smtName(s.bank.byID[vars[i]])
		p := strings.Index(txt[pos:], name)
		if p < 0 {
			// unquoted symbol
			name = s.bank.byID[vars[i]].name
			p = strings.Index(txt[pos:], "("+name+" ")
			if p < 0 {
				panic("cannot parse model: " + txt)
			}
			p++
		}
		pos += p + len(name)
		rest := strings.TrimLeft(txt[pos:], " \n")
		var v uint64
		switch {
		case strings.HasPrefix(rest, "#x"):
			j := 2
			for rest[j] != ')' && rest[j] != ' ' {
				j++
			}
			v, _ = strconv.ParseUint(rest[2:j], 16, 64)
		case strings.HasPrefix(rest, "#b"):
			j := 2
			for rest[j] != ')' && rest[j] != ' ' {
				j++
			}
			v, _ = strconv.ParseUint(rest[2:j], 2, 64)
		case strings.HasPrefix(rest, "(_ bv"):
			j := 5
			for rest[j] != ' ' {
				j++
			}
			v, _ = strconv.ParseUint(rest[5:j], 10, 64)
		case strings.HasPrefix(rest, "true"):
			v = 1
		case strings.HasPrefix(rest, "false"):
			v = 0
		default:
			panic("cannot parse model value: " + rest)
		}
		m[vars[i]] = v
		i++
	}
}
