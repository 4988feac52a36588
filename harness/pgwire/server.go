// Package pgwire is a model of a PostgreSQL server at the level of its wire protocol.  Symbolic runs connect
// to it in memory; natively it listens on the loopback network.
package pgwire

import (
	"encoding/binary"
	"strconv"
)

// Types of columns.
const (
	Bool = 16
	Name = 19
	Int8 = 20
	Text = 25
)

// An Attempt is how the server treats one connection.
type Attempt struct {
	Refuse   bool   // the connection is refused
	TLS      bool   // the server supports TLS
	CertFor  string // the host the certificate is for
	Trusted  bool   // the certificate is trusted
	DenyTLS  bool   // connections are rejected after TLS has started
	DenyText bool   // connections without TLS are rejected
	Password bool   // a password is asked for
}

// A Value is a text or, for booleans and integers, a number; nil stands for NULL.
type Value struct {
	Null bool
	Text string
	Int  int64
	Bool bool
}

// A Column is a column of a result.
type Column struct {
	Name string
	Type int
}

// A Result is the answer to a query.
type Result struct {
	Columns []Column
	Rows    [][]Value
	Err     string // the query is rejected
}

// A Session is what the server has seen of one connection.
type Session struct {
	Host, Port string
	TLS        bool   // TLS was started
	Params     map[string]string
	Password   string
	Asked      bool // a password was asked for
	Accepted   bool // the session was established
	Terminated bool // the client ended it properly
	Closed     bool // the client closed the connection
	Queries    []string

	srv     *Server
	attempt Attempt
	in, out []byte
	eof     bool // nothing follows out
	state   int
	sql     string
	args    []string
	result  *Result
	formats []int
	failed  bool // messages are skipped up to the next Sync
}

const (
	starting = iota
	handshake
	password
	ready
	ended
)

// A Server is a database server.
type Server struct {
	// Attempts say how connections are treated; the last one is for all further connections.
	Attempts []Attempt
	Sessions []*Session
	// Answer answers a query.
	Answer func(sql string, args []string) *Result
	// Steps counts the steps after which the server can fail; it fails at step FaultAt, counted from one,
	// if it is not zero, in the way that Fault says.
	Steps, FaultAt int
	Fault          int
	Faulted        bool
	refused        int
}

// Ways to fail.
const (
	Reject = iota // the query is rejected
	Drop          // the connection ends
	Short         // a row lacks its last field
	Garble        // a row has a number or a boolean that is too long
	Faults
)

// dial opens a connection; it returns nil if it is refused.
func (srv *Server) dial(host, port string) *Session {
	i := len(srv.Sessions) + srv.refused
	if i >= len(srv.Attempts) {
		i = len(srv.Attempts) - 1
	}
	s := &Session{Host: host, Port: port, srv: srv, attempt: srv.Attempts[i], Params: map[string]string{}}
	srv.Sessions = append(srv.Sessions, s)
	if s.attempt.Refuse {
		s.state = ended
	}
	return s
}

// input takes bytes from the client.
func (s *Session) input(p []byte) {
	s.in = append(s.in, p...)
	for s.next() {
	}
}

func (s *Session) next() bool {
	switch s.state {
	case starting, handshake:
		if len(s.in) < 8 {
			return false
		}
		n := int(binary.BigEndian.Uint32(s.in))
		if len(s.in) < n {
			return false
		}
		msg := s.in[4:n]
		s.in = s.in[n:]
		s.startup(int(binary.BigEndian.Uint32(msg)), msg[4:])
	case password, ready:
		if len(s.in) < 5 {
			return false
		}
		n := int(binary.BigEndian.Uint32(s.in[1:])) + 1
		if len(s.in) < n {
			return false
		}
		kind, msg := s.in[0], s.in[5:n]
		s.in = s.in[n:]
		s.message(kind, msg)
	default:
		s.in = nil
		return false
	}
	return len(s.in) > 0
}

const tlsRequest = 80877103

func (s *Session) startup(code int, msg []byte) {
	if code == tlsRequest {
		if s.state == handshake || !s.attempt.TLS {
			s.out = append(s.out, 'N')
			return
		}
		s.out = append(s.out, 'S')
		s.state = handshake
		s.TLS = true
		return
	}
	for len(msg) > 1 {
		k := cstring(&msg)
		s.Params[k] = cstring(&msg)
	}
	if s.TLS && s.attempt.DenyTLS || !s.TLS && s.attempt.DenyText {
		s.fail("28000")
		s.eof = true
		s.state = ended
		return
	}
	if s.attempt.Password {
		s.send('R', []byte{0, 0, 0, 3})
		s.Asked = true
		s.state = password
		return
	}
	s.accept()
}

func (s *Session) accept() {
	s.send('R', []byte{0, 0, 0, 0})
	s.send('K', []byte{0, 0, 0, 1, 0, 0, 0, 2})
	s.ready()
	s.state = ready
	s.Accepted = true
}

func (s *Session) ready() { s.send('Z', []byte{'I'}) }

func (s *Session) send(kind byte, msg []byte) {
	s.out = append(s.out, kind)
	s.out = append(s.out, be32(len(msg)+4)...)
	s.out = append(s.out, msg...)
}

func (s *Session) fail(code string) {
	s.send('E', []byte("SERROR\x00C"+code+"\x00Mfailed\x00\x00"))
	s.failed = true
}

func be32(n int) []byte { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }

func be16(n int) []byte { return []byte{byte(n >> 8), byte(n)} }

func cstring(p *[]byte) string {
	b := *p
	for i := range b {
		if b[i] == 0 {
			*p = b[i+1:]
			return string(b[:i])
		}
	}
	*p = nil
	return string(b)
}

func int16At(p *[]byte) int {
	n := int(binary.BigEndian.Uint16(*p))
	*p = (*p)[2:]
	return n
}

func int32At(p *[]byte) int {
	n := int(int32(binary.BigEndian.Uint32(*p)))
	*p = (*p)[4:]
	return n
}

// step is a point at which the server can fail; it returns true if it does.
func (s *Session) step() bool {
	srv := s.srv
	if s.state != ready {
		return true
	}
	srv.Steps++
	if srv.FaultAt == 0 || srv.Steps != srv.FaultAt || srv.Fault >= Short {
		return false
	}
	srv.Faulted = true
	if srv.Fault == Drop {
		s.eof = true
		s.state = ended
	} else {
		s.fail("XX000")
	}
	return true
}

func (s *Session) message(kind byte, msg []byte) {
	if s.state == password {
		if kind == 'p' {
			s.Password = cstring(&msg)
			s.accept()
		}
		return
	}
	if kind == 'X' {
		s.Terminated = true
		s.eof = true
		s.state = ended
		return
	}
	if kind == 'S' {
		s.failed = false
		s.ready()
		return
	}
	if s.failed {
		return
	}
	switch kind {
	case 'Q':
		sql := cstring(&msg)
		s.Queries = append(s.Queries, sql)
		s.query(sql, nil)
		if !s.failed && !s.step() {
			s.describe(nil)
			s.execute()
		}
		s.failed = false
		if s.state == ready {
			s.ready()
		}
	case 'P':
		cstring(&msg)
		s.sql = cstring(&msg)
		if several(s.sql) {
			s.fail("42601")
		} else if !s.step() {
			s.send('1', nil)
		}
	case 'D':
		if msg[0] == 'P' {
			s.describe(s.formats)
			return
		}
		n := Params(s.sql)
		p := be16(n)
		for i := 0; i < n; i++ {
			p = append(p, be32(Text)...)
		}
		s.send('t', p)
		s.query(s.sql, nil)
		s.describe(nil)
	case 'B':
		cstring(&msg)
		cstring(&msg)
		for i := int16At(&msg); i > 0; i-- {
			int16At(&msg)
		}
		s.args = nil
		for i := int16At(&msg); i > 0; i-- {
			n := int32At(&msg)
			s.args = append(s.args, string(msg[:n]))
			msg = msg[n:]
		}
		s.formats = nil
		for i := int16At(&msg); i > 0; i-- {
			s.formats = append(s.formats, int16At(&msg))
		}
		if !s.step() {
			s.send('2', nil)
		}
	case 'E':
		s.query(s.sql, s.args)
		s.Queries = append(s.Queries, s.sql)
		if !s.failed {
			s.execute()
		}
	case 'C':
		s.send('3', nil)
	case 'H':
	default:
		s.fail("0A000")
	}
}

func strings(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

// several tells if there is more than one statement, which is only allowed in simple queries.
func several(sql string) bool {
	end := false
	for i := 0; i < len(sql); i++ {
		switch c := sql[i]; {
		case c == ';':
			end = true
		case end && c > ' ':
			return true
		case c == '"' || c == '\'':
			for i++; i < len(sql) && sql[i] != c; i++ {
			}
		}
	}
	return false
}

// Params is the number of parameters of a query.
func Params(sql string) int {
	max := 0
	for i := 0; i < len(sql); i++ {
		switch {
		case sql[i] == '"' || sql[i] == '\'':
			for q := sql[i]; i+1 < len(sql) && sql[i+1] != q; i++ {
			}
			i++
		case sql[i] == '$' && i+1 < len(sql) && sql[i+1] > '0' && sql[i+1] <= '9':
			if n := int(sql[i+1] - '0'); n > max {
				max = n
			}
		}
	}
	return max
}

// query finds the answer to a query; args is nil when only its columns are asked for.
func (s *Session) query(sql string, args []string) {
	s.result = types(sql)
	if s.result == nil && s.srv.Answer != nil {
		s.result = s.srv.Answer(sql, args)
	}
	if s.result == nil {
		s.result = &Result{}
	}
	if s.result.Err != "" {
		s.fail(s.result.Err)
	}
}

func (s *Session) describe(formats []int) {
	if s.failed {
		return
	}
	if len(s.result.Columns) == 0 {
		s.send('n', nil)
		return
	}
	p := be16(len(s.result.Columns))
	for i, c := range s.result.Columns {
		p = append(p, c.Name...)
		p = append(p, 0)
		p = append(p, be32(0)...)
		p = append(p, be16(0)...)
		p = append(p, be32(c.Type)...)
		p = append(p, be16(-1)...)
		p = append(p, be32(-1)...)
		p = append(p, be16(format(formats, i))...)
	}
	s.send('T', p)
}

func format(formats []int, i int) int {
	switch {
	case len(formats) == 0:
		return 0
	case len(formats) == 1:
		return formats[0]
	}
	return formats[i]
}

func (s *Session) execute() {
	for _, row := range s.result.Rows {
		if s.step() {
			return
		}
		fault := -1
		if srv := s.srv; srv.Steps == srv.FaultAt && srv.Fault >= Short {
			fault = srv.Fault
		}
		if fault == Short {
			row = row[:len(row)-1]
			s.srv.Faulted = true
		}
		p := be16(len(row))
		for i, v := range row {
			if v.Null {
				p = append(p, be32(-1)...)
				continue
			}
			b := encode(s.result.Columns[i].Type, format(s.formats, i), v)
			if t := s.result.Columns[i].Type; fault == Garble && (t == Bool || t == Int8) {
				b = append(b, b...)
				s.srv.Faulted = true
			}
			p = append(p, be32(len(b))...)
			p = append(p, b...)
		}
		s.send('D', p)
	}
	if s.step() {
		return
	}
	s.send('C', []byte("SELECT 1\x00"))
}

func encode(typ, format int, v Value) []byte {
	switch {
	case typ == Bool && format == 1:
		if v.Bool {
			return []byte{1}
		}
		return []byte{0}
	case typ == Bool:
		if v.Bool {
			return []byte{'t'}
		}
		return []byte{'f'}
	case typ == Int8 && format == 1:
		b := make([]byte, 8)
		binary.BigEndian.PutUint64(b, uint64(v.Int))
		return b
	case typ == Int8:
		return strconv.AppendInt(nil, v.Int, 10)
	}
	return []byte(v.Text)
}

// types answers the queries for the types that the client library makes when it connects.
func types(sql string) *Result {
	if !strings(sql, "from pg_type t") {
		return nil
	}
	const oid = 26
	switch {
	case strings(sql, "left join pg_type base_type"):
		r := &Result{Columns: []Column{{"oid", oid}, {"typname", Text}}}
		for _, t := range []struct {
			oid  int
			name string
		}{{Bool, "bool"}, {Name, "name"}, {Int8, "int8"}, {Text, "text"}, {oid, "oid"}, {21, "int2"}, {23, "int4"}, {1043, "varchar"}} {
			b := be32(t.oid)
			r.Rows = append(r.Rows, []Value{{Text: string(b)}, {Text: t.name}})
		}
		return r
	case strings(sql, "t.typbasetype"):
		return &Result{Columns: []Column{{"oid", oid}, {"typname", Text}, {"typbasetype", oid}}}
	}
	return &Result{Columns: []Column{{"oid", oid}, {"typname", Text}}}
}
