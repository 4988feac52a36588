package pgwire

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"errors"
	"io"
	"math/big"
	"net"
	"os"
	"os/user"
	"path/filepath"
	"strconv"
	"sync"
	"time"

	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

// server is the one server there is.
var server *Server

// Env is the environment of the client.
var env map[string]string

var variables = []string{"PGHOST", "PGPORT", "PGDATABASE", "PGUSER", "PGPASSWORD", "PGSSLMODE", "PGPASSFILE",
	"PGCONNECT_TIMEOUT", "PGTARGETSESSIONATTRS", "PGSSLKEY", "PGSSLCERT", "PGSSLROOTCERT", "PGAPPNAME"}

// Start starts a server that listens on the given ports of the given hosts.
func Start(srv *Server, environment map[string]string, hostNames []string, ports []int) (stop func()) {
	server, env, hosts = srv, environment, hostNames
	tlsConns = map[*tls.Conn]*tlsConn{}
	Pauses = nil
	lastDial = time.Time{}
	if !sym.Native() {
		return func() {}
	}
	for _, v := range variables {
		os.Unsetenv(v)
	}
	os.Setenv("PGPASSFILE", "/dev/null")
	for k, v := range env {
		os.Setenv(k, v)
	}
	setupTLS()
	net.DefaultResolver = &net.Resolver{PreferGo: true, Dial: dns}
	var ls []net.Listener
	for _, p := range ports {
		l, err := net.Listen("tcp4", "0.0.0.0:"+strconv.Itoa(p))
		for i := 0; err != nil && i < 400; i++ { // another run may be using the port
			time.Sleep(50 * time.Millisecond)
			l, err = net.Listen("tcp4", "0.0.0.0:"+strconv.Itoa(p))
		}
		check(err)
		ls = append(ls, l)
		go listen(l, srv, strconv.Itoa(p))
	}
	return func() {
		for _, l := range ls {
			l.Close()
		}
	}
}

func check(err error) {
	if err != nil {
		panic(err)
	}
}

// conn is the client's end of a connection in memory.
type conn struct{ s *Session }

func (c *conn) Read(p []byte) (int, error) {
	if c.s.Closed {
		return 0, errors.New("use of closed connection")
	}
	if len(c.s.out) == 0 {
		if c.s.eof {
			return 0, io.EOF
		}
		return 0, errors.New("the server has nothing to say")
	}
	n := copy(p, c.s.out)
	c.s.out = c.s.out[n:]
	return n, nil
}

func (c *conn) Write(p []byte) (int, error) {
	if c.s.Closed {
		return 0, errors.New("use of closed connection")
	}
	c.s.input(p)
	return len(p), nil
}

func (c *conn) Close() error {
	c.s.Closed = true
	return nil
}

func (c *conn) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (c *conn) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (c *conn) SetDeadline(t time.Time) error      { return nil }
func (c *conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { return nil }

// Dial replaces the one of net.
//
//verif:stub (*net.Dialer).Dial
func Dial(d *net.Dialer, network, address string) (net.Conn, error) {
	i := len(address) - 1
	for i > 0 && address[i] != ':' {
		i--
	}
	s := server.dial(address[:i], address[i+1:])
	if s.attempt.Refuse {
		return nil, errors.New("connection refused")
	}
	return &conn{s}, nil
}

// Getenv replaces the one of os.
//
//verif:stub os.Getenv
func Getenv(name string) string { return env[name] }

// Current replaces the one of os/user.
//
//verif:stub os/user.Current
func Current() (*user.User, error) {
	return &user.User{Username: "nobody", HomeDir: "/nonexistent"}, nil
}

// Pauses are the pauses of the client, in milliseconds.
var Pauses []int64

// Sleep replaces the one of time.
//
//verif:stub time.Sleep
func Sleep(d time.Duration) { Pauses = append(Pauses, int64(d/time.Millisecond)) }

// tlsConn is the client's end of an encrypted connection.
type tlsConn struct {
	inner  net.Conn
	config *tls.Config
	done   bool
	err    error
}

var tlsConns map[*tls.Conn]*tlsConn

// TLSClient replaces the one of crypto/tls.
//
//verif:stub crypto/tls.Client
func TLSClient(inner net.Conn, config *tls.Config) *tls.Conn {
	c := &tls.Conn{}
	tlsConns[c] = &tlsConn{inner: inner, config: config}
	return c
}

// Handshake replaces the one of crypto/tls.
//
//verif:stub (*crypto/tls.Conn).Handshake
func Handshake(c *tls.Conn) error {
	t := tlsConns[c]
	if t.done {
		return t.err
	}
	t.done = true
	s := t.inner.(*conn).s
	switch {
	case t.config.InsecureSkipVerify:
	case t.config.ServerName == "":
		t.err = errors.New("tls: either ServerName or InsecureSkipVerify must be specified in the tls.Config")
	case !s.attempt.Trusted:
		t.err = errors.New("x509: certificate signed by unknown authority")
	case s.attempt.CertFor != t.config.ServerName:
		t.err = errors.New("x509: certificate is not valid for the server name")
	}
	return t.err
}

// TLSWrite replaces the one of crypto/tls.
//
//verif:stub (*crypto/tls.Conn).Write
func TLSWrite(c *tls.Conn, p []byte) (int, error) {
	if err := Handshake(c); err != nil {
		return 0, err
	}
	return tlsConns[c].inner.Write(p)
}

// TLSRead replaces the one of crypto/tls.
//
//verif:stub (*crypto/tls.Conn).Read
func TLSRead(c *tls.Conn, p []byte) (int, error) {
	if err := Handshake(c); err != nil {
		return 0, err
	}
	return tlsConns[c].inner.Read(p)
}

// TLSClose replaces the one of crypto/tls.
//
//verif:stub (*crypto/tls.Conn).Close
func TLSClose(c *tls.Conn) error { return tlsConns[c].inner.Close() }

// TLSSetDeadline replaces the one of crypto/tls.
//
//verif:stub (*crypto/tls.Conn).SetDeadline
func TLSSetDeadline(c *tls.Conn, t time.Time) error { return nil }

// TLSSetReadDeadline replaces the one of crypto/tls.
//
//verif:stub (*crypto/tls.Conn).SetReadDeadline
func TLSSetReadDeadline(c *tls.Conn, t time.Time) error { return nil }

// The rest is for native runs.

var (
	mu       sync.Mutex
	lastDial time.Time
	tlsOnce  sync.Once
	hosts    []string
	caKey    *ecdsa.PrivateKey
	ca       *x509.Certificate
)

// Lock gives access to the sessions.
func Lock(f func()) {
	if !sym.Native() {
		f()
		return
	}
	mu.Lock()
	defer mu.Unlock()
	f()
}

func listen(l net.Listener, srv *Server, port string) {
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		mu.Lock()
		now := time.Now()
		if !lastDial.IsZero() {
			Pauses = append(Pauses, int64(now.Sub(lastDial)/time.Millisecond))
		}
		lastDial = now
		host, _, _ := net.SplitHostPort(c.LocalAddr().String())
		if ip := net.ParseIP(host).To4(); ip[1] == 1 {
			host = hosts[ip[3]]
		} else {
			for _, h := range hosts {
				if h == "localhost" {
					host = h
				}
			}
		}
		s := srv.dial(host, port)
		mu.Unlock()
		go serve(c, s)
	}
}

func serve(c net.Conn, s *Session) {
	defer c.Close()
	if s.attempt.Refuse {
		c.(*net.TCPConn).SetLinger(0)
		return
	}
	buf := make([]byte, 65536)
	for {
		n, err := c.Read(buf)
		mu.Lock()
		if err != nil {
			s.Closed = true
			mu.Unlock()
			return
		}
		was := s.state
		s.input(buf[:n])
		out, eof := s.out, s.eof
		s.out = nil
		start := was == starting && s.state == handshake
		mu.Unlock()
		if _, err := c.Write(out); err != nil || eof {
			return
		}
		if start {
			t := tls.Server(c, &tls.Config{GetCertificate: func(h *tls.ClientHelloInfo) (*tls.Certificate, error) {
				return certificate(s.attempt.CertFor, s.attempt.Trusted)
			}})
			if err := t.Handshake(); err != nil {
				return
			}
			c = t
		}
	}
}

func setupTLS() {
	tlsOnce.Do(func() {
		key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		check(err)
		t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "CA"},
			NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour),
			IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
		der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
		check(err)
		ca, err = x509.ParseCertificate(der)
		check(err)
		caKey = key
		dir, err := os.MkdirTemp("", "pgwire")
		check(err)
		file := filepath.Join(dir, "ca.pem")
		check(os.WriteFile(file, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0600))
		os.Setenv("SSL_CERT_FILE", file)
		os.Setenv("SSL_CERT_DIR", dir)
		x509.SystemCertPool()
		os.RemoveAll(dir)
	})
}

func certificate(host string, trusted bool) (*tls.Certificate, error) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		return nil, err
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: "server"},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), DNSNames: []string{"unrelated.example"}}
	if ip := net.ParseIP(host); ip != nil {
		t.IPAddresses = []net.IP{ip}
	} else if host != "" {
		t.DNSNames = []string{host}
	}
	parent, signer := ca, caKey
	if !trusted {
		parent, signer = t, key
	}
	der, err := x509.CreateCertificate(rand.Reader, t, parent, &key.PublicKey, signer)
	if err != nil {
		return nil, err
	}
	return &tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}, nil
}

// dns answers questions for the hosts with addresses of the loopback network.
func dns(ctx context.Context, network, address string) (net.Conn, error) {
	client, srv := net.Pipe()
	go func() {
		defer srv.Close()
		for {
			var size [2]byte
			if _, err := io.ReadFull(srv, size[:]); err != nil {
				return
			}
			q := make([]byte, int(size[0])<<8|int(size[1]))
			if _, err := io.ReadFull(srv, q); err != nil {
				return
			}
			i := 12
			for q[i] != 0 {
				i += int(q[i]) + 1
			}
			typ := int(q[i+1])<<8 | int(q[i+2])
			a := append([]byte{}, q[:i+5]...)
			a[2], a[3] = 0x85, 0x80
			a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11] = 0, 1, 0, 0, 0, 0, 0, 0
			name := ""
			for i := 12; q[i] != 0; i += int(q[i]) + 1 {
				name += string(q[i+1:i+1+int(q[i])]) + "."
			}
			found := false
			for i, h := range hosts {
				if len(name) > len(h) && name[:len(h)+1] == h+"." {
					found = true
					if typ == 1 && a[7] == 0 {
						a[7] = 1
						a = append(a, 0xc0, 12, 0, 1, 0, 1, 0, 0, 0, 60, 0, 4, 127, 1, 0, byte(i))
					}
				}
			}
			if !found {
				a[3] = 0x83
			}
			srv.Write(append([]byte{byte(len(a) >> 8), byte(len(a))}, a...))
		}
	}()
	return client, nil
}
