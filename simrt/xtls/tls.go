// Package xtls replaces package crypto/tls in simulation builds. There is no
// cryptography: a connection begins with a greeting in both directions, which
// takes the place of the handshake, and is plain afterwards.
package xtls

import (
	"context"
	"crypto/tls"
	"errors"
	"io"
	"net"
	"time"

	"verif.local/simrt/sim"
	"verif.local/simrt/xnet"
	"verif.local/simrt/xos"
)

// The greetings of client and server.
const (
	Hello  = "\x16hello"
	Answer = "\x16ok"
)

type Conn struct {
	net.Conn
	client, busy, done bool
	err                error
	q                  sim.WaitQ
}

func (c *Conn) Handshake() error {
	for c.busy {
		c.q.Wait("handshake")
	}
	if c.done || c.err != nil {
		return c.err
	}
	c.busy = true
	c.err = c.greet()
	c.done = c.err == nil
	c.busy = false
	c.q.WakeAll()
	return c.err
}

func (c *Conn) HandshakeContext(ctx context.Context) error {
	if err := ctx.Err(); err != nil {
		return err
	}
	return c.Handshake()
}

func (c *Conn) greet() error {
	send, want := Answer, Hello
	if c.client {
		send, want = want, send
		if _, err := c.Conn.Write([]byte(send)); err != nil {
			return err
		}
	}
	b := make([]byte, len(want))
	if _, err := io.ReadFull(c.Conn, b); err != nil {
		return err
	}
	if string(b) != want {
		return tls.RecordHeaderError{Msg: "first record does not look like a TLS handshake", Conn: c.Conn}
	}
	if !c.client {
		_, err := c.Conn.Write([]byte(send))
		return err
	}
	return nil
}

func (c *Conn) Read(b []byte) (int, error) {
	if err := c.Handshake(); err != nil {
		return 0, err
	}
	return c.Conn.Read(b)
}

func (c *Conn) Write(b []byte) (int, error) {
	if err := c.Handshake(); err != nil {
		return 0, err
	}
	return c.Conn.Write(b)
}

func (c *Conn) CloseWrite() error {
	if !c.done {
		return errors.New("tls: CloseWrite called before handshake complete")
	}
	return c.Conn.(*xnet.SimConn).CloseWrite()
}

func (c *Conn) NetConn() net.Conn             { return c.Conn }
func (c *Conn) VerifyHostname(string) error   { return nil }
func (c *Conn) OCSPResponse() []byte          { return nil }
func (c *Conn) SetDeadline(t time.Time) error { return c.Conn.SetDeadline(t) }
func (c *Conn) ConnectionState() tls.ConnectionState {
	return tls.ConnectionState{HandshakeComplete: c.done, Version: tls.VersionTLS13, CipherSuite: tls.TLS_AES_128_GCM_SHA256}
}

func Server(conn net.Conn, config *tls.Config) *Conn { return &Conn{Conn: conn} }
func Client(conn net.Conn, config *tls.Config) *Conn { return &Conn{Conn: conn, client: true} }

type listener struct {
	net.Listener
	config *tls.Config
}

func (l *listener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	return Server(c, l.config), nil
}

func NewListener(inner net.Listener, config *tls.Config) net.Listener {
	return &listener{inner, config}
}

func Listen(network, laddr string, config *tls.Config) (net.Listener, error) {
	if config == nil || len(config.Certificates) == 0 && config.GetCertificate == nil && config.GetConfigForClient == nil {
		return nil, errors.New("tls: neither Certificates, GetCertificate, nor GetConfigForClient set in Config")
	}
	l, err := xnet.Listen(network, laddr)
	if err != nil {
		return nil, err
	}
	return NewListener(l, config), nil
}

func X509KeyPair(cert, key []byte) (tls.Certificate, error) {
	if len(cert) == 0 || len(key) == 0 {
		return tls.Certificate{}, errors.New("tls: failed to find any PEM data in certificate input")
	}
	return tls.Certificate{Certificate: [][]byte{cert}}, nil
}

func LoadX509KeyPair(certFile, keyFile string) (tls.Certificate, error) {
	cert, err := xos.ReadFile(certFile)
	if err != nil {
		return tls.Certificate{}, err
	}
	key, err := xos.ReadFile(keyFile)
	if err != nil {
		return tls.Certificate{}, err
	}
	return X509KeyPair(cert, key)
}
