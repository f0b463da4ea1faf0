//go:build go1.21

// Package vnet stands in for the listening socket of the API server: the
// handler given to Serve is kept so that requests can be passed to it directly.
package vnet

import (
	"net"
	"net/http"
)

// Handler is the handler of the last server started.
var Handler http.Handler

type listener struct{ addr string }

func (l *listener) Accept() (net.Conn, error) { return nil, net.ErrClosed }
func (l *listener) Close() error              { return nil }
func (l *listener) Addr() net.Addr            { return l }
func (l *listener) Network() string           { return "tcp" }
func (l *listener) String() string            { return l.addr }

// Listen opens nothing.
func Listen(network, addr string) (net.Listener, error) { return &listener{addr}, nil }

// Serve records the handler.
func Serve(s *http.Server, l net.Listener) error {
	Handler = s.Handler
	return http.ErrServerClosed
}
