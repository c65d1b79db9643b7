// Package http is net/http, except that serving hands the handler to the simulator and blocks.
package http

import (
	"context"
	"net"
	"net/http"
	"time"

	"verif.local/simrt"
)

type Server struct {
	Addr                         string
	Handler                      http.Handler
	DisableGeneralOptionsHandler bool
	TLSConfig                    any
	ReadTimeout                  time.Duration
	ReadHeaderTimeout            time.Duration
	WriteTimeout                 time.Duration
	IdleTimeout                  time.Duration
	MaxHeaderBytes               int
	ConnState                    func(net.Conn, http.ConnState)
	ErrorLog                     any
	BaseContext                  func(net.Listener) context.Context
	ConnContext                  func(context.Context, net.Conn) context.Context
}

// Listen is called with the handler once a simulated process serves; it blocks for ever.
func Listen(h http.Handler) error {
	if h == nil {
		h = http.DefaultServeMux
	}
	s := simrt.S
	if f, ok := s.RT["serve"].(func(http.Handler)); ok {
		f(h)
	}
	simrt.BlockForever()
	return nil
}

func (s *Server) ListenAndServe() error                      { return Listen(s.Handler) }
func (s *Server) ListenAndServeTLS(a, b string) error        { return Listen(s.Handler) }
func (s *Server) Serve(net.Listener) error                   { return Listen(s.Handler) }
func (s *Server) Shutdown(context.Context) error             { return nil }
func (s *Server) Close() error                               { return nil }
func (s *Server) RegisterOnShutdown(func())                  {}
func (s *Server) SetKeepAlivesEnabled(bool)                  {}
func ListenAndServe(a string, h http.Handler) error          { return Listen(h) }
func ListenAndServeTLS(a, c, k string, h http.Handler) error { return Listen(h) }
func Serve(l net.Listener, h http.Handler) error             { return Listen(h) }
