// Package vhttp replaces the serving half of net/http: nothing listens for
// real, the endpoints are recorded and their handlers can be called.
package vhttp

import (
	"crypto/tls"
	"errors"
	"log"
	"net"
	"net/http"
	"time"

	"github.com/GalaIO/P2Pcrawler/zz/vctx"
	"github.com/GalaIO/P2Pcrawler/zz/vnet"
	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

// Server has the fields of http.Server.
type Server struct {
	Addr                         string
	Handler                      http.Handler
	DisableGeneralOptionsHandler bool
	TLSConfig                    *tls.Config
	ReadTimeout                  time.Duration
	ReadHeaderTimeout            time.Duration
	WriteTimeout                 time.Duration
	IdleTimeout                  time.Duration
	MaxHeaderBytes               int
	ErrorLog                     *log.Logger

	closed bool
}

// Net is the world of one execution.
type Net struct {
	Listening []*Server
	Busy      bool // every port is taken
}

var world *Net
var gen interface{}

func World() *Net {
	if g := vrt.Gen(); g != gen || world == nil {
		gen, world = g, &Net{}
	}
	return world
}

var errBusy = errors.New("listen tcp: bind: address already in use")

func (s *Server) ListenAndServe() error {
	w := World()
	if vrt.Point("http listen") {
		vrt.EnvOp(5, 0)
	}
	if s.closed {
		return http.ErrServerClosed
	}
	if w.Busy {
		return errBusy
	}
	w.Listening = append(w.Listening, s)
	vrt.Block("http serve", func() bool { return s.closed })
	return http.ErrServerClosed
}

// Serve is ListenAndServe on a listener opened before.
func (s *Server) Serve(l net.Listener) error {
	w := World()
	if vrt.Point("http serve") {
		vrt.EnvOp(5, 0)
	}
	defer l.Close()
	if s.closed {
		return http.ErrServerClosed
	}
	addr := l.Addr().String()
	if v, ok := l.(*vnet.Listener); ok {
		addr = v.Asked()
	}
	w.Listening = append(w.Listening, &Server{Addr: addr, Handler: s.Handler})
	vrt.Block("http serve", func() bool { return s.closed })
	return http.ErrServerClosed
}

func Serve(l net.Listener, h http.Handler) error { return (&Server{Handler: h}).Serve(l) }

func (s *Server) Close() error {
	if vrt.Point("http close") {
		vrt.EnvOp(6, 0)
	}
	s.closed = true
	return nil
}

func (s *Server) Shutdown(ctx vctx.Context) error { return s.Close() }

func (s *Server) RegisterOnShutdown(f func()) {}

func (s *Server) SetKeepAlivesEnabled(bool) {}

func ListenAndServe(addr string, h http.Handler) error {
	return (&Server{Addr: addr, Handler: h}).ListenAndServe()
}
