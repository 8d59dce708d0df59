// Package manners is an offline stand-in for github.com/braintree/manners
// (not installed here): a server object whose handler tests can get at by
// address, without opening a socket.
package manners

import (
	"errors"
	"net"
	"net/http"
	"sync"
)

type GracefulServer struct {
	*http.Server
	mu     sync.Mutex
	once   sync.Once
	closed chan struct{}
	wg     sync.WaitGroup
}

var (
	regMu   sync.Mutex
	servers = map[string]*GracefulServer{}
	def     *GracefulServer
)

func NewServer() *GracefulServer { return NewWithServer(new(http.Server)) }

func NewWithServer(s *http.Server) *GracefulServer {
	g := &GracefulServer{Server: s, closed: make(chan struct{})}
	regMu.Lock()
	servers[s.Addr] = g
	regMu.Unlock()
	return g
}

// Listen says whether servers really open their sockets.
var Listen = true

// Close begins the shutdown; it reports whether this call began it.
func (g *GracefulServer) Close() bool {
	first := false
	g.once.Do(func() { first = true; close(g.closed) })
	return first
}

func (g *GracefulServer) BlockingClose() bool {
	b := g.Close()
	g.wg.Wait()
	return b
}

func (g *GracefulServer) ListenAndServe() error {
	regMu.Lock()
	servers[g.Addr] = g
	regMu.Unlock()
	if Listen {
		l, err := net.Listen("tcp", g.Addr)
		if err != nil {
			return err
		}
		go g.Server.Serve(l)
		defer l.Close()
	}
	<-g.closed
	return nil
}

func (g *GracefulServer) ListenAndServeTLS(a, b string) error { return g.ListenAndServe() }
func (g *GracefulServer) Serve(l net.Listener) error          { <-g.closed; return l.Close() }
func (g *GracefulServer) StartRoutine()                       { g.wg.Add(1) }
func (g *GracefulServer) FinishRoutine()                      { g.wg.Done() }

func ListenAndServe(addr string, h http.Handler) error {
	def = NewWithServer(&http.Server{Addr: addr, Handler: h})
	return def.ListenAndServe()
}

func Close() bool {
	if def == nil {
		return false
	}
	return def.Close()
}

// Lookup returns the server registered for addr.
func Lookup(addr string) (*GracefulServer, error) {
	regMu.Lock()
	defer regMu.Unlock()
	if g, ok := servers[addr]; ok {
		return g, nil
	}
	return nil, errors.New("no server for " + addr)
}

// Closed reports whether Close has been called.
func (g *GracefulServer) Closed() bool {
	select {
	case <-g.closed:
		return true
	default:
		return false
	}
}
