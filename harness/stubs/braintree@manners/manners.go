// Package manners stands in for github.com/braintree/manners, which is not available
// offline: a server that only notes its handler.
package manners

import (
	"net/http"
	"sync"
)

// Servers are the servers made.
var (
	mu      sync.Mutex
	Servers []*GracefulServer
)

type GracefulServer struct {
	*http.Server
	closed chan bool
	once   sync.Once
}

func NewWithServer(s *http.Server) *GracefulServer {
	g := &GracefulServer{Server: s, closed: make(chan bool)}
	mu.Lock()
	Servers = append(Servers, g)
	mu.Unlock()
	return g
}

func (g *GracefulServer) Close() bool {
	g.once.Do(func() { close(g.closed) })
	return true
}

func (g *GracefulServer) ListenAndServe() error {
	<-g.closed
	return nil
}

// ListenAndServe and Close are used by healthd's tests only.
func ListenAndServe(addr string, handler http.Handler) error {
	return http.ListenAndServe(addr, handler)
}

func Close() bool { return true }
