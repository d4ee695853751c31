// Package manners stands in for github.com/braintree/manners: a server whose
// Close stops the listener, and whose ListenAndServe returns when the requests
// in progress have ended.
package manners

import (
	"net/http"

	"vsim/rt"
	"vsim/simhttp"
)

type GracefulServer struct {
	*http.Server
	closed  bool
	serving bool
}

func NewServer() *GracefulServer { return NewWithServer(new(http.Server)) }

func NewWithServer(s *http.Server) *GracefulServer { return &GracefulServer{Server: s} }

// Close tells the server to stop; true the first time.
func (g *GracefulServer) Close() bool {
	for !g.serving { // as the original, wait until Serve listens for it
		rt.S.Sleep(1e6)
	}
	if g.closed {
		return false
	}
	g.closed = true
	sim(g.Server).StopListening()
	return true
}

func (g *GracefulServer) BlockingClose() bool {
	r := g.Close()
	g.wait()
	return r
}

func (g *GracefulServer) wait() {
	for sim(g.Server).Active() > 0 {
		rt.S.Sleep(1e6)
	}
}

func (g *GracefulServer) ListenAndServe() error {
	sim(g.Server).OnListen = func() { g.serving = true }
	err := g.Server.ListenAndServe()
	if g.closed {
		g.wait()
		return nil
	}
	return err
}

func sim(s any) *simhttp.Server { return s.(*simhttp.Server) }
