// Package http is the standard package with the seam of shim/net.
package http

import (
	real "net/http"

	"verifsim/shim/net"
)

func ListenAndServe(addr string, handler real.Handler) error {
	s := &real.Server{Addr: addr, Handler: handler}
	return net.ListenAndServe(addr, s.Serve, s.ListenAndServe)
}
