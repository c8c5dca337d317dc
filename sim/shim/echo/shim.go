// Package echo is the web framework with a seam: a server that is made while a simulation is
// running listens on the simulated network.
package echo

import (
	"net"

	real "github.com/labstack/echo"
)

// Made, if set, is called with every new server.
var Made func(e *real.Echo)

// New returns a server of the real framework.
func New() *real.Echo {
	e := real.New()
	if Made != nil {
		Made(e)
	}
	return e
}

var _ net.Listener
