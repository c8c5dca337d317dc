// Package net is the standard package with a seam: a program that asks for a listener of its own
// while a simulation is running gets the simulated network's.
package net

import real "net"

// Simulated, if set, answers calls of Listen.
var Simulated func(network, address string) (real.Listener, error)

func Listen(network, address string) (real.Listener, error) {
	if Simulated != nil {
		return Simulated(network, address)
	}
	return real.Listen(network, address)
}

// ListenAndServe is what the instrumentation makes of the method of that name of a server.
func ListenAndServe(address string, serve func(real.Listener) error, otherwise func() error) error {
	if Simulated == nil {
		return otherwise()
	}
	l, err := Simulated("tcp", address)
	if err != nil {
		return err
	}
	defer l.Close()
	return serve(l)
}
