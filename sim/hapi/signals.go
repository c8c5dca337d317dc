package hapi

import (
	"os"
	"os/signal"
	"syscall"
)

// The runtime's signal channels come into being with the first call of
// Notify and belong to the bubble they were made in, so a program under test
// that listens for signals must not be the first one in the process.
func init() {
	c := make(chan os.Signal, 1)
	signal.Notify(c, syscall.SIGUSR2)
	signal.Stop(c)
}
