// Package rnet gives the code under test simulated listeners.
package rnet

import "net"

// Hook, if set, takes over Listen.
var Hook func(network, addr string) (net.Listener, error)

// Listen replaces net.Listen.
func Listen(network, addr string) (net.Listener, error) {
	if Hook != nil {
		return Hook(network, addr)
	}
	return net.Listen(network, addr)
}
