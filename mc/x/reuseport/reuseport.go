// Package reuseport dials on the virtual network.
package reuseport

import (
	"net"
	"time"

	xnet "github.com/zhiqiangxu/qrpc/zz/x/net"
)

// DialWithTimeout dials; the local address is chosen by the network.
func DialWithTimeout(network, laddr, raddr string, timeout time.Duration) (net.Conn, error) {
	return xnet.DialTimeout(network, raddr, timeout)
}

// Dial dials.
func Dial(network, laddr, raddr string) (net.Conn, error) { return xnet.DialTimeout(network, raddr, 0) }
