package netshim

import (
	"context"
	"net"
	"syscall"
	"time"
)

// Hook makes every connection.
var Hook func(network, address string) (net.Conn, error)

// HookT is told the time limit of every dialling, if set.
var HookT func(address string, timeout time.Duration)

func tell(address string, timeout time.Duration) {
	if HookT != nil {
		HookT(address, timeout)
	}
}

// Dialer has the fields of net.Dialer and dials through Hook.
type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       net.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
	Resolver        *net.Resolver
	Cancel          <-chan struct{}
	Control         func(network, address string, c syscall.RawConn) error
	ControlContext  func(ctx context.Context, network, address string, c syscall.RawConn) error
}

func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	return d.DialContext(context.Background(), network, address)
}
func (d *Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	t := d.Timeout
	for _, dl := range []time.Time{d.Deadline, func() time.Time { x, _ := ctx.Deadline(); return x }()} {
		if !dl.IsZero() && (t == 0 || time.Until(dl) < t) {
			t = time.Until(dl)
		}
	}
	tell(address, t)
	return Hook(network, address)
}
func Dial(network, address string) (net.Conn, error) { return Hook(network, address) }
func DialTimeout(network, address string, timeout time.Duration) (net.Conn, error) {
	tell(address, timeout)
	return Hook(network, address)
}
