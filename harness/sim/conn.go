package sim

import (
	"net"
	"time"
)

// Conn is one end of an in-memory connection. A Read that has to wait blocks its goroutine
// without the scheduler; whoever wakes it up does so in a step of its own.
type Conn struct {
	in, out *half
	me, you addr
}

// NewConn makes a connection and gives both ends.
func NewConn(a, b string) (*Conn, *Conn) {
	x, y := newHalf(), newHalf()
	return &Conn{x, y, addr(a), addr(b)}, &Conn{y, x, addr(b), addr(a)}
}

// Closed says whether the connection is gone.
func (c *Conn) Closed() bool {
	c.in.mu.Lock()
	defer c.in.mu.Unlock()
	return c.in.closed
}

func (c *Conn) Read(b []byte) (int, error) { return c.in.read(b) }

func (c *Conn) Write(b []byte) (int, error) {
	if _, err := c.out.write(b); err != nil {
		return 0, err
	}
	return len(b), nil
}

// Close breaks the connection in both directions.
func (c *Conn) Close() error {
	c.in.close()
	c.out.close()
	return nil
}

func (c *Conn) LocalAddr() net.Addr                { return c.me }
func (c *Conn) RemoteAddr() net.Addr               { return c.you }
func (c *Conn) SetDeadline(t time.Time) error      { return c.SetReadDeadline(t) }
func (c *Conn) SetReadDeadline(t time.Time) error  { c.in.deadline(t); return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { return nil }
