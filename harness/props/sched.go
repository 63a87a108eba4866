package props

import (
	"bytes"
	"io"
	"net"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"time"
)

// goStates returns the state of every goroutine of the process but the caller, by id.
func goStates(buf []byte) (map[int]string, []byte) {
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:cap(buf)]
			out := map[int]string{}
			first := true
			for _, part := range bytes.Split(buf[:n], []byte("\n\ngoroutine ")) {
				if first {
					first = false
					continue // the caller
				}
				i := bytes.IndexByte(part, ' ')
				j := bytes.IndexByte(part, '[')
				k := bytes.IndexAny(part, "],")
				if i < 0 || j < 0 || k < j {
					continue
				}
				id, _ := strconv.Atoi(string(part[:i]))
				out[id] = string(part[j+1 : k])
			}
			return out, buf
		}
		buf = make([]byte, 2*len(buf))
	}
}

var blockedStates = map[string]bool{
	"chan receive": true, "chan send": true, "select": true, "chan receive (nil chan)": true, "chan send (nil chan)": true, "select (no cases)": true,
	"sync.Mutex.Lock": true, "sync.RWMutex.Lock": true, "sync.RWMutex.RLock": true, "sync.Cond.Wait": true, "sync.WaitGroup.Wait": true,
	// Not "semacquire": a goroutine that starts a garbage collection waits like this for goStates itself.
}

// gate is a pending operation of the code under test on the transport.
type gate struct {
	write bool
	p     []byte
	took  int // bytes of p accepted so far
	n     int
	err   error
	done  chan struct{}
}

// gateConn is a transport on which every read and write waits until the scheduler grants it. As with a real
// connection, one write is served at a time, and closing it ends what is pending with net.ErrClosed.
// errOnce fails one write; the transport accepts the ones that follow, as after a write deadline that passed.
var errOnce error = tmoErr{}

type gateConn struct {
	mu     sync.Mutex
	reads  []*gate
	writes []*gate
	closed bool
	broken error // writes fail
	rerr   error // reads fail once in is empty
	out    []byte
	base   map[int]bool
	buf    []byte
	closes int
	gates  map[string]chan struct{}
}

func newGateConn() *gateConn {
	g := &gateConn{base: map[int]bool{}, buf: make([]byte, 1<<16)}
	st, b := goStates(g.buf)
	g.buf = b
	for id := range st {
		g.base[id] = true
	}
	return g
}

func (g *gateConn) op(write bool, p []byte) (int, error) {
	g.mu.Lock()
	if g.closed {
		g.mu.Unlock()
		return 0, net.ErrClosed
	}
	if write && g.broken != nil {
		g.mu.Unlock()
		return 0, g.broken
	}
	x := &gate{write: write, p: p, done: make(chan struct{})}
	if write {
		g.writes = append(g.writes, x)
	} else {
		g.reads = append(g.reads, x)
	}
	g.mu.Unlock()
	<-x.done
	return x.n, x.err
}

func (g *gateConn) Read(p []byte) (int, error)  { return g.op(false, p) }
func (g *gateConn) Write(p []byte) (int, error) { return g.op(true, p) }

func (g *gateConn) Close() error {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.closes++
	if g.closed {
		return net.ErrClosed
	}
	g.closed = true
	for _, x := range append(append([]*gate{}, g.reads...), g.writes...) {
		x.n, x.err = x.took, net.ErrClosed
		close(x.done)
	}
	g.reads, g.writes = nil, nil
	return nil
}

func (g *gateConn) LocalAddr() net.Addr  { return memAddr("local") }
func (g *gateConn) RemoteAddr() net.Addr { return memAddr("remote") }
func (g *gateConn) deadline() error {
	g.mu.Lock()
	defer g.mu.Unlock()
	if g.closed {
		return net.ErrClosed
	}
	return nil
}
func (g *gateConn) SetDeadline(time.Time) error      { return g.deadline() }
func (g *gateConn) SetReadDeadline(time.Time) error  { return g.deadline() }
func (g *gateConn) SetWriteDeadline(time.Time) error { return g.deadline() }

// wait blocks the caller until the scheduler lets the named actor go on.
func (g *gateConn) wait(name string) {
	ch := make(chan struct{})
	g.mu.Lock()
	if g.gates == nil {
		g.gates = map[string]chan struct{}{}
	}
	g.gates[name] = ch
	g.mu.Unlock()
	<-ch
}

// waiting lists the actors that wait for the scheduler.
func (g *gateConn) waiting() (names []string) {
	g.mu.Lock()
	defer g.mu.Unlock()
	for n := range g.gates {
		names = append(names, n)
	}
	sort.Strings(names)
	return
}

func (g *gateConn) let(name string) {
	g.mu.Lock()
	ch := g.gates[name]
	delete(g.gates, name)
	g.mu.Unlock()
	close(ch)
}

// pending counts the operations that wait for the scheduler.
func (g *gateConn) pending() (reads, writes int) {
	g.mu.Lock()
	defer g.mu.Unlock()
	return len(g.reads), len(g.writes)
}

// grantRead gives the first pending read up to all of b and returns what it took.
func (g *gateConn) grantRead(b []byte, err error) int {
	g.mu.Lock()
	x := g.reads[0]
	g.reads = g.reads[1:]
	x.n = copy(x.p, b)
	if x.n == 0 {
		x.err = err
		if x.err == nil && len(x.p) > 0 {
			x.err = io.EOF
		}
	}
	g.mu.Unlock()
	close(x.done)
	return x.n
}

// grantWrite lets the first pending write take n more bytes (all if n < 0); it ends when all are taken or err is set.
func (g *gateConn) grantWrite(n int, err error) {
	g.mu.Lock()
	x := g.writes[0]
	if n < 0 || n > len(x.p)-x.took {
		n = len(x.p) - x.took
	}
	g.out = append(g.out, x.p[x.took:x.took+n]...)
	x.took += n
	if err != nil || x.took == len(x.p) {
		g.writes = g.writes[1:]
		x.n, x.err = x.took, err
		if err != nil && err != errOnce {
			g.broken = err
			for _, y := range g.writes {
				y.err = err
				close(y.done)
			}
			g.writes = nil
		}
		g.mu.Unlock()
		close(x.done)
		return
	}
	g.mu.Unlock()
}

// quiet waits until no goroutine started since the connection was made can run: each is blocked on the transport, a
// lock or a channel, or has ended. It does not depend on time.
func (g *gateConn) quiet() (left int) {
	for i := 0; ; i++ {
		runtime.Gosched()
		var st map[int]string
		st, g.buf = goStates(g.buf)
		left = 0
		busy := false
		for id, s := range st {
			if g.base[id] {
				continue
			}
			left++
			if !blockedStates[s] {
				busy = true
				break
			}
		}
		if !busy {
			return left
		}
		if i > 50 {
			time.Sleep(20 * time.Microsecond)
		}
	}
}
