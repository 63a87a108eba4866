package props

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"

	"verif/mc"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xprotocol"
)

func init() { mc.Register("C29", c29) }

// chunks cuts the frames of the inbound messages in one of several ways.
func chunks(frames [][]byte, how int) (out [][]byte) {
	switch how {
	case 0: // one chunk a message
		return frames
	case 1: // all at once
		return [][]byte{bytes.Join(frames, nil)}
	case 2: // cut in the header and in the payload, across the message boundary
		b := bytes.Join(frames, nil)
		if len(b) < 40 {
			return [][]byte{b[:10], b[10:]}
		}
		return [][]byte{b[:3], b[3:30], b[30 : len(b)-1], b[len(b)-1:]}
	}
	return nil
}

const (
	cbNothing = iota
	cbSend
	cbClose
	cbSendClose
	cbCloseTwice
)

type c29Conf struct {
	senders  []*pMsg // each sent by its own goroutine
	twice    bool    // the first sender sends a second message afterwards
	inbound  []*pMsg
	how      int
	onMsg    int
	onEnd    int
	end      error // what the peer ends with; nil: it never does
	closer   bool
	failing  bool // a write may fail
	halves   bool // a write may be taken in two parts
	allPicks bool // explore all schedules instead of those near the default one
}

type c29Run struct {
	mu      sync.Mutex
	conn    *xprotocol.Connection
	got     []xprotocol.Message
	ended   int
	after   bool // a message was handed over after the end
	inCB    bool
	sending int
	done    []*sent29
	loops   int
	left    int // senders that have not finished
}

// sent29 is a send that returned; before is how many had returned when it started.
type sent29 struct {
	who    int
	f      []byte
	err    error
	before int
}

func conn29(st *c29Run) *xprotocol.Connection {
	st.mu.Lock()
	defer st.mu.Unlock()
	return st.conn
}

func run29(c *mc.Ctx, cf *c29Conf, reply *pMsg, second *pMsg) {
	magic := network.MainNet.Magic
	g := newGateConn()
	st := &c29Run{left: len(cf.senders)}
	send := func(who int, p *pMsg) error {
		g.wait(fmt.Sprintf("send%d", who))
		st.mu.Lock()
		before := len(st.done)
		st.sending++
		st.mu.Unlock()
		err := conn29(st).Send(p.msg)
		st.mu.Lock()
		st.sending--
		st.done = append(st.done, &sent29{who: who, f: p.frame(magic), err: err, before: before})
		st.mu.Unlock()
		return err
	}
	act := func(cn *xprotocol.Connection, how int) {
		if how == cbSend || how == cbSendClose {
			send(9, reply)
		}
		if how == cbClose || how == cbSendClose || how == cbCloseTwice {
			g.wait("cbclose")
			cn.Close()
		}
		if how == cbCloseTwice {
			cn.Close()
		}
	}
	conn := xprotocol.NewConnection(network.MainNet, g, func(cn *xprotocol.Connection, m xprotocol.Message) {
		st.mu.Lock()
		st.got = append(st.got, m)
		st.after = st.after || st.ended > 0
		st.inCB = true
		st.mu.Unlock()
		act(cn, cf.onMsg)
		st.mu.Lock()
		st.inCB = false
		st.mu.Unlock()
	}, func(cn *xprotocol.Connection) {
		st.mu.Lock()
		st.ended++
		st.inCB = true
		st.mu.Unlock()
		act(cn, cf.onEnd)
		st.mu.Lock()
		st.inCB = false
		st.mu.Unlock()
	})
	st.mu.Lock()
	st.conn = conn
	st.mu.Unlock()
	go func() {
		conn.ReadLoop()
		st.mu.Lock()
		st.loops++
		st.mu.Unlock()
	}()
	for i, p := range cf.senders {
		i, p := i, p
		go func() {
			err := send(i, p)
			if cf.twice && i == 0 && (err == nil || cf.failing) {
				send(i, second)
			}
			st.mu.Lock()
			st.left--
			st.mu.Unlock()
		}()
	}
	var frames [][]byte
	for _, p := range cf.inbound {
		frames = append(frames, p.frame(magic))
	}
	var in [][]byte
	if len(frames) > 0 {
		in = chunks(frames, cf.how)
	}
	closedByUs, peerEnded, failed, halved := false, false, false, false
	finish := func() int {
		g.Close()
		for {
			left := g.quiet()
			l := g.waiting()
			if len(l) == 0 {
				return left
			}
			g.let(l[0])
		}
	}
	fail := func(key, format string, a ...interface{}) {
		finish()
		c.Fail(key, format, a...)
	}
	recvBytes := 0
	for {
		g.quiet()
		nr, nw := g.pending()
		gates := g.waiting()
		cbWaits := false
		for _, n := range gates {
			cbWaits = cbWaits || n == "cbclose" || n == "send9"
		}
		st.mu.Lock()
		unfinished, loops, inCB, ended := st.sending, st.loops, st.inCB, st.ended
		st.mu.Unlock()
		c.Step(1)
		if unfinished > 0 && nw == 0 {
			fail("send-stuck", "%d sends have not returned, and none has its bytes before the transport (%d reads pending)", unfinished, nr)
		}
		if loops == 0 && !inCB && nr == 0 {
			fail("reader-stuck", "the read loop is neither reading, nor in a callback, nor over (%d writes pending, connection closed: %v)", nw, closedByUs)
		}
		if inCB && nw == 0 && !cbWaits {
			fail("callback-stuck", "a callback is blocked and the transport has accepted everything it was given")
		}
		if nr > 1 {
			fail("two-reads", "%d reads are pending at once", nr)
		}
		if loops == 1 && ended != 1 {
			fail("disconnect", "the read loop is over and the disconnect callback ran %d times", ended)
		}
		var acts []string
		if nw > 0 {
			acts = append(acts, "write")
		}
		if nr > 0 && len(in) > 0 {
			acts = append(acts, "read")
		}
		acts = append(acts, gates...)
		if nr > 0 && len(in) == 0 && cf.end != nil && !peerEnded {
			acts = append(acts, "end")
		}
		if cf.closer && !closedByUs {
			acts = append(acts, "close")
		}
		if nw > 0 && cf.failing && !failed {
			acts = append(acts, "writefail", "writelate")
		}
		if nw > 0 && cf.halves && !halved {
			acts = append(acts, "writehalf")
		}
		if len(acts) == 0 {
			break
		}
		k := 0
		if cf.allPicks {
			k = c.Pick("action", len(acts))
		} else {
			k = c.Dev("action", len(acts))
		}
		a := acts[k]
		c.Logf("%s (of %v)", a, acts)
		switch {
		case a == "write":
			g.grantWrite(-1, nil)
		case a == "writehalf":
			halved = true
			g.mu.Lock()
			n := len(g.writes[0].p)
			g.mu.Unlock()
			g.grantWrite(n/2, nil)
		case a == "writefail":
			failed = true
			g.mu.Lock()
			n := len(g.writes[0].p)
			g.mu.Unlock()
			g.grantWrite(n/3, errIO)
		case a == "writelate":
			failed = true
			g.mu.Lock()
			n := len(g.writes[0].p)
			g.mu.Unlock()
			g.grantWrite(n/3, errOnce)
		case a == "read":
			n := g.grantRead(in[0], nil)
			recvBytes += n
			if in[0] = in[0][n:]; len(in[0]) == 0 {
				in = in[1:]
			}
		case a == "end":
			peerEnded = true
			g.grantRead(nil, cf.end)
		case a == "close":
			closedByUs = true
			conn.Close()
		default:
			g.let(a)
		}
	}
	// Nothing is left to schedule: end the connection if the read loop still waits for the peer.
	naturallyOver := st.loops == 1
	if left := finish(); left > 0 {
		c.Fail("deadlock", "%d goroutines are still blocked after the connection was closed", left)
	}
	c.Valid(1)
	if st.loops != 1 || st.ended != 1 {
		c.Fail("disconnect", "the read loop ended %d times and the disconnect callback ran %d times", st.loops, st.ended)
	}
	if st.after {
		c.Fail("after-disconnect", "a message was handed over after the disconnect callback ran")
	}
	// Received messages.
	complete, n := 0, 0
	for _, f := range frames {
		if n += len(f); recvBytes >= n {
			complete++
		}
	}
	if len(st.got) > complete {
		c.Fail("received", "%d messages were handed over and %d had arrived", len(st.got), complete)
	}
	cbCloses := cf.onMsg == cbClose || cf.onMsg == cbSendClose || cf.onMsg == cbCloseTwice
	if len(st.got) < complete && !closedByUs && !(cbCloses && len(st.got) > 0) {
		c.Fail("received", "%d messages arrived and %d were handed over (over: %v)", complete, len(st.got), naturallyOver)
	}
	for i, m := range st.got {
		if err := cf.inbound[i].same(m); err != nil {
			c.Fail("received", "message %d handed over: %v", i, err)
		}
	}
	// Sent bytes: whole frames, each sent message once, in an order its sender could see.
	all := st.done
	rest := g.out
	var order []*sent29
	for len(rest) > 0 {
		var hit *sent29
		for _, s := range all {
			dup := false
			for _, o := range order {
				dup = dup || o == s
			}
			if !dup && bytes.HasPrefix(rest, s.f) && (hit == nil || hit.err != nil && s.err == nil) {
				hit = s
			}
		}
		if hit == nil {
			// A part of a message, at the end, of a send that failed.
			ok := false
			for _, s := range all {
				if s.err != nil && bytes.HasPrefix(s.f, rest) {
					ok = true
				}
			}
			if !ok {
				c.Fail("frames", "after %d whole messages the transport was given %s, which is no message sent (nor the beginning of a failed one)", len(order), hx(rest))
			}
			break
		}
		order = append(order, hit)
		rest = rest[len(hit.f):]
	}
	pos := map[*sent29]int{}
	for i, s := range order {
		pos[s] = i
	}
	for i, s := range all {
		p, there := pos[s]
		if s.err == nil && !there {
			c.Fail("sent-lost", "a send (of sender %d) returned without error and its message was not given to the transport", s.who)
		}
		if s.err != nil && !closedByUs && !failed && !naturallyOver && !cbCloses {
			c.Fail("send-error", "a send (of sender %d) failed on a working connection: %v", s.who, s.err)
		}
		for j := 0; j < s.before && j < i; j++ {
			if q, ok := pos[all[j]]; ok && there && q > p && !bytes.Equal(all[j].f, s.f) {
				c.Fail("order", "a message whose send had returned was sent after one whose send started later")
			}
		}
	}
	key := fmt.Sprint(len(order), len(st.got), len(rest), closedByUs, peerEnded, failed)
	for _, s := range all {
		key += fmt.Sprintf(" %d:%v", s.who, s.err)
	}
	for _, s := range order {
		key += fmt.Sprintf(" %d", s.who)
	}
	c.StateS(key)
	c.Outcome(fmt.Sprintf("%d sent %d received", len(order), len(st.got)))
}

// chunkConn29 has its data at once, and takes all writes.
type chunkConn29 struct {
	net.Conn
	in  [][]byte
	end error
}

func (g *chunkConn29) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	for len(g.in) > 0 && len(g.in[0]) == 0 {
		g.in = g.in[1:]
	}
	if len(g.in) == 0 {
		return 0, g.end
	}
	n := copy(p, g.in[0])
	g.in[0] = g.in[0][n:]
	return n, nil
}
func (g *chunkConn29) Write(p []byte) (int, error)        { return len(p), nil }
func (g *chunkConn29) Close() error                       { return nil }
func (g *chunkConn29) SetDeadline(t time.Time) error      { return nil }
func (g *chunkConn29) SetReadDeadline(t time.Time) error  { return nil }
func (g *chunkConn29) SetWriteDeadline(t time.Time) error { return nil }

func c29(r *mc.Run) {
	// The read loop prints the error it ends with.
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		old := os.Stdout
		os.Stdout = null
		defer func() { os.Stdout = old }()
	}
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	ping, pong, ver, large, back, second := pPing(1), pPong(2), pVersion(sampleVersion()), pInv(1200, 1), pPong(99), pPing(42)
	ack := pVerAck()
	sets := [][]*pMsg{{}, {&ping}, {&ping, &ver}, {&large, &ping}, {&ping, &large, &ack}}
	inb := [][]*pMsg{{}, {&ver}, {&pong, &ping}, {&ack, &ver, &ping}}
	// Near the default schedule: all configurations, all schedules of up to MaxDev deviations.
	r.Explore("near-default", mc.Opts{Serial: true, Loose: true, MaxDev: r.Q(2, 3)}, func(c *mc.Ctx) {
		cf := &c29Conf{}
		cf.senders = sets[c.Pick("senders", len(sets))]
		cf.inbound = inb[c.Pick("inbound", len(inb))]
		if len(cf.inbound) > 0 {
			cf.how = c.Pick("chunks", 3)
			cf.onMsg = c.Pick("receive callback", 4)
		} else if len(cf.senders) == 0 {
			c.Skip()
		}
		cf.end = []error{io.EOF, nil, errIO, tmoErr{}}[c.Pick("end", r.Q(2, 4))]
		cf.closer = cf.end == nil
		if r.Quick() {
			if len(cf.inbound) == 3 && cf.how != 1 || len(cf.inbound) == 1 && cf.how == 1 {
				c.Skip()
			}
			cf.failing = len(cf.inbound) <= 1
			cf.halves = len(cf.senders) == 2
			cf.twice = len(cf.senders) == 1
			cf.onEnd = (len(cf.senders) + len(cf.inbound)) % 5
		} else {
			cf.failing = c.Bool("failing")
			cf.halves = !cf.failing
			cf.twice = len(cf.senders) < 3
			cf.onEnd = (len(cf.senders) + len(cf.inbound) + cf.onMsg) % 5
		}
		run29(c, cf, &back, &second)
	})
	// Small configurations: all schedules.
	small := []c29Conf{
		{senders: sets[1], inbound: inb[1], end: io.EOF, closer: true},
		{senders: sets[2], end: io.EOF},
		{senders: sets[2], closer: true, failing: true},
		{senders: sets[3], inbound: inb[1]},
		{senders: sets[1], inbound: inb[2], onMsg: cbSend, end: errIO},
		{senders: sets[1], inbound: inb[1], onMsg: cbSendClose, onEnd: cbSend},
		{senders: sets[1], twice: true, inbound: inb[1], onMsg: cbSend, halves: true},
		{inbound: inb[3], how: 2, onMsg: cbSend, end: io.EOF, closer: true, onEnd: cbCloseTwice},
		{inbound: inb[3], how: 1, onMsg: cbSend, failing: true, closer: true},
	}
	small = append(small, c29Conf{senders: sets[4], inbound: inb[1], end: io.EOF},
		c29Conf{senders: sets[2], inbound: inb[2], onMsg: cbSend},
		c29Conf{senders: sets[2], inbound: inb[1], end: io.EOF, closer: true, failing: true})
	if !r.Quick() {
		small = append(small, c29Conf{senders: sets[4], inbound: inb[1], onMsg: cbSend},
			c29Conf{senders: sets[2], inbound: inb[2], onMsg: cbSend, end: io.EOF, closer: true},
			c29Conf{senders: sets[2], twice: true, inbound: inb[1], onMsg: cbSend, failing: true, closer: true},
			c29Conf{senders: sets[3], inbound: inb[2], onMsg: cbSendClose, onEnd: cbSend, halves: true})
	}
	r.Explore("all-schedules", mc.Opts{Serial: true, Loose: true}, func(c *mc.Ctx) {
		cf := small[c.Pick("configuration", len(small))]
		cf.allPicks = true
		run29(c, &cf, &back, &second)
	})
	// Slow callbacks, with the clock of a bubble: whatever time passes in a callback, the next one waits for it.
	times := []time.Duration{0, time.Millisecond, time.Second, time.Minute, 1000 * time.Hour}
	r.Explore("slow-callbacks", mc.Opts{Serial: true, Loose: true}, func(c *mc.Ctx) {
		in := inb[1+c.Pick("inbound", 3)]
		how := c.Pick("chunks", 3)
		end := []error{io.EOF, errIO}[c.Pick("end", 2)]
		var wait []time.Duration
		for range in {
			wait = append(wait, times[c.Pick("time in a callback", len(times))])
		}
		last := times[c.Pick("time in the disconnect callback", r.Q(3, len(times)))]
		var frames [][]byte
		for _, p := range in {
			frames = append(frames, p.frame(network.MainNet.Magic))
		}
		var mu sync.Mutex
		var log []string
		note := func(format string, a ...interface{}) {
			mu.Lock()
			log = append(log, fmt.Sprintf(format, a...))
			mu.Unlock()
		}
		var got []xprotocol.Message
		bubble(func() {
			n := 0
			conn := xprotocol.NewConnection(network.MainNet, &chunkConn29{in: chunks(frames, how), end: end}, func(cn *xprotocol.Connection, m xprotocol.Message) {
				mu.Lock()
				i := n
				n++
				got = append(got, m)
				mu.Unlock()
				note("begin %d", i)
				if i < len(wait) {
					time.Sleep(wait[i])
				}
				note("end %d", i)
			}, func(*xprotocol.Connection) {
				note("disconnect")
				time.Sleep(last)
				note("disconnected")
			})
			conn.ReadLoop()
		})
		c.Step(len(in) + 1)
		c.Valid(1)
		want := ""
		for i := range in {
			want += fmt.Sprintf("begin %d, end %d, ", i, i)
		}
		want += "disconnect, disconnected"
		if s := strings.Join(log, ", "); s != want {
			c.Fail("slow", "callbacks that take %v: %s, want %s", wait, s, want)
		}
		for i, m := range got {
			if err := in[i].same(m); err != nil {
				c.Fail("received", "message %d handed over: %v", i, err)
			}
		}
		c.StateS(fmt.Sprint(len(in), how, end, wait, last))
	})
	// Deadlines, with the clock of a bubble: what is sent, and how slowly the peer takes it, changes nothing of what is
	// received and when, and the other way round.
	r.Explore("deadlines", mc.Opts{Serial: true, Loose: true}, func(c *mc.Ctx) {
		gaps := []time.Duration{time.Second, 9500 * time.Millisecond, 19500 * time.Millisecond, 28500 * time.Millisecond, 29900 * time.Millisecond, 45 * time.Second}
		starts := []time.Duration{250 * time.Millisecond, 10250 * time.Millisecond, 21250 * time.Millisecond, 33 * time.Second}
		delays := []time.Duration{0, 3100 * time.Millisecond, 15100 * time.Millisecond, 19100 * time.Millisecond, 38100 * time.Millisecond}
		var in, out []time.Duration
		for i := c.Pick("messages received", 3); i > 0; i-- {
			in = append(in, gaps[c.Pick("time before", len(gaps))])
		}
		for i := 1 + c.Pick("messages sent", r.Q(2, 3)); i > 0; i-- {
			out = append(out, starts[c.Pick("time before a send", len(starts))])
		}
		delay := delays[c.Pick("peer takes bytes after", len(delays))]
		both, sent := deadlines29(in, out, delay)
		c.Step(2 * (len(in) + len(out)))
		c.Valid(1)
		alone, _ := deadlines29(in, nil, delay)
		if both != alone {
			c.Fail("deadlines", "messages arriving after %v while sending after %v (taken after %v): %s, without sending: %s", in, out, delay, both, alone)
		}
		if _, alone := deadlines29(nil, out, delay); sent != alone {
			c.Fail("deadlines", "sending after %v (taken after %v) while messages arrive after %v: %s, without them: %s", out, delay, in, sent, alone)
		}
		c.StateS(fmt.Sprint(in, out, delay))
	})
	r.Assume("scheduling points are the transport's reads and writes, the start of sends, close and the peer's end; between them goroutines run until all are blocked")
}

// deadlines29 runs a connection: messages arrive after the gaps of in, sends start after the gaps of out, and the peer takes
// bytes after the delay. It tells what happened, and when, to the receiving side and to the sends.
func deadlines29(in, out []time.Duration, delay time.Duration) (received, sent string) {
	var mu sync.Mutex
	var rec, snd []string
	bubble(func() {
		begin := time.Now()
		note := func(l *[]string, format string, a ...interface{}) {
			mu.Lock()
			*l = append(*l, fmt.Sprintf(format, a...)+" at "+time.Since(begin).String())
			mu.Unlock()
		}
		near, far := net.Pipe()
		conn := xprotocol.NewConnection(network.MainNet, near, func(_ *xprotocol.Connection, m xprotocol.Message) {
			note(&rec, "%s", m.Command())
		}, func(*xprotocol.Connection) {
			note(&rec, "disconnect")
		})
		var wg sync.WaitGroup
		wg.Add(2)
		go func() {
			conn.ReadLoop()
			wg.Done()
		}()
		go func() {
			for i, d := range in {
				time.Sleep(d)
				p := pPing(uint64(i))
				far.SetWriteDeadline(time.Now().Add(time.Hour))
				far.Write(p.frame(network.MainNet.Magic))
			}
			time.Sleep(time.Hour)
			far.Close()
			wg.Done()
		}()
		go func() {
			time.Sleep(delay)
			io.Copy(io.Discard, far)
		}()
		wg.Add(1)
		go func() { // one sender: a goroutine that waits for a mutex stops the clock of the bubble
			for i, d := range out {
				time.Sleep(d)
				p := pPong(uint64(i))
				err := conn.Send(p.msg)
				note(&snd, "send %d: error %v", i, err)
			}
			wg.Done()
		}()
		wg.Wait()
		near.Close()
	})
	return strings.Join(rec, ", "), strings.Join(snd, ", ")
}
