package syslog5424

import (
	"io"
	"net"
	"os"
	"sync"
	"time"

	"github.com/nathanaelle/syslog5424/v2/sdata"
)

// ufk_frame: a payload framed by a transport.
func ufk_frame(t Transport, p string) string { return string(t.Encode([]byte(p))) }

//gcv:for Transport.Encode
//gcv:nonative
func c_Transport_Encode(t Transport, p []byte) []byte {
	f := t.Encode(p)
	g_ensures("frame", string(f) == ufk_frame(t, string(p)))
	return f
}

// uf_log: the messages handed to a sender and accepted, in order.
func uf_log(c *Sender) chan Message { panic(gcvSkip{}) }

// g_sentcount_Message is the length of a log, g_sentcount_error the errors reported.
func g_sentcount_Message(c chan Message) int { panic(gcvSkip{}) }
func g_sentcount_error(c chan error) int     { panic(gcvSkip{}) }

// g_closed: the channel is closed.
func g_closed_error(c chan error) bool                { panic(gcvSkip{}) }
func g_apart_chan(a chan struct{}, b chan error) bool { panic(gcvSkip{}) }
func g_closed_end(c chan struct{}) bool               { panic(gcvSkip{}) }

// g_sent_Message is message k of a log.
func g_sent_Message(c chan Message, k int) Message { panic(gcvSkip{}) }

// ghostPosition is how far a connection accepted the bytes of a queue: the frames
// accepted whole, and the bytes of the frame after them.
type ghostPosition struct {
	frames, bytes int
	failed        bool
}

func s_where(at *ghostPosition) bool {
	return at != nil && 0 <= at.frames && at.frames <= 1<<50 && 0 <= at.bytes && at.bytes <= 1<<50
}

func uf_accepted(q *net.Buffers) *ghostPosition { panic(gcvSkip{}) }

// s_left: the queue now holds what the connection did not accept of the queue before.
func s_left(was, now net.Buffers, p0, b0, p1, b1 int) bool {
	n := p1 - p0
	return 0 <= n && n <= len(was) && len(now) == len(was)-n && 0 <= b1 &&
		g_all(0, len(now), func(k int) bool { return k == 0 || g_samepart(now[k], was[n+k]) }) &&
		(len(now) == 0 || s_cut(now[0], was[n], b1-s_pick(n == 0, b0)))
}

func s_pick(c bool, n int) int {
	if c {
		return n
	}
	return 0
}

// s_cut: a is b without its first n bytes.
func s_cut(a, b []byte, n int) bool {
	return 0 <= n && n <= len(b) && len(a) == len(b)-n && g_sub(a, b, n)
}

func g_samepart(a, b []byte) bool { return len(a) == len(b) && g_sub(a, b, 0) }

// s_snap is the queue as it is now.
func s_snap(v *net.Buffers) net.Buffers {
	w := make(net.Buffers, len(*v))
	copy(w, *v)
	return w
}

// s_netError: an error of package net is a whole one.
func s_netError(err error) bool {
	_, ok := err.(*net.OpError)
	if !ok {
		return true
	}
	e := err.(*net.OpError)
	if e == nil {
		return false
	}
	_, ok = e.Err.(*os.SyscallError)
	return !ok || e.Err.(*os.SyscallError) != nil
}

//gcv:for (*net.Buffers).WriteTo
//gcv:nonative
func c_Buffers_WriteTo(v *net.Buffers, w io.Writer) (int64, error) {
	g_requires(v != nil && w != nil)
	g_define(s_where(uf_accepted(v)))
	at := uf_accepted(v)
	q := *v
	was := s_snap(v)
	p, b := at.frames, at.bytes
	g_modifies(v, q[:cap(q)], at)
	n, err := v.WriteTo(w)
	g_ensures("position", s_where(at))
	g_ensures("left", s_left(was, *v, p, b, at.frames, at.bytes))
	g_ensures("all", err != nil || len(*v) == 0)
	g_ensures("failed", at.failed == (err != nil))
	g_ensures("error", s_netError(err))
	g_ensures("place", s_tail(*v, q))
	return n, err
}

//gcv:for Connector.Connect
//gcv:nonative
func c_Connector_Connect(c Connector) (WriteCloser, error) {
	w, err := c.Connect()
	g_ensures("connected", err != nil || w != nil)
	return w, err
}

// s_sender: the invariant of every sender.
func s_sender(c *Sender) bool {
	return c != nil && c.lock != nil && c.queue != nil && c.connector != nil && c.transport != nil && c.errChan != nil && !g_locked(c.lock)
}

// s_ghosts: a sender comes with its ghost state.
func s_ghosts(c *Sender) bool {
	return uf_log(c) != nil && s_where(uf_accepted(c.queue))
}

// ufk_encErr: the error an element gives instead of an encoding.
func ufk_encErr(d sdata.StructuredData) error {
	_, err := d.Marshal5424()
	return err
}

// s_encodable: nothing in the message refuses to be encoded.
func s_encodable(m Message) bool {
	return 0 <= m.prio && m.prio <= 999 && g_all(0, len(m.sd), func(k int) bool { return ufk_encErr(m.sd[k]) == nil })
}

//gcv:for (*Sender).Send
//gcv:props C18 C19
//gcv:nonative
//gcv:forget C04.length C04.text C04.priority C04.timestamp C04.hostname C04.app-name C04.proc-id C04.msg-id C04.structured-data C06.list C06.that
func c_Sender_Send(c *Sender, m Message) error {
	g_define(s_ghosts(c))
	g_requires(s_sender(c) && g_all(0, len(m.sd), func(k int) bool { return m.sd[k] != nil }))
	g_guarded("C19.guarded", c.queue, c.lock)
	q := *c.queue
	was := s_snap(c.queue)
	g_modifies(c.queue, q[:cap(q)], c.lock)
	err := c.Send(m)
	n := len(q)
	now := *c.queue
	g_ensures("C19.unlocked", s_sender(c))
	g_ensures("C19.kept", len(now) >= n && g_all(0, n, func(k int) bool { return g_samepart(now[k], was[k]) }))
	g_ensures("C19.error-queues-nothing", err == nil || len(now) == n)
	g_ensures("C18,C19.encoded", err == nil || !s_encodable(m))
	if err == nil {
		g_ensures("C19.appended", len(now) == n+1 && string(now[n]) == ufk_frame(c.transport, uf_wire(m)))
		uf_log(c) <- m
	}
	return err
}

// s_tail: a is the end of b, in place.
func s_tail(a, b net.Buffers) bool {
	return len(a) <= len(b) && g_sub_Buffers(a, b, len(b)-len(a)) && cap(a) == cap(b)-(len(b)-len(a))
}

// g_sub_Buffers: a lies in b's array, starting at element lo.
func g_sub_Buffers(a, b net.Buffers, lo int) bool { panic(gcvSkip{}) }

func inv_left(was, q net.Buffers, p, b int, c *Sender, at *ghostPosition, queue *net.Buffers) bool {
	return c.queue == queue && s_tail(*queue, q) && s_left(was, *queue, p, b, at.frames, at.bytes)
}

//gcv:for (*Sender).flushQueue
//gcv:props C19
//gcv:nonative
//gcv:inv left
func c_Sender_flushQueue(c *Sender) {
	g_requires(s_sender(c))
	g_define(s_ghosts(c))
	g_guarded("C19.guarded", c.queue, c.lock)
	queue := c.queue
	at := uf_accepted(queue)
	q := *queue
	was := s_snap(queue)
	p, b := at.frames, at.bytes
	sent := g_sentcount_error(c.errChan)
	errs, transport, connector, lock, ended := c.errChan, c.transport, c.connector, c.lock, c.endCompleted
	g_ghost(was, q, p, b, at, queue)
	g_modifies(c, c.queue, q[:cap(q)], c.lock, c.errChan, at)
	c.flushQueue()
	g_ensures("C19.unlocked", s_sender(c) && c.queue == queue && c.errChan == errs && c.transport == transport && c.connector == connector && c.lock == lock && c.endCompleted == ended)
	g_ensures("C19.left", s_left(was, *queue, p, b, at.frames, at.bytes))
	g_ensures("C19.flushed", len(*queue) == 0 || at.failed || g_sentcount_error(errs) > sent)
}

//gcv:for NewSender
//gcv:props C19
//gcv:nonative
func c_NewSender(output Connector, transport Transport, ticker <-chan time.Time) (*Sender, <-chan error) {
	g_requires(output != nil && transport != nil)
	s, errs := NewSender(output, transport, ticker)
	g_ensures("C19.sender", s_sender(s) && g_same(s.connector, output) && g_same(s.transport, transport))
	g_ensures("C19.open", s_open(s))
	g_ensures("C19.empty", len(*s.queue) == 0)
	return s, errs
}

// s_open: the channels of a sender are open.
func s_open(c *Sender) bool {
	return c.endCompleted != nil && g_apart_chan(c.endCompleted, c.errChan) && !g_closed_end(c.endCompleted) && !g_closed_error(c.errChan)
}

func inv_drain(c *Sender, was net.Buffers, p int, at *ghostPosition, queue *net.Buffers, errs chan error, lock *sync.Mutex, ended chan struct{}) bool {
	return s_sender(c) && c.queue == queue && c.errChan == errs && c.lock == lock && c.endCompleted == ended &&
		0 <= at.frames-p && len(*queue) == len(was)-(at.frames-p)
}

// Ending a sender leaves nothing queued.
//
//gcv:for (*Sender).runQueue
//gcv:props C19
//gcv:nonative
//gcv:noterm
//gcv:nounroll
//gcv:noframe
//gcv:inv drain
func c_Sender_runQueue(c *Sender) {
	g_requires(s_sender(c))
	g_define(s_ghosts(c))
	g_guarded("C19.guarded", c.queue, c.lock)
	queue := c.queue
	at := uf_accepted(queue)
	q := *queue
	was := s_snap(queue)
	p := at.frames
	errs, lock, ended := c.errChan, c.lock, c.endCompleted
	g_requires(s_open(c))
	g_ghost(was, p, at, queue, errs, lock, ended)
	g_modifies(c, c.queue, q[:cap(q)], c.lock, c.errChan, c.endCompleted, at)
	c.runQueue()
	g_ensures("C19.drained", s_sender(c) && c.queue == queue && len(*queue) == 0)
	g_ensures("C19.all-accepted", at.frames-p == len(was))
}
