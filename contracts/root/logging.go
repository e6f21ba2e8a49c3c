package syslog5424

import (
	"net"

	"github.com/nathanaelle/syslog5424/v2/sdata"
)

// s_logged: the sender was handed exactly one message, and queued it framed.
func s_queued(c *Sender, log chan Message, n int, was net.Buffers) bool {
	now := *c.queue
	return g_sentcount_Message(log) == n+1 && len(now) == len(was)+1 &&
		g_all(0, len(was), func(k int) bool { return g_samepart(now[k], was[k]) }) &&
		string(now[len(was)]) == ufk_frame(c.transport, uf_wire(g_sent_Message(log, n)))
}

// s_attributes: m carries the attributes of the channel.
func s_attributes(m Message, c *msgChannel) bool {
	return m.prio == c.priority && m.hostname == c.hostname && m.appname == c.appname && m.procid == c.pid && m.msgid == c.msgid
}

//gcv:for (*msgChannel).Write
//gcv:props C18
//gcv:nonative
func c_msgChannel_Write(c *msgChannel, d []byte) (int, error) {
	g_requires(s_msgChannel(c) && 0 <= c.priority && c.priority <= 999 && s_sender(c.output))
	text := string(d)
	out := c.output
	log := uf_log(out)
	n := g_sentcount_Message(log)
	q := *out.queue
	was := s_snap(out.queue)
	g_modifies(out.queue, q[:cap(q)], out.lock, log)
	w, err := c.Write(d)
	g_ensures("C18.all-written", w == len(d) && err == nil)
	g_ensures("C18.one-message", s_queued(out, log, n, was))
	m := g_sent_Message(log, n)
	g_ensures("C18.attributes", s_attributes(m, c))
	g_ensures("C18.text", s_trimmed(m.message, text))
	g_ensures("C18.no-structured-data", len(m.sd) == 0)
	g_ensures("C18.sender", s_sender(out) && c.output == out)
	return w, err
}

//gcv:for (*msgChannel).Log
//gcv:props C18
//gcv:nonative
func c_msgChannel_Log(c *msgChannel, d string, sd ...sdata.StructuredData) {
	g_requires(s_msgChannel(c) && 0 <= c.priority && c.priority <= 999 && s_sender(c.output))
	g_requires(g_all(0, len(sd), func(k int) bool { return sd[k] != nil }))
	out := c.output
	log := uf_log(out)
	n := g_sentcount_Message(log)
	q := *out.queue
	was := s_snap(out.queue)
	g_modifies(out.queue, q[:cap(q)], out.lock, log)
	c.Log(d, sd...)
	if g_all(0, len(sd), func(k int) bool { return ufk_encErr(sd[k]) == nil }) {
		g_ensures("C18.one-message", s_queued(out, log, n, was))
		m := g_sent_Message(log, n)
		g_ensures("C18.attributes", s_attributes(m, c))
		g_ensures("C18.text", s_trimmed(m.message, d))
		g_ensures("C18.structured-data", len(m.sd) == len(sd) && g_all(0, len(sd), func(k int) bool { return g_same(m.sd[k], sd[k]) }))
	}
	g_ensures("C18.at-most-one", g_sentcount_Message(log) <= n+1)
	g_ensures("C18.sender", s_sender(out) && c.output == out)
}

//gcv:for (*devnull).Write
//gcv:props C18
//gcv:frame C18
func c_devnull_Write(dn *devnull, d []byte) (int, error) {
	n, err := dn.Write(d)
	g_ensures("C18.null-accepts", n == len(d) && err == nil)
	return n, err
}

// The null channel writes nothing at all, so it queues nothing.
//
//gcv:for (*devnull).Log
//gcv:props C18
//gcv:frame C18
func c_devnull_Log(dn *devnull, text string, sd ...sdata.StructuredData) {
	dn.Log(text, sd...)
}
