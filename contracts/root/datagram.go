package syslog5424

import "net"

// g_hist: all the bytes of the datagrams a connection delivered so far.
func g_hist(c *net.UnixConn) string { panic(gcvSkip{}) }

// uf_fails: whether reading a connection that delivered these bytes fails, and how.
func uf_fails(c *net.UnixConn, hist string) bool    { panic(gcvSkip{}) }
func uf_failure(c *net.UnixConn, hist string) error { panic(gcvSkip{}) }

//gcv:for (*net.UnixConn).ReadFrom
//gcv:nonative
func c_UnixConn_ReadFrom(c *net.UnixConn, b []byte) (int, net.Addr, error) {
	g_requires(c != nil && len(b) >= 1<<16)
	g_modifies(c, b)
	h := g_hist(c)
	n, addr, err := c.ReadFrom(b)
	g_ensures("size", 0 <= n && n <= len(b) && (err == nil || n == 0))
	g_ensures("received", g_hist(c) == h+string(b[:n]))
	g_ensures("fails", (err != nil) == uf_fails(c, h) && (err == nil || g_same(err, uf_failure(c, h))))
	return n, addr, err
}

// s_at is byte k of what was kept and then received.
func s_at(kept, got string, k int) byte {
	if k < len(kept) {
		return kept[k]
	}
	return got[k-len(kept)]
}

//gcv:for (*fakeConn).Read
//gcv:props C16
//gcv:nonative
func c_fakeConn_Read(r *fakeConn, data []byte) (int, error) {
	g_requires(r != nil && r.conn != nil && g_apart(data, r.buff) && g_apart(data, r.rbuff[:]))
	g_modifies(r, r.conn, data)
	conn := r.conn
	kept, h := string(r.buff), g_hist(conn)
	n, err := r.Read(data)
	g_ensures("C16.same-connection", r.conn == conn)
	now := g_hist(conn)
	g_ensures("C16.asked", 0 <= n && n <= len(data))
	g_ensures("C16.count", len(now) >= len(h) && (err != nil || n+len(r.buff) == len(kept)+len(now)-len(h)))
	got := now[len(h):]
	g_ensures("C16.returned", err != nil || g_all(0, n, func(k int) bool { return data[k] == s_at(kept, got, k) }))
	g_ensures("C16.kept", err != nil || g_all(0, len(r.buff), func(k int) bool { return r.buff[k] == s_at(kept, got, n+k) }))
	g_ensures("C16.progress", err != nil || n > 0 || len(data) == 0 || len(kept)+len(got) == 0)
	g_ensures("C16.error-loses-nothing", err == nil || n == 0 && len(now) == len(h) && string(r.buff) == kept)
	g_ensures("C16.error", err == nil || uf_fails(conn, h) && g_same(err, uf_failure(conn, h)))
	g_ensures("C16.error-returned", err != nil || len(kept) > 0 || len(data) == 0 || !uf_fails(conn, h))
	return n, err
}

//gcv:for (*unixgramReceiver).Accept
//gcv:props C16
//gcv:nonative
func c_unixgramReceiver_Accept(r *unixgramReceiver) (DataReader, error) {
	g_requires(r != nil)
	g_modifies(r)
	first := !r.accepted
	conn := r.listener
	d, err := r.Accept()
	if first {
		f, ok := d.(*fakeConn)
		g_ensures("C16.reader", err == nil && ok && f != nil && f.conn == conn && len(f.buff) == 0)
	}
	g_ensures("C16.one-reader", first || err != nil)
	g_ensures("C16.accepted", r.accepted && r.listener == conn)
	return d, err
}
