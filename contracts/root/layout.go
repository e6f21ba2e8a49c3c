package syslog5424

// uf_wire: what a message is encoded as.
func uf_wire(m Message) string { b, _ := m.Marshal5424(); return string(b) }

//gcv:for (Message).Marshal5424
//gcv:props C04
//gcv:inline c_Priority_Marshal5424
func c_Message_Marshal5424(m Message) ([]byte, error) {
	g_requires(g_all(0, len(m.sd), func(k int) bool { return m.sd[k] != nil }))
	b, err := m.Marshal5424()
	p, perr := m.prio.Marshal5424()
	sd, sderr := m.sd.Marshal5424()
	g_ensures("C04.error", (err == nil) == (perr == nil && sderr == nil))
	g_define(err != nil || string(b) == uf_wire(m))
	g_ensures("C04.no-bytes", err == nil || b == nil)
	if err == nil {
		ts := m.timestamp.Format(RFC5424TimeStamp)
		o1 := len(p)
		o2 := o1 + 1 + len(ts)
		o3 := o2 + 1 + len(m.hostname)
		o4 := o3 + 1 + len(m.appname)
		o5 := o4 + 1 + len(m.procid)
		o6 := o5 + 1 + len(m.msgid)
		o7 := o6 + 1 + len(sd)
		if m.message == "" {
			g_ensures("C04.length", len(b) == o7)
		} else {
			g_ensures("C04.length-text", len(b) == o7+1+len(m.message))
			g_ensures("C04.text", b[o7] == ' ' && string(b[o7+1:]) == m.message)
		}
		g_ensures("C04.priority", string(b[:o1]) == string(p))
		g_ensures("C04.timestamp", b[o1] == ' ' && string(b[o1+1:o2]) == ts)
		g_ensures("C04.hostname", b[o2] == ' ' && string(b[o2+1:o3]) == m.hostname)
		g_ensures("C04.app-name", b[o3] == ' ' && string(b[o3+1:o4]) == m.appname)
		g_ensures("C04.proc-id", b[o4] == ' ' && string(b[o4+1:o5]) == m.procid)
		g_ensures("C04.msg-id", b[o5] == ' ' && string(b[o5+1:o6]) == m.msgid)
		g_ensures("C04.structured-data", b[o6] == ' ' && string(b[o6+1:o7]) == string(sd))
	}
	return b, err
}
