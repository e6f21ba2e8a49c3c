package syslog5424

// s_msgChannel: the invariant of every logging channel.
func s_msgChannel(c *msgChannel) bool {
	return c != nil && s_legal(c.hostname, 255) && s_legal(c.pid, 128) && s_legal(c.appname, 48) && s_legal(c.msgid, 32)
}

//gcv:for (*msgChannel).AppName
//gcv:props C03 C17
func c_msgChannel_AppName(c *msgChannel, sup string) Channel {
	g_requires(s_msgChannel(c))
	full := sup
	if c.appname != "-" {
		full = c.appname + "/" + sup
	}
	r := c.AppName(sup)
	t, ok := r.(*trueChannel)
	g_ensures("C17.derived-is-real", ok && t != nil)
	g_ensures("C17.derived-keeps", t.priority == c.priority && t.hostname == c.hostname && t.pid == c.pid && t.msgid == c.msgid && t.output == c.output)
	g_ensures("C03,C17.derived-app-name", s_token(t.appname, full, 48))
	g_ensures("C03.legal", s_msgChannel(&t.msgChannel))
	return r
}

//gcv:for (*msgChannel).Msgid
//gcv:props C03 C17
func c_msgChannel_Msgid(c *msgChannel, msgid string) Channel {
	g_requires(s_msgChannel(c))
	r := c.Msgid(msgid)
	t, ok := r.(*msgChannel)
	g_ensures("C17.derived-is-real", ok && t != nil)
	g_ensures("C17.derived-keeps", t.priority == c.priority && t.hostname == c.hostname && t.pid == c.pid && t.appname == c.appname && t.output == c.output)
	g_ensures("C03,C17.derived-msg-id", s_token(t.msgid, msgid, 32))
	g_ensures("C03.legal", s_msgChannel(t))
	return r
}

//gcv:for (*msgChannel).IsDevNull
//gcv:props C17
func c_msgChannel_IsDevNull(c *msgChannel) bool {
	r := c.IsDevNull()
	g_ensures("C17.real", !r)
	return r
}

//gcv:for (*devnull).IsDevNull
//gcv:props C17
func c_devnull_IsDevNull(d *devnull) bool {
	r := d.IsDevNull()
	g_ensures("C17.null", r)
	return r
}

//gcv:for (*devnull).AppName
//gcv:props C17
func c_devnull_AppName(d *devnull, sup string) Channel {
	r := d.AppName(sup)
	g_ensures("C17.null-stays", s_null(r))
	return r
}

//gcv:for (*devnull).Msgid
//gcv:props C17
func c_devnull_Msgid(d *devnull, sup string) Channel {
	r := d.Msgid(sup)
	g_ensures("C17.null-stays", s_null(r))
	return r
}

//gcv:for (*Syslog).TestMode
//gcv:props C03 C17
func c_Syslog_TestMode(s *Syslog) {
	g_requires(s_logger(s) && s.channels == nil)
	g_modifies(s)
	min, fac, app, out := s.minSev, s.facility, s.appname, s.output
	s.TestMode()
	g_ensures("C03,C17.logger", s_logger(s))
	g_ensures("C17.logger-keeps", s.minSev == min && s.facility == fac && g_samestr(s.appname, app) && s.output == out)
}
