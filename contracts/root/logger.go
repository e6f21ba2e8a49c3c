package syslog5424

// s_chanFields: c is a logging channel with exactly these attributes.
func s_chanFields(c Channel, prio Priority, host, pid, app, msgid string, out *Sender) bool {
	_, ok := c.(*trueChannel)
	if !ok {
		return false
	}
	t := c.(*trueChannel)
	return t != nil && t.priority == prio && g_samestr(t.hostname, host) && g_samestr(t.pid, pid) && g_samestr(t.appname, app) && g_samestr(t.msgid, msgid) && t.output == out
}

func s_null(c Channel) bool {
	_, ok := c.(*devnull)
	return ok
}

// s_chan: c is what logger s hands out for severity sev.
func s_chan(s *Syslog, c Channel, sev int) bool {
	if sev <= s.minSev {
		return s_chanFields(c, s.facility+Priority(sev), s.hostname, s.pid, s.appname, "-", s.output)
	}
	return s_null(c)
}

// s_channels: the channels of a logger, when already made, are the right ones.
func s_channels(s *Syslog) bool {
	if s.channels == nil {
		return true
	}
	return len(s.channels) == 8 && g_all(0, len(s.channels), func(k int) bool { return s_chan(s, s.channels[k], k) })
}

// s_logger is the invariant of every logger made by New or SubSyslog.
func s_logger(s *Syslog) bool {
	return s != nil && 0 <= s.minSev && s.minSev <= 7 && 0 <= s.facility && s.facility <= 248 && s.facility%8 == 0 &&
		s_legal(s.hostname, 255) && s_legal(s.pid, 128) && s_legal(s.appname, 48) && s_channels(s)
}

func s_chanAt(s *Syslog, c Channel, sev, n int) bool {
	if sev < n {
		return s_chan(s, c, sev)
	}
	return s_null(c)
}

func inv_chans(any *Syslog, sev int) bool {
	return len(any.channels) == 8 && 0 <= sev && sev <= any.minSev+1 &&
		g_all(0, len(any.channels), func(k int) bool { return s_chanAt(any, any.channels[k], k, sev) })
}

//gcv:for New
//gcv:props C03 C17
func c_New(output *Sender, minPriority Priority, appname string) (*Syslog, error) {
	s, err := New(output, minPriority, appname)
	g_ensures("C17.refuses-empty-name", (err == nil) == (appname != ""))
	if err == nil {
		g_ensures("C03,C17.logger", s_logger(s))
		g_ensures("C03.app-name", s_token(s.appname, appname, 48))
		g_ensures("C17.severity", s.minSev == int(minPriority&7))
		g_ensures("C17.facility", s.facility == minPriority&248)
		g_ensures("C17.output", s.output == output)
	}
	return s, err
}

//gcv:for (*Syslog).Channel
//gcv:props C17 C03
//gcv:nounroll
//gcv:inv chans
func c_Syslog_Channel(s *Syslog, sev Priority) Channel {
	g_requires(s_logger(s))
	g_modifies(s)
	min, fac, host, pid, app, out := s.minSev, s.facility, s.hostname, s.pid, s.appname, s.output
	c := s.Channel(sev)
	g_ensures("C17.channel", s_chan(s, c, int(sev&7)))
	g_ensures("C17.logger-unchanged", s.minSev == min && s.facility == fac && g_samestr(s.hostname, host) && g_samestr(s.pid, pid) && g_samestr(s.appname, app) && s.output == out)
	g_ensures("C17.logger", s_logger(s))
	return c
}

//gcv:for (*Syslog).SubSyslog
//gcv:props C17 C03
//gcv:nounroll
//gcv:inv chans
func c_Syslog_SubSyslog(s *Syslog, name string) *Syslog {
	g_requires(s_logger(s))
	full := name
	if s.appname != "-" {
		full = s.appname + "/" + name
	}
	n := s.SubSyslog(name)
	g_ensures("C03.sub-app-name", s_token(n.appname, full, 48))
	g_ensures("C17.sub-severity", n.minSev == s.minSev && n.facility == s.facility)
	g_ensures("C17.sub-attributes", n.hostname == s.hostname && n.pid == s.pid && n.output == s.output)
	g_ensures("C03,C17.sub-logger", s_logger(n))
	return n
}
