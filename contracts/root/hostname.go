package syslog5424

//gcv:for localHostname
//gcv:props C03
func c_localHostname() string {
	s := localHostname()
	g_ensures("C03.host", s_legal(s, 255))
	return s
}
