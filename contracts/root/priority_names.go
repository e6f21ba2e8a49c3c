package syslog5424

func s_facility(name string) int {
	switch name {
	case "kern":
		return 0
	case "user":
		return 1
	case "mail":
		return 2
	case "daemon":
		return 3
	case "auth":
		return 4
	case "syslog":
		return 5
	case "lpr":
		return 6
	case "news":
		return 7
	case "uucp":
		return 8
	case "cron":
		return 9
	case "authpriv":
		return 10
	case "ftp":
		return 11
	case "local0":
		return 16
	case "local1":
		return 17
	case "local2":
		return 18
	case "local3":
		return 19
	case "local4":
		return 20
	case "local5":
		return 21
	case "local6":
		return 22
	case "local7":
		return 23
	}
	return -1
}

func s_severity(name string) int {
	switch name {
	case "emerg":
		return 0
	case "alert":
		return 1
	case "crit":
		return 2
	case "err":
		return 3
	case "warning":
		return 4
	case "notice":
		return 5
	case "info":
		return 6
	case "debug":
		return 7
	}
	return -1
}

//gcv:for (*Priority).Set
//gcv:props C02
func c_Priority_Set(p *Priority, d string) error {
	g_requires(p != nil)
	g_modifies(p)
	old := *p
	want := -1
	if i := g_first([]byte(d), '.'); i >= 0 {
		f, s := s_facility(d[:i]), s_severity(d[i+1:])
		if f >= 0 && s >= 0 {
			want = f*8 + s
		}
	}
	err := p.Set(d)
	g_ensures("C02.accepts-exactly-the-names", (err == nil) == (want >= 0))
	g_ensures("C02.value", err != nil || int(*p) == want)
	g_ensures("C02.unchanged-on-error", err == nil || *p == old)
	return err
}

func s_facilityName(f int) string {
	switch f {
	case 0:
		return "kern"
	case 1:
		return "user"
	case 2:
		return "mail"
	case 3:
		return "daemon"
	case 4:
		return "auth"
	case 5:
		return "syslog"
	case 6:
		return "lpr"
	case 7:
		return "news"
	case 8:
		return "uucp"
	case 9:
		return "cron"
	case 10:
		return "authpriv"
	case 11:
		return "ftp"
	case 16:
		return "local0"
	case 17:
		return "local1"
	case 18:
		return "local2"
	case 19:
		return "local3"
	case 20:
		return "local4"
	case 21:
		return "local5"
	case 22:
		return "local6"
	case 23:
		return "local7"
	}
	return ""
}

func s_severityName(s int) string {
	switch s {
	case 0:
		return "emerg"
	case 1:
		return "alert"
	case 2:
		return "crit"
	case 3:
		return "err"
	case 4:
		return "warning"
	case 5:
		return "notice"
	case 6:
		return "info"
	}
	return "debug"
}

//gcv:for (Priority).String
//gcv:props C02
func c_Priority_String(p Priority) string {
	s := p.String()
	f := s_facilityName(int(p) / 8)
	g_ensures("C02.printed-names", int(p) < 0 || f == "" || s == f+"."+s_severityName(int(p)%8))
	return s
}

//gcv:lemma
//gcv:props C02
func l_Priority_text(d string) {
	var p Priority
	if p.Set(d) != nil {
		return
	}
	g_assert("C02.prints-what-was-set", p.String() == d)
}

//gcv:lemma
//gcv:props C02
func l_Priority_split(p Priority) {
	g_requires(0 <= p && p <= 255)
	f, s := p.Facility(), p.Severity()
	g_assert("C02.recombine", f|s == p && f+s == p && f%8 == 0 && 0 <= s && s <= 7)
}
