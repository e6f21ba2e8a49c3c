package syslog5424

//gcv:for (Priority).Marshal5424
//gcv:props C01
func c_Priority_Marshal5424(p Priority) ([]byte, error) {
	data, err := p.Marshal5424()
	g_ensures("C01.no-error-in-range", !(0 <= p && p <= 999) || err == nil)
	if 0 <= p && p <= 9 {
		g_ensures("C01.one-digit", len(data) == 4 && data[0] == '<' && data[1] == byte('0'+p) && data[2] == '>' && data[3] == '1')
	}
	if 10 <= p && p <= 99 {
		g_ensures("C01.two-digits", len(data) == 5 && data[0] == '<' && data[1] == byte('0'+p/10) && data[2] == byte('0'+p%10) && data[3] == '>' && data[4] == '1')
	}
	if 100 <= p && p <= 999 {
		g_ensures("C01.three-digits", len(data) == 6 && data[0] == '<' && data[1] == byte('0'+p/100) && data[2] == byte('0'+p/10%10) && data[3] == byte('0'+p%10) && data[4] == '>' && data[5] == '1')
	}
	return data, err
}

// s_prio: d is '<', one to three digits, '>1'.
func s_prio(d []byte) bool {
	n := len(d)
	if n < 4 || n > 6 || d[0] != '<' || d[n-2] != '>' || d[n-1] != '1' {
		return false
	}
	return g_all(1, n-2, func(k int) bool { return '0' <= d[k] && d[k] <= '9' })
}

func s_prioVal(d []byte) int {
	switch len(d) {
	case 4:
		return int(d[1] - '0')
	case 5:
		return int(d[1]-'0')*10 + int(d[2]-'0')
	case 6:
		return int(d[1]-'0')*100 + int(d[2]-'0')*10 + int(d[3]-'0')
	}
	return 0
}

//gcv:for (*Priority).Unmarshal5424
//gcv:props C01
func c_Priority_Unmarshal5424(p *Priority, d []byte) error {
	g_requires(p != nil)
	g_modifies(p)
	old := *p
	ok := s_prio(d)
	val := s_prioVal(d)
	err := p.Unmarshal5424(d)
	g_ensures("C01.accepts-exactly", (err == nil) == ok)
	g_ensures("C01.value", err != nil || int(*p) == val)
	g_ensures("unchanged-on-error", err == nil || *p == old)
	return err
}

// The pair is inverse on 0..999.
//
//gcv:lemma
//gcv:props C01
func l_Priority_roundtrip(p Priority) {
	g_requires(0 <= p && p <= 999)
	d, err := p.Marshal5424()
	g_assert("C01.encodes", err == nil)
	var q Priority
	err = q.Unmarshal5424(d)
	g_assert("C01.decodes-back", err == nil && q == p)
}
