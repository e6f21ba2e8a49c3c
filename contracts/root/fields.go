package syslog5424

func s_cleanByte(c byte) byte {
	if c < 33 || c > 126 {
		return '%'
	}
	return c
}

// s_token: dst is the legal form of src for a field of at most max bytes.
func s_token(dst, src string, max int) bool {
	if len(src) == 0 {
		return dst == "-"
	}
	n := len(src)
	if n > max {
		n = max
	}
	return len(dst) == n && g_all(0, n, func(k int) bool { return dst[k] == s_cleanByte(src[k]) })
}

// s_legal: s is a legal token of at most max bytes.
func s_legal(s string, max int) bool {
	return 1 <= len(s) && len(s) <= max && g_all(0, len(s), func(k int) bool { return 33 <= s[k] && s[k] <= 126 })
}

func inv_cleanDown(data []byte, src string, i int) bool {
	return len(data) == len(src) && g_all(0, len(data), func(k int) bool {
		return !(k < i && data[k] != src[k]) && (k < i || data[k] == s_cleanByte(src[k]) || data[k] == src[k])
	})
}

func inv_cleanUp(data []byte, src string, i int) bool {
	return len(data) == len(src) && g_all(0, len(data), func(k int) bool {
		return (k < i || data[k] == src[k]) && (k >= i || data[k] == s_cleanByte(src[k]))
	})
}

func inv_cleanDownTo(data []byte, src string, i, l int) bool {
	return len(data) == len(src) && g_all(0, len(data), func(k int) bool {
		return (k < i || k >= l || data[k] == s_cleanByte(src[k])) && (k >= i && k < l || data[k] == src[k])
	})
}

//gcv:for validatorGeneric
//gcv:props C03
//gcv:inv cleanDownTo cleanUp
func c_validatorGeneric(data []byte, maxlen int) string {
	g_requires(0 < maxlen && maxlen <= 255)
	g_modifies(data)
	src := string(data)
	g_ghost(src)
	s := validatorGeneric(data, maxlen)
	g_ensures("C03.token", s_token(s, src, maxlen))
	return s
}
