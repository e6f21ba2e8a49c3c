package sdata

// s_badName: c cannot be part of an identifier or a parameter name.
func s_badName(c byte) bool {
	return c <= ' ' || c == 127 || c == '=' || c == ']' || c == '"'
}

// ufk_nameEnd: the position of the first byte of s that cannot be part of a name.
func ufk_nameEnd(s string) int {
	for i := 0; i < len(s); i++ {
		if s_badName(s[i]) {
			return i
		}
	}
	return len(s)
}

func s_defineNameEnd(s string) bool {
	e := ufk_nameEnd(s)
	return 0 <= e && e <= len(s) && g_all(0, e, func(k int) bool { return !s_badName(s[k]) }) && (e == len(s) || s_badName(s[e]))
}

// ufk_esc: byte k of s is escaped, when reading a value whose text begins at offset 1.
func ufk_esc(s string, k int) bool {
	e := false
	for i := 1; i < k; i++ {
		e = s[i] == '\\' && !e
	}
	return e
}

// ufk_valueEnd: the position of the first quote or closing bracket of s, from offset 1,
// that is not escaped.
func ufk_valueEnd(s string) int {
	for i := 1; i < len(s); i++ {
		if s_stop(s, i) {
			return i
		}
	}
	return len(s)
}

func s_stop(s string, k int) bool {
	return (s[k] == '"' || s[k] == ']') && !ufk_esc(s, k)
}

func s_defineValueEnd(s string) bool {
	if len(s) == 0 {
		return true
	}
	e := ufk_valueEnd(s)
	return 1 <= e && e <= len(s) && !ufk_esc(s, 1) &&
		g_all(1, len(s), func(k int) bool { return ufk_esc(s, k+1) == (s[k] == '\\' && !ufk_esc(s, k)) }) &&
		g_all(1, len(s)-1, func(k int) bool { return s[k] != '\\' || ufk_esc(s, k) || !ufk_esc(s, k+2) }) &&
		g_all(1, e, func(k int) bool { return !s_stop(s, k) }) && (e == len(s) || s_stop(s, e))
}

func inv_inName(data []byte, s string, ret []byte, length int) bool {
	return 0 <= length && length <= len(s) && len(ret) == len(s)-length && g_samestr(string(ret), s[length:]) && length <= ufk_nameEnd(s)
}

func inv_inValue(data []byte, s string, ret []byte, length int) bool {
	return 1 <= length && length <= len(s) && len(ret) == len(s)-length && g_samestr(string(ret), s[length:]) && !ufk_esc(s, length) && length <= ufk_valueEnd(s)
}

//gcv:for NextHeader
//gcv:props C08 C09
//gcv:inv inName
func c_NextHeader(data []byte) (string, []byte, error) {
	s := string(data)
	g_ghost(s)
	g_define(s_defineNameEnd(s))
	header, ret, err := NextHeader(data)
	e := ufk_nameEnd(s)
	if err == nil {
		g_ensures("C08.header-token", len(header) > 0 && g_all(0, len(header), func(k int) bool { return !s_badName(header[k]) }))
		g_ensures("C08.header-exact", len(header) == e && header == s[:e])
		g_ensures("C08.header-rest!", string(ret) == s[e:])
		g_ensures("header-same", g_samestr(string(ret), s[e:]))
		g_ensures("C08.header-delimiter", e == len(s) || s[e] == ' ')
	}
	g_ensures("C09.header-accepts", err == nil || e == 0 || e < len(s) && s[e] != ' ')
	return header, ret, err
}

//gcv:for NextSDName
//gcv:props C08 C09
//gcv:inv inName
func c_NextSDName(data []byte) (string, []byte, error) {
	s := string(data)
	g_ghost(s)
	g_define(s_defineNameEnd(s))
	name, ret, err := NextSDName(data)
	e := ufk_nameEnd(s)
	if err == nil {
		g_ensures("C08.name-token", g_all(0, len(name), func(k int) bool { return !s_badName(name[k]) }))
		g_ensures("C08.name-delimiter", e < len(s) && s[e] == '=')
		g_ensures("name-same", g_samestr(string(ret), s[e+1:]))
		g_ensures("C08.name-exact", len(name) == e && name == s[:e])
		g_ensures("C08.name-rest!", string(ret) == s[e+1:])
	}
	g_ensures("C09.name-accepts", err == nil || len(s) < 4 || e == len(s) || s[e] != '=')
	return name, ret, err
}

//gcv:for NextSDValue
//gcv:props C08 C09
//gcv:inv inValue
func c_NextSDValue(data []byte) (string, []byte, error) {
	s := string(data)
	g_ghost(s)
	g_define(s_defineValueEnd(s))
	value, ret, err := NextSDValue(data)
	e := ufk_valueEnd(s)
	if err == nil {
		g_ensures("C08.value-delimiters", len(s) >= 2 && s[0] == '"' && e < len(s) && s[e] == '"')
		g_ensures("value-same", g_samestr(string(ret), s[e+1:]))
		g_ensures("C08.value-exact", len(value) == e-1 && value == s[1:e])
		g_ensures("C08.value-rest!", string(ret) == s[e+1:])
		g_ensures("C08.value-token", g_all(0, len(value), func(k int) bool { return value[k] != '"' && value[k] != ']' || ufk_esc(s, k+1) }))
	}
	g_ensures("C09.value-accepts", err == nil || len(s) < 2 || s[0] != '"' || e == len(s) || s[e] != '"')
	return value, ret, err
}

func inv_spaces(data []byte, s string, ret []byte) bool {
	return len(ret) <= len(s) && g_samestr(string(ret), s[len(s)-len(ret):]) && g_all(0, len(s)-len(ret), func(k int) bool { return s[k] == ' ' })
}

//gcv:for NextNonSpace
//gcv:props C08 C09
//gcv:inv spaces
func c_NextNonSpace(data []byte) ([]byte, error) {
	s := string(data)
	g_ghost(s)
	ret, err := NextNonSpace(data)
	if err == nil {
		n := len(s) - len(ret)
		g_ensures("C08.space-exact", 0 < n && n < len(s))
		g_ensures("C08.space-rest!", string(ret) == s[n:])
		g_ensures("space-same", g_samestr(string(ret), s[n:]))
		g_ensures("C08.space-token", g_all(0, n, func(k int) bool { return s[k] == ' ' }) && ret[0] != ' ')
	}
	g_ensures("C09.space-accepts", err == nil || len(s) < 2 || s[0] != ' ' || s[1] == ' ')
	return ret, err
}
