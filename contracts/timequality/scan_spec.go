package timequality

// The specification functions of the scanners of package sdata; the verifier takes
// functions of the same name to be the same function.

// s_badName: c cannot be part of an identifier or a parameter name.
func s_badName(c byte) bool {
	return c <= ' ' || c == 127 || c == '=' || c == ']' || c == '"'
}

// ufk_nameEnd: the position of the first byte of s that cannot be part of a name.
func ufk_nameEnd(s string) int {
	for i := 0; i < len(s); i++ {
		if s_badName(s[i]) {
			return i
		}
	}
	return len(s)
}

func s_defineNameEnd(s string) bool {
	e := ufk_nameEnd(s)
	return 0 <= e && e <= len(s) && g_all(0, e, func(k int) bool { return !s_badName(s[k]) }) && (e == len(s) || s_badName(s[e]))
}

// ufk_esc: byte k of s is escaped, when reading a value whose text begins at offset 1.
func ufk_esc(s string, k int) bool {
	e := false
	for i := 1; i < k; i++ {
		e = s[i] == '\\' && !e
	}
	return e
}

// ufk_valueEnd: the position of the first quote or closing bracket of s, from offset 1,
// that is not escaped.
func ufk_valueEnd(s string) int {
	for i := 1; i < len(s); i++ {
		if s_stop(s, i) {
			return i
		}
	}
	return len(s)
}

func s_stop(s string, k int) bool {
	return (s[k] == '"' || s[k] == ']') && !ufk_esc(s, k)
}

func s_defineValueEnd(s string) bool {
	if len(s) == 0 {
		return true
	}
	e := ufk_valueEnd(s)
	return 1 <= e && e <= len(s) && !ufk_esc(s, 1) &&
		g_all(1, len(s), func(k int) bool { return ufk_esc(s, k+1) == (s[k] == '\\' && !ufk_esc(s, k)) }) &&
		g_all(1, len(s)-1, func(k int) bool { return s[k] != '\\' || ufk_esc(s, k) || !ufk_esc(s, k+2) }) &&
		g_all(1, e, func(k int) bool { return !s_stop(s, k) }) && (e == len(s) || s_stop(s, e))
}
