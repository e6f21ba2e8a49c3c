package sdata

// inv_noTail: what is left of an element ends where the element ends.
func inv_tail(any []byte, s string) bool {
	return len(any) <= len(s) && string(any) == s[len(s)-len(any):]
}

//gcv:for (unknownDef).Found
//gcv:props C09
func c_unknownDef_Found(d unknownDef, data []byte) (StructuredData, bool) {
	sd, ok := d.Found(data)
	if ok {
		_, is := sd.(unknownSD)
		g_ensures("C09.unknown-type", is)
	}
	return sd, ok
}

//gcv:for (genericSDID).Found
//gcv:props C09
func c_genericSDID_Found(d genericSDID, data []byte) (StructuredData, bool) {
	g_requires(d.SDIDLight != nil)
	sd, ok := d.Found(data)
	g_ensures("C09.found-something", !ok || sd != nil)
	return sd, ok
}

// s_param: a parameter ' name="value"' lies in s between from and to, its '=' at eq.
func s_param(s string, from, eq, to int) bool {
	return 0 < from && from+1 < eq && eq+3 <= to && to <= len(s) &&
		s[from] == ' ' && s[from+1] != ' ' && s[eq] == '=' && s[eq+1] == '"' && s[to-1] == '"' &&
		ufk_nameEnd(s[from+1:]) == eq-(from+1) && ufk_valueEnd(s[eq+1:]) == to-1-(eq+1)
}

// s_element: s is an element '[id name="value" ...' without its closing bracket; parameter k
// lies between st[k] and st[k+1] and its '=' is at eq[k].
func s_element(s string, st, eq []int) bool {
	n := len(eq)
	return len(st) == n+1 && len(s) >= 2 && s[0] == '[' && st[0] >= 2 && st[n] == len(s) &&
		ufk_nameEnd(s[1:]) == st[0]-1 && g_all(0, n, func(k int) bool { return s_param(s, st[k], eq[k], st[k+1]) })
}

// A well formed element of no registered type, with single spaces, is accepted.
//
//gcv:lemma
//gcv:props C09
//gcv:nokeys
//gcv:hard
//gcv:inv decoded decodedNext
//gcv:inline c_unknownDef_Found
func l_unknown_accepted(data []byte, st, eq []int) {
	n := len(data)
	g_requires(n >= 3 && data[n-1] == ']')
	s := string(data[:n-1])
	g_requires(s_element(s, st, eq))
	g_ghost(s, st, eq)
	sd, ok := unknownSDID.Found(data)
	_, is := sd.(unknownSD)
	g_assert("C09.accepted", ok && is)
}

func inv_decoded(phi_data []byte, s string, st, eq []int, phi_sd unknownSD) bool {
	j := len(phi_sd.Map)
	return j <= len(eq) && st[j] <= len(s) && len(phi_data) == len(s)-st[j] && g_samestr(string(phi_data), s[st[j]:])
}

func inv_decodedNext(s string, st, eq []int, phi_sd unknownSD) bool {
	j := len(phi_sd.Map)
	return j >= len(eq) || s_param(s, st[j], eq[j], st[j+1])
}
