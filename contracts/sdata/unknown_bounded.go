package sdata

// s_wellformed: s is '[id name="value" ...]' with single spaces.
func s_wellformed(s string) bool {
	n := len(s)
	if n < 3 || s[0] != '[' || s[n-1] != ']' {
		return false
	}
	i := 1
	for i < n-1 && !s_badName(s[i]) {
		i++
	}
	if i == 1 {
		return false
	}
	for i < n-1 {
		if s[i] != ' ' {
			return false
		}
		j := i + 1
		for j < n-1 && !s_badName(s[j]) {
			j++
		}
		if j == i+1 || s[j] != '=' || s[j+1] != '"' {
			return false
		}
		k := j + 2
		for k < n-1 && s[k] != '"' && s[k] != ']' {
			if s[k] == '\\' {
				k++
			}
			k++
		}
		if k >= n-1 || s[k] != '"' {
			return false
		}
		i = k + 1
	}
	return true
}

// Decoding and encoding a well formed element of no registered type gives back its bytes.
//
//gcv:bounded every "[" + t + "]" with t of at most 8 bytes (thorough: 9) out of the six bytes a, space, =, ", \, ]; and every "[a" followed by at most 3 parameters with values of at most 2 such bytes and "]"
//gcv:props C09
func b_unknown_reencode(s string) {
	g_requires(s_wellformed(s))
	sd, ok := Parse([]byte(s))
	g_assert("C09.accepted", ok && sd != nil)
	if !ok {
		return
	}
	data, err := sd.Marshal5424()
	g_assert("C09.same-bytes", err == nil && string(data) == s)
}

func enum_unknown_reencode(thorough bool, f func(string)) {
	const abc = "a =\"\\]"
	max := 8
	if thorough {
		max = 9
	}
	buf := []byte("[")
	var rec func(left int)
	rec = func(left int) {
		f(string(buf) + "]")
		if left == 0 {
			return
		}
		for i := 0; i < len(abc); i++ {
			buf = append(buf, abc[i])
			rec(left - 1)
			buf = buf[:len(buf)-1]
		}
	}
	rec(max)
	// several parameters
	var vals []string
	vals = append(vals, "")
	for i := 0; i < len(abc); i++ {
		vals = append(vals, abc[i:i+1])
		for j := 0; j < len(abc); j++ {
			vals = append(vals, abc[i:i+1]+abc[j:j+1])
		}
	}
	for _, a := range vals {
		for _, b := range vals {
			f("[a b=\"" + a + "\" cc=\"" + b + "\"]")
			for _, c := range vals {
				f("[a-1@2 b=\"" + a + "\" b=\"" + b + "\" d=\"" + c + "\"]")
			}
		}
	}
}
