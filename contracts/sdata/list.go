package sdata

// The encoding of an element: what its Marshal5424 returns, now and later.
func ufk_enc(d StructuredData) string {
	b, _ := d.Marshal5424()
	return string(b)
}

func ufk_encErr(d StructuredData) error {
	_, err := d.Marshal5424()
	return err
}

//gcv:for StructuredData.Marshal5424
//gcv:nonative
func c_StructuredData_Marshal(d StructuredData) ([]byte, error) {
	b, err := d.Marshal5424()
	g_ensures("encoding", err != nil || string(b) == ufk_enc(d))
	g_ensures("error", g_same(err, ufk_encErr(d)))
	return b, err
}

// ufk_off: where element k begins in the encoding of l.
func ufk_off(l List, k int) int {
	n := 0
	for i := 0; i < k; i++ {
		n += len(ufk_enc(l[i]))
	}
	return n
}

// ufk_cat: the encodings of the elements of l, one after the other.
func ufk_cat(l List) string {
	s := ""
	for _, d := range l {
		s += ufk_enc(d)
	}
	return s
}

func s_defineCat(l List) bool {
	return ufk_off(l, 0) == 0 && len(ufk_cat(l)) == ufk_off(l, len(l)) &&
		g_all(0, len(l), func(k int) bool {
			return ufk_off(l, k+1) == ufk_off(l, k)+len(ufk_enc(l[k]))
		}) &&
		g_all(0, len(l), func(k int) bool {
			return g_all(ufk_off(l, k), ufk_off(l, k+1), func(j int) bool { return ufk_cat(l)[j] == ufk_enc(l[k])[j-ufk_off(l, k)] })
		})
}

// ufk_list is the encoding of a list none of whose elements fails.
func s_list(l List) string {
	if len(l) == 0 {
		return "-"
	}
	return ufk_cat(l)
}

func inv_encoded(l List, tmp [][]byte, phi_i, phi_n int) bool {
	return len(tmp) == len(l) && 0 <= phi_i && phi_i <= len(l) && phi_n == ufk_off(l, phi_i) &&
		g_all(0, len(tmp), func(k int) bool { return k >= phi_i || string(tmp[k]) == ufk_enc(l[k]) && ufk_encErr(l[k]) == nil })
}

func inv_joined(l List, phi_ret []byte, phi_i int) bool {
	return 0 <= phi_i && phi_i <= len(l) && len(phi_ret) == ufk_off(l, phi_i) && string(phi_ret) == ufk_cat(l)[:len(phi_ret)]
}

// s_elements: every element is there.
func s_elements(l List) bool {
	return g_all(0, len(l), func(k int) bool { return l[k] != nil })
}

// s_size: the encodings of the elements fit the memory of the machine.
func s_size(l List) bool {
	return ufk_off(l, len(l)) <= 1<<40 && g_all(0, len(l), func(k int) bool { return 0 <= ufk_off(l, k) && ufk_off(l, k+1) <= ufk_off(l, len(l)) })
}

//gcv:for (List).Marshal5424
//gcv:props C06
//gcv:inv encoded joined
func c_List_Marshal5424(l List) ([]byte, error) {
	g_requires(s_elements(l))
	g_define(s_defineCat(l))
	g_define(s_size(l))
	b, err := l.Marshal5424()
	g_ensures("C06.list", err != nil || string(b) == s_list(l))
	g_ensures("C06.error", (err == nil) == g_all(0, len(l), func(k int) bool { return ufk_encErr(l[k]) == nil }))
	g_ensures("C06.that-error", err == nil || g_any(0, len(l), func(k int) bool { return g_same(err, ufk_encErr(l[k])) }))
	g_ensures("C06.no-bytes", err == nil || b == nil)
	return b, err
}

//gcv:for (List).Add
//gcv:props C05 C06
//gcv:frame C05
func c_List_Add(l List, data ...StructuredData) List {
	n := len(l)
	r := l.Add(data...)
	g_ensures("C05,C06.added", len(r) == n+len(data) && g_all(0, n, func(k int) bool { return g_same(r[k], l[k]) }) &&
		g_all(0, len(data), func(k int) bool { return g_same(r[n+k], data[k]) }))
	return r
}

//gcv:for EmptyList
//gcv:props C06
func c_EmptyList() List {
	l := EmptyList()
	g_ensures("C06.empty", len(l) == 0)
	return l
}

// Adding to a list twice gives two lists that do not share what was added.
//
//gcv:lemma
//gcv:props C05
func l_List_independent(l List, a, b StructuredData) {
	n := len(l)
	x := l.Add(a)
	y := l.Add(b)
	g_ensures("C05.independent", g_same(x[n], a) && g_same(y[n], b))
}
