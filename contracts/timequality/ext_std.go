package timequality

// Assumed contracts on the standard library functions the package calls.

import "strconv"

// The decimal reading of a string, and whether strconv.Atoi accepts it.
func ufk_atoi(s string) int {
	n, _ := strconv.Atoi(s)
	return n
}

func ufk_atoiOK(s string) bool {
	_, err := strconv.Atoi(s)
	return err == nil
}

func s_digits(s string) bool {
	return g_all(0, len(s), func(k int) bool { return '0' <= s[k] && s[k] <= '9' })
}

//gcv:for strconv.Atoi
func c_strconv_Atoi(s string) (int, error) {
	n, err := strconv.Atoi(s)
	g_ensures("accepts", (err == nil) == ufk_atoiOK(s))
	g_ensures("value", err != nil || n == ufk_atoi(s))
	g_ensures("shape", err != nil || len(s) > 0 && (s[0] == '-' || s[0] == '+' || '0' <= s[0] && s[0] <= '9') && s_digits(s[1:]))
	g_ensures("sign", err != nil || n >= 0 || s[0] == '-')
	return n, err
}

// s_decimal: s is the decimal text of n.
func s_decimal(s string, n int) bool {
	return 1 <= len(s) && len(s) <= 20 && ufk_atoiOK(s) && ufk_atoi(s) == n &&
		('0' <= s[0] && s[0] <= '9' || s[0] == '-' && n < 0) && g_all(1, len(s), func(k int) bool { return '0' <= s[k] && s[k] <= '9' })
}

//gcv:for strconv.FormatInt
func c_strconv_FormatInt(i int64, base int) string {
	g_requires(base == 10)
	r := strconv.FormatInt(i, base)
	g_ensures("decimal", s_decimal(r, int(i)))
	return r
}

//gcv:model strconv.AppendInt
func m_strconv_AppendInt(dst []byte, i int64, base int) []byte {
	return append(dst, strconv.FormatInt(i, base)...)
}
