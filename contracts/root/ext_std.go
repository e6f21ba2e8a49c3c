package syslog5424

// Assumed contracts on the standard library functions the package calls.

import (
	"bytes"
	"strconv"
	"strings"
	"time"
	"unicode"
)

// The decimal reading of a string, and whether strconv.Atoi accepts it.
func ufk_atoi(s string) int {
	n, _ := strconv.Atoi(s)
	return n
}

func ufk_atoiOK(s string) bool {
	_, err := strconv.Atoi(s)
	return err == nil
}

func s_digits(s string) bool {
	return g_all(0, len(s), func(k int) bool { return '0' <= s[k] && s[k] <= '9' })
}

//gcv:for strconv.Itoa
func c_strconv_Itoa(n int) string {
	s := strconv.Itoa(n)
	g_ensures("length", 1 <= len(s) && len(s) <= 20 && (n < 0 || len(s) <= 19))
	g_ensures("digits", n < 0 || s_digits(s))
	g_ensures("sign", n >= 0 || s[0] == '-' && s_digits(s[1:]))
	g_ensures("canonical", ufk_atoiOK(s) && ufk_atoi(s) == n)
	return s
}

//gcv:for strconv.Atoi
func c_strconv_Atoi(s string) (int, error) {
	n, err := strconv.Atoi(s)
	g_ensures("accepts", (err == nil) == ufk_atoiOK(s))
	g_ensures("value", err != nil || n == ufk_atoi(s))
	g_ensures("shape", err != nil || len(s) > 0 && (s[0] == '-' || s[0] == '+' || '0' <= s[0] && s[0] <= '9') && s_digits(s[1:]))
	g_ensures("sign", err != nil || n >= 0 || s[0] == '-')
	return n, err
}

//gcv:for bytes.IndexByte
func c_bytes_IndexByte(b []byte, c byte) int {
	i := bytes.IndexByte(b, c)
	g_ensures("range", -1 <= i && i < len(b))
	g_ensures("found", i < 0 || b[i] == c)
	g_ensures("first", g_all(0, len(b), func(k int) bool { return k >= i && i >= 0 || b[k] != c }))
	return i
}

//gcv:for strings.IndexByte
func c_strings_IndexByte(b string, c byte) int {
	i := strings.IndexByte(b, c)
	g_ensures("range", -1 <= i && i < len(b))
	g_ensures("found", i < 0 || b[i] == c)
	g_ensures("first", g_all(0, len(b), func(k int) bool { return k >= i && i >= 0 || b[k] != c }))
	return i
}

//gcv:for bytes.HasPrefix
func c_bytes_HasPrefix(b, p []byte) bool {
	r := bytes.HasPrefix(b, p)
	g_ensures("prefix", r == (len(b) >= len(p) && string(b[:len(p)]) == string(p)))
	return r
}

//gcv:for bytes.HasSuffix
func c_bytes_HasSuffix(b, p []byte) bool {
	r := bytes.HasSuffix(b, p)
	g_ensures("suffix", r == (len(b) >= len(p) && string(b[len(b)-len(p):]) == string(p)))
	return r
}

var _ = unicode.IsSpace

// ufk_textEnd is where the trailing white space of s begins.
func ufk_textEnd(s string) int { return len(strings.TrimRightFunc(s, unicode.IsSpace)) }

// s_trimmed: r is s without its trailing white space.
func s_trimmed(r, s string) bool {
	return len(r) == ufk_textEnd(s) && len(r) <= len(s) && r == s[:len(r)]
}

//gcv:for strings.TrimRightFunc
func c_strings_TrimRightFunc(s string, f func(rune) bool) string {
	g_requires(f != nil)
	r := strings.TrimRightFunc(s, f)
	g_ensures("prefix", len(r) <= len(s) && g_samestr(r, s[:len(r)]))
	g_ensures("end", !g_samefunc(f, unicode.IsSpace) || len(r) == ufk_textEnd(s))
	return r
}

// ufk_format is the text of a time stamp.
func ufk_format(t time.Time, layout string) string { return t.Format(layout) }

//gcv:for (time.Time).Format
func c_time_Format(t time.Time, layout string) string {
	s := t.Format(layout)
	g_ensures("text", s == ufk_format(t, layout))
	return s
}
