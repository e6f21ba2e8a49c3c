package syslog5424

//gcv:lemma
//gcv:props C13
func l_rfc5425_frame(p []byte, more string, eof bool) {
	g_requires(len(p) > 0)
	was := string(p)
	f := TransportRFC5425.Encode(p)
	g_assert("C13.payload-unchanged", string(p) == was)
	buf := []byte(string(f) + more)
	data, rest, err := TransportRFC5425.PrefixStrip(buf, eof)
	g_assert("C13.rfc5425-inverse", err == nil && string(data) == was && string(rest) == more && rest != nil)
	data, _, err = TransportRFC5425.SuffixStrip(data, eof)
	g_assert("C13.rfc5425-suffix", err == nil && string(data) == was)
}

//gcv:lemma
//gcv:props C13
func l_lf_frame(p []byte, more string, eof bool) {
	g_requires(len(p) > 0 && g_all(0, len(p), func(k int) bool { return p[k] != '\n' }))
	was := string(p)
	f := TransportLFEnded.Encode(p)
	g_assert("C13.payload-unchanged", string(p) == was)
	buf := []byte(string(f) + more)
	data, rest, err := TransportLFEnded.PrefixStrip(buf, eof)
	g_assert("C13.lf-prefix", err == nil && rest == nil && string(data) == string(buf))
	data, rest, err = TransportLFEnded.SuffixStrip(data, eof)
	g_assert("C13.lf-inverse", err == nil && string(data) == was && string(rest) == more && rest != nil)
}

//gcv:lemma
//gcv:props C13
func l_nul_frame(p []byte, more string, eof bool) {
	g_requires(len(p) > 0 && g_all(0, len(p), func(k int) bool { return p[k] != 0 }))
	was := string(p)
	f := TransportZeroEnded.Encode(p)
	g_assert("C13.payload-unchanged", string(p) == was)
	buf := []byte(string(f) + more)
	data, rest, err := TransportZeroEnded.PrefixStrip(buf, eof)
	g_assert("C13.nul-prefix", err == nil && rest == nil && string(data) == string(buf))
	data, rest, err = TransportZeroEnded.SuffixStrip(data, eof)
	g_assert("C13.nul-inverse", err == nil && string(data) == was && string(rest) == more && rest != nil)
}

// s_parts: data and rest are consecutive parts of buf, with nothing between them
// but n bytes of framing.
func s_parts(buf, data, rest []byte, lo, n int) bool {
	return g_sub(data, buf, lo) && lo+len(data) <= len(buf) &&
		(rest == nil || g_sub(rest, buf, lo+len(data)+n) && lo+len(data)+n+len(rest) == len(buf))
}

//gcv:lemma
//gcv:props C14
func l_lf_strip(buf []byte, eof bool) {
	was := string(buf)
	data, rest, err := TransportLFEnded.PrefixStrip(buf, eof)
	g_assert("C14.lf-prefix", err == nil && rest == nil && string(data) == was)
	data, rest, err = TransportLFEnded.SuffixStrip(buf, eof)
	g_assert("C14.lf-parts", len(data) == 0 && rest == nil || s_parts(buf, data, rest, 0, 1))
	g_assert("C14.lf-terminator", rest == nil || buf[len(data)] == '\n')
	g_assert("C14.lf-first", rest == nil && err == ErrTransportIncomplete || g_all(0, len(data), func(k int) bool { return buf[k] != '\n' }))
	g_assert("C14.lf-all", rest != nil || string(data) == was)
	g_assert("C14.lf-error", err == nil || err == ErrTransportIncomplete && eof && rest == nil)
	g_assert("C14.lf-unchanged", string(buf) == was)
}

//gcv:lemma
//gcv:props C14
func l_nul_strip(buf []byte, eof bool) {
	was := string(buf)
	data, rest, err := TransportZeroEnded.PrefixStrip(buf, eof)
	g_assert("C14.nul-prefix", err == nil && rest == nil && string(data) == was)
	data, rest, err = TransportZeroEnded.SuffixStrip(buf, eof)
	g_assert("C14.nul-parts", len(data) == 0 && rest == nil || s_parts(buf, data, rest, 0, 1))
	g_assert("C14.nul-terminator", rest == nil || buf[len(data)] == 0)
	g_assert("C14.nul-first", g_all(0, len(data), func(k int) bool { return buf[k] != 0 }))
	g_assert("C14.nul-all", rest != nil || string(data) == was)
	g_assert("C14.nul-error", err == nil || err == ErrTransportIncomplete && eof && rest == nil)
	g_assert("C14.nul-unchanged", string(buf) == was)
}

//gcv:lemma
//gcv:props C14
func l_rfc5425_strip(buf []byte, eof bool) {
	was := string(buf)
	sp := g_first(buf, ' ')
	data, rest, err := TransportRFC5425.PrefixStrip(buf, eof)
	g_assert("C14.rfc5425-unchanged", string(buf) == was)
	if err != nil {
		g_assert("C14.rfc5425-error-rest", rest == nil)
		g_assert("C14.rfc5425-error-kind", err == ErrTransportNoHeader || err == ErrTransportInvHeader || err == ErrTransportIncomplete)
	}
	if sp <= 0 {
		g_assert("C14.rfc5425-no-header", data == nil && rest == nil && (err == nil && sp < 0 && len(buf) < 20 || err == ErrTransportNoHeader))
		return
	}
	h := string(buf[:sp])
	if !ufk_atoiOK(h) || ufk_atoi(h) < 0 {
		g_assert("C14.rfc5425-bad-length", err == ErrTransportInvHeader && data == nil && rest == nil)
		return
	}
	n := ufk_atoi(h)
	if n <= len(buf)-sp-1 {
		g_assert("C14.rfc5425-complete", err == nil && data != nil && rest != nil && len(data) == n && s_parts(buf, data, rest, sp+1, 0))
	} else if eof {
		g_assert("C14.rfc5425-truncated", err == ErrTransportIncomplete && rest == nil && g_sub(data, buf, sp+1) && len(data) == len(buf)-sp-1)
	} else {
		g_assert("C14.rfc5425-wait", err == nil && data == nil && rest == nil)
	}
	data, rest, err = TransportRFC5425.SuffixStrip(buf, eof)
	g_assert("C14.rfc5425-suffix", err == nil && rest == nil && string(data) == was)
}
