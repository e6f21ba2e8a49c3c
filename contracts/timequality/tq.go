package timequality

import "github.com/nathanaelle/syslog5424/v2/sdata"

// s_consistent: synced only with a known time zone, an accuracy only when synced.
func s_consistent(tq TimeQuality) bool {
	return (!tq.IsSynced || tq.TzKnown) && (tq.SyncAccuracy == nil || tq.IsSynced)
}

// s_at: the text t stands in s at offset o.
func s_at(s string, o int, t string) bool {
	return o+len(t) <= len(s) && s[o:o+len(t)] == t
}

//gcv:for (TimeQuality).Marshal5424
//gcv:props C10
func c_TimeQuality_Marshal5424(tq TimeQuality) ([]byte, error) {
	acc := 0
	if tq.SyncAccuracy != nil {
		acc = *tq.SyncAccuracy
	}
	d, err := tq.Marshal5424()
	s := string(d)
	if !s_consistent(tq) {
		g_ensures("C10.refuses-inconsistent", err == ErrInvalidTimeQuality && len(d) == 0)
		return d, err
	}
	g_ensures("C10.encodes-consistent", err == nil)
	g_ensures("C10.begin", s_at(s, 0, "[timeQuality"))
	if !tq.TzKnown {
		g_ensures("C10.empty", len(s) == 13 && s_at(s, 12, "]"))
		return d, err
	}
	g_ensures("C10.tzKnown", s_at(s, 12, ` tzKnown="1"`))
	if !tq.IsSynced {
		g_ensures("C10.known", len(s) == 25 && s_at(s, 24, "]"))
		return d, err
	}
	g_ensures("C10.isSynced", s_at(s, 24, ` isSynced="1"`))
	if tq.SyncAccuracy == nil {
		g_ensures("C10.synced", len(s) == 38 && s_at(s, 37, "]"))
		return d, err
	}
	g_ensures("C10.syncAccuracy", s_at(s, 37, ` syncAccuracy="`))
	g_ensures("C10.accuracy", len(s) > 54 && s_decimal(s[52:len(s)-2], acc))
	g_ensures("C10.end", s_at(s, len(s)-2, `"]`))
	return d, err
}

//gcv:for (tqdef).Found
//gcv:props C10
func c_tqdef_Found(d tqdef, data []byte) (sdata.StructuredData, bool) {
	sd, ok := d.Found(data)
	if ok {
		tq, is := sd.(TimeQuality)
		g_ensures("C10.decoded-consistent", is && s_consistent(tq))
	}
	return sd, ok
}

func inv_tqRest(phi_data []byte, s string) bool {
	n := len(phi_data)
	return n < len(s) && g_samestr(string(phi_data), s[len(s)-1-n:len(s)-1])
}

// inv_tqStage: what is decoded so far, by the position reached.
func inv_tqStage(phi_data []byte, s string, tq TimeQuality, acc int, phi_tq TimeQuality) bool {
	o := len(s) - 1 - len(phi_data)
	none := phi_tq.SyncAccuracy == nil
	return o == 12 && !phi_tq.TzKnown && !phi_tq.IsSynced && none ||
		o == 24 && tq.TzKnown && phi_tq.TzKnown && !phi_tq.IsSynced && none ||
		o == 37 && tq.IsSynced && phi_tq.TzKnown && phi_tq.IsSynced && none ||
		o == len(s)-1 && tq.SyncAccuracy != nil && phi_tq.TzKnown && phi_tq.IsSynced && !none && *phi_tq.SyncAccuracy == acc
}

// Decoding what was encoded gives the same value.
//
//gcv:lemma
//gcv:props C10
//gcv:inline c_tqdef_Found
//gcv:inv tqRest tqStage
//gcv:nokeys
//gcv:nounroll
func l_tq_roundtrip(tq TimeQuality) {
	g_requires(s_consistent(tq))
	acc := 0
	if tq.SyncAccuracy != nil {
		acc = *tq.SyncAccuracy
	}
	d, err := tq.Marshal5424()
	if err != nil {
		return
	}
	s := string(d)
	n := len(s) - 1
	if tq.TzKnown {
		g_define(s_defineNameEnd(s[13:n]) && s_defineValueEnd(s[21:n]))
		g_assert("C10.reads-tzKnown", ufk_nameEnd(s[13:n]) == 7 && ufk_valueEnd(s[21:n]) == 2)
	}
	if tq.IsSynced {
		g_define(s_defineNameEnd(s[25:n]) && s_defineValueEnd(s[34:n]))
		g_assert("C10.reads-isSynced", ufk_nameEnd(s[25:n]) == 8 && ufk_valueEnd(s[34:n]) == 2)
	}
	if tq.SyncAccuracy != nil {
		g_define(s_defineNameEnd(s[38:n]) && s_defineValueEnd(s[51:n]))
		v := s[51:n]
		g_assert("C10.reads-accuracy-name", ufk_nameEnd(s[38:n]) == 12)
		g_assert("C10.accuracy-text", len(v) == n-51 && v[0] == '"' && v[len(v)-1] == '"' && g_all(1, len(v)-1, func(k int) bool { return v[k] == '-' || '0' <= v[k] && v[k] <= '9' }))
		g_assert("C10.accuracy-unescaped", len(v) >= 3 && ufk_esc(v, len(v)-1) == (v[len(v)-2] == '\\' && !ufk_esc(v, len(v)-2)))
		g_assert("C10.reads-accuracy", ufk_valueEnd(v) == len(v)-1)
	}
	g_ghost(s, tq, acc)
	sd, ok := tqdef{}.Found(d)
	got, is := sd.(TimeQuality)
	g_assert("C10.decodes", ok && is)
	g_assert("C10.same-flags", !is || got.TzKnown == tq.TzKnown && got.IsSynced == tq.IsSynced)
	g_assert("C10.same-accuracy", !is || (got.SyncAccuracy == nil) == (tq.SyncAccuracy == nil) && (got.SyncAccuracy == nil || *got.SyncAccuracy == acc))
}
