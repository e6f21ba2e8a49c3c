package sdata

// ufk_sdidName: the identifier of a type, what its String returns, now and later.
func ufk_sdidName(s SDIDLight) string { return s.String() }

//gcv:for SDIDLight.String
//gcv:nonative
//gcv:maypanic
func c_SDIDLight_String(s SDIDLight) string {
	n := s.String()
	g_ensures("name", n == ufk_sdidName(s))
	return n
}

// ufk_accepts: the type accepts the bytes.
func ufk_accepts(s SDID, data []byte) bool {
	_, ok := s.Found(data)
	return ok
}

// ufk_found: what the type makes of the bytes.
func ufk_found(s SDID, data []byte) StructuredData {
	sd, _ := s.Found(data)
	return sd
}

// uf_owner: the type that gave an element.
func uf_owner(d StructuredData) SDID { return d.SDID() }

//gcv:for SDID.Found
//gcv:nonative
//gcv:maypanic
func c_SDID_Found(s SDID, data []byte) (StructuredData, bool) {
	sd, ok := s.Found(data)
	g_ensures("accepts", ok == ufk_accepts(s, data))
	g_ensures("element", !ok || sd != nil && g_same(sd, ufk_found(s, data)) && g_same(uf_owner(sd), s))
	return sd, ok
}

// s_registry: the registry is there and free, and holds every type under its name.
func s_registry() bool {
	return s_free(registry)
}

func s_free(r *registryT) bool {
	return r != nil && r.lock != nil && r.sdids != nil && !g_locked(r.lock) && s_entries(r.sdids)
}

func inv_entries() bool {
	return s_entries(registry.sdids)
}

func s_entries(m map[string]SDID) bool {
	return g_allvals_SDID(m, func(v SDID) bool { return v != nil }) && g_keyed_SDID(m, func(v SDID) string { return ufk_sdidName(v) })
}

// g_allvals_SDID: every value of the map satisfies f.
func g_allvals_SDID(m map[string]SDID, f func(SDID) bool) bool {
	for _, v := range m {
		if !f(v) {
			return false
		}
	}
	return true
}

// g_keyed_SDID: every value of the map is stored under the key f gives.
func g_keyed_SDID(m map[string]SDID, f func(SDID) string) bool {
	for k, v := range m {
		if f(v) != k {
			return false
		}
	}
	return true
}

func s_has(k string) bool {
	_, ok := registry.sdids[k]
	return ok
}

func s_get(k string) SDID {
	return registry.sdids[k]
}

//gcv:for Register
//gcv:props C21
func c_Register(s SDID) SDID {
	g_requires(s_registry() && s != nil)
	g_modifies(registry, registry.lock, registry.sdids)
	g_unwind("C21.unlocked", func() bool { return !g_locked(registry.lock) })
	had, old := s_has(ufk_sdidName(s)), s_get(ufk_sdidName(s))
	r := Register(s)
	g_ensures("C21.unlocked", s_registry())
	g_ensures("C21.gives-back", g_same(r, s))
	g_ensures("C21.registered", s_has(ufk_sdidName(s)))
	g_ensures("C21.first-stays", !had || g_same(s_get(ufk_sdidName(s)), old))
	g_ensures("C21.taken", had || g_same(s_get(ufk_sdidName(s)), s))
	return r
}

// Registering touches no other name.
//
//gcv:lemma
//gcv:props C21
//gcv:inline c_Register
func l_register_others(s SDID, k string) {
	g_requires(s_registry() && s != nil)
	g_requires(k != ufk_sdidName(s))
	had, old := s_has(k), s_get(k)
	Register(s)
	g_assert("C21.others", s_has(k) == had && g_same(s_get(k), old))
}

//gcv:for RegisterGroup
//gcv:props C21
//gcv:inv entries
//gcv:eqkeys
func c_RegisterGroup(sdids ...SDID) {
	g_requires(s_registry() && s_types(sdids))
	g_modifies(registry, registry.lock, registry.sdids)
	g_unwind("C21.unlocked", func() bool { return !g_locked(registry.lock) })
	RegisterGroup(sdids...)
	g_ensures("C21.unlocked", s_registry())
}

func s_types(sdids []SDID) bool {
	return g_all(0, len(sdids), func(k int) bool { return sdids[k] != nil })
}

// s_firstNamed: the first of the n first types of the group with that name is t.
func s_firstNamed(sdids []SDID, n int, name string, t SDID) bool {
	return g_any(0, n, func(k int) bool {
		return g_same(sdids[k], t) && ufk_sdidName(sdids[k]) == name &&
			g_all(0, k, func(j int) bool { return ufk_sdidName(sdids[j]) != name })
	})
}

func s_noneNamed(sdids []SDID, n int, name string) bool {
	return g_all(0, n, func(k int) bool { return ufk_sdidName(sdids[k]) != name })
}

// s_after: what the name k gives after the n first types of the group were registered.
func s_after(sdids []SDID, n int, name string, had bool, old SDID) bool {
	if had {
		return s_has(name) && g_same(s_get(name), old)
	}
	if s_has(name) {
		return s_firstNamed(sdids, n, name, s_get(name))
	}
	return s_noneNamed(sdids, n, name)
}

func inv_registered(phi_i int, sdids []SDID, name string, had bool, old SDID) bool {
	return 0 <= phi_i && phi_i <= len(sdids) && s_after(sdids, phi_i, name, had, old)
}

// A group registers the first type of each name that was free, and no other.
//
//gcv:lemma
//gcv:props C21
//gcv:inline c_RegisterGroup
//gcv:inv registered entries
//gcv:eqkeys
func l_registerGroup(sdids []SDID, name string) {
	g_requires(s_registry() && s_types(sdids))
	had, old := s_has(name), s_get(name)
	g_ghost(sdids, name, had, old)
	RegisterGroup(sdids...)
	g_assert("C21.group", s_after(sdids, len(sdids), name, had, old))
}

// s_registered: the type is registered under its name.
func s_registered(t SDID) bool {
	return s_has(ufk_sdidName(t)) && g_same(s_get(ufk_sdidName(t)), t)
}

//gcv:for (*registryT).Found
//gcv:props C21
func c_registry_Found(r *registryT, data []byte) (StructuredData, bool) {
	g_requires(s_free(r))
	g_modifies(r.lock)
	g_unwind("C21.unlocked", func() bool { return !g_locked(r.lock) })
	sd, ok := r.Found(data)
	g_ensures("C21.unlocked", s_free(r))
	g_ensures("C21.found-something", !ok || sd != nil)
	return sd, ok
}

func inv_asked(seen map[string]SDID, name string, data []byte) bool {
	_, asked := seen[name]
	return !asked || !ufk_accepts(registry.sdids[name], data)
}

// A registered type that accepts the bytes is asked: the answer is then never that of the
// unknown type.
//
//gcv:lemma
//gcv:props C21
//gcv:inline c_registry_Found
//gcv:inv asked
//gcv:eqkeys
func l_found(data []byte, name string) {
	g_requires(s_registry())
	g_requires(s_has(name) && s_get(name) != nil && ufk_accepts(s_get(name), data))
	g_ghost(name, data)
	sd, ok := registry.Found(data)
	g_assert("C21.asked", ok && sd != nil && s_registered(uf_owner(sd)))
}

// s_refused: no registered type accepts the bytes.
func s_refused(data []byte) bool {
	return g_allvals_SDID(registry.sdids, func(v SDID) bool { return !ufk_accepts(v, data) })
}

// When no registered type accepts the bytes, the unknown type is asked.
//
//gcv:lemma
//gcv:props C21
//gcv:inline c_registry_Found
func l_fallback(data []byte) {
	g_requires(s_registry())
	g_requires(s_refused(data))
	sd, ok := registry.Found(data)
	_, unknown := sd.(unknownSD)
	g_assert("C21.fallback", !ok || unknown)
}

//gcv:lemma
//gcv:props C21
//gcv:inline c_registry_Found c_unknownDef_Found
func l_fallback_asked() {
	data := []byte{'[', 'a', ']'}
	g_requires(s_registry())
	g_requires(s_refused(data))
	sd, ok := registry.Found(data)
	_, unknown := sd.(unknownSD)
	g_assert("C21.fallback-asked", ok && unknown)
}

// Decoding is what the registry finds.
//
//gcv:for Parse
//gcv:props C21
func c_Parse(data []byte) (StructuredData, bool) {
	g_requires(s_registry())
	g_modifies(registry.lock)
	sd, ok := Parse(data)
	g_ensures("C21.unlocked", s_registry())
	g_ensures("C21.found-something", !ok || sd != nil)
	return sd, ok
}
