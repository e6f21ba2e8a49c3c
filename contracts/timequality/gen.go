package timequality

import "math/rand"

func gen_TimeQuality(r *rand.Rand) TimeQuality {
	tq := TimeQuality{}
	switch r.Intn(5) {
	case 0:
		tq = TimeQuality{TzKnown: r.Intn(2) == 0, IsSynced: r.Intn(2) == 0}
	case 1:
	case 2:
		tq.TzKnown = true
	default:
		tq.TzKnown, tq.IsSynced = true, true
	}
	if tq.IsSynced && r.Intn(4) > 0 || r.Intn(10) == 0 {
		v := int(r.Uint64() >> uint(r.Intn(64)))
		if r.Intn(3) == 0 {
			v = -v
		}
		tq.SyncAccuracy = &v
	}
	return tq
}
