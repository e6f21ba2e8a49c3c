package sdata

import (
	"errors"
	"math/rand"
)

var errTestSD = errors.New("element that fails to encode")

type testSD struct{ text string }

func (t testSD) SDID() SDID { return unknownSDID }

func (t testSD) Marshal5424() ([]byte, error) {
	if t.text == "!" {
		return nil, errTestSD
	}
	return []byte(t.text), nil
}

func gen_SD(r *rand.Rand) StructuredData {
	switch r.Intn(8) {
	case 0:
		return testSD{""}
	case 1:
		return testSD{"!"}
	case 2:
		return testSD{"[x y=\"z\"]"}
	case 3:
		return unknownSD{"a@1", []struct{ K, V string }{{"b", "c\\]"}}}
	}
	return testSD{string([]byte{'[', byte('a' + r.Intn(26)), ']'})}
}

func gen_List(r *rand.Rand) List {
	n := r.Intn(5)
	l := make(List, n, n+r.Intn(3))
	for i := range l {
		l[i] = gen_SD(r)
	}
	return l
}
