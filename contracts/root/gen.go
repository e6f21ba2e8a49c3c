package syslog5424

import (
	"io"
	"math/rand"
	"unicode"

	"github.com/nathanaelle/syslog5424/v2/sdata"
)

// Argument generators for native runs.

func rndToken(r *rand.Rand) string {
	switch r.Intn(4) {
	case 0:
		return "-"
	case 1:
		return "app"
	}
	b := make([]byte, 1+r.Intn(31))
	for i := range b {
		b[i] = byte(33 + r.Intn(94))
	}
	return string(b)
}

func gen_runeFunc(r *rand.Rand) func(rune) bool { return unicode.IsSpace }

func gen_Syslog(r *rand.Rand) *Syslog {
	s := &Syslog{
		facility: Priority(r.Intn(32) * 8),
		hostname: rndToken(r),
		pid:      rndToken(r),
		appname:  rndToken(r),
		minSev:   r.Intn(8),
	}
	if r.Intn(2) == 0 {
		s.channels = make([]Channel, 8)
		for k := range s.channels {
			if k > s.minSev {
				s.channels[k] = devNull
				continue
			}
			s.channels[k] = &trueChannel{msgChannel{priority: s.facility + Priority(k), hostname: s.hostname, pid: s.pid, appname: s.appname, msgid: "-"}}
		}
	}
	return s
}

func gen_msgChannel(r *rand.Rand) *msgChannel {
	return &msgChannel{priority: Priority(r.Intn(256)), hostname: rndToken(r), pid: rndToken(r), appname: rndToken(r), msgid: rndToken(r)}
}

type testSD struct{ text string }

func (d testSD) SDID() sdata.SDID { return nil }
func (d testSD) Marshal5424() ([]byte, error) {
	if d.text == "!" {
		return []byte("[half"), io.ErrUnexpectedEOF
	}
	return []byte(d.text), nil
}

func gen_SD(r *rand.Rand) sdata.StructuredData {
	return testSD{[]string{"[a b=\"c\"]", "[x y=\"]", "!", "[q]", ""}[r.Intn(5)]}
}
