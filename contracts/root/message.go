package syslog5424

import (
	"time"

	"github.com/nathanaelle/syslog5424/v2/sdata"
)

const (
	attrPrio = 1 << iota
	attrTime
	attrHost
	attrApp
	attrProc
	attrMsgID
	attrSD
	attrText
)

// s_sameList: the lists hold the same elements.
func s_sameList(a, b sdata.List) bool {
	return len(a) == len(b) && g_all(0, len(a), func(k int) bool { return g_same(a[k], b[k]) })
}

// s_but: a and b differ at most in the named attribute.
func s_but(attr int, a, b Message) bool {
	return (attr == attrPrio || a.prio == b.prio) &&
		(attr == attrTime || a.timestamp == b.timestamp) &&
		(attr == attrHost || a.hostname == b.hostname) &&
		(attr == attrApp || a.appname == b.appname) &&
		(attr == attrProc || a.procid == b.procid) &&
		(attr == attrMsgID || a.msgid == b.msgid) &&
		(attr == attrSD || s_sameList(a.sd, b.sd)) &&
		(attr == attrText || a.message == b.message)
}

// s_message: the header fields of m are legal.
func s_message(m Message) bool {
	return s_legal(m.hostname, 255) && s_legal(m.appname, 48) && s_legal(m.procid, 128) && s_legal(m.msgid, 32)
}

//gcv:for (Message).Host
//gcv:props C03 C05
//gcv:frame C05
func c_Message_Host(m Message, host string) Message {
	r := m.Host(host)
	g_ensures("C03.host", s_token(r.hostname, host, 255))
	g_ensures("C05.others", s_but(attrHost, r, m))
	return r
}

//gcv:for (Message).AppName
//gcv:props C03 C05
//gcv:frame C05
func c_Message_AppName(m Message, app string) Message {
	r := m.AppName(app)
	g_ensures("C03.app", s_token(r.appname, app, 48))
	g_ensures("C05.others", s_but(attrApp, r, m))
	return r
}

//gcv:for (Message).ProcID
//gcv:props C03 C05
//gcv:frame C05
func c_Message_ProcID(m Message, pid string) Message {
	r := m.ProcID(pid)
	g_ensures("C03.procid", s_token(r.procid, pid, 128))
	g_ensures("C05.others", s_but(attrProc, r, m))
	return r
}

//gcv:for (Message).MsgID
//gcv:props C03 C05
//gcv:frame C05
func c_Message_MsgID(m Message, id string) Message {
	r := m.MsgID(id)
	g_ensures("C03.msgid", s_token(r.msgid, id, 32))
	g_ensures("C05.others", s_but(attrMsgID, r, m))
	return r
}

//gcv:for (Message).Priority
//gcv:props C05
//gcv:frame C05
func c_Message_Priority(m Message, p Priority) Message {
	r := m.Priority(p)
	g_ensures("C05.priority", r.prio == p)
	g_ensures("C05.others", s_but(attrPrio, r, m))
	return r
}

//gcv:for (Message).Time
//gcv:props C05
//gcv:frame C05
func c_Message_Time(m Message, ts time.Time) Message {
	r := m.Time(ts)
	g_ensures("C05.time", r.timestamp == ts)
	g_ensures("C05.others", s_but(attrTime, r, m))
	return r
}

//gcv:for (Message).Now
//gcv:props C05
//gcv:frame C05
func c_Message_Now(m Message) Message {
	r := m.Now()
	g_ensures("C05.others", s_but(attrTime, r, m))
	return r
}

//gcv:for (Message).Timestamp
//gcv:props C05
//gcv:frame C05
func c_Message_Timestamp(m Message, stamp string) Message {
	r := m.Timestamp(stamp)
	g_ensures("C05.others", s_but(attrTime, r, m))
	return r
}

//gcv:for (Message).Delta
//gcv:props C05
//gcv:frame C05
func c_Message_Delta(m Message, boot time.Time, sec, nsec string) Message {
	r := m.Delta(boot, sec, nsec)
	g_ensures("C05.others", s_but(attrTime, r, m))
	return r
}

//gcv:for (Message).Epoch
//gcv:props C05
//gcv:frame C05
func c_Message_Epoch(m Message, sec, nsec string) Message {
	r := m.Epoch(sec, nsec)
	g_ensures("C05.others", s_but(attrTime, r, m))
	return r
}

//gcv:for (Message).LocalHost
//gcv:props C03 C05
//gcv:frame C05
func c_Message_LocalHost(m Message) Message {
	r := m.LocalHost()
	g_ensures("C03.localhost", s_legal(r.hostname, 255))
	g_ensures("C05.others", s_but(attrHost, r, m))
	return r
}

//gcv:for (Message).Msg
//gcv:props C04 C05
//gcv:frame C05
func c_Message_Msg(m Message, text string) Message {
	r := m.Msg(text)
	g_ensures("C04.trimmed", s_trimmed(r.message, text))
	g_ensures("C05.others", s_but(attrText, r, m))
	return r
}

//gcv:for (Message).StructuredData
//gcv:props C05
//gcv:frame C05
func c_Message_StructuredData(m Message, sd ...sdata.StructuredData) Message {
	r := m.StructuredData(sd...)
	n := len(m.sd)
	g_ensures("C05.added", len(r.sd) == n+len(sd) && g_all(0, n, func(k int) bool { return g_same(r.sd[k], m.sd[k]) }) &&
		g_all(0, len(sd), func(k int) bool { return g_same(r.sd[n+k], sd[k]) }))
	g_ensures("C05.others", s_but(attrSD, r, m))
	g_ensures("same", g_samestr(r.hostname, m.hostname) && g_samestr(r.appname, m.appname) && g_samestr(r.procid, m.procid) && g_samestr(r.msgid, m.msgid) && g_samestr(r.message, m.message))
	return r
}

//gcv:for CreateMessage
//gcv:props C03 C04
func c_CreateMessage(app string, p Priority, text string) Message {
	m := CreateMessage(app, p, text)
	g_ensures("C03.app", s_token(m.appname, app, 48))
	g_ensures("C03.legal", s_message(m))
	g_ensures("C04.attributes", m.prio == p && len(m.sd) == 0 && m.procid == "-" && m.msgid == "-" && s_trimmed(m.message, text))
	return m
}

//gcv:for CreateWholeMessage
//gcv:props C03 C04
func c_CreateWholeMessage(p Priority, ts time.Time, host, app, pid, msgid, text string) Message {
	m := CreateWholeMessage(p, ts, host, app, pid, msgid, text)
	g_ensures("C03.host", s_token(m.hostname, host, 255))
	g_ensures("C03.app", s_token(m.appname, app, 48))
	g_ensures("C03.procid", s_token(m.procid, pid, 128))
	g_ensures("C03.msgid", s_token(m.msgid, msgid, 32))
	g_ensures("C04.attributes", m.prio == p && m.timestamp == ts && len(m.sd) == 0 && s_trimmed(m.message, text))
	return m
}

//gcv:for EmptyMessage
//gcv:props C03 C04
func c_EmptyMessage() Message {
	m := EmptyMessage()
	g_ensures("C03.legal", s_message(m))
	g_ensures("C04.attributes", m.prio == 0 && len(m.sd) == 0 && m.message == "")
	return m
}

// Two messages derived from one do not share what was added.
//
//gcv:lemma
//gcv:props C05
func l_Message_independent(m Message, a, b sdata.StructuredData) {
	n := len(m.sd)
	x := m.StructuredData(a)
	y := m.StructuredData(b)
	g_ensures("C05.independent", len(x.sd) == n+1 && len(y.sd) == n+1 && g_same(x.sd[n], a) && g_same(y.sd[n], b))
}
