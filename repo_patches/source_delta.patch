From 82fdf2289b49758ddef8d53873903c14a667c6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 01/11] fix: encode priorities above 255 without byte overflow

---
 priority.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/priority.go b/priority.go
index 7682fab..d6fbe08 100644
--- a/priority.go
+++ b/priority.go
@@ -135,12 +135,9 @@ func (p Priority) String() string {
 
 // Marshal5424 encode the priority to Syslog5424 format
 func (p Priority) Marshal5424() (data []byte, err error) {
-	u := byte(int(p) % 10)
-	d := byte(int(p)%100 - (int(p) % 10))
-	c := byte(int(p) - (int(p) % 100))
-	c = '0' + c/100
-	d = '0' + d/10
-	u = '0' + u/1
+	u := '0' + byte(int(p)%10)
+	d := '0' + byte(int(p)/10%10)
+	c := '0' + byte(int(p)/100%10)
 
 	if c > '0' {
 		data = []byte{'<', c, d, u, '>', '1'}
-- 
2.43.0


From 9f77f70a6bfcc31687b71f1db336e5294abb9492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 02/11] fix: print priorities of facilities 24 to 31 without
 panicking

---
 priority.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/priority.go b/priority.go
index d6fbe08..183759b 100644
--- a/priority.go
+++ b/priority.go
@@ -87,7 +87,8 @@ var severity = map[string]Priority{
 var severityString = []string{"emerg", "alert", "crit", "err", "warning", "notice", "info", "debug"}
 var facilityString = []string{"kern", "user", "mail", "daemon", "auth", "syslog", "lpr", "news",
 	"uucp", "cron", "authpriv", "ftp", "-", "-", "-", "-",
-	"local0", "local1", "local2", "local3", "local4", "local5", "local6", "local7"}
+	"local0", "local1", "local2", "local3", "local4", "local5", "local6", "local7",
+	"-", "-", "-", "-", "-", "-", "-", "-"}
 
 // Set implement flag.Value interface
 func (p *Priority) Set(d string) error {
-- 
2.43.0


From 3c630b8330f55c8a20f9b11b14da7ffbb9dd3f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 03/11] fix: refuse negative and overflowing RFC 5425 frame
 lengths instead of panicking

---
 transport.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/transport.go b/transport.go
index abeb88d..3387d8f 100644
--- a/transport.go
+++ b/transport.go
@@ -91,15 +91,19 @@ func (t tRFC5425) PrefixStrip(buffer []byte, atEOF bool) (data, rest []byte, err
 		return nil, nil, ErrTransportInvHeader
 	}
 
+	if lenMsg < 0 {
+		return nil, nil, ErrTransportInvHeader
+	}
+
 	start := sepPos + 1
-	lenBuff := start + lenMsg
-	if len(buffer) < lenBuff {
+	if len(buffer)-start < lenMsg {
 		if atEOF {
 			return buffer[start:], nil, ErrTransportIncomplete
 		}
 		return nil, nil, nil
 	}
 
+	lenBuff := start + lenMsg
 	return buffer[start:lenBuff], buffer[lenBuff:], nil
 }
 
-- 
2.43.0


From efbe29baa4123738b0df85b7afd1a683cd8c4c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 04/11] fix: deliver complete RFC 5425 frames shorter than 20
 bytes

---
 transport.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transport.go b/transport.go
index 3387d8f..7072ff8 100644
--- a/transport.go
+++ b/transport.go
@@ -77,11 +77,11 @@ func (t tRFC5425) PrefixStrip(buffer []byte, atEOF bool) (data, rest []byte, err
 		return nil, nil, nil
 	}
 
-	if len(buffer) < 20 {
+	sepPos := bytes.IndexByte(buffer, ' ')
+	if sepPos < 0 && len(buffer) < 20 {
 		return nil, nil, nil
 	}
 
-	sepPos := bytes.IndexByte(buffer, ' ')
 	if sepPos <= 0 {
 		return nil, nil, ErrTransportNoHeader
 	}
-- 
2.43.0


From 7189303c77eaca161a4319a2b6e1198f9c0b5006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:58 +0000
Subject: [PATCH 05/11] fix: validate the host name and the app-name of
 sub-loggers

---
 message.go | 11 ++++++++++-
 syslog.go  |  1 +
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/message.go b/message.go
index 0b06c55..5e22197 100644
--- a/message.go
+++ b/message.go
@@ -25,7 +25,16 @@ type Message struct {
 // RFC5424TimeStamp is the format of a RFC 5424 TimeStamp
 const RFC5424TimeStamp string = "2006-01-02T15:04:05.999999Z07:00"
 
-var hostname, _ = os.Hostname()
+var hostname = localHostname()
+
+// localHostname returns the name of the host as a valid hostname field
+func localHostname() string {
+	name, err := os.Hostname()
+	if err != nil {
+		return "-"
+	}
+	return validHost(name)
+}
 
 // CreateMessage create a Message with the timestamp, hostname, appname, the priority and the message preset
 func CreateMessage(appname string, prio Priority, message string) Message {
diff --git a/syslog.go b/syslog.go
index 1de5193..d047098 100644
--- a/syslog.go
+++ b/syslog.go
@@ -92,6 +92,7 @@ func (syslog *Syslog) SubSyslog(subAppName string) (sub *Syslog) {
 	default:
 		appname = syslog.appname + "/" + subAppName
 	}
+	appname = validApp(appname)
 
 	sub = &Syslog{
 		facility: syslog.facility,
-- 
2.43.0


From 8165ce671441170359edbd7f51637e65fb484911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:45 +0000
Subject: [PATCH 06/11] fix: keep the destination when deriving from a channel
 with a msg-id

---
 channel.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channel.go b/channel.go
index 0762c4a..10d7115 100644
--- a/channel.go
+++ b/channel.go
@@ -47,7 +47,7 @@ type (
 	}
 )
 
-func (d *trueChannel) AppName(sup string) Channel {
+func (d *msgChannel) AppName(sup string) Channel {
 	var appname string
 
 	switch string(d.appname) {
@@ -67,7 +67,7 @@ func (d *trueChannel) AppName(sup string) Channel {
 	}}
 }
 
-func (d *trueChannel) Msgid(msgid string) Channel {
+func (d *msgChannel) Msgid(msgid string) Channel {
 	return &msgChannel{
 		priority: d.priority,
 		hostname: d.hostname,
-- 
2.43.0


From 0ea50cb0ad15cb5ee0afb968718d748fcfc17172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:00 +0000
Subject: [PATCH 07/11] fix: never share the array of a derived structured data
 list

---
 sdata/list.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdata/list.go b/sdata/list.go
index 547dd7a..01218ef 100644
--- a/sdata/list.go
+++ b/sdata/list.go
@@ -78,7 +78,8 @@ func RegisterGroup(sdids ...SDID) {
 // Add append data to a list of structured data
 func (listSD List) Add(data ...StructuredData) List {
 
-	return List(append([]StructuredData(listSD), data...))
+	// the capacity is cut so that append never writes in an array shared with another list
+	return List(append([]StructuredData(listSD[:len(listSD):len(listSD)]), data...))
 }
 
 // Marshal5424 encode a Structured Data to syslog 5424 format
-- 
2.43.0


From b1b364e0c3cad153fd5a2f18aff40a025fe9b5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:29 +0000
Subject: [PATCH 08/11] fix: decode short and parameterless structured data
 without panicking

---
 sdata/sd-generic.go | 4 ++--
 sdata/sd-unknown.go | 2 +-
 sdata/tokens.go     | 5 +++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/sdata/sd-generic.go b/sdata/sd-generic.go
index 579cb9f..10e285b 100644
--- a/sdata/sd-generic.go
+++ b/sdata/sd-generic.go
@@ -45,13 +45,13 @@ func (sdid genericSDID) MarshalText() (text []byte, err error) {
 }
 
 func (sdid genericSDID) Found(data []byte) (StructuredData, bool) {
-	if data[0] != '[' || data[len(data)-1] != ']' {
+	if len(data) < 2 || data[0] != '[' || data[len(data)-1] != ']' {
 		return nil, false
 	}
 	data = data[1 : len(data)-1]
 
 	header := sdid.String()
-	if string(data[0:len(header)]) != header {
+	if len(data) < len(header) || string(data[0:len(header)]) != header {
 		return nil, false
 	}
 
diff --git a/sdata/sd-unknown.go b/sdata/sd-unknown.go
index 5eee3f0..1592140 100644
--- a/sdata/sd-unknown.go
+++ b/sdata/sd-unknown.go
@@ -43,7 +43,7 @@ func (d unknownDef) MarshalText() (text []byte, err error) {
 }
 
 func (d unknownDef) Found(data []byte) (StructuredData, bool) {
-	if data[0] != '[' || data[len(data)-1] != ']' {
+	if len(data) < 2 || data[0] != '[' || data[len(data)-1] != ']' {
 		return nil, false
 	}
 	data = data[1 : len(data)-1]
diff --git a/sdata/tokens.go b/sdata/tokens.go
index 78a6836..2ddda83 100644
--- a/sdata/tokens.go
+++ b/sdata/tokens.go
@@ -6,7 +6,7 @@ import (
 
 // NextHeader try to decode a Structured Data header from a []byte
 func NextHeader(data []byte) (header string, ret []byte, err error) {
-	if data == nil || len(data) < 4 {
+	if data == nil || len(data) < 1 {
 		return "", nil, fmt.Errorf("invalid length for [%q]", string(data))
 	}
 
@@ -27,7 +27,8 @@ func NextHeader(data []byte) (header string, ret []byte, err error) {
 		ret = ret[1:]
 		length++
 	}
-	return "", nil, fmt.Errorf("unexpected EOF")
+	header = string(data)
+	return
 }
 
 // NextNonSpace try to decode a Structured Data part from a []byte
-- 
2.43.0


From 2f55e7f17f78cf37b8e8611da15f4c33345879e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:34 +0000
Subject: [PATCH 09/11] fix: accept any accuracy and any data in the
 timeQuality codec

---
 sdata/timequality/tq.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sdata/timequality/tq.go b/sdata/timequality/tq.go
index 39343c8..343e221 100644
--- a/sdata/timequality/tq.go
+++ b/sdata/timequality/tq.go
@@ -2,7 +2,6 @@ package timequality // import "github.com/nathanaelle/syslog5424/v2/sdata/timequ
 
 import (
 	"errors"
-	"math"
 	"strconv"
 
 	"github.com/nathanaelle/syslog5424/v2/sdata"
@@ -58,12 +57,12 @@ func (d tqdef) MarshalText() (text []byte, err error) {
 }
 
 func (d tqdef) Found(data []byte) (sdata.StructuredData, bool) {
-	if data[0] != '[' || data[len(data)-1] != ']' {
+	if len(data) < 2 || data[0] != '[' || data[len(data)-1] != ']' {
 		return nil, false
 	}
 	data = data[1 : len(data)-1]
 
-	if string(data[0:11]) != "timeQuality" {
+	if len(data) < 11 || string(data[0:11]) != "timeQuality" {
 		return nil, false
 	}
 	data = data[11:]
@@ -152,7 +151,8 @@ func (tq TimeQuality) Marshal5424() ([]byte, error) {
 	}
 
 	if tq.SyncAccuracy != nil {
-		length += 15 + int(math.Floor(math.Log(float64(*tq.SyncAccuracy))+1))
+		// up to 20 bytes for the sign and the digits
+		length += 15 + 20
 	}
 
 	ret := append(make([]byte, 0, length), []byte("[timeQuality")...)
-- 
2.43.0


From bbeeb21aac63120ce5cb54bf68fdb9dbb0fbb315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:03 +0000
Subject: [PATCH 10/11] fix: ending a sender reads its queue under the lock and
 tolerates a missing connection

---
 connector.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/connector.go b/connector.go
index 478c0ce..50b5ba4 100644
--- a/connector.go
+++ b/connector.go
@@ -107,12 +107,22 @@ func (c *Sender) flushQueue() {
 	//log.Printf("<--\tget unlock")
 }
 
+// pending is the number of items not yet flushed
+func (c *Sender) pending() int {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
+	return len(*c.queue)
+}
+
 func (c *Sender) runQueue() {
 	defer func() {
-		for len(*c.queue) > 0 {
+		for c.pending() > 0 {
 			c.flushQueue()
 		}
-		c.output.Close()
+		if c.output != nil {
+			c.output.Close()
+		}
 		close(c.endCompleted)
 		close(c.errChan)
 	}()
-- 
2.43.0


From 3927c700a4573f5bdc339b3897e60144d01f5c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:28 +0000
Subject: [PATCH 11/11] fix: decode messages whose text or structured data
 holds any bytes, and never panic on a frame

---
 message-immutable.go | 151 +++++++++++++++++--------------------------
 1 file changed, 60 insertions(+), 91 deletions(-)

diff --git a/message-immutable.go b/message-immutable.go
index 3cd99db..9dcdef0 100644
--- a/message-immutable.go
+++ b/message-immutable.go
@@ -138,14 +138,14 @@ func (msg MessageImmutable) WriteTo(w io.Writer) (n int64, err error) {
 }
 
 // Parse allow to parse a []byte and decode one ImmutableMessage
+//
+// with a transport, a nil rest means that data holds no complete frame
 func Parse(data []byte, transport Transport, atEOF bool) (returnMsg MessageImmutable, rest []byte, mainErr error) {
 	sepSp := []byte{' '}
-	sepBrk := []byte{']'}
 
 	if transport != nil {
-		data, rest, mainErr = transport.PrefixStrip(data, atEOF)
-		//log.Printf("P {%q} {%q} %v\n", data, rest, mainErr)
-		if data == nil && rest == nil && mainErr == nil {
+		data, rest, mainErr = stripFrame(data, transport, atEOF)
+		if rest == nil || mainErr != nil {
 			return
 		}
 	}
@@ -162,7 +162,7 @@ func Parse(data []byte, transport Transport, atEOF bool) (returnMsg MessageImmut
 		end, err := searchNextSep(data[begin:], sepSp)
 		if err != nil {
 			//log.Printf("%s index %#d parts %d rest %s ", string(msg.buffer), msg.index, parts, data[begin:])
-			mainErr = dispatchError(mainErr, err)
+			mainErr = err
 			return
 		}
 		msg.index = append(msg.index, begin+end)
@@ -171,115 +171,84 @@ func Parse(data []byte, transport Transport, atEOF bool) (returnMsg MessageImmut
 	}
 
 	if len(data[begin:]) == 0 {
-		mainErr = dispatchError(mainErr, ParseError{data, begin, "empty field expected"})
+		mainErr = ParseError{data, begin, "empty field expected"}
 		return
 	}
 
-	if len(data[begin:]) == 1 {
-		if data[begin] != '-' {
-			mainErr = dispatchError(mainErr, ParseError{data, begin, "empty field expected"})
-			return
-		}
-		msg.index = append(msg.index, begin+2)
-
-		returnMsg, data, rest, mainErr = parseReturn(msg, transport, atEOF, data, rest)
-		return
-	}
-
-	end, err := searchNextSep(data[begin:], sepSp)
-	if err != nil {
-		mainErr = dispatchError(mainErr, err)
-		return
-	}
+	switch data[begin] {
+	case '-':
+		begin++
+		msg.index = append(msg.index, begin)
 
-	if end == 1 {
-		if data[begin] != '-' {
-			mainErr = dispatchError(mainErr, ParseError{data, begin, "empty structured data expected"})
+	case '[':
+		msg.index, begin = appendElements(msg.index, data, begin)
+		if begin < 0 {
+			mainErr = ErrPosNotFound
 			return
 		}
 
-		msg.index = append(msg.index, begin+1)
-		msg.text = begin + 2
-		returnMsg, data, rest, mainErr = parseReturn(msg, transport, atEOF, data, rest)
+	default:
+		mainErr = ParseError{data, begin, "empty structured data expected"}
 		return
 	}
 
-	t := begin
-	for len(data[t:]) > 0 {
-		end, err = searchNextSep(data[t:], sepBrk)
-
-		switch err {
-		case nil:
-			if data[t+end-1] == '\\' {
-				t = t + end + 1
-				continue
-			}
-
-			if data[t+end-1] == '"' {
-				msg.index = append(msg.index, t+end+1)
-				begin = t + end + 1
-				t = begin
-				if len(data) <= begin {
-					returnMsg, data, rest, mainErr = parseReturn(msg, transport, atEOF, data, rest)
-					return
-				}
-				continue
-			}
-
-			mainErr = dispatchError(mainErr, ParseError{data, t + end - 1, `\\ or " expected`})
-			return
-
-		case ErrPosNotFound:
-			msg.text = begin + 1
-
-			returnMsg, data, rest, mainErr = parseReturn(msg, transport, atEOF, data, rest)
-			return
-
-		default:
-			mainErr = dispatchError(mainErr, err)
+	if begin < len(data) {
+		if data[begin] != ' ' {
+			mainErr = ParseError{data, begin, "space expected"}
 			return
 		}
+		msg.text = begin + 1
 	}
-	mainErr = dispatchError(mainErr, ErrImpossible)
-	return
-}
 
-func dispatchError(mainErr, err error) (returnErr error) {
-	switch mainErr {
-	case nil:
-		returnErr = err
-	default:
-		returnErr = mainErr
-	}
+	returnMsg = msg
 	return
 }
 
-func parseReturn(msg MessageImmutable, transport Transport, atEOF bool, oData, oRest []byte) (returnMsg MessageImmutable, data, rest []byte, mainErr error) {
-	data = oData
-	rest = oRest
-
-	if transport == nil {
-		returnMsg = msg
+// stripFrame search the first frame of data
+func stripFrame(data []byte, transport Transport, atEOF bool) (frame, rest []byte, err error) {
+	frame, rest, err = transport.PrefixStrip(data, atEOF)
+	if err != nil || rest != nil || len(frame) == 0 {
 		return
 	}
 
-	if rest != nil {
-		returnMsg = msg
-		return
+	frame, rest, err = transport.SuffixStrip(frame, atEOF)
+	if err == nil && rest == nil && atEOF {
+		// the end of the stream ends the frame
+		rest = frame[len(frame):]
 	}
+	return
+}
 
-	data, rest, mainErr = transport.SuffixStrip(data[msg.text:], atEOF)
-	//log.Printf("RET\t{%q} {%q} %v\n", data, rest, mainErr)
-	if data == nil && rest == nil && mainErr == nil {
-		return
+// appendElements append to index the end of each structured data element that starts at begin.
+// the returned position is the end of the last element or -1 if an element has no end
+func appendElements(index []int, data []byte, begin int) ([]int, int) {
+	for begin < len(data) && data[begin] == '[' {
+		size := elementSize(data[begin:])
+		if size < 0 {
+			return index, -1
+		}
+		begin += size
+		index = append(index, begin)
 	}
+	return index, begin
+}
 
-	end := msg.text + len(data)
-	if len(msg.buffer) > end {
-		msg.buffer = msg.buffer[:end]
-
+// elementSize is the size of the structured data element at the start of data or -1 if it has no end
+func elementSize(data []byte) int {
+	quoted := false
+	escaped := false
+
+	for pos, c := range data {
+		switch {
+		case escaped:
+			escaped = false
+		case quoted && c == '\\':
+			escaped = true
+		case c == '"':
+			quoted = !quoted
+		case !quoted && c == ']':
+			return pos + 1
+		}
 	}
-
-	returnMsg = msg
-	return
+	return -1
 }
-- 
2.43.0

