#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the property texts live here, one place).
import json, sys
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Priority wire form round-trips and malformed priorities are refused",
  "Every priority from 0 to 999 is encoded as '<', its decimal digits without leading zeros, '>1', and decoding that gives the same priority back. Decoding accepts exactly '<' followed by one to three decimal digits and '>1' and yields exactly that number; every other byte string is refused with an error, leaves the destination unchanged, and never panics.",
  ["inputs"],"all priorities 0..999; all byte strings of every length",
  "Tests encode 0..255 once and never call the decoder on malformed or out-of-range bytes; the refusal side quantifies over all byte strings.",
  ["priority.go"],[("Priority.Marshal5424","priority.go"),("Priority.Unmarshal5424","priority.go")],observe=["Priority.Marshal5424","Priority.Unmarshal5424"])
p("C02","Priority names: text form is total, exact and invertible",
  "Setting a priority from text succeeds exactly for 'facility.severity' with one of the 20 named facilities and 8 named severities, gives facility*8+severity, and on any other text returns an error and leaves the value unchanged. Printing any priority value whatsoever never panics, and printing a priority set from text gives that same text back; Facility and Severity split a priority 0..255 into parts that recombine to it.",
  ["inputs"],"all strings (any bytes, including invalid UTF-8); all integer priority values",
  "Tests try five texts; printing a priority received from a peer can be any integer, and the tables have a hole (12..15) and an end (24..31) no test prints.",
  ["priority.go"],[("Priority.Set","priority.go"),("Priority.String","priority.go"),("facility/severity tables","priority.go")],observe=["Priority.Set","Priority.String"])
p("C03","Header fields of produced messages are always legal RFC 5424 tokens",
  "Whatever text a caller supplies as hostname, app-name, proc-id or msg-id, through a message constructor, a message setter, a logger, a sub-logger or a channel, the field that ends up in messages is 1 to 255/48/128/32 bytes long and consists only of printable ASCII (33..126). It equals the supplied text cut at that limit with each other byte replaced by '%', or '-' when the text is empty.",
  ["inputs"],"all strings for every field, through every public way of setting it",
  "Tests use short clean ASCII names; the boundary lengths, the byte classes and the sub-logger path are never exercised.",
  ["helpers.go","message.go","syslog.go","channel.go"],[("validatorGeneric and its four wrappers","helpers.go"),("constructors and setters","message.go"),("New, SubSyslog","syslog.go"),("AppName, Msgid","channel.go")],observe=["encoded header fields"])
p("C04","Encoded message has exactly the RFC 5424 layout",
  "An encoded message is the encoded priority, timestamp, hostname, app-name, proc-id, msg-id and structured data in that order separated by single spaces, followed by one space and the text when the text is not empty, and nothing else. The text is what the caller supplied with trailing white space removed, and an encoding error in the structured data yields an error and no bytes.",
  ["inputs"],"all messages: any priority, time, fields, structured data list and text",
  "Tests encode three messages; order, separators and the empty-text case must hold for every content and length.",
  ["message.go"],[("Message.Marshal5424","message.go"),("constructors and Msg","message.go")],observe=["Message.Marshal5424","Message.String"])
p("C05","Messages are immutable values: deriving one never alters another",
  "Each setter returns a message that differs from its receiver only in the one attribute it sets. Deriving a message, including adding structured data, never changes the receiver, nor any message or list derived from it earlier.",
  ["histories"],"all sequences of derivations from a common base message or structured data list",
  "Tests build each message once and never derive two messages from one base, so shared backing storage is never observed.",
  ["message.go","sdata/list.go"],[("setters","message.go"),("List.Add","sdata/list.go")],observe=["Message setters","List.Add"])
p("C06","Structured data list encodes as the exact concatenation of its elements",
  "A structured data list encodes as '-' exactly when it is empty, and otherwise as the encodings of its elements in order with nothing between. If any element fails to encode, the list yields that error and no bytes.",
  ["inputs"],"all lists of any length over any element encodings and errors",
  "Tests encode lists of zero and one element.",
  ["sdata/list.go"],[("List.Marshal5424","sdata/list.go")],observe=["List.Marshal5424","List.MarshalText"])
p("C07","Structured data values are escaped reversibly",
  "A parameter is written as one space, its name, '=', and its value in double quotes, where every '\"', '\\' and ']' of the value, and no other byte, is preceded by a backslash. Hence removing the escapes gives the original value for every value.",
  ["inputs"],"all parameter names and values of any length and any bytes",
  "One test value contains ']' and none contains quotes or backslashes; injectivity of escaping needs all values.",
  ["sdata/structured-data-encoder.go"],[("PrefixedWrite","sdata/structured-data-encoder.go")],observe=["encoded structured data"])
p("C08","Structured data scanners are total and exact",
  "For every byte string the public scanners for an element's name, separator, parameter name and parameter value never panic: each either returns an error, or the token and the remaining bytes such that token, its delimiters and the remainder are exactly the input. A returned token contains no delimiter: a name holds no space, control, '=', ']' or '\"' byte, and a value ends at the first unescaped quote and holds no unescaped ']' or '\"'.",
  ["inputs"],"all byte strings of every length",
  "Tests run the scanners on 18 fixed strings only through one decoder.",
  ["sdata/tokens.go"],[("NextHeader, NextNonSpace, NextSDName, NextSDValue","sdata/tokens.go")],observe=["NextHeader","NextNonSpace","NextSDName","NextSDValue"])
p("C09","Structured data of unknown type survives decoding and re-encoding",
  "Decoding any bytes as structured data never panics. An element '[id name=\"value\" ...]' of no registered type, well formed and with single spaces, is always accepted, and encoding the decoded element gives back exactly those bytes.",
  ["inputs"],"all byte strings; all well-formed elements with any number of parameters",
  "Two fixed elements are re-encoded by the tests; short, empty or hostile elements are never decoded.",
  ["sdata/sd-unknown.go","sdata/list.go","sdata/tokens.go"],[("unknownDef.Found","sdata/sd-unknown.go"),("unknownSD.Marshal5424","sdata/sd-unknown.go"),("registry lookup","sdata/list.go")],observe=["sdata.Parse","StructuredData.Marshal5424"])
p("C10","timeQuality codec is valid, total and invertible",
  "A time quality value is encoded exactly when it is consistent (synced only with a known time zone, an accuracy only when synced) and otherwise yields the invalid-time-quality error; encoding never panics for any accuracy. Decoding what was encoded gives the same value, decoding any bytes never panics, and a decoded value is always consistent.",
  ["inputs"],"all combinations of flags and all integer accuracies; all byte strings",
  "Tests use one positive accuracy; zero and negative accuracies and short inputs are never tried.",
  ["sdata/timequality/tq.go"],[("TimeQuality.Marshal5424, IsValid","sdata/timequality/tq.go"),("tqdef.Found","sdata/timequality/tq.go")],observe=["TimeQuality.Marshal5424","TQ.Found"])
p("C11","Message decoding is total and faithful to the input bytes",
  "Decoding any byte string without a transport either returns an error or a message whose string form is the input; it never panics, and neither does any accessor of a decoded message. The six header accessors see exactly the six space-separated tokens at the start of the input, and the structured data and the text accessors see exactly what follows: the run of bracketed elements (or '-') and, after one space, everything else.",
  ["inputs"],"all byte strings of every length",
  "Ten fixed well-formed messages are decoded by the tests; malformed input and texts containing brackets are never tried.",
  ["message-immutable.go"],[("Parse","message-immutable.go"),("MessageImmutable accessors","message-immutable.go")],observe=["Parse","MessageImmutable accessors"])
p("C12","Every encoded message decodes back to the same attributes",
  "For every message built through the public API whose structured data elements are well formed, decoding its encoding succeeds and yields the same priority, hostname, app-name, proc-id, msg-id, structured data bytes and text. This holds for every text content, including brackets, quotes, backslashes and leading spaces.",
  ["inputs"],"all messages with priority 0..999 and any fields, well-formed structured data and text",
  "Tests decode ten hand-written strings and re-encode them; they never start from arbitrary attributes.",
  ["message.go","message-immutable.go"],[("Message.Marshal5424","message.go"),("Parse","message-immutable.go")],observe=["Parse of Marshal5424"])
p("C13","Transport framing is invertible",
  "For each built-in transport, stripping the frame from an encoded payload followed by any further bytes returns exactly that payload and exactly those further bytes, without error: for every non-empty payload with the length-prefixed transport, and for every non-empty payload free of the terminator with the NUL and LF transports. Framing leaves the payload bytes themselves unchanged.",
  ["inputs"],"all payloads and all following bytes",
  "Tests frame one 51-byte payload; digit-count boundaries, short payloads and arbitrary continuations are never tried.",
  ["transport.go"],[("Encode","transport.go"),("PrefixStrip","transport.go"),("SuffixStrip","transport.go")],observe=["Transport.Encode","Transport.PrefixStrip","Transport.SuffixStrip"])
p("C14","Frame stripping is safe on hostile bytes",
  "For any received bytes, with end of stream or not, stripping a frame never panics, and the returned data and remainder are consecutive parts of the received bytes: nothing is invented, duplicated or reordered. With the length-prefixed transport a complete frame is returned only when the declared length is available and then has exactly that length; negative, unrepresentably large or non-numeric lengths give the header error.",
  ["inputs"],"all byte strings with and without end of stream, for all three transports",
  "Tests feed only well-formed frames; a remote peer controls these bytes.",
  ["transport.go"],[("PrefixStrip","transport.go"),("SuffixStrip","transport.go")],observe=["Transport.PrefixStrip","Transport.SuffixStrip"])
p("C15","The receiver reassembles a stream identically however it is chunked",
  "Whatever sizes the reads from a connection return, the receiver delivers each complete frame of the stream exactly once, in order, with exactly its bytes, at any frame size, and delivered messages are never overwritten by later reads. A read error or an unusable frame header ends that connection only, after being reported.",
  ["inputs","schedules","fault_sequences"],"all byte streams, all ways of splitting them into reads, all read errors",
  "TestBurst uses one 80-byte message with whatever chunking the kernel happens to give; larger frames and errors are never tried.",
  ["listener.go","message-immutable.go","transport.go"],[("Receiver.tokenize","listener.go"),("Parse with a transport","message-immutable.go")],[("buffer","unconsumed bytes of the stream","listener.go")],["Receiver.Receive","error channel"])
p("C16","Datagram reader delivers every datagram byte exactly once",
  "Reading a datagram socket with buffers of any size returns exactly the concatenation of the received datagrams, each cut at the 64 KiB the reader asks the socket for: no byte is lost, duplicated or reordered, and no read returns more than was asked for. A socket error is returned to the reader and loses nothing.",
  ["inputs","histories"],"all sequences of datagrams and of read buffer sizes",
  "Tests read small datagrams with a 64 KiB buffer, so the split path never runs at a boundary.",
  ["listener-unixdgram.go"],[("fakeConn.Read","listener-unixdgram.go")],[("buff","tail of the last datagram not yet read","listener-unixdgram.go")],["fakeConn.Read"])
p("C17","Severity filtering and channel derivation are exact",
  "A logger opened at a minimum severity gives a real channel for every severity up to and including it and the null channel for every other, for the logger itself and its sub-loggers; a real channel's priority is exactly the logger's facility with that severity. Deriving a channel by app-name or msg-id changes only that attribute and keeps the destination.",
  ["inputs","histories"],"all facility and severity combinations, all requested severities, all derivation chains",
  "Tests use one minimum severity and two channels.",
  ["syslog.go","channel.go"],[("New, Channel, SubSyslog","syslog.go"),("AppName, Msgid","channel.go")],[("channels","severity to channel table","syslog.go")],["Syslog.Channel","Syslog.SubSyslog","Channel.AppName","Channel.Msgid"])
p("C18","Each log call hands exactly one message with the channel's attributes over",
  "Writing to or logging on a real channel queues exactly one message carrying the channel's priority, hostname, app-name, process id and msg-id, the given text without trailing white space, and the given structured data in order; Write reports all bytes written and no error. The null channel accepts everything and queues nothing.",
  ["inputs"],"all channels, texts and structured data arguments",
  "Examples log three fixed texts.",
  ["channel.go","connector.go"],[("msgChannel.Write, Log","channel.go"),("devnull","channel.go"),("Sender.Send","connector.go")],observe=["Channel.Write","Channel.Log","bytes queued for the connection"])
p("C19","Sender queues and flushes in order without loss or duplication",
  "Sending a message appends exactly its framed encoding to the sender's queue, once and at the end, or returns the encoding error and queues nothing. Flushing writes queued frames in order and leaves queued exactly what the connection did not accept, whatever errors and partial writes occur, and the queue is touched only while the sender's lock is held.",
  ["histories","fault_sequences"],"all sequences of sends and flushes with any connection failures and partial writes",
  "Tests never make a connection fail, and the race of sends with shutdown is not exercised.",
  ["connector.go"],[("Sender.Send","connector.go"),("Sender.flushQueue, runQueue","connector.go")],[("queue","frames not yet accepted by the connection","connector.go"),("lock","guards queue","connector.go")],["bytes written to the connection","error channel"])
p("C20","Every network name selects its documented connection and framing, or an error",
  "Dialing accepts exactly the documented network names, pairs each with its connector and, unless the caller chose one, its documented transport (LF for stdio and TCP, NUL for local sockets), and refuses any other name with an error. A connector never reports success without a usable connection, and an invalid address or network always yields an error rather than a panic.",
  ["inputs","configurations","fault_sequences"],"all network names and addresses, all resolver and dial outcomes",
  "Tests dial three valid networks; failing resolutions and unknown names are never tried.",
  ["dialer.go","connector-tcp.go","connector-fd.go","connector-local.go","connector-local_unix.go","connector-invalid.go","listener-guess.go"],[("Dialer.Dial","dialer.go"),("Connect implementations","connector-*.go"),("GuessListener","listener-guess.go")],observe=["Dial","Connector.Connect","GuessListener"])
p("C21","The structured data registry is consistent and never deadlocks",
  "The first type registered under a name stays registered and later ones with the same name never replace it. Decoding asks registered types and falls back to the unknown type only if none accepts, and every registry operation leaves the registry unlocked.",
  ["inputs","histories"],"all sequences of registrations and lookups",
  "Tests register one type and decode through it.",
  ["sdata/list.go"],[("Register, RegisterGroup, Found","sdata/list.go")],[("sdids","name to type","sdata/list.go")],["sdata.Register","sdata.Parse"])
p("C22","Concurrent logging from many goroutines loses and corrupts nothing",
  "When any number of goroutines log through channels sharing one sender, every message is delivered exactly once and whole, and messages of one goroutine keep their order.",
  ["schedules"],"all interleavings of senders, flushes and shutdown",
  "Tests log from one goroutine.",
  ["connector.go","channel.go"],[("Sender lock","connector.go")],observe=["bytes written to the connection"])
p("C23","Receiver shutdown ends cleanly",
  "After ending a receiver no goroutine panics or stays blocked, and the message stream is closed.",
  ["schedules"],"all interleavings of End with accepts, reads and receives",
  "Tests end the process right after End.",
  ["listener.go"],[("Receiver.End, runQueue","listener.go")],observe=["Receiver.Receive","Receiver.End"])
p("C24","Go structs and maps encode to well-formed structured data",
  "Encoding any Go struct or string-keyed map whose type identifies a structured data type gives '[', the identifier, the non-empty fields as name=\"escaped value\" pairs (map keys sorted, list values repeated), and ']'; an unsupported content gives an error, never a panic.",
  ["inputs"],"all Go values and struct tags",
  "Tests encode three maps and one struct.",
  ["sdata/structured-data-encoder.go","sdata/sd-generic.go"],[("reflect-driven encoders","sdata/structured-data-encoder.go")],observe=["GenericSD(...).Marshal5424"])
out=sys.argv[1] if len(sys.argv)>1 else "/verif/properties.jsonl"
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
