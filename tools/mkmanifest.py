#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json
TECH = "contract-based deductive verification: contracts on the real functions, VCs generated from /repo's SSA by gocv, discharged by z3/cvc5"
NOTE = {
 "C01": "all obligations of the contracts on Priority.Marshal5424/Unmarshal5424 discharged for every input; no bound",
 "C02": "all obligations discharged for every text and every int priority; the tables are read from the package initialiser",
 "C03": "contracts on the sanitiser and every function that fills a header field (constructors, setters, New, SubSyslog, AppName, Msgid, local host name), for texts of any length and content",
 "C04": "contract on Message.Marshal5424 against its parts, for all attributes; time.Time.Format and strings.TrimRightFunc by assumed contract",
 "C05": "frame conditions of every setter and of List.Add (no write to memory that existed before), field by field postconditions",
 "C06": "contract and loop invariants of List.Marshal5424 for lists of any length; the elements' encoders by assumed contract (deterministic)",
 "C17": "contracts on New, Channel, SubSyslog, AppName, Msgid of real and null channels with the logger invariant",
 "C08": "contracts and loop invariants of the four scanners, for byte strings of any length and content; fmt.Errorf by assumed contract",
 "C09": "accepting any well-formed element and panic-freedom are proved for all byte strings; that re-encoding gives the same bytes is a bounded stand-in (exhaustive to 8 bytes over the delimiters plus parameter combinations), not counted as proved",
 "C10": "contracts on tqdef.Marshal5424 and Found plus a round-trip lemma, for every value and all bytes; strconv and fmt by assumed contract or assumed definition",
 "C21": "contracts on Register, RegisterGroup, the registry's Found and Parse with the registry invariant and a lock ghost, lemmas for an arbitrary name; the registered types' String and Found by assumed contract (deterministic, they may panic)",
 "C16": "contract on fakeConn.Read and the datagram Accept for datagrams and buffers of any size (machine integers, all bytes); (*net.UnixConn).ReadFrom by assumed contract with a ghost history of received bytes",
 "C18": "contracts on Write and Log of real and null channels against Send's contract, with a ghost log of accepted messages; time, trimming and the elements' encoders by assumed contract",
 "C19": "contracts on NewSender, Send, flushQueue and runQueue for queues of any length, with a lock-guard obligation on every access to the queue; (*net.Buffers).WriteTo by assumed contract (it takes a prefix off the queue), Transport.Encode and Connector.Connect by assumed contract; interference of other goroutines between critical sections is not modelled",
 "C13": "lemmas over the three transports for payloads and trailing bytes of any length; strconv.Itoa/Atoi and bytes.IndexByte by assumed contract",
 "C14": "lemmas over the strip methods of the three transports for all bytes; strconv.Atoi and bytes.IndexByte by assumed contract",
}
NA = {
 "C22": "a property of all interleavings of many goroutines; sequential function contracts cannot state it (the per-critical-section part, one framed append under the sender's lock, is C19)",
 "C23": "quantifies over schedules of goroutines blocked on channels and accept loops; a sequential contract cannot express that nothing stays blocked",
 "C24": "the encoder is driven by package reflect (Kind/Field/MapKeys over arbitrary types); the generator has no contract theory for reflect, so no contract within reach decides it",
}
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks=[{"property":p,"quick_cmd":f"bash check.sh {p} quick","thorough_cmd":f"bash check.sh {p} thorough",
  "evidence_file":f"evidence/{p}.json","technique":TECH,"level":"proof","level_note":NOTE[p]} for p in props if p in NOTE]
na=[{"property":p,"reason":NA.get(p,"contract not written yet")} for p in props if p not in NOTE]
json.dump({"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na},open("/verif/MANIFEST.json","w"),indent=1)
