#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the property list in a form that is easy to edit).
import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,obs=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if obs:a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
C="codec/cmpp/";G="codec/sgip/";S="codec/smgp/";U="utils/";SV="msc_server/server/";CL="msc_client/"
p("P01","CMPP packets have the specified layout and survive encode/decode",
 "Every CMPP packet the library builds (2.0 and 3.0: connect, submit, deliver, report, active test, terminate and their responses) has exactly the octet layout the protocol version prescribes, with the total length in the header equal to the octets sent. Decoding a packet of that layout returns every field, including message content, unchanged, and building, encoding and decoding are inverse to each other. Text fields shorter than their column are NUL padded and overlong ones never spill into the neighbouring field.",
 ["inputs","configurations"],"every field swept over its boundary values one and two at a time, both versions, every packet type, every message form",
 "The tests encode a few packets and mostly print them; field widths, version differences and content forms interact and no sample covers them.",
 [C+x for x in("connect.go","submit.go","delivery.go","report.go","active.go","terminate.go","header.go")],
 [("Encode/Decode of each packet",C+"*.go"),("fixed width octet helpers","codec/packer.go, utils/utils.go")])
p("P02","SGIP packets have the specified layout and survive encode/decode",
 "Every SGIP packet the library builds (bind, submit, deliver, report, unbind and their responses) has exactly the octet layout of SGIP 1.2, carries the command id of its own kind and a header length equal to the octets sent. Decoding a packet of that layout returns every field unchanged, and the 12 octet sequence number of a request is carried through both directions. Overlong text fields never spill into the neighbouring field.",
 ["inputs","configurations"],"every field swept over its boundary values, every packet type and response",
 "The tests check single packets with friendly values only.",
 [G+x for x in("bind.go","submit.go","deliver.go","report.go","unbind.go","header.go","sequence.go")],
 [("Encode/Decode of each packet",G+"*.go"),("three word sequence",G+"header.go, sequence.go")])
p("P03","SMGP packets have the specified layout and survive encode/decode",
 "Every SMGP 3.0 packet the library builds (login, submit, deliver, report, active test, exit and their responses, with optional parameters) has exactly the prescribed octet layout and a header length equal to the octets sent. Decoding a packet of that layout returns every field and every optional parameter unchanged. Text fields shorter than their column are padded and the padding is not part of the decoded value.",
 ["inputs","configurations"],"every field swept over its boundary values, every packet type, optional parameters present or absent in every combination used",
 "The tests check single packets with friendly values only.",
 [S+x for x in("login.go","submit.go","deliver.go","report.go","active.go","exit.go","header.go")],
 [("Encode/Decode of each packet",S+"*.go"),("optional parameters",U+"tlv.go")])
p("P04","Long messages are split and reassemble to exactly the text that was sent",
 "For every text a submission yields one packet when the encoded text is shorter than one short message (160 octets for plain ASCII in CMPP and SGIP, 140 otherwise) and a numbered series when it is longer; the contents, headers removed and joined in order, decode to exactly the original text. All segments of one message share one reference and the total, are numbered 1..total, differ in sequence number and stay within that limit. No text makes a character disappear, repeat or change.",
 ["inputs"],"every text length around every boundary (1..4 segments and selected longer ones), single and mixed alphabets including surrogate pairs, three protocols",
 "The tests split one or two sample texts; the defects sit at the exact boundaries.",
 [U+"utils.go",C+"submit.go",G+"submit.go",S+"submit.go"],
 [("segmentation with user data header",U+"utils.go ToTPUDHISlices"),("charset choice",C+"submit.go, "+G+"submit.go, "+S+"submit.go")])
p("P05","No byte sequence makes a packet decoder panic, hang or accept a stump",
 "Decoding arbitrary octets as any packet of any protocol and version either returns a packet or an error; it never panics, never reads outside the octets given and terminates. A packet that is shorter than its own length fields require is reported as an error, and a complete packet is accepted. Whatever was decoded can be logged, printed and answered without a panic.",
 ["inputs"],"every truncation of valid packets, every single octet replaced by each interesting value, count and length octets at all 256 values, short random-free bodies exhaustively",
 "The tests decode only packets that the same library encoded.",
 [C+"*.go",G+"*.go",S+"*.go","codec/packer.go",U+"tlv.go"],
 [("length checks in Decode",C+"*.go, "+G+"*.go, "+S+"*.go"),("error value","codec/errors.go")])
p("P06","A response carries its request's sequence and the matching response command",
 "For every request packet the response built from it has the response command id of that request, the same sequence number (all three words for SGIP), the status it was asked for and, on success, a message id. A delivery acknowledgement repeats the message id of the delivery, and a status report built for a submission names the message id of that submission's response and swaps source and destination. No response changes the request it was built from.",
 ["inputs","configurations"],"every request type of the three protocols, boundary sequence numbers, all status codes in use, versions",
 "The tests build single responses and do not compare them with the request.",
 [C+"*.go",G+"*.go",S+"*.go"],
 [("ToResponse / report builders",C+"submit.go, "+C+"delivery.go, "+G+"submit.go, "+S+"submit.go, "+S+"deliver.go")])
p("P07","Login succeeds exactly for a known account with the right secret and version",
 "A login request built for an account is accepted by the server side check of that account, and a request whose account, secret, authenticator, version or login name differs is rejected with the protocol's own code for that failure. The authenticator is the MD5 digest the protocol defines over account, secret and timestamp. The answer to an accepted login carries the protocol's digest over status, that authenticator and the secret, by which a client recognises the gateway; a refusal carries none. An unknown account is never accepted.",
 ["inputs","configurations"],"all combinations of right and wrong account, secret, digest octet, version and timestamp over three protocols",
 "The tests check one accepting and one rejecting login per protocol at most.",
 [C+"connect.go",G+"bind.go",S+"login.go"],
 [("Check",C+"connect.go, "+G+"bind.go, "+S+"login.go"),("digest",C+"connect.go, "+S+"login.go")])
p("P08","Message options override account defaults, which override built-in ones",
 "For every subset of the message options each option given by the caller appears in the encoded submission, each one not given takes the account's setting, and where the account has none the built-in default. An option never influences the field of another option nor a later message. The same set of options gives the same message for every order in which different options are passed, and of two values for one option the later one wins.",
 ["inputs","configurations"],"every subset of the options times boundary values, three protocols",
 "The tests use one or two options at a time.",
 ["codec/options_mt.go",C+"submit.go",G+"submit.go",S+"submit.go"],
 [("option functions","codec/options_mt.go"),("defaults in NewSubmit",C+"submit.go, "+G+"submit.go, "+S+"submit.go")])
p("P09","Generated sequence numbers and ids are unique per node and never collide",
 "Under every interleaving of concurrent callers no id generator (64 bit and 32 bit snowflake, 31 bit cycle sequence, BCD message id, SGIP sequence) hands out the same value twice within its period, and ids of generators configured for different nodes never coincide. Ids follow their published bit or digit layout and stay within their width for every clock value, including roll over of the counter, the minute and the day. Each generator takes its node numbers from its own settings.",
 ["schedules","histories","configurations"],"all interleavings of 2-3 callers up to the preemption bound, counters placed at every roll over, clock steps around minute and day boundaries, all node numbers",
 "The tests run callers freely for a moment and never reach a roll over.",
 [U+"snowflake/snowflake.go",U+"snowflake32/snowflake32.go",U+"cycle_sequence.go",U+"bcd_sequence.go",G+"sequence.go","msc_server/bootstrap.go","msc_client/bootstrap.go"],
 [("locked NextVal",U+"snowflake/snowflake.go, "+U+"snowflake32/snowflake32.go, "+U+"cycle_sequence.go, "+U+"bcd_sequence.go"),("SeqInit","msc_server/bootstrap.go, msc_client/bootstrap.go")])
p("P10","Character set, BCD, hex and octet helpers are exact inverses on their domain",
 "Encoding a string to UCS2, BCD or hex and decoding it again yields the original, for every string of the helper's domain, and the encoded form is the standard one. Fixed width octet helpers pad short values with NUL, never write more than the width, and trimming them returns the value. Number rendering and parsing helpers agree on every value.",
 ["inputs"],"all Unicode code points singly and in pairs across planes, all short BCD and octet strings, boundary integers",
 "The tests convert a couple of sample strings.",
 [U+"utils.go",U+"bcd_sequence.go","codec/packer.go"],
 [("conversion helpers",U+"utils.go, "+U+"bcd_sequence.go"),("octet writer","codec/packer.go")])
p("P11","The TLV list keeps, finds, encodes and reads back optional parameters exactly",
 "A list of optional parameters behaves like an ordered sequence under every history of additions, lookups and removals: what was added is found with its tag, type and value, what was removed is gone, the length is right. Written out and read back, from a reader that returns the data in any pieces, it yields the same parameters in the same order. Truncated input is reported as an error and never yields a wrong parameter.",
 ["histories","inputs","fault_sequences"],"all operation sequences up to depth 4-5 over a small alphabet against a reference list; every truncation point and every chunking of the reader",
 "The tests add and read a few parameters from a complete buffer.",
 [U+"tlv.go"],[("TlvList",U+"tlv.go"),("Read",U+"tlv.go")])
p("P12","Server reads the same packets however the byte stream is cut up",
 "The server's reaction to a byte stream (packets handled, responses sent, connection closed) is the same for every way of cutting the stream into network reads, whether a read holds a fragment or several packets. A complete packet that has been received is handled without waiting for more data. A header with an impossible length or unknown command closes the connection, and nothing after it is handled. Only answers still in progress when the connection closes may be lost.",
 ["fault_sequences","inputs"],"every cut of short streams into reads (all subsets of cut points at interesting offsets), streams of up to 4 packets, three protocols",
 "The tests of the server need a live setup and send one packet per write.",
 [SV+"on_traffic.go"],[("header decoding and buffering",SV+"on_traffic.go"),("handler chain",SV+"chain_*.go")],["bytes written to the connection","close of the connection"])
p("P13","Nothing but a login is served before a successful login",
 "On a connection that has not logged in successfully no submission, heartbeat, delivery acknowledgement or logout is answered or counted; such a packet closes the connection. A login with wrong credentials is answered with the failure code and the connection is closed. A successful login is answered with the success code, and from then on requests are served under that account.",
 ["histories","schedules"],"all packet sequences up to depth 4 over the command alphabet, right and wrong logins, three protocols",
 "No test drives the server's handlers.",
 [SV+"cmpp_connect.go",SV+"sgip_bind.go",SV+"smgp_login.go",SV+"on_traffic.go"],
 [("session state check",SV+"on_traffic.go sessionCheck"),("login handlers",SV+"cmpp_connect.go, "+SV+"sgip_bind.go, "+SV+"smgp_login.go")])
p("P14","Every request on a live session gets exactly one matching response",
 "Each submission accepted on a logged-in session gets exactly one response with its sequence number, under every interleaving of the session's workers, and heartbeat and logout requests get exactly one response too. A successful submission is followed by at most one status report and with full success rate by exactly one, naming the message id of its response; a failed one gets none. Message ids of different submissions differ. Only the end of the connection may cut off answers still in progress.",
 ["schedules","histories"],"all interleavings of workers, event loop and timers for 1-4 requests up to the preemption bound; three protocols",
 "No test drives concurrent submissions through the handlers.",
 [SV+"cmpp_submit.go",SV+"sgip_submit.go",SV+"smgp_submit.go",SV+"on_traffic.go"],
 [("submit handlers and worker pool",SV+"*_submit.go"),("response and report sending",SV+"on_traffic.go, "+SV+"*_submit.go")])
p("P15","An account never has more logged-in sessions than it is allowed",
 "Under every interleaving of concurrent logins and disconnects the number of sessions logged in for one account never exceeds the account's connection limit. A login beyond the limit is answered with the protocol's refusal code and closed. A login within the limit is accepted, and a place freed by a closed session can be used again.",
 ["schedules","histories"],"all interleavings of 2-3 logins and closes up to the preemption bound, limits 1 and 2, and all event sequences up to depth 5",
 "No test opens concurrent sessions, and the defect needs two logins in flight.",
 [SV+"cmpp_connect.go",SV+"sgip_bind.go",SV+"smgp_login.go",SV+"server.go"],
 [("session count per client",SV+"server.go"),("login handlers",SV+"cmpp_connect.go, "+SV+"sgip_bind.go, "+SV+"smgp_login.go")])
p("P16","The server never holds more sessions than its limit and counts them exactly",
 "Under every interleaving of opens, rejected opens and closes the number of sessions the server holds never exceeds its session limit, a connection beyond the limit is closed at once, and one below it is accepted. The active session counter always equals the number of sessions held and returns to zero when all connections are gone. A rejected connection disturbs neither the counter nor the other sessions.",
 ["schedules","histories"],"all interleavings of 2-3 event loops opening and closing, all event sequences up to depth 6, limits 0-2",
 "No test opens connections beyond the limit.",
 [SV+"on_open.go",SV+"on_close.go",SV+"server.go"],
 [("cap check and counter",SV+"on_open.go, "+SV+"server.go CreateSession, "+SV+"on_close.go")])
p("P17","Flow control: rate limit and window bound what a session processes",
 "Per session no more submissions are accepted than the account's throughput with its burst (the window size) allows at any time, and each one beyond is answered at once with the protocol's flow control code. No more submissions than the account's window size are ever in processing together. Submissions within both limits are processed, none is lost and none blocks the session forever.",
 ["schedules","histories"],"arrival patterns over virtual time up to 6 submissions, window sizes 1-3, all interleavings of workers up to the bound",
 "No test sends faster than the limits.",
 [SV+"session.go",SV+"on_traffic.go",SV+"cmpp_submit.go",SV+"sgip_submit.go",SV+"smgp_submit.go"],
 [("rate limiter",SV+"session.go setupLimiter, "+SV+"on_traffic.go submitFlowControl"),("window channel",SV+"*_submit.go")])
p("P18","Heartbeats are sent to quiet sessions, dead ones are ended, live ones are not",
 "A session on which no request or answer of the client has arrived for longer than the configured limit, or with more than two unanswered heartbeats, is sent a logout and then closed. A session with activity within the limit and answered heartbeats is never ended by the server. A logged-in CMPP or SMGP session that was quiet for more than a minute is sent a heartbeat, an answer resets the count of unanswered ones, and SGIP sessions get none.",
 ["histories","schedules"],"all histories of ticks, activity, answers and silence over virtual time up to the depth bound, three protocols",
 "It takes minutes of real time and no test waits for them.",
 [SV+"on_tick.go",SV+"cmpp_active.go",SV+"cmpp_active_resp.go",SV+"smgp_active.go",SV+"smgp_active_resp.go"],
 [("tick handler",SV+"on_tick.go"),("heartbeat answers",SV+"*_active_resp.go")])
p("P19","A closed connection releases everything and no worker is left behind",
 "When a connection ends for any reason, at any moment of the processing of its requests, its session disappears from the server, its worker pool is released and every task started for it finishes. No task blocks forever, writes to another session or disturbs the server. The same holds for a session that logs in again on the same connection.",
 ["schedules","crash_points"],"close at every scheduling point of 1-2 submissions, login or tick in flight, up to the preemption bound",
 "No test closes a connection with work in flight.",
 [SV+"on_close.go",SV+"session.go",SV+"cmpp_submit.go",SV+"sgip_submit.go",SV+"smgp_submit.go",SV+"on_tick.go"],
 [("resource release",SV+"on_close.go deferFunc, "+SV+"session.go closeResource")])
p("P20","No bytes and no order of connection events crash the server",
 "Whatever octets a client sends, and in whatever order connections open, send, tick and close, the server neither panics in its event loops nor in its workers, and other sessions keep being served. A malformed packet closes only the connection it came on. A session keeps working or is closed, it never stays open without being served.",
 ["inputs","histories","schedules"],"all event sequences up to depth 5 over an alphabet of valid, truncated and mutated packets, opens, ticks, closes; configuration entries vanishing",
 "No test feeds the server malformed input.",
 [SV+"*.go"],[("session lookup and checks",SV+"server.go Session, "+SV+"on_traffic.go"),("decode errors",SV+"*.go")])
p("P21","Client reads the same packets however the byte stream is cut up",
 "The client session's reaction to the server's byte stream, including the login response, is the same for every way the network cuts it into reads. Fragmented and coalesced packets are all handled in order, heartbeats, deliveries and logouts are each answered exactly once with the matching sequence number. Only an impossible header length, a malformed packet or the end of the stream closes the session, one left alone for any time keeps being read and answered.",
 ["fault_sequences","inputs"],"every cut of streams of 1-3 packets into reads, end of stream at every offset, three protocols",
 "The tests need a live server and loopback delivers whole packets.",
 [CL+"session/session.go",CL+"session/on_traffic_cmpp.go",CL+"session/on_traffic_sgip.go",CL+"session/on_traffic_smgp.go"],
 [("receive loop",CL+"session/session.go startReceiver"),("login",CL+"session/session.go login")])
p("P22","Send results get the status and report that belong to their message",
 "Each result of a send takes the status and message id from the response to its own sequence number and the report from the delivery naming its own message id, in every order in which responses and reports of several messages arrive (a report after its own response), also when the response arrives before the send call has returned. A response or report of another message never changes it. Unknown, duplicate or late responses do no harm.",
 ["schedules","histories"],"all arrival orders and interleavings of sender and receiver for 1-3 messages and up to 2 segments up to the preemption bound, three protocols",
 "The tests print results after a sleep and do not compare them.",
 [CL+"session/send_sms.go",CL+"session/on_traffic_cmpp.go",CL+"session/on_traffic_sgip.go",CL+"session/on_traffic_smgp.go"],
 [("sequence and message id maps",CL+"session/send_sms.go"),("response handling",CL+"session/on_traffic_*.go")])
p("P23","Closing a client session is safe at any time and a failed login leaves nothing",
 "Closing a session any number of times, from any number of threads, while it sends, receives or is being checked neither panics nor blocks, ends its receiver and closes its connection. After the close no send succeeds and the session counts as unhealthy. A login that fails for any reason yields no session and closes its connection.",
 ["schedules","crash_points","fault_sequences"],"all interleavings of close with close, send, health check and receiver up to the preemption bound; every failure point of the login",
 "The tests close a session once at the end.",
 [CL+"session/session.go"],[("Close",CL+"session/session.go"),("NewSession / login",CL+"session/session.go")])
p("P24","Query returns exactly the results of its send until they expire",
 "Every bulk send returns a fresh query id, and a query with it returns one result per message segment sent, in order and tagged with that id, and nothing else; an unknown or expired id, or one whose send produced nothing, returns nothing and never panics. Results expire only after the configured time and are then removed and, if there is a persistence handler, handed to it exactly once; the handler the client supplies writes each of them to the database once, unaltered. Expiry of one entry never removes or alters another.",
 ["histories","schedules"],"all histories of sends, queries, clock advances and expiry ticks up to depth 5, batch sizes around the hand-over limit; the journal with the real driver, all sizes on all carriers",
 "The tests do not wait for the expiry and never query unknown ids.",
 [CL+"api.go",CL+"session_factory.go"],[("query cache",CL+"api.go"),("expiry",CL+"session_factory.go cleanQueryCacheMap")])
p("P25","Messages go to the carrier of the number over the least used healthy session",
 "Every number is routed to the carrier whose number segment it matches and to none when it matches none, also while other carriers are out of order. Selections within the carrier's window and throughput are served, those beyond get none. The factory hands out only healthy sessions, orders them at each period by their use in the last one and hands out the least used first, never holds more than the configured number, drops dead ones and replaces them. Concurrent selection, sorting and replacement never lose or duplicate a session and never block forever once a healthy session exists. After a shutdown no session stays open, also one that was being opened.",
 ["schedules","histories","inputs"],"numbers over all prefixes, all histories of use, death and ticks up to the depth bound, interleavings of selection and sort",
 "The tests need live gateways.",
 [CL+"session_factory.go"],[("SelectSession / PeekSession",CL+"session_factory.go"),("lruSort",CL+"session_factory.go")])
p("P26","End to end every message sent is answered, reported and leaves no residue",
 "A message sent with the client to the server ends with a result carrying a success status, the server's message id and, where the protocol carries reports on the connection (CMPP, SMGP), a final status report, for every text, number and protocol. Concurrent sends do not mix up their results. After the client closes, the server has no session, no worker and a zero count left.",
 ["schedules","inputs","configurations"],"client and server code joined by a modelled network, texts of each form, one or two messages, all delivery orders up to the deviation bound",
 "The tests need two processes and check nothing automatically.",
 [SV+"*.go",CL+"session/*.go",CL+"api.go"],[("client and server code paths",SV+"*.go, "+CL+"*.go")])
p("P27","Event registry runs each handler as registered and shutdown reaches every hook",
 "The event registry behaves like a map under every history and interleaving of register, look up, call, fuzzy call and delete: a taken name cannot be registered again, a call runs exactly the handler registered, with the arguments given, and a deleted one never runs. A shutdown runs every registered hook exactly once per shutdown, signals every registered channel and does not block, also when it is repeated. Calling an unknown event does nothing but report it.",
 ["schedules","histories"],"all operation sequences up to depth 4-5 against a reference map, all interleavings of 2-3 registrars, callers and shutdown up to the bound",
 "The module has no tests.",
 ["event_manager/event_manage.go"],[("registry","event_manager/event_manage.go"),("graceful shutdown","event_manager/event_manage.go")])
p("P28","Account lookups always see the stored accounts, completely, also while reloading",
 "After loading, a lookup by carrier and id returns exactly the account stored for them, regardless of letter case in the carrier's name, and none for anything else; files that are no account files are ignored. While accounts are reloaded concurrently every lookup returns a complete account, old or new, never a mixture, and after the reload the new one. A caller's copy is not changed by later reloads.",
 ["inputs","histories","schedules"],"all file sets over an alphabet of names and contents, all histories of edits and reloads up to depth 4, interleavings of lookup and reload",
 "The tests load one directory and look up two accounts.",
 ["auth/yaml_store.go","auth/client_store.go","auth/client.go"],[("YAML store",  "auth/yaml_store.go"),("store cache","auth/client_store.go")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
