import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs,state=None):
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"state":[{"name":a,"meaning":b,"where":c} for a,b,c in (state or [])],"observe_at":obs,"hook_needed":None}})
U="src/packets/utils.rs"; PM="src/packets/mod.rs"; FH="src/packets/headers/fixed_header.rs"; CO="src/packets/headers/connect.rs"; CA="src/packets/headers/connack.rs"; TH="src/topic_heir.rs"; UT="src/utils.rs"; CM="src/core/mod.rs"; SE="src/core/session.rs"; H="src/handler.rs"; M="src/main.rs"; EN="src/packets/enums.rs"; CE="src/core/enums.rs"
p("C01","Remaining-length field encodes and decodes exactly","Every packet length from 0 to 268,435,455 is written in the minimal 1 to 4 byte form of MQTT 3.1.1 section 2.2.3, and reading a length field yields exactly the number its bytes denote together with the number of bytes it occupied. A field that has no fourth byte with a clear top bit is never turned into a length.",["inputs"],"all lengths 0..=268435455 and all byte sequences","The tests try a handful of lengths; the boundaries (127/128, 16383/16384, 2097151/2097152, five continuation bytes) are a per-value fact.",[U,FH,PM],[("length encoder","src/packets/utils.rs encode_length"),("length decoder","src/packets/utils.rs decode_length")],["encoder and decoder of the length field","bytes of any packet the broker writes"])
p("C02","Decoding hostile bytes never panics, overflows or loops","For every byte sequence a peer can send, decoding it ends with either a packet or an error. It never panics, never overflows or underflows an integer, never reads outside the bytes received and never runs forever.",["inputs"],"all byte sequences of any length","Tests decode well-formed packets and a few short ones; totality is a statement about every byte string.",[PM,U,FH,CO,EN],[("packet decoder","src/packets/mod.rs Packet::unpack"),("field readers","src/packets/utils.rs unpack_*")],["result of decoding","liveness of the connection task"])
p("C03","A packet is decoded from exactly the bytes its length claims","The decoder reads a packet only from the bytes its length field delimits: bytes after it change nothing, fields may not reach past its end, and bytes left over inside it make it malformed. The length of the first packet in a buffer is reported exactly when all of its bytes are present.",["inputs"],"all byte sequences, any bytes following the packet","Tests decode buffers holding exactly one packet; over-reading only shows when other bytes follow.",[PM,FH,U],[("framing","src/packets/mod.rs Packet::unpack, complete_len")],["result of decoding a buffer that holds more or fewer bytes than one packet"])
p("C04","PUBLISH is decoded faithfully","A PUBLISH that MQTT 3.1.1 allows is decoded to exactly the DUP, QoS, RETAIN, topic, packet identifier and payload that its bytes carry, with a packet identifier if and only if its QoS is above 0. The payload is every remaining byte of the packet, whatever those bytes are.",["inputs"],"all PUBLISH packets: every flag combination, topic, identifier and payload","Tests hold two or three PUBLISH samples; payload content, QoS and flags combine freely.",[PM,U,FH],[("PUBLISH decoder","src/packets/mod.rs VariableHeader::unpack"),("flag readers","src/packets/headers/fixed_header.rs get_qos, get_dup, get_retain")],["decoded packet"])
p("C05","SUBSCRIBE and UNSUBSCRIBE are decoded faithfully","A well-formed SUBSCRIBE is decoded to its packet identifier and exactly its list of topic filters with their requested QoS, in order; a well-formed UNSUBSCRIBE to its identifier and exactly its list of filters, in order. Lists may be of any length that fits in the packet.",["inputs"],"all SUBSCRIBE and UNSUBSCRIBE packets with any number of filters","Tests use lists of one or two filters; order and completeness are an induction over the list.",[PM,U],[("list decoders","src/packets/mod.rs VariableHeader::unpack")],["decoded packet"])
p("C06","CONNECT is decoded faithfully and refused by the rules","A CONNECT that MQTT 3.1.1 allows is decoded to exactly its client identifier, clean-session flag, keep alive, will (topic, message, QoS, retain), user name and password. A CONNECT whose protocol name, level, flags or fields break the rules is refused; an unsupported level and an empty client identifier without clean session are told apart from other faults.",["inputs"],"all CONNECT packets: every flag byte, any fields, any truncation","The flag byte has 256 values and gates five optional fields; tests cover two of them.",[PM,CO,U],[("CONNECT decoder","src/packets/mod.rs VariableHeader::unpack"),("flag validation","src/packets/headers/connect.rs")],["decoded packet or error","CONNACK return code"])
p("C07","Malformed packets are refused","Every byte sequence that MQTT 3.1.1 does not allow as a control packet is refused with an error: wrong reserved flag bits, QoS 3, DUP with QoS 0, packet identifier 0, wildcards or an empty name in a PUBLISH topic, strings that are not UTF-8 or contain U+0000, empty filter lists, unknown packet types, missing or surplus bytes. No refused packet yields a partial result.",["inputs"],"all byte sequences outside the grammar of MQTT 3.1.1","Refusal has to be shown for everything outside the grammar; tests sample a few malformed packets.",[PM,U,FH,CO,EN,H],[("validation","src/packets/mod.rs VariableHeader::unpack"),("flag validation","src/packets/headers/fixed_header.rs")],["decoding error","connection closed"])
p("C08","Every packet the broker writes has the MQTT wire format","CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK and PINGRESP are written exactly as MQTT 3.1.1 lays them out: type, mandatory flags, length, identifier, return codes, topic and payload. A PUBLISH carries an identifier if and only if its QoS is above 0.",["inputs"],"all packets the broker can send, with any identifier, return codes, topic and payload","Tests compare a few fixed packets; lengths, identifiers and lists vary without bound.",[PM,CA,FH,U],[("packet encoder","src/packets/mod.rs Packet::pack, make_*")],["bytes written to the client"])
p("C09","Encoding then decoding returns the same packet","For every packet within the limits of MQTT 3.1.1, decoding the bytes that encoding it produced yields the same packet and consumes all of those bytes, whatever bytes follow them.",["inputs"],"all packet values","A round trip of a few samples says nothing about the others.",[PM,U,FH],[("encoder and decoder","src/packets/mod.rs pack, unpack")],["decoded packet compared with the original"])
p("C10","A publish reaches exactly the subscriptions whose filter matches","Looking up the subscribers of a topic yields exactly the sessions that hold a subscription whose filter matches the topic under MQTT 3.1.1 section 4.7: '+' stands for one whole level (even an empty one), '#' for the parent level and everything below, other levels match byte for byte, and a filter starting with a wildcard does not match a topic starting with '$'.",["inputs","histories"],"all sets of subscriptions and all topic names of any depth","Matching is a recursive definition over unbounded depth and over combinations of overlapping filters; tests cover a few trees.",[TH,UT],[("tree lookup","src/topic_heir.rs SubHier::get"),("level splitting","src/utils.rs tokenise_topic")],["subscribers returned for a topic","PUBLISH packets delivered"],[("subscription tree","filters by level, subscribers at the leaves","src/topic_heir.rs")])
p("C11","Subscribe and unsubscribe change one subscription and nothing else","Subscribing adds the given filter for the given session with the given QoS, replacing that session's earlier QoS for the same filter; unsubscribing removes exactly that session's entry for exactly that filter. Every other subscription, of this session or any other, stays as it was, after any sequence of such requests.",["histories","inputs"],"all histories of subscribe and unsubscribe requests by any sessions","Tests insert and delete a few entries; interference shows only with particular shared prefixes and orders.",[TH,CM],[("tree insert and delete","src/topic_heir.rs SubHier::insert, delete"),("request handling","src/core/mod.rs subscribe, unsubscribe")],["subscribers of any topic before and after the request"],[("subscription table","(filter, session) to QoS","src/topic_heir.rs")])
p("C12","A session receives a publish at most once, at its highest matching QoS","When several of a session's filters match a topic, the session is given that publish exactly once. The QoS used is the highest one among its matching subscriptions.",["inputs","histories"],"all combinations of overlapping filters and QoS values","Overlaps arise from combinations of filters that the tests do not contain.",[TH,CM],[("merging of subscribers","src/topic_heir.rs add_subscriber"),("fan out","src/core/mod.rs publish")],["PUBLISH packets queued for one session"])
p("C13","SUBACK answers every requested filter in order","The SUBACK for a SUBSCRIBE has one return code per requested filter, in request order: the granted QoS for a valid filter, which is then subscribed, and 0x80 for a filter that section 4.7 forbids, which is not.",["inputs"],"all filter lists of any length and content","The correspondence of positions over a list of unbounded length, with any mix of valid and invalid filters, is not settled by samples.",[CM,UT,PM],[("SUBSCRIBE handling","src/core/mod.rs subscribe"),("filter validation","src/utils.rs is_valid_filter")],["return codes of the SUBACK"])
p("C14","A publish is delivered unchanged to every matching subscriber","Each connected session with a matching subscription is sent one PUBLISH with the topic and payload exactly as published, on the session's current connection. Its QoS is the lower of the publish's and the subscription's; above QoS 0 it carries a nonzero identifier, different from the session's previous one.",["inputs","histories"],"all topics, payloads, QoS pairs, and all sets of subscribers and sessions","Needs every combination of publisher, subscribers and QoS and every state of the session table.",[CM,SE,PM],[("fan out","src/core/mod.rs publish"),("identifier allocation","src/core/session.rs next_packet_id")],["messages queued for each connected client"],[("sessions","client identifier to its current connection","src/core/mod.rs App")])
p("C15","Reconnecting, clean sessions and disconnecting follow the session rules","A CONNECT with clean session discards the earlier session of that client identifier and its subscriptions and reports no session present; without it an earlier session that was not clean is resumed, keeps its subscriptions and is reported as present. A client that connects takes over from an earlier connection under the same identifier, which is told to disconnect, and the end of that replaced connection never disturbs the new one.",["histories","schedules"],"all histories of connects, disconnects and subscriptions over any client identifiers, including late notices from replaced connections","The order in which a replaced connection reports its end is a scheduling matter; tests connect once.",[CM,SE,M],[("connect","src/core/mod.rs connect"),("disconnect","src/core/mod.rs disconnect")],["session present flag","subscriptions after reconnecting","messages sent to the old and to the new connection"],[("sessions","client identifier, session identity, connection, clean flag","src/core/session.rs")])
p("C16","A connection starts with exactly one CONNECT","Nothing a client sends is acted upon before its CONNECT: any other first packet closes the connection without an answer and without touching the broker's state. A valid CONNECT is answered with a CONNACK before anything else is sent, a CONNECT with an unsupported level or a forbidden client identifier with its refusal code before closing, and a second CONNECT closes the connection.",["histories","inputs"],"all sequences of packets on a connection","A protocol over every sequence of packets; tests do not drive the connection task at all.",[H,M,PM],[("connection loop","src/handler.rs client_handler")],["bytes written to the client","commands sent to the broker core"])
p("C17","Every request is answered with the right acknowledgement","PUBLISH QoS 1 is answered by PUBACK, PUBLISH QoS 2 by PUBREC, PUBREL by PUBCOMP, PUBREC by PUBREL, SUBSCRIBE by SUBACK, UNSUBSCRIBE by UNSUBACK, each with the identifier of the packet it answers, and PINGREQ by PINGRESP. Requests are answered in the order in which they arrived, and a PUBLISH QoS 0 is not answered.",["histories","inputs"],"all sequences of packets, all identifiers","Every sequence of requests; the tests never run the connection task.",[H,PM],[("connection loop","src/handler.rs client_handler")],["bytes written to the client"])
p("C18","Accepted requests reach the broker core unchanged, in order, QoS 2 once","Each PUBLISH, SUBSCRIBE and UNSUBSCRIBE accepted on a connection is handed to the core exactly once, unchanged and in the order received, a PUBLISH before its acknowledgement is sent. A QoS 2 PUBLISH repeated with the same identifier before its PUBREL is handed over only once, and after the PUBREL the identifier starts a new message.",["histories","inputs"],"all sequences of packets on a connection","Needs all interleavings of retransmissions, releases and other packets.",[H],[("connection loop","src/handler.rs client_handler")],["commands received by the core"],[("received identifiers","QoS 2 identifiers not yet released","src/handler.rs")])
p("C19","Keep alive closes silent clients and no others","After a CONNECT with keep alive K > 0 the connection is closed when one and a half K seconds pass without a complete packet from the client, and each packet restarts that time. With K = 0 the connection is never closed for silence.",["histories","schedules","inputs"],"all keep alive values and all arrival times","A statement about all timings; tests do not run the timer.",[H],[("keep alive timer","src/handler.rs client_handler")],["moment at which the connection closes"])
p("C20","Packets are recognised however the stream is cut into pieces","The sequence of packets taken from a connection depends only on the bytes received: it is the same however the bytes were split into reads, including splits inside a length field, several packets in one read, and reads interleaved with packets being sent. No byte is lost, repeated or skipped.",["schedules","inputs"],"all byte streams and all ways to split them into reads","The number of ways to split a stream is exponential and depends on the network; tests use none.",[H,PM],[("reassembly","src/handler.rs read_packet"),("length of a complete packet","src/packets/mod.rs complete_len")],["packets acted upon for a given byte stream"],[("pending bytes","bytes read and not yet consumed","src/handler.rs")])
p("C21","The outgoing stream is a sequence of whole packets in order","The bytes a client receives are whole packets one after another: the acknowledgements the connection owes and the messages the core queued for it, each exactly once, queued messages in queue order, never cut or interleaved. After a failed write nothing more is written.",["schedules","histories","fault_sequences"],"all interleavings of requests and queued messages, partial writes and write errors","Short writes and interleavings depend on the network and the scheduler.",[H],[("writing","src/handler.rs client_handler")],["bytes written to the client"])
p("C22","The broker never blocks for good on a slow client","Whatever clients do, the core keeps processing requests: a client that does not read delays at most its own messages.",["schedules"],"all schedules and all behaviours of clients","A liveness statement about all schedules.",[CM,H,M],[("bounded channels","src/main.rs, src/handler.rs")],["progress of other clients"])
p("C23","Messages of one publisher arrive at each subscriber in order","Two messages published on one connection with the same topic and QoS reach every subscriber to which both are delivered in the order in which they were published, across the publisher's task, the core and the subscriber's task.",["schedules"],"all schedules of the three tasks","Needs all schedules of several tasks.",[H,CM,M],[("channels","src/handler.rs, src/core/mod.rs")],["order of PUBLISH packets at a subscriber"])
p("C24","Unacknowledged QoS 1 and 2 messages survive a reconnect","A message sent with QoS 1 or 2 on a session that is not clean is sent again after a reconnect until it is acknowledged, and messages published while the client is away are kept for it.",["histories","crash_points"],"all points at which the connection may end","The connection may end at any point of the exchange.",[CM,SE],[("session state","src/core/session.rs")],["PUBLISH packets after a reconnect"])
p("C25","Shutting down ends every connection and the process","After the shutdown signal every connection task and the core end in bounded time, whatever the clients are doing.",["schedules"],"all moments of the signal and all schedules","A liveness statement about all schedules.",[M,H],[("cancellation","src/main.rs")],["end of the process"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
NA={"C22":"Progress under all schedules is a liveness property; function contracts state partial correctness of one function at a time and Verus has no tokio scheduler semantics. (It does not hold either: a client whose channel is full and who does not read stalls the core; see DESIGN.md, limits.)",
"C24":"Not a contract on existing code: the broker keeps no store of unacknowledged messages, so there is no function whose contract could express redelivery.",
"C25":"Liveness of several tasks under all schedules (and the process's signal handling); contracts on functions decide safety only."}
NOTES={
"C12":"", }
import sys
LIVE=[l for l in sys.argv[1:]]
T={"u1":"codec","u2":"topics","u3":"core","u4":"connection"}
checks=[]
th={"C01":["lemma_len_roundtrip"],"C03":["theorem_prefix"],"C09":["theorem_roundtrip"],"C10":["theorem_hits","theorem_matching"],"C12":["theorem_once"],"C14":["theorem_deliver_all","theorem_ids"],"C15":["theorem_ids"],"C18":["theorem_handed"],"C20":["theorem_stream"],"C21":["theorem_queue"],"C23":["theorem_order","theorem_two_messages","theorem_handed","theorem_queue"]}
for x in P:
    i=x["id"]
    if i in NA: continue
    if i not in LIVE:
        NA[i]="not yet under contract: the connection task's contracts are being written"; continue
    c={"property":i,"quick_cmd":"python3 bin/vp.py check %s quick"%i,"thorough_cmd":"python3 bin/vp.py check %s thorough"%i,
       "technique":"deductive verification (Verus contracts on the functions extracted from /repo/src on every run)","level":"proof",
       "level_note":"Verus discharges every obligation of the functions this property depends on, for all inputs and iterations, from the current source; a failed obligation is searched for a failing input on the compiled code. Trusted: extractor steps listed in DESIGN.md, shim contracts of std, bytes, dashmap, tokio, uuid. Functions a change takes out of the verifier's reach are covered by a bounded replay and reported as such."}
    if i in th: c["theorems"]=th[i]
    checks.append(c)
json.dump({"version":1,"setup_cmd":"python3 bin/vp.py setup","checks":checks,"not_applicable":[{"property":k,"reason":v} for k,v in sorted(NA.items())]},open('/verif/MANIFEST.json','w'),indent=1)
