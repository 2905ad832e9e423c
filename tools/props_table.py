T4 = 'The four SCRAM unit tests parse a handful of fixed messages and never run a complete exchange; '
p('S01', 'SCRAM: a client is authenticated only with a valid proof for this exchange',
  'The server reports a client as authenticated only if the client repeated its own channel-binding header, returned exactly the combined nonce the server issued, and sent a proof equal to the one computed from the stored password hash over the messages of this exchange. An authorization identity, when given, must be equal to the authenticated user name.',
  ['inputs', 'histories'], 'every client-first and client-final text, every stored hash, salt, iteration count and random nonce',
  T4 + 'a missing or weakened comparison on one of the guards passes all of them.', [SS, SM],
  [('verification of client-final', SS + ' decode_client_final'), ('comparison of header, nonce, proof and identities', SS + ' decode_client_final')])
p('S02', 'SCRAM: each verdict of the server has its own cause and answer',
  'The verdict "not authorized" is given only after a correct proof and only when an authorization identity different from the user name was requested; "not authenticated" is given only for a well-formed message whose proof is wrong. A successful verdict carries the server signature of this exchange, and a failed one carries an error message and never the server signature.',
  ['inputs', 'histories'], 'every pair of client messages and stored credentials', T4 + 'no test reaches a verdict.', [SS], [('verdict of client-final', SS + ' decode_client_final')])
p('S03', 'SCRAM: the exchange advances only in order and each step is used once',
  'Server-first can be produced only after an accepted client-first, and a client-final is judged only once and only after server-first was produced; apart from a client-first, which starts a new exchange, any call out of order is answered with an invalid-state error and leaves the exchange where it was. After a client-final was judged, successfully or not, the exchange cannot be continued.',
  ['histories', 'inputs'], 'every sequence of calls with every message', T4 + 'no test calls the steps out of order or twice.', [SS],
  [('state taken out before it is used', SS + ' encode_server_first / decode_client_final')], technique='typestate analysis over MIR (transition relation from every state)')
p('S04', 'SCRAM: key derivation, proof and signature follow RFC 5802',
  'The salted password is PBKDF2 with HMAC-SHA-256 of password, salt and iteration count with a 32-byte result; the client proof is the client key combined by exclusive-or with the HMAC of the exchange under the SHA-256 of the client key; the server signature is the HMAC of the exchange under the server key. Both sides of the exchange compute the same values from the same messages.',
  ['inputs'], 'every password, salt, iteration count and exchange', T4 + 'no test compares a computed value with RFC 5802.', [SM, SS],
  [('password hashing', SM + ' hash_password'), ('proof and signature', SM + ' find_proofs')])
p('S05', 'SCRAM: nonces are fresh and the verified transcript is the messages exchanged',
  'The client nonce, and what server-first appends to it, are at least sixteen freshly drawn printable characters other than a comma; server-first extends the client nonce and announces exactly the salt and iteration count used. The transcript the proof is checked against is client-first without its header exactly as received, server-first exactly as sent, and client-final without its proof.',
  ['inputs', 'histories'], 'every exchange, including client-first messages with extensions or escaped names', T4 + 'none contains an extension or an escaped character.', [SS, SM],
  [('server-first', SS + ' encode_server_first'), ('transcript', SS + ' decode_client_first, ' + SM + ' find_proofs')])
p('S06', 'SCRAM: client-first is accepted only in its defined form',
  'A client-first message is accepted only if it starts with a channel-binding flag of n or y, an empty or a= authorization identity, the user name and the client nonce in this order; a request for channel binding is refused as unsupported. The user name and the authorization identity reported afterwards are those of the message, and every message of this form is accepted.',
  ['inputs'], 'every text as client-first', 'The unit tests try nine fixed texts.', [SS], [('client-first parser', SS + ' decode_client_first'), ('field parser', SS + ' next_field')])
p('S07', 'SCRAM: the client answers only its own exchange and authenticates the server',
  'The client answers a server-first only if its nonce extends the one the client sent, derives its key from its own password with the salt and iteration count received, and proves it over the messages of this exchange. It accepts the server only if the signature received equals the one computed for this exchange, accepts every correct one, and cannot be used again afterwards.',
  ['inputs', 'histories'], 'every pair of server messages', 'No test covers the client at all.', [SC, SM], [('client exchange', SC + ' encode_client_first, decode_server_first, decode_server_final')])
p('S08', 'SCRAM: no message can crash either side of the exchange',
  'No text received by the SCRAM server or client, in any state of the exchange, makes it panic: it is answered with a result or an error.',
  ['inputs', 'histories'], 'every message in every state, including empty, truncated and multi-byte ones', 'The unit tests try fixed ASCII texts only.', [SS, SC, SM],
  [('checked slicing and decoding', SS + ', ' + SC)], technique='abstract interpretation of MIR with a linear-inequality domain; every panicking construct is a proof obligation')
p('S09', 'SCRAM: user names with separators survive the exchange unchanged',
  'The client writes every user name with the equals sign and the comma encoded, and the server reports every user name and authorization identity with these encodings undone, so that a name containing a separator is the same on both sides and never contributes a field of its own.',
  ['inputs'], 'every user name and authorization identity', 'No test uses a name with a separator.', [SS, SC, SM], [('escaping', SM + ' escape_name / unescape_name')])
T5 = 'The five unit tests parse a few fixed headers; '
p('P01', 'PROXY: no byte stream can crash the header parser',
  'Whatever bytes a peer sends in place of a PROXY protocol header, with or without TLS termination, the parser answers with a header, the local outcome or an error and never panics.',
  ['inputs', 'configurations'], 'every byte stream of every length, both TLS termination settings', T5 + 'unspecified families, truncated fields and extreme lengths are not among them.', [PX],
  [('bounds of header and fields', PX + ' parse_header, parse_tlvs')], technique='abstract interpretation of MIR with a linear-inequality domain and inferred loop invariants; every panicking construct is a proof obligation')
p('P02', 'PROXY: only well-formed version 2 headers are accepted',
  'A header is accepted only if it has the twelve signature bytes, version 2, a known command, a known address family and transport, and a length that covers the address block of its family. The local command is accepted only without family and payload and yields no addresses, and only the proxy command yields addresses.',
  ['inputs'], 'every byte stream', T5 + 'no malformed header is tried.', [PX], [('fixed header checks', PX + ' parse_header')])
p('P03', 'PROXY: addresses, ports and transport are those of the header',
  'The source and destination addresses and ports and the transport reported for an accepted header are, for each address family, the bytes the PROXY protocol assigns to them, in network byte order.',
  ['inputs'], 'every accepted header of every family', T5 + 'they use one IPv4 address pair.', [PX], [('address decoding', PX + ' parse_addresses')])
p('P04', 'PROXY: fields are walked exactly to the end and the checksum is verified',
  'A header is accepted only if its additional fields follow each other without gap and end exactly at the announced length. If it carries a CRC32C field, it is accepted only if that value equals the checksum of the whole header, addresses and fields with the checksum itself set to zero.',
  ['inputs'], 'every sequence of fields in every order', T5 + 'one correct checksum is tried and no wrong one.', [PX], [('field loop and checksum', PX + ' parse_tlvs')], technique=PS)
p('P05', 'PROXY: TLS termination needs a verified client certificate and a host name',
  'With TLS termination enabled a header is accepted only if it carries an SSL field that reports the client certificate as verified and a non-empty host name, which is the one reported. Without it, a header carrying either is refused.',
  ['inputs', 'configurations'], 'every sequence of fields, both TLS termination settings', T5 + 'no unverified certificate and no missing or unexpected field is tried.', [PX], [('TLS fields', PX + ' parse_tlvs')], technique=PS)
p('P06', 'PROXY: exactly the header is taken from the connection',
  'When a header is accepted, exactly its sixteen fixed bytes and the announced number of further bytes have been read from the connection, so that the client stream starts right behind it.',
  ['inputs'], 'every accepted header', T5 + 'none checks what remains in the stream.', [PX], [('exact reads', PX + ' parse_header, parse_tlvs')])
p('P07', 'PROXY: every well-formed header is accepted',
  'A PROXY protocol version 2 header is refused only for a reason: it is malformed, its family or transport is unspecified, its fields take more than 256 bytes, its checksum is wrong, or the TLS fields do not fit the setting. Fields of unknown type, repeated fields and any address family and transport are no such reason.',
  ['inputs', 'configurations'], 'every well-formed header with every sequence of fields', T5 + 'they use TCP over IPv4 and four field types.', [PX], [('rejections', PX + ' parse_header, parse_tlvs')], technique=PS)
MQ = 'akasa-core/src/protocols/mqtt/'
PN = MQ + 'pending.rs'
C3, C5 = MQ + 'v3/packet/common.rs', MQ + 'v5/packet/common.rs'
U3, U5 = MQ + 'v3/packet/publish.rs', MQ + 'v5/packet/publish.rs'
TI = 'The integration tests need a network and sleep; the stable unit tests do not touch this code, and a sample of sessions cannot cover '
p('Q01', 'Outbound QoS 1 and 2: only the matching acknowledgement advances a delivery',
  'An outbound QoS 1 message is completed only by a PUBACK and a QoS 2 message only by a PUBREC followed by a PUBCOMP, each with the packet identifier of that message; no other packet changes its state, identifier or contents. A message leaves the queue of a session only when it is complete, and each acknowledgement packet from the client is handed to the queue with its own packet identifier and QoS.',
  ['histories', 'inputs'], 'every sequence of acknowledgements and every queue content', TI + 'every order of acknowledgements.', [PN, C3, C5, U3, U5],
  [('acknowledgement state machine', PN + ' complete, pubrec, clean_complete'), ('handlers', U3 + ', ' + U5 + ' handle_puback, handle_pubrec, handle_pubcomp')],
  technique='typestate analysis over MIR (every write to a queue entry is classified as a transition)')
p('Q02', 'Outbound queue: never more in flight than allowed, never over its limit',
  'Of the queued outbound messages of a session only incomplete ones within the first max_inflight entries, whose acknowledgement timeout has passed, are offered for sending, and QoS 1 and 2 messages are sent only from there. A message is queued only while fewer than max_packets are queued, and no operation on the queue can panic.',
  ['histories', 'inputs', 'configurations'], 'every queue content, limit and sequence of operations', TI + 'every fill level of the queue.', [PN, U3, U5, C5],
  [('window and limit', PN + ' get_ready_packet, push_back'), ('users', C3 + ', ' + C5 + ' handle_pendings')],
  technique='abstract interpretation of MIR with a linear-inequality domain; bounds of every access and of the window are proof obligations')
p('Q03', 'Outbound QoS 1 and 2: messages are sent and re-sent faithfully',
  'What is sent for a queued message is that message with its own topic, payload, QoS, retain flag and packet identifier, without DUP the first time and with DUP every further time; after PUBREC the PUBREL with the same identifier is sent instead. Each sending is noted with its time in the same entry, and when a session is resumed every unacknowledged message becomes due again.',
  ['histories', 'inputs'], 'every queue content and every number of retransmissions', TI + 'retransmission after every step.', [C3, C5, PN],
  [('resend loop', C3 + ', ' + C5 + ' handle_pendings'), ('resumption', PN + ' reset_last_sent')], technique=PS)
p('Q04', 'MQTT 5: expired messages are not delivered and the remaining time is forwarded',
  'A queued MQTT 5 message with a message expiry interval is not sent for the first time after that interval has passed, and is given up only when it has passed and the message was never sent. The interval forwarded is what remains of it, never invented and never dropped.',
  ['histories', 'inputs'], 'every interval, queueing time and clock value', TI + 'every age of a message.', [C5],
  [('expiry', C5 + ' handle_pendings')], technique='property simulation over MIR with a linear-inequality domain')
p('Q05', 'Inbound QoS: acknowledged messages are forwarded, QoS 2 exactly once',
  'A PUBLISH is forwarded exactly once if it is accepted, except that a QoS 2 PUBLISH whose packet identifier is still in use is not forwarded again; a rejected one is never forwarded or recorded. QoS 1 is answered with PUBACK, QoS 2 with PUBREC and PUBREL with PUBCOMP, each with the packet identifier received, and only PUBREL releases the identifier. MQTT 5 accepts no more unreleased QoS 2 messages than its receive maximum.',
  ['histories', 'inputs'], 'every sequence of PUBLISH and PUBREL packets including redeliveries', TI + 'redelivery and identifier reuse at every point.', [U3, U5],
  [('inbound handling', U3 + ', ' + U5 + ' handle_publish, handle_pubrel')], technique=PS)
M3, M5 = MQ + 'v3/message.rs', MQ + 'v5/message.rs'
p('Q06', 'Delivery: a subscriber receives the message as published, with the lower QoS',
  'A message is delivered only to a client that still subscribes to a matched filter, with the lower of the published and the granted QoS and with the topic, payload and properties published, and it is dropped only if the client unsubscribed, the queue is full or it exceeds the packet size of the client. MQTT 5 deliveries carry each subscription identifier of the matched filters once and the retain flag if one of the subscriptions asked for it. What is routed is exactly what the publisher or its will said.',
  ['histories', 'inputs', 'configurations'], 'every message, combination of matched subscriptions and options', TI + 'every combination of QoS, options and subscriptions.', [M3, M5, U3, U5],
  [('delivery', M3 + ', ' + M5 + ' handle_normal; ' + U3 + ', ' + U5 + ' recv_publish'), ('publishing', U3 + ', ' + U5 + ' handle_publish')],
  technique='property simulation over MIR with enumeration of QoS levels and option flags')
p('Q07', 'Routing: every subscriber of every matched filter, one member of every group',
  'A message is registered for every subscriber of every filter matching its topic, with the highest QoS granted by the matched filters, except that an MQTT 5 publisher does not receive its own message through a no-local subscription. For each shared subscription group of a matched filter exactly one member is chosen by the configured mode. Every registered subscriber that is online is sent the message.',
  ['histories', 'inputs', 'configurations'], 'every topic, set of matched filters, subscribers and groups', TI + 'overlapping and shared subscriptions.', [U3, U5],
  [('routing loop', U3 + ', ' + U5 + ' send_publish')], technique='typestate analysis over MIR (each item of the nested routing loops)')
RT, RE = MQ + 'route.rs', MQ + 'retain.rs'
TA = 'abstract interpretation of MIR: inductive step check over the levels of a topic'
p('R01', 'Matching: a topic finds exactly the filters that match it',
  'A topic is matched level by level against every subscribed filter: a level matches itself, + and #, and a filter ending in /# also matches its parent level. Every matching filter with subscribers is found exactly once and no other; a topic beginning with $ is not matched by a filter beginning with a wildcard.',
  ['inputs', 'histories'], 'every topic and every set of subscribed filters', TI + 'topics and filters of every depth.', [RT],
  [('matching', RT + ' RouteTable::get_matches, RouteNode::get_matches')], technique=TA)
p('R02', 'Subscribing and unsubscribing change exactly that subscription',
  'Subscribing records the client with the granted QoS under exactly its filter, in the group named by a $share filter or among the ordinary subscribers otherwise, and replaces its earlier QoS. Unsubscribing removes exactly that entry and never drops a filter or level that still has subscribers in or below it.',
  ['histories', 'inputs'], 'every sequence of subscriptions of any clients and filters', TI + 'overlapping, shared and repeated subscriptions.', [RT],
  [('subscription tree', RT + ' RouteTable and RouteNode: subscribe, unsubscribe, insert, remove')], technique=TA)
p('R03', 'Shared subscriptions: a group always knows its members',
  'After any sequence of members joining, changing their QoS and leaving, in any order, a shared subscription group lists every member exactly once with its latest QoS and no one who left. Choosing a member by number or by hash never fails while there is one and can reach every member.',
  ['histories', 'inputs'], 'every sequence of joins and leaves, every number and hash', TI + 'leaving from the first, a middle and the last place.', [RT],
  [('group members', RT + ' SharedClients')], technique='abstract interpretation of MIR: the index stays the inverse of the list')
p('R04', 'Retained messages: the last one of each topic, found by matching filters',
  'The broker retains for every topic exactly the last message published to it with the retain flag, as it was published, and forgets it when an empty one is published; messages without the flag change nothing. A filter finds exactly the retained messages it matches, and a filter beginning with a wildcard finds none of topics beginning with $.',
  ['histories', 'inputs'], 'every sequence of publications and every filter', TI + 'topics and filters of every depth.', [RE, U3, U5],
  [('retained messages', RE + ' RetainTable, RetainNode'), ('storing', U3 + ', ' + U5 + ' send_publish')], technique=TA)
AU = MQ + 'auth.rs'
N3, N5 = MQ + 'v3/packet/connect.rs', MQ + 'v5/packet/connect.rs'
ST = 'akasa-core/src/state.rs'
TB = 'The stable unit tests do not touch this code and the integration tests connect a few well-formed clients; none tries '
p('A01', 'Passwords: a password is right exactly if its salted hash is the recorded one',
  'A user name and password are accepted exactly if the user exists and the recorded hash equals the hash of the given password with the recorded salt under the recorded algorithm (salted SHA-256 and SHA-512, their PBKDF2 forms with the recorded iteration count). The hash written for a new password is computed the same way.',
  ['inputs'], 'every user table, name, password and algorithm', TB + 'every algorithm with a wrong password.', [AU], [('password hashes', AU + ' check_password, hash_password')], technique='data-flow analysis over MIR: the value of every path against the definition of the algorithm')
p('A02', 'Password file: what is written is read back',
  'Every account written to the password file is read back with the same name, algorithm, salt, iteration count and hash, and lines with a missing, extra or malformed piece are refused instead of being taken as another account.',
  ['inputs'], 'every account and every line', TB + 'malformed lines.', [AU], [('password file', AU + ' dump_passwords, load_passwords')], technique='data-flow analysis over MIR: writer and reader compared piece by piece')
p('A03', 'CONNECT: nobody gets in without the right password',
  'With authentication enabled a client is registered, connected or has a packet processed only if its CONNECT carried a user name and the right password for it (or, with MQTT 5, enhanced authentication decides). It is answered "bad user name or password" exactly if these are missing or wrong, and the connection is closed.',
  ['inputs', 'histories', 'configurations'], 'every CONNECT and every sequence of packets', TB + 'a packet sent before or instead of a CONNECT, or a missing password.', [N3, N5, M3, M5],
  [('password gate', N3 + ', ' + N5 + ' handle_connect'), ('packet loop', M3 + ', ' + M5 + ' handle_online')], technique=PS)
p('A04', 'MQTT 5 enhanced authentication: connected only by a finished exchange',
  'A CONNECT that names an authentication method is connected only after the SCRAM exchange of a configured mechanism has succeeded, with the data of the CONNECT and of each AUTH given to that exchange in order and with the server data answered. An AUTH with another method, without method or data, or at the wrong step is refused, and a failed exchange closes the connection.',
  ['inputs', 'histories', 'configurations'], 'every sequence of CONNECT and AUTH packets', TB + 'AUTH packets out of order.', [N5, M5],
  [('exchange', N5 + ' handle_connect, scram_client_first, handle_auth'), ('AUTH loop', M5 + ' handle_online')], technique='typestate analysis over MIR (property simulation)')
p('C01', 'CONNECT: invalid ones are refused and valid ones kept as sent',
  'A CONNECT is refused exactly if the protocol forbids it: an unacceptable empty or (for 3.1, when checked) long client identifier, an empty will topic or one beginning with $, a zero receive maximum or packet size, or authentication data without a method. Of an accepted one every field is kept in the session as sent or with its default, an empty identifier is replaced by a generated one and the MQTT 5 keep alive is limited to the configured range.',
  ['inputs', 'configurations'], 'every CONNECT packet and configuration', TB + 'unusual combinations of fields.', [N3, N5], [('validation', N3 + ', ' + N5 + ' handle_connect')], technique=PS)
p('C02', 'CONNACK: a client is told exactly what the server will do',
  'The limits and capabilities an MQTT 5 client reads from CONNACK, or assumes when a property is left out, are those of the configuration and of its session: receive maximum, maximum QoS and packet size, topic aliases, retain, wildcard, shared and identified subscriptions, session expiry (limited to the maximum), keep alive, and assigned identifier. A will the server cannot publish is refused, and a client counts as connected exactly if its CONNACK was positive.',
  ['inputs', 'configurations'], 'every CONNECT and every configuration', TB + 'other configurations than the default.', [N3, N5], [('CONNACK', N5 + ' session_connect, ' + N3 + ' handle_connect')], technique=PS)
p('C03', 'Reconnecting: a session is resumed exactly when it should be, and completely',
  'The session of a client identifier is resumed exactly if there is one of the same protocol and no clean start is asked for; then its subscriptions, unacknowledged messages, unreleased packet identifiers and identifier counter are all kept, and otherwise none of them and its subscriptions are removed. CONNACK says session present exactly if it is resumed, and messages routed to the client but not handed over yet survive.',
  ['histories', 'inputs'], 'every CONNECT and every state of an existing session', TB + 'takeover with messages under way.', [N3, N5, ST],
  [('taking over', N3 + ' handle_connect; ' + N5 + ' session_connect')], technique=PS)
p('C04', 'Client registry: one identifier, one client, one place in every map',
  'A client identifier belongs to at most one client at a time and an internal id to one identifier for ever; what the registry holds of a client is added and removed together. The count of online clients is the number of registered clients flagged online, whatever the order of connects, takeovers, disconnects and expiries.',
  ['histories', 'schedules'], 'every interleaving of connections of all clients', TB + 'clients that come and go concurrently.', [ST], [('registry', ST + ' add_client, remove_client, offline_client')],
  technique='typestate and lock-region analysis over MIR, inductive over registry operations')
p('C05', 'End of a connection: the client is kept, handed over or removed, once',
  'When a connection ends its client is removed if the session ends with it, otherwise kept as an offline session that goes on receiving; a session taken over by a new connection is neither. An offline MQTT 5 session ends when its expiry interval has passed since that connection ended, and only if the client has not come back. No path leaves a client registered whose connection and session are gone.',
  ['histories', 'schedules', 'crash_points'], 'every way a connection can end', TB + 'connections that fail half way or are resumed while they expire.', [M3, M5], [('end of a connection', M3 + ', ' + M5 + ' handle_online, handle_offline, handle_connection'), ('expiry', M5 + ' handle_control')],
  technique=PS)
p('W01', 'Wills: published when due, once, as registered',
  'When a served connection ends without being taken over, the will of its client is published with the topic, payload, QoS, retain flag and properties it was registered with: at once, or for MQTT 5 when its delay or the session is over, whichever is first, unless the client has come back. It is published at most once, and not after a DISCONNECT (with MQTT 5: a normal one) of the client.',
  ['histories', 'inputs', 'schedules'], 'every will and every way a connection can end', TB + 'clients that vanish.', [M3, M5, N3, N5], [('wills', M3 + ' handle_will; ' + M5 + ' handle_will, send_will, handle_control'), ('DISCONNECT', N3 + ', ' + N5 + ' handle_disconnect')],
  technique=PS)
OL, CM = MQ + 'online_loop.rs', MQ + 'common.rs'
p('O01', 'Serving a connection: everything queued is written once, whole and in order',
  'Whatever is queued for a client is written to its connection completely, once and in the order it was queued, however few bytes the connection takes at a time and whatever happens between two writes; messages routed to slower clients are kept until they can be handed over. A session taken over is handed over only after that, and a connection with work left never sleeps without anything that will wake it.',
  ['schedules', 'inputs', 'fault_sequences'], 'every sequence of ready, partial, pending and failed reads and writes', TB + 'a connection that takes a few bytes at a time.', [OL],
  [('online loop', OL + ' OnlineLoop::poll')], technique='typestate and obligation analysis over MIR (property simulation of the poll function)')
p('K01', 'Keep alive: a silent client is disconnected, a live one never',
  'A client with a keep alive that has sent no packet for more than one and a half times that interval is disconnected before twice the interval is over; one that sends packets in time is not, and each packet counts. A keep alive of zero means no limit, and an earlier connection of the client never ends a later one.',
  ['schedules', 'histories', 'inputs'], 'every keep alive and every timing of packets and reconnections', TB + 'a client that falls silent or comes back while a timer runs.', [CM, N3, N5, MQ + 'v3/packet/common.rs', MQ + 'v5/packet/common.rs'],
  [('timer', CM + ' start_keep_alive_timer'), ('sign of life', 'v3/packet/common.rs, v5/packet/common.rs after_handle_packet')], technique='typestate analysis over MIR (property simulation of the timer task and of connecting)')
p('L01', 'No deadlock: locks are taken in one order and never held while waiting',
  'No two tasks can wait for each other for ever over the locks of the broker: locks are taken in one order (below a common lock in any), none is taken again by a task that holds it, and none is held while a task awaits something. No task of a connection blocks the thread that other tasks run on.',
  ['schedules'], 'every interleaving of all tasks', TB + 'two clients that subscribe, publish and leave at the same moment.', ['akasa-core/src/state.rs', MQ + 'route.rs', MQ + 'retain.rs', MQ + 'common.rs'],
  [('locks', 'state.rs GlobalState, route.rs RouteTable and RouteNode, retain.rs RetainNode, session last_packet_time')], technique='lock-order and guard analysis: interprocedural dataflow over MIR')
B3, B5 = MQ + 'v3/packet/subscribe.rs', MQ + 'v5/packet/subscribe.rs'
p('B01', 'SUBSCRIBE: each filter granted or refused, and what is answered is done',
  'Each filter of a SUBSCRIBE is answered once, in order, in a SUBACK with its packet identifier: with the QoS granted, the lower of the one asked for and the one the server allows, or with the reason the server does not offer it. A granted filter, and no other, is in the route table and in the session, for this client, with that QoS, its options and its subscription identifier; a subscription identifier of 0 or a shared subscription of MQTT 3 ends the connection.',
  ['inputs', 'configurations'], 'every SUBSCRIBE and every configuration', TB + 'several filters in one packet, some of them refused.', [B3, B5], [('SUBSCRIBE', B3 + ', ' + B5 + ' handle_subscribe')],
  technique='typestate and value-flow analysis over MIR (property simulation per filter)')
p('B02', 'UNSUBSCRIBE: each filter is taken out of the route table and the session',
  'Each filter of an UNSUBSCRIBE is taken, for this client, out of the route table and out of its session. UNSUBACK has the packet identifier of the UNSUBSCRIBE and, with MQTT 5, tells for each filter in order whether it was subscribed.',
  ['inputs', 'histories'], 'every UNSUBSCRIBE after every history', TB + 'filters never subscribed or named twice.', [B3, B5], [('UNSUBSCRIBE', B3 + ', ' + B5 + ' handle_unsubscribe')],
  technique='typestate and value-flow analysis over MIR (property simulation per filter)')
p('B03', 'Retained messages reach a new subscription exactly if it asks for them',
  'A filter that is granted gets the retained messages it matches, each once and after it is routed: always with MQTT 3; with MQTT 5 if the server offers retained messages, the filter is not shared, and retain handling asks for them (always, or only for a new subscription), without own messages under no local. They go out with the topic, payload, properties and QoS they have, at most with the QoS granted; the retain flag is set (MQTT 3) or is retain as published (MQTT 5). Messages with QoS 1 and 2 are handed to the client in the answer to the SUBSCRIBE, not only queued.',
  ['inputs', 'histories', 'configurations'], 'every SUBSCRIBE, set of retained messages and configuration', TB + 'several retained messages of different QoS for one filter.', [B3, B5], [('retained messages', B3 + ', ' + B5 + ' handle_subscribe')],
  technique='typestate and value-flow analysis over MIR (property simulation per filter and per message)')
HK = 'akasa-core/src/hook.rs'
p('D01', 'Each packet of an online client is handled once, as what it is',
  'A packet no larger than the server allows is given once, unchanged, to what handles packets of its kind, or, if the hook for it is enabled, to that hook and to nothing else; PINGREQ is answered with one PINGRESP; the answer of the handler, and no other, goes to the client. A packet that is too large (DISCONNECT with "packet too large" in MQTT 5), a second CONNECT, a packet only a server sends, and a PUBLISH or SUBSCRIBE that is refused end the connection instead.',
  ['inputs', 'configurations'], 'every packet of an online client and every configuration', TB + 'packets at the size limit or hooks for only some kinds.', [M3, M5], [('dispatch', M3 + ', ' + M5 + ' handle_packet')],
  technique='typestate and value-flow analysis over MIR (property simulation)')
p('H01', 'Hooks: asked exactly if enabled, and what they refuse is not done',
  'Each of the six hooks is called exactly if the configuration enables it. What a before hook refuses is not handled (it ends an MQTT 3 connection; with MQTT 5 the client gets one answer with the reason of the hook); what it allows is handled, as the hook has changed it, and then, unless handling it failed, the after hook is told and the actions it asks for are carried out; a hook that fails ends the connection, and no client whose CONNECT a hook refuses becomes online.',
  ['inputs', 'configurations', 'fault_sequences'], 'every packet, configuration, and verdict of a hook', TB + 'hooks that refuse or fail.', [HK, M3, M5], [('hook verdicts', HK + ' handle_request'), ('gates', M3 + ', ' + M5 + ' handle_online, handle_packet')],
  technique='typestate and value-flow analysis over MIR (property simulation)')
CO = 'akasa-core/src/protocols/mqtt/v5/packet/common.rs'
U5X = 'akasa-core/src/protocols/mqtt/v5/packet/publish.rs'
p('T01', 'Topic aliases of a client: an alias stands for the topic last sent with it',
  'An MQTT 5 PUBLISH with topic and alias sets the alias; one with an alias and no topic is published under the topic last sent with that alias on this connection. Alias 0 and aliases above the maximum the server announces are refused with "topic alias invalid", one never set and a PUBLISH with neither topic nor alias as protocol errors. No other function changes the aliases of a client and they do not outlive its connection.',
  ['inputs', 'histories', 'configurations'], 'every PUBLISH after every sequence of them', TB + 'aliases that are reused, out of range or unknown.', [U5X], [('aliases of a client', U5X + ' handle_publish')],
  technique='abstract interpretation of MIR (map contents per path) with field-effect scan')
p('T02', 'Topic aliases of the server: a client can always tell the topic of a message',
  'A message goes to an MQTT 5 client without topic only with an alias that an earlier message on this connection carried together with its topic and that has not been given to another topic since. Aliases are from 1 to the maximum the CONNECT names (none without one), no two topics share one, and one assigned anew is sent at once, with its topic.',
  ['inputs', 'histories'], 'every sequence of messages to a client, and every maximum it names', TB + 'more topics than aliases.', [CO, U5X], [('assignment', CO + ' get_or_assign_server_topic_alias'), ('use', U5X + ' recv_publish, ' + CO + ' handle_pendings')],
  technique='abstract interpretation of MIR (map contents per path) with property simulation')
p('H02', 'Hooks: a packet waits for its hook, and each action asked for is done once',
  'Nothing else is done for a connection while a hook has not answered about its packet, and no such packet is forgotten. Each action a hook asks for is then carried out once and in order, with the topic, payload, QoS, retain flag and properties, or with all the filters, that it names; a hook that fails and an action that cannot be carried out end the connection. The same holds for what the hook asks for after a client has connected.',
  ['schedules', 'inputs', 'fault_sequences'], 'every schedule, answer and list of actions of a hook', TB + 'hooks that answer late or ask for several actions.', [OL, M3, M5], [('waiting, actions', OL + ' OnlineLoop::poll'), ('actions', M3 + ', ' + M5 + ' apply_action, after_connect_hook')],
  technique='typestate analysis over MIR (property simulation)')
SV = 'akasa-core/src/server/mod.rs'
p('X01', 'What is read from a connection is what the client sent, once and in order',
  'Over WebSocket, the bytes read are those of the binary messages, each once, in order and whatever the sizes of messages and buffers; empty messages and pings (answered with their data) do not show. Text, pong and raw-frame messages and errors end the connection with an error, Close and the end of the stream end it, and the reader waits only if the WebSocket will wake it. Over TCP and TLS the bytes are passed through unchanged.',
  ['inputs', 'schedules'], 'every sequence of messages, sizes of buffers and readiness of the stream', TB + 'WebSocket messages split over several reads, empty messages or pings.', [SV], [('reading', SV + ' AsyncRead for TlsWrapper, WebSocketWrapper')],
  technique='typestate and value-flow analysis over MIR (property simulation)')
p('X02', 'What is written to a connection is sent once, and reported only if it was',
  'Over WebSocket, the bytes handed to one write go out as one binary message, in order, only when the WebSocket is ready; the write reports exactly the number sent and pushes them out, and nothing is sent by a write that reports Pending. Flush and shutdown report success only when the WebSocket does, and Close is sent at most once. Over TCP and TLS each call is passed through unchanged.',
  ['inputs', 'schedules'], 'every sequence of calls and readiness of the connection', TB + 'writes to a WebSocket that is not ready.', [SV], [('writing', SV + ' AsyncWrite for TlsWrapper, WebSocketWrapper')],
  technique='typestate and value-flow analysis over MIR (property simulation)')
RS = 'akasa-core/src/server/rt.rs'
p('N01', 'A connection reaches MQTT only through what its listener asks for, in time',
  'A connection is handed to the code of its MQTT version exactly if each step its listener asks for (PROXY header, TLS, WebSocket) and then the first header, which must be a CONNECT, and the protocol name succeed, in this order and within five seconds; every other connection is closed, and a health check of the proxy without error. The address of the client is then the source address of the PROXY header, if there is one. A WebSocket client that asks for a subprotocol gets exactly mqtt or is refused.',
  ['inputs', 'fault_sequences', 'configurations'], 'every stream of bytes, failure or silence of a client and every listener', TB + 'clients that fall silent or fail at each step.', [SV], [('admission', SV + ' handle_accept')],
  technique='typestate and value-flow analysis over MIR (property simulation)')
p('N02', 'Each listener does what its section of the configuration says, TLS included',
  'Each of the four listeners is started exactly if it is configured, on its address, with WebSocket, TLS, PROXY mode and port sharing as configured and with its own certificate and key; every connection it accepts is served with these settings and the address of the peer. With verify_peer a client must present a certificate signed by a CA of ca_file (one that presents none is refused exactly if fail_if_no_peer_cert is set); a TLS configuration with anything missing or unreadable is refused.',
  ['configurations', 'inputs'], 'every configuration of the listeners', TB + 'TLS listeners or client certificates.', [RS, SV], [('listeners', RS + ' start, listen'), ('TLS', SV + ' build_tls_context')],
  technique='abstract interpretation of MIR (value terms per path)')
CO = 'akasa-core/src/config.rs'
p('V01', 'A configuration is judged valid exactly if every setting is allowed',
  'A configuration is valid exactly if it names a password file whenever authentication is on, allows a QoS of at most 2 and packets of at least one byte in both directions, offers no SASL mechanism but SCRAM-SHA-256, gives every SCRAM user at least 4096 iterations, and has at least one listener. The highest QoS of a configuration is the level of that number for every valid one, and the configuration for anonymous users asks for no password.',
  ['configurations'], 'every configuration, with any number of SASL mechanisms and SCRAM users', TB + 'configurations that are refused.', [CO], [('validity', CO + ' Config::is_valid'), ('highest QoS', CO + ' Config::max_allowed_qos')],
  technique='abstract interpretation of MIR (facts per path, loops to a fixpoint)')
