NOTES = {}


def n(id, text):
    NOTES[id] = text


SP = 'The three server calls are composed on symbolic messages (client-first, client-final), so facts about one message are compared with the other.'
n('S01', SP + ' Oracle: the five guards of RFC 5802 (gs2 header, nonce, proof over this transcript under the stored key, identity, message form). Every path returning Authenticated must carry all five as branch facts; about 100 paths.')
n('S02', 'Same composition. Every returning path is classified by its verdict; the facts on it must decide which check failed, and the answer term must be `v=` of the server signature or `e=`.')
n('S03', 'Typestate: each entry point is run from every variant of the machine, and the transition relation (variant on entry, outcome, variant on exit) is compared with the allowed one.')
n('S04', 'The value terms of hash_password and find_proofs are compared with the terms of RFC 5802 section 3 (HMAC, H, Hi, XOR as uninterpreted functions), byte by byte for the proof.')
n('S05', 'Transcript terms must denote exactly the received and sent texts (text algebra over split/join/slice); both nonces must have at least 16 characters drawn from a generator over a printable alphabet without a comma (range terms of the sampling, filter and take count).')
n('S06', 'All paths of decode_client_first: acceptance must imply the grammar (facts on pieces of the split text), and a path whose facts satisfy the grammar must accept; captured names must be the right pieces.')
n('S07', 'Client entry points composed on symbolic server messages; oracle as S01/S04 for the other side, plus the typestate of the client.')
n('S08', 'Every panicking construct in the three modules, from every machine variant and any message, is an obligation decided by the linear domain and by text facts (prefix and character-boundary facts).')
n('S09', 'Replacement chains on names are compared with the escaping of RFC 5802 (order of the two replacements matters); composition of client escape and server unescape is the identity.')
n('P01', 'The header parser on an unknown byte stream: each bounds check, slice, unwrap and unreachable is an obligation; loop invariants on the TLV position are inferred linear inequalities.')
n('P02', 'Paths that accept must carry facts fixing signature, version, command, family, transport and length; the outcome per command is enumerated over the 256 values of the byte.')
n('P03', 'Address terms are mapped back to positions of the received bytes, per family.')
n('P04', 'Inductive step of the TLV loop: position advances by 3 + length, stays inside the payload, ends exactly at the end; the CRC term must cover header and payload with the field zeroed.')
n('P05', 'Property state: which SSL fields were seen and verified; both settings of TLS termination.')
n('P06', 'Sum of the chunk lengths read on accepting paths equals 16 + announced length (linear terms).')
n('P07', 'Complement of P02, P04 and P05: every rejecting path must carry a reason (failed read, or a branch fact that no well-formed header satisfies); the reason is remembered through the field loop as a property state.')
n('Q01', 'Every write to an element of the queue in any function is a transition (old variant, new variant, facts); oracle: New to Complete only by PUBACK on QoS 1, New to Pubrec on QoS 2, Pubrec to Complete, each under equality of identifiers. Removal only of complete entries. Call sites in the handlers must pass the identifier of the packet received and the QoS of its kind.')
n('Q02', 'get_ready_packet and push_back in the linear domain: index below min(length, max_inflight), timeout passed, length below max_packets; a scan over all functions shows QoS 1/2 PUBLISH packets are built from the queue only.')
n('Q03', 'Typestate of every pass of the two resend loops (sent, marked, time noted) and provenance of every field of the packet sent; reset_last_sent from an arbitrary queue.')
n('Q04', 'Linear facts about clock, queueing time and interval on every path that sends, expires or rewrites the interval.')
n('Q05', 'Property state: how often the message was handed on, whether the identifier map contains the id, the answer. A scan shows that only PUBLISH adds to and PUBREL removes from the map.')
n('Q06', 'recv_publish and handle_normal: QoS 3 x 3, retain-as-published, and subscription identifiers enumerated; each drop must have one of the allowed causes as a fact; handle_publish must hand on the fields of the packet.')
n('Q07', 'Every item of the nested routing loops must reach registration with the maximum of the granted QoS or be excluded by no-local; each shared group contributes one chosen member; each registered receiver is sent to.')
n('R01', 'Inductive step over the levels: get_matches is interpreted for one level with the recursive call as an opaque event; which children are visited with which rest is compared with the definition of matching.')
n('R02', 'Same induction for insert and remove: the path facts say which child or entry, and a node is dropped only if it has neither subscribers nor children.')
n('R03', 'Representation invariant: `index` is the inverse of `items`; each operation starts from it and must end in it (entries of swap-removed members included).')
n('R04', 'Same induction for the retain tree, plus which publication is stored, in send_publish.')
n('A01', 'Value of every path of check_password and hash_password for each variant of the algorithm, against the definition.')
n('A02', 'Pieces of the line written and of the line read are compared index by index and encoding by encoding for each algorithm; refused lines are those with missing, extra or undecodable pieces.')
n('A03', 'Tracked: authentication enabled, user name and password present, check succeeded for exactly these. No path may reach registration or `connected` without; the answer must be BadUserNameOrPassword exactly then. In handle_online the packet loop may be entered only if connected.')
n('A04', 'Four functions: CONNECT with a method, the first step, AUTH, and the AUTH loop; reason code, method, data, machine state and verdict are tracked; the session is connected only after Authenticated, with the data of the exchange.')
n('C01', 'Tracked: each condition of the table for 3.1, 3.1.1 and 5. Each accepting, answering and refusing path must agree with the table, and each session field must have been given the value the table names.')
n('C02', 'One pass per CONNACK property in which the path knows the configuration value; the effective value (property, or protocol default if absent) must equal it. Further passes judge the will checks and that `connected` is set exactly with a positive CONNACK.')
n('C03', 'Tracked: old session present, same protocol, clean start. Origin of each state field at the end, session-present flag in CONNACK and in the result, subscriptions of a replaced session removed one by one, undelivered messages moved.')
n('C04', 'Each operation starts from maps that mirror each other and must end so, with the lock of the registry held from the first read to the last write; ids come from a counter that every new client increments; the count changes exactly when a flag changes; nothing else writes these fields.')
n('C05', 'Typestate of handle_online from registration to every exit (removed, kept, taken over: exactly one, the right one, for this client), of handle_offline, of the task that times the expiry (interval, connection it belongs to) and of handle_control. Six exits that leak the client are genuine and recorded as findings.')
n('W01', 'handle_online must deal with the will once and flush; handle_will and send_will are compared field by field with the registered will; delay, expiry and DISCONNECT reason are tracked; the delay task is analysed like the expiry task. What takeover does with a will is not claimed: the MQTT 3.1.1 and 5 texts and the design of akasa differ there.')
n('O01', 'The poll function is followed with one label per thing that has to be made good: a packet taken off the queue has to be written whole or put back in front with the right index, a message routed to another client handed over or kept, and each way out as pending needs a pending poll (or wake_by_ref) since the last change. The handover must come after the queue is empty. What the bytes of a packet are is up to mqtt-proto; that poll functions honour their contract is assumed.')
n('K01', 'The timer task is analysed on its own with what it captures: limit and period are affine functions of the keep alive in milliseconds (another form is left undecided, not reported), the kick must follow a look at the last packet since the last sleep and a check that the session still exists, and the task ends only after a kick or when session or client is gone. Starting it is checked on the paths that connect a client, the sign of life in after_handle_packet (which O01 requires after every packet). Real time and the scheduler are not modelled.')
n('L01', 'A dataflow over all MIR bodies of the crate (not the path engine): which guards are live at each point (moves, drops, scope ends, the None branch of an Option of a guard), and, top-down from every function nobody calls, which are held by the callers. Each acquisition under held locks gives an edge between lock classes (struct and field) with the other locks held; a cycle is reported unless two of its edges exclude each other by a lock there is only one of, held for writing. The same class twice is allowed only below what the first guard gives access to, or on a value made in the function. Yield points with a live guard and calls that block the thread (flume send/recv, sleep, join, block_on) in tasks are reported. User hooks, mqtt-proto and the insides of libraries are assumed to take none of these locks; waiting cycles over channels are not covered.')
n('B01', 'The handler is followed with one history per filter (it starts again with each round of the first loop): subscribed, kept, answered with which code, what is known of the filter (shared, wildcard). At the end of a round these must agree with each other, with the configuration known on the path and with min(QoS asked for, QoS allowed); all calls of a round must concern the filter of that round.')
n('B02', 'As B01. The code has to agree with what the removal from the session found.')
n('B03', 'As B01, with a second history per retained message. Insertion in the session is split into a new and a replaced subscription, recv_publish into its four results (that it has only these is Q06 and Q07); boolean flags keep states apart where paths meet, so that "queued" implies "flag set" is not lost. That retained messages keep the flag under retain-as-published only is what the tests of akasa demand. What a message becomes in recv_publish and handle_pendings is Q06, Q07 and Q02.')
n('D01', 'The history of handle_packet is a set of labels (which handler ran, result, which answer was queued how often), compared at each return with the variant of the packet, the size comparison and the hook flags known there. Answers are recognised by where they come from (a result of the handler, its Ok or Err side), not by how they are queued. What the handlers do is Q03 to Q06, B01, B02, W01.')
n('H01', 'As D01, for hook::handle_request (one path family for each request), the code tables to_v3/to_v5 (each reason keeps its name in MQTT 5; no refusal becomes an acceptance) and handle_online (flags of the three connection hooks, both protocols); those for PUBLISH, SUBSCRIBE, UNSUBSCRIBE are checked in D01. What the user code of a hook does is unknown: any result, any change of what it is lent. How the actions are carried out (apply_action) is not part of it.')
n('T01', 'Every path of handle_publish: presence of alias and topic, comparison with the configured maximum, result of the lookup, changes of the alias map up to the call of send_publish; mutators of the map by a scan of all MIR; the field types of SessionState. That the alias of the client is not forwarded is Q06.')
n('T02', 'One induction step over get_or_assign_server_topic_alias: the two maps are each the inverse of the other before it; what it adds, replaces and unlinks on every path keeps that, the alias is in range (from a range, from the keys of the map, or by comparison), and "new" is told exactly if the topic had none. Then recv_publish and handle_pendings with the history asked, new, sent: a topic is left out only if the answer was "not new", and no path or round ends between an assignment and its packet. That a packet once made is written, in order, is O01, Q06, B03.')
n('H02', 'OnlineLoop::poll and after_connect_hook with the history due (a list of actions), item (taken from it, not carried out), failed, refused, waiting, spent (a future that has answered), request (a packet a hook must decide on). An item is taken where a path learns that an index lies within the list; at the next item, the next packet and the end nothing may be open. A list consumed by an adaptor the analysis does not follow is not judged. apply_action: one call, with the fields of the action; lists of filters must not be cut (take, skip, filter). The retained QoS 0 messages that a subscription made by a v3 hook collects are dropped by akasa (v5 asks for none); this is not claimed.')
n('X01', 'poll_read of both wrappers with labels for the last result of each function of the WebSocket, the slice handed out (base, start, end as linear terms over the state at entry) and the pong that is owed. Each slice must start where the state says, the noted position must be its end, and the next message may be polled only if the last one is known to be used up. What tungstenite makes of the frames, and rustls of the records, is assumed.')
n('X02', 'As X01, for poll_write, poll_flush and poll_shutdown: one Binary message of a prefix of the argument, after readiness, and the length of that prefix as result. A flush that is pending after the message was taken counts as pushed out.')
n('N01', 'handle_accept with one label per step (open, ok, failed), the variant of the PROXY address and whether the first header is CONNECT; each step must be passed to or/race/timeout together with something that depends on the timer channel, and nothing may follow once the timer has fired. The wrapped stream, the peer and the header handed on are compared as terms; the timer task and the WebSocket callback are analysed on their own. What rustls and tungstenite accept is theirs. The missing time limit of the WebSocket handshake was genuine and is repaired.')
n('N02', 'The value terms of every ConnectionArgs that occurs in start, by the section its address comes from, for each case of the proxy mode; for build_tls_context the calls of rustls that the returned acceptor is made of, and that no path with a failed read or parse returns one. In listen: bind, set_reuseport and the task of each connection. That rustls does what the builder calls say is assumed.')
n('V01', 'Every path of is_valid, with what it knows of each setting: true needs every setting known to be allowed and both tables looked at to their end, false needs one known not to be, and no pass of a loop may leave an entry that is not allowed behind unless a variable collects the verdict. max_allowed_qos and new_allow_anonymous on every path. That the command line tool calls is_valid before it starts the server is outside what is compiled here; limits of zero (max_inflight_server) are accepted by the code and not claimed.')
