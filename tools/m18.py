M = 'akasa-core/src/protocols/mqtt/'
S3, S5 = M + 'v3/packet/subscribe.rs', M + 'v5/packet/subscribe.rs'
B1, B2, B3 = ['B01'], ['B02'], ['B03']
RV = """                        if let Some((final_qos, packet_opt)) = recv_publish(
                            session,
"""
MUTS = [
('min-drop5', S5, "let granted_qos = cmp::min(sub_opts.max_qos, global.config.max_allowed_qos());", "let granted_qos = sub_opts.max_qos;", B1),
('max5', S5, "cmp::min(sub_opts.max_qos, global.config.max_allowed_qos())", "cmp::max(sub_opts.max_qos, global.config.max_allowed_qos())", B1),
('max3', S3, "cmp::min(*qos, global.config.max_allowed_qos())", "cmp::max(*qos, global.config.max_allowed_qos())", B1),
('keep-qos5', S5, "                sub_opts.max_qos = granted_qos;\n", "", B1),
('route-qos5', S5, ".subscribe(filter, session.client_id, granted_qos);", ".subscribe(filter, session.client_id, packet.topics[0].1.max_qos);", B1),
('route-qos3', S3, ".subscribe(filter, session.client_id, granted_qos);", ".subscribe(filter, session.client_id, *qos);", B1),
('kept-qos3', S3, "session.subscribes.insert(filter.clone(), granted_qos);", "session.subscribes.insert(filter.clone(), *qos);", B1),
('code-order', S5, "QoS::Level1 => SubscribeReasonCode::GrantedQoS1,", "QoS::Level1 => SubscribeReasonCode::GrantedQoS2,", B1),
('refused-made', S5, "if (reason_code as u8) < 0x80 {", "if (reason_code as u8) <= 0x9e {", B1),
('shared-flip', S5, "if !global.config.shared_subscription_available && filter.is_shared()", "if !global.config.wildcard_subscription_available && filter.is_shared()", B1),
('wild-one', S5, "filter.contains([MATCH_ONE_CHAR, MATCH_ALL_CHAR])", "filter.contains([MATCH_ALL_CHAR])", B1),
('id-one', S5, "vec![SubscribeReasonCode::SubscriptionIdentifiersNotSupported; packet.topics.len()]", "vec![SubscribeReasonCode::SubscriptionIdentifiersNotSupported; 1]", B1),
('id-ignored', S5, "if !global.config.subscription_id_available\n        && properties.subscription_id.is_some()", "if !global.config.subscription_id_available\n        && properties.subscription_id.is_none()", B1),
('id-dropped', S5, "SubscriptionData::new(sub_opts, properties.subscription_id)", "SubscriptionData::new(sub_opts, None)", B1),
('zero-one', S5, "== Some(0)", "== Some(1)", B1),
('zero-code', S5, "DisconnectReasonCode::ProtocolError,\n            \"Subscription identifier value=0", "DisconnectReasonCode::MalformedPacket,\n            \"Subscription identifier value=0", B1),
('shared-skip3', S3, "            return Err(io::ErrorKind::InvalidData.into());", "            continue;", B1),
('first-only5', S5, "            items.push(reason_code);\n", "            items.push(reason_code);\n            if (reason_code as u8) >= 0x80 { break; }\n", B1),
('route-cond5', S5, """                global
                    .route_table
                    .subscribe(filter, session.client_id, granted_qos);
""", """                if old_sub.is_none() {
                    global
                        .route_table
                        .subscribe(filter, session.client_id, granted_qos);
                }
""", B1),
('kept-cond3', S3, "        session.subscribes.insert(filter.clone(), granted_qos);\n", "        session.subscribes.entry(filter.clone()).or_insert(granted_qos);\n", B1),
('route-first', S5, ".subscribe(filter, session.client_id, granted_qos);", ".subscribe(&packet.topics[0].0, session.client_id, granted_qos);", B1),
('=match-min', S5, "let granted_qos = cmp::min(sub_opts.max_qos, global.config.max_allowed_qos());", "let allowed = global.config.max_allowed_qos();\n            let granted_qos = if sub_opts.max_qos > allowed { allowed } else { sub_opts.max_qos };", B1 + B3),
('=helper-code', S5, """                match granted_qos {
                    QoS::Level0 => SubscribeReasonCode::GrantedQoS0,
                    QoS::Level1 => SubscribeReasonCode::GrantedQoS1,
                    QoS::Level2 => SubscribeReasonCode::GrantedQoS2,
                }
""", """                granted_code(granted_qos)
""", [], ),
('=zero-let', S5, "if properties.subscription_id.map(|id| id.value()) == Some(0) {", "if matches!(properties.subscription_id, Some(id) if id.value() == 0) {", B1),
('=order5', S5, """                let old_sub = session.subscribes.insert(filter.clone(), new_sub);
                global
                    .route_table
                    .subscribe(filter, session.client_id, granted_qos);
""", """                global
                    .route_table
                    .subscribe(filter, session.client_id, granted_qos);
                let old_sub = session.subscribes.insert(filter.clone(), new_sub);
""", B1 + B3),
('=any-chars', S5, "filter.contains([MATCH_ONE_CHAR, MATCH_ALL_CHAR])", "(filter.contains(MATCH_ONE_CHAR) || filter.contains(MATCH_ALL_CHAR))", B1),
('=index3', S3, "    for (filter, qos) in &packet.topics {\n        if filter.is_shared() {", "    for i in 0..packet.topics.len() {\n        let (filter, qos) = &packet.topics[i];\n        if filter.is_shared() {", B1 + B3),
('=precheck3', S3, "    for (filter, qos) in &packet.topics {\n        if filter.is_shared() {", "    for (filter, qos) in packet.topics.iter() {\n        let shared = filter.is_shared();\n        if shared {", B1 + B3),
('=good5', S5, "if (reason_code as u8) < 0x80 {", "let granted = matches!(reason_code, SubscribeReasonCode::GrantedQoS0 | SubscribeReasonCode::GrantedQoS1 | SubscribeReasonCode::GrantedQoS2);\n            if granted {", B1 + B3),
# B02
('keep-session3', S3, "        session.subscribes.remove(filter);\n", "", B2),
('keep-route5', S5, "        global.route_table.unsubscribe(filter, session.client_id);\n        let reason_code = if session.subscribes.remove(filter).is_some() {", "        let reason_code = if session.subscribes.remove(filter).is_some() {\n            if filter.is_shared() { global.route_table.unsubscribe(filter, session.client_id); }", B2),
('only-known5', S5, "        global.route_table.unsubscribe(filter, session.client_id);\n        let reason_code = if session.subscribes.remove(filter).is_some() {", "        let reason_code = if session.subscribes.remove(filter).is_some() {\n", B2),
('code-swap', S5, "if session.subscribes.remove(filter).is_some() {", "if session.subscribes.remove(filter).is_none() {", B2),
('contains', S5, "if session.subscribes.remove(filter).is_some() {", "if session.subscribes.contains_key(filter) {", B2),
('code-other', S5, "UnsubscribeReasonCode::NoSubscriptionExisted\n", "UnsubscribeReasonCode::UnspecifiedError\n", B2),
('stop5', S5, "        reason_codes.push(reason_code);\n", "        if reason_code != UnsubscribeReasonCode::Success { continue; }\n        reason_codes.push(reason_code);\n", B2),
('first3', S3, "        global.route_table.unsubscribe(filter, session.client_id);\n", "        global.route_table.unsubscribe(&packet.topics[0], session.client_id);\n", B2),
('=match5', S5, """        let reason_code = if session.subscribes.remove(filter).is_some() {
            UnsubscribeReasonCode::Success
        } else {
            UnsubscribeReasonCode::NoSubscriptionExisted
        };
        reason_codes.push(reason_code);
""", """        reason_codes.push(match session.subscribes.remove(filter) {
            Some(_) => UnsubscribeReasonCode::Success,
            None => UnsubscribeReasonCode::NoSubscriptionExisted,
        });
""", B2),
('=map5', S5, """    let mut reason_codes = Vec::with_capacity(packet.topics.len());
    for filter in &packet.topics {
        global.route_table.unsubscribe(filter, session.client_id);
        let reason_code = if session.subscribes.remove(filter).is_some() {
            UnsubscribeReasonCode::Success
        } else {
            UnsubscribeReasonCode::NoSubscriptionExisted
        };
        reason_codes.push(reason_code);
    }
""", """    let reason_codes = packet.topics.iter().map(|filter| {
        global.route_table.unsubscribe(filter, session.client_id);
        if session.subscribes.remove(filter).is_some() {
            UnsubscribeReasonCode::Success
        } else {
            UnsubscribeReasonCode::NoSubscriptionExisted
        }
    }).collect();
""", B2),
('=two-loops3', S3, """    for filter in &packet.topics {
        global.route_table.unsubscribe(filter, session.client_id);
        session.subscribes.remove(filter);
    }
""", """    for filter in &packet.topics {
        session.subscribes.remove(filter);
        global.route_table.unsubscribe(filter, session.client_id);
    }
""", B2),
# B03
('rap-true', S5, "let retain = sub_opts.retain_as_published;", "let retain = true;", B3),
('rap-not', S5, "let retain = sub_opts.retain_as_published;", "let retain = !sub_opts.retain_as_published;", B3),
('retain-false3', S3, "                    retain: true,", "                    retain: false,", B3),
('no-local', S5, "if sub_opts.no_local && msg.client_identifier == session.client_identifier {", "if sub_opts.no_local && msg.client_identifier != session.client_identifier {", B3),
('local-all', S5, "if sub_opts.no_local && msg.client_identifier == session.client_identifier {", "if msg.client_identifier == session.client_identifier {", B3),
('local-none', S5, "if sub_opts.no_local && msg.client_identifier == session.client_identifier {\n                            continue;\n                        }", "", B3),
('exist-flip', S5, "=> old_sub.is_none(),", "=> old_sub.is_some(),", B3),
('exist-true', S5, "=> old_sub.is_none(),", "=> true,", B3),
('exist-false', S5, "=> old_sub.is_none(),", "=> false,", B3),
('dont-true', S5, "RetainHandling::DoNotSend => false,", "RetainHandling::DoNotSend => old_sub.is_none(),", B3),
('shared-ret', S5, "                    && !filter.is_shared()\n", "", B3),
('avail-ret', S5, "let send_retain = global.config.retain_available\n                    && !filter.is_shared()", "let send_retain = !filter.is_shared()", B3),
('skip-qos', S5, "                        let encode_len = if", "                        if msg.qos > granted_qos { continue; }\n                        let encode_len = if", B3),
('skip-qos3', S3, "            if let Some((final_qos", "            if msg.qos > granted_qos { continue; }\n            if let Some((final_qos", B3),
('len', S5, "                            msg.encode_len + 1\n", "                            msg.encode_len\n", B3),
('props', S5, "properties: msg.properties.as_ref(),", "properties: None,", B3),
('drop0', S5, """                            if let Some(packet) = packet_opt {
                                rv_packets.push(packet);
                            }
                            if final_qos != QoS::Level0 {
                                process_pendings = true;
                            }
""", """                            if final_qos != QoS::Level0 {
                                process_pendings = true;
                            } else if rv_packets.len() < 100 {
                                rv_packets.extend(packet_opt);
                            }
""", B3),
('pend-l2', S5, "if final_qos != QoS::Level0 {", "if final_qos == QoS::Level2 {", B3),
('pend-last', S5, """                            if final_qos != QoS::Level0 {
                                process_pendings = true;
                            }""", "                            process_pendings = final_qos != QoS::Level0;", B3),
('pend-last3', S3, """                if final_qos != QoS::Level0 {
                    process_pendings = true;
                }""", "                process_pendings = final_qos != QoS::Level0;", B3),
('pend-none3', S3, "            rv_packets.extend(handle_pendings(session));", "            handle_pendings(session);", B3),
('granted-max', S5, "subscribe_qos: granted_qos,", "subscribe_qos: msg.qos,", B3),
('qos', S5, "                                qos: msg.qos,", "                                qos: granted_qos,", B3),
('first-filter', S5, "SubscriptionIds::Lookup(filter)", "SubscriptionIds::Lookup(&packet.topics[0].0)", B3),
('before', S5, """                global
                    .route_table
                    .subscribe(filter, session.client_id, granted_qos);
""", "", ['B01', 'B03']),
('=flag-or', S5, """                            if final_qos != QoS::Level0 {
                                process_pendings = true;
                            }""", "                            process_pendings |= final_qos != QoS::Level0;", B3),
('=match-pkt', S5, """                            if let Some(packet) = packet_opt {
                                rv_packets.push(packet);
                            }
""", "                            rv_packets.extend(packet_opt);\n", B3),
('=len-usize', S5, """let encode_len = if msg.properties.is_none() {
                            // one byte for property length
                            msg.encode_len + 1
                        } else {
                            msg.encode_len
                        };""", "let encode_len = msg.encode_len + usize::from(msg.properties.is_none());", B3),
('=always-pend3', S3, """        if process_pendings {
            rv_packets.extend(handle_pendings(session));
        }""", """        let _ = process_pendings;
        rv_packets.extend(handle_pendings(session));
""", B3),
('=early', S5, """                if send_retain {
                    let mut process_pendings = false;
                    for msg in global.retain_table.get_matches(filter) {
                        if sub_opts.no_local""", """                if send_retain {
                    let mut process_pendings = false;
                    let matches = global.retain_table.get_matches(filter);
                    for msg in matches.iter() {
                        if sub_opts.no_local""", B3),
('=exist-contains', S5, "                let new_sub = SubscriptionData", "                let known = session.subscribes.contains_key(filter);\n                let new_sub = SubscriptionData", []),
]
MUTS[:] = [(m[0], m[1], m[2], m[3], m[4]) for m in MUTS]
