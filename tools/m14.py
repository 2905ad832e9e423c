M = 'akasa-core/src/protocols/mqtt/'
V3, V5 = M + 'v3/message.rs', M + 'v5/message.rs'
C3, C5 = M + 'v3/packet/connect.rs', M + 'v5/packet/connect.rs'
P = ['W01']
MUTS = [
('taken-first', V5, "    handle_will(&mut session, global).await?;\n", "    if io_error.is_some() { handle_will(&mut session, global).await?; }\n", P),
('will-server-disc', V5, "    handle_will(&mut session, global).await?;\n", "    if !session.server_disconnected { handle_will(&mut session, global).await?; }\n", P),
('no-flush', V3, "    for (target_id, info) in session.broadcast_packets.drain() {\n        for msg in info.msgs {\n            if let Err(err) = info\n                .sink", "    if io_error.is_some() { for (target_id, info) in session.broadcast_packets.drain() {\n        for msg in info.msgs {\n            if let Err(err) = info\n                .sink", ['C05']),
('no-flush', V5, "    broadcast_packets(&mut session).await;\n    if session.session_exp", "    if session.session_exp", P),
('flush-first', V5, "    handle_will(&mut session, global).await?;\n    broadcast_packets(&mut session).await;\n", "    broadcast_packets(&mut session).await;\n    handle_will(&mut session, global).await?;\n", P),
('retain-false', V3, "                retain: last_will.retain,\n", "                retain: false,\n", P),
('qos-0', V5, "                qos: last_will.qos,\n", "                qos: QoS::Level0,\n", P),
('no-ct', V5, "content_type: properties.content_type,", "content_type: None,", P),
('exp-delay', V5, "message_expiry_interval: properties.message_expiry_interval,", "message_expiry_interval: properties.delay_interval,", P),
('keep-will', V5, "if let Some(last_will) = session.last_will.take() {", "if let Some(last_will) = session.last_will.clone() {", P),
('keep-will3', V3, "if let Some(last_will) = session.last_will.take() {", "if let Some(last_will) = session.last_will.clone() {", P),
('empty-payload', V5, '        log::debug!("[{}] send will", session.client_id);', '        if last_will.payload.is_empty() { return Ok(()); }', P),
('delay-le', V5, "delay_interval < session.session_expiry_interval {", "delay_interval <= session.session_expiry_interval + 60 {", ['=W01']),
('delay-gt', V5, "delay_interval < session.session_expiry_interval {", "delay_interval > session.session_expiry_interval {", P),
('delay-zero', V5, "if delay_interval == 0 || session.session_expiry_interval == 0 {", "if delay_interval == 0 {", P),
('delay-exp', V5, "if delay_interval == 0 || session.session_expiry_interval == 0 {", "if delay_interval < 5 || session.session_expiry_interval == 0 {", P),
('delay-wait', V5, "Duration::from_secs(delay_interval as u64)", "Duration::from_millis(delay_interval as u64)", P),
('delay-time', V5, "let connected_time = session.connected_time.expect(\"connected time (will)\");", "let connected_time = Instant::now();", P),
('exp-no-will', V5, """                if send_will(session, global).is_err() {
                    log::warn!("send will failed (packet too large)");
                }
                global.remove_client""", """                global.remove_client""", P),
('remove-first', V5, """                if send_will(session, global).is_err() {
                    log::warn!("send will failed (packet too large)");
                }
                global.remove_client(session.client_id, session.subscribes.keys());
""", """                global.remove_client(session.client_id, session.subscribes.keys());
                if send_will(session, global).is_err() {
                    log::warn!("send will failed (packet too large)");
                }
""", P),
('delay-online', V5, "            if !session.connected\n                && session.connected_time", "            if session.connected_time", P),
('kick-will', V5, "                stop = true;\n            }\n        }\n        ControlMessage::SessionExpired", "                stop = true;\n                let _ = send_will(session, global);\n            }\n        }\n        ControlMessage::SessionExpired", P),
('clear-any', C5, "    if packet.reason_code == DisconnectReasonCode::NormalDisconnect {\n        session.last_will = None;\n    }\n", "    session.last_will = None;\n", P),
('clear-not', C5, "    if packet.reason_code == DisconnectReasonCode::NormalDisconnect {\n        session.last_will = None;", "    if packet.reason_code == DisconnectReasonCode::NormalDisconnect && session.session_expiry_interval == 0 {\n        session.last_will = None;", P),
('keep3', C3, "    session.last_will = None;\n    session.disconnected = true;", "    if session.clean_session { session.last_will = None; }\n    session.disconnected = true;", P),
('off-flush', V5, """                    // Because send_will is not a async_function
                    broadcast_packets(&mut session).await;
                    if stop {
                        break;
                    }
""", """                    if stop {
                        break;
                    }
                    broadcast_packets(&mut session).await;
""", P),
('=take-later', V5, """    if let Some(last_will) = session.last_will.take() {
        log::debug!("[{}] send will", session.client_id);
        let properties = last_will.properties;
""", """    let taken = session.last_will.take();
    if let Some(last_will) = taken {
        let properties = last_will.properties.clone();
""", P),
('=match-delay', V5, """        if delay_interval == 0 || session.session_expiry_interval == 0 {
            log::debug!(
                "[{}] broadcast_packets.len(): {}",
                session.client_id,
                session.broadcast_packets.len()
            );
            send_will(session, global)?;
        } else if delay_interval < session.session_expiry_interval {
""", """        let wait = delay_interval.min(session.session_expiry_interval);
        if wait == 0 {
            return send_will(session, global);
        }
        if session.session_expiry_interval > delay_interval {
""", P),
('=disc-match', C5, """    if packet.reason_code == DisconnectReasonCode::NormalDisconnect {
        session.last_will = None;
    }
""", """    match packet.reason_code {
        DisconnectReasonCode::NormalDisconnect => { session.last_will.take(); }
        _ => {}
    }
""", P),
('=will-helper', V3, """            let qos_pid = match last_will.qos {
                QoS::Level0 => QosPid::Level0,
                QoS::Level1 => QosPid::Level1(Default::default()),
                QoS::Level2 => QosPid::Level2(Default::default()),
            };
            let publish = Publish {""", """            let qos_pid = if last_will.qos == QoS::Level0 { QosPid::Level0 } else if last_will.qos == QoS::Level1 { QosPid::Level1(Default::default()) } else {
                QosPid::Level2(Default::default())
            };
            let publish = Publish {""", P),
]
