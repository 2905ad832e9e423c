P = 'akasa-core/src/protocols/mqtt/'
C3, C5, M3, M5 = P + 'v3/packet/connect.rs', P + 'v5/packet/connect.rs', P + 'v3/message.rs', P + 'v5/message.rs'
C, D = ['A03'], ['A04']
MUTS = [
 ('or-and', C3, 'packet.username.is_none() || packet.password.is_none()', 'packet.username.is_none() && packet.password.is_none()', C),
 ('only-user', C5, 'if packet.username.is_none() || packet.password.is_none() {', 'if packet.username.is_some() && packet.password.is_none() {', C),
 ('anon', C5, 'if global.config.auth.enable {', 'if global.config.auth.enable && packet.username.is_some() {', C),
 ('clean-skip', C3, 'if global.config.auth.enable {', 'if global.config.auth.enable && packet.protocol == Protocol::V311 {', C),
 ('method-skip', C5, 'if global.config.auth.enable {', 'if global.config.auth.enable && packet.properties.auth_method.is_none() {', C),
 ('swap-user', C5, 'check_password(&global.auth_passwords, username, password)', 'check_password(&global.auth_passwords, &packet.client_id, password)', C),
 ('loop-unconnected', M3, 'if !session.connected {\n        log::info!("{} not connected", session.peer);\n        return', 'if !session.connected && receiver.is_none() {\n        log::info!("{} not connected", session.peer);\n        return', C),
 ('loop-unconnected5', M5, 'if !session.connected {\n        log::info!("{} not connected", session.peer);\n        return', 'if !session.connected && session.authorizing {\n        log::info!("{} not connected", session.peer);\n        return', C),
 ('no-answer', C3, '''    if return_code != ConnectReturnCode::Accepted {
        let rv_packet = Connack::new(false, return_code);
        write_packet(session.client_id, conn, &rv_packet.into()).await?;''', '''    if return_code != ConnectReturnCode::Accepted {
''', C),
 ('code-match', C3, 'if return_code != ConnectReturnCode::Accepted {', 'if return_code != ConnectReturnCode::Accepted && !packet.client_id.is_empty() {', C),
 ('=gate-helper', C3, '''        if packet.username.is_none() || packet.password.is_none() {
            log::debug!(
                "username or password not set for client: {}",
                packet.client_id
            );
            return_code = ConnectReturnCode::BadUserNameOrPassword;
        } else {
            let username = packet.username.as_ref().unwrap();
            let password = packet.password.as_ref().unwrap();
            if !check_password(&global.auth_passwords, username, password) {
                log::debug!("incorrect password for user: {}", username);
                return_code = ConnectReturnCode::BadUserNameOrPassword;
            }
        }''', '''        let ok = match (packet.username.as_ref(), packet.password.as_ref()) {
            (Some(u), Some(p)) => check_password(&global.auth_passwords, u, p),
            _ => false,
        };
        if !ok {
            return_code = ConnectReturnCode::BadUserNameOrPassword;
        }''', C),
 ('=gate-zip', C5, '''        if packet.username.is_none() || packet.password.is_none() {
            log::debug!(
                "username or password not set for client: {}",
                packet.client_id
            );
            reason_code = ConnectReasonCode::BadUserNameOrPassword;
        } else {
            let username = packet.username.as_ref().unwrap();
            let password = packet.password.as_ref().unwrap();
            if !check_password(&global.auth_passwords, username, password) {
                log::debug!("incorrect password for user: {}", username);
                reason_code = ConnectReasonCode::BadUserNameOrPassword;
            }
        }''', '''        let allowed = packet
            .username
            .as_ref()
            .zip(packet.password.as_ref())
            .is_some_and(|(u, p)| check_password(&global.auth_passwords, u, p));
        if !allowed {
            reason_code = ConnectReasonCode::BadUserNameOrPassword;
        }''', C + D),
 ('=early-return', C5, '''    if reason_code != ConnectReasonCode::Success {
        let err_pkt = build_error_connack(session, false, reason_code, "");
        write_packet(session.client_id, conn, &err_pkt).await?;
        return Ok(false);
    }
''', '''    match reason_code {
        ConnectReasonCode::Success => {}
        code => {
            let err_pkt = build_error_connack(session, false, code, "");
            write_packet(session.client_id, conn, &err_pkt).await?;
            return Ok(false);
        }
    }
''', C),
 # A04
 ('unlisted', C5, 'if !global.config.sasl_mechanisms.contains(&mechanism) {', 'if !global.config.sasl_mechanisms.is_empty() && !global.config.sasl_mechanisms.contains(&mechanism) {', D),
 ('plain-fallback', C5, 'if let Some(auth_method) = session.auth_method.clone() {', 'if let Some(auth_method) = session.auth_method.clone().filter(|_| properties.auth_data.is_some()) {', D),
 ('idle-ok', C5, 'if !session.authorizing {\n                return Err', 'if !session.authorizing && session.connected {\n                return Err', D),
 ('not-authorized-ok', C5, 'if status != AuthenticationStatus::Authenticated {', 'if status == AuthenticationStatus::NotAuthenticated {', D),
 ('method-prefix', C5, 'if session.auth_method != packet.properties.auth_method {', 'if packet.properties.auth_method.is_some() && session.auth_method != packet.properties.auth_method {', D),
 ('still-authorizing', C5, 'session.authorizing = false;\n            session.scram', 'session.authorizing = session.connected;\n            session.scram', D),
 ('swap-ids', C5, 'Some((authcid, authzid));', 'Some((authzid.clone().unwrap_or(authcid), authzid));', D),
 ('wrong-record', C5, 'global.config.scram_users.get(&authcid)', 'global.config.scram_users.get(session.scram_stage.machine.authzid().and_then(|x| x).unwrap_or(&authcid))', D),
 ('any-user', C5, '        None => {\n            log::info!("scram user not found: {}", authcid);', '        None if global.config.scram_users.len() == 1 => global.config.scram_users.values().next().unwrap(),\n        None => {\n            log::info!("scram user not found: {}", authcid);', D),
 ('reauth-running', C5, '            if session.authorizing {\n                log::info!("after started', '            if session.authorizing && session.connected {\n                log::info!("after started', D),
 ('connect-on-err', M5, '''            Err(err_pkt) => {
                write_packet(session.client_id, &mut conn, &err_pkt).await?;
                return Ok(None);
            }
        }
    }
    drop''', '''            Err(err_pkt) => {
                write_packet(session.client_id, &mut conn, &err_pkt).await?;
                if round_quota > 0 {
                    return Ok(None);
                }
                session_present = session_connect(&mut session, &mut receiver, None, &mut conn, global).await?;
            }
        }
    }
    drop''', D),
 ('final-not-sent', M5, 'Some(server_final),\n', 'session.auth_method.as_ref().map(|m| m.to_string()),\n', D),
 ('connect-always', M5, 'Ok((AuthReasonCode::Success, server_final)) => {', 'Ok((_, server_final)) => {', D),
 ('=first-let-else', C5, '''    let password_info = match global.config.scram_users.get(&authcid) {
        Some(info) => info,
        None => {
            log::info!("scram user not found: {}", authcid);
            return if''', '''    let users = &global.config.scram_users;
    let password_info = match users.get(authcid.as_str()) {
        Some(info) => info,
        None => {
            return if''', D),
 ('=status-match', C5, 'if status != AuthenticationStatus::Authenticated {', 'if !matches!(status, AuthenticationStatus::Authenticated) {', D),
 ('=method-match', C5, 'if session.auth_method != packet.properties.auth_method {', 'let same = match (&session.auth_method, &packet.properties.auth_method) {\n        (Some(a), Some(b)) => a == b,\n        (None, None) => true,\n        _ => false,\n    };\n    if !same {', D),
 ('=utf8-map', C5, '''            if let Ok(string) = String::from_utf8(data.as_ref().to_vec()) {
                    string
                } else {''', '''            if let Ok(string) = std::str::from_utf8(data.as_ref()) {
                    string.to_owned()
                } else {''', D),
 ('=result-order', C5, '''            session.authorizing = false;
            session.scram_stage.time = Some(Instant::now());
            session.scram_auth_result = Some((authcid, authzid));''', '''            let result = (authcid, authzid);
            session.scram_auth_result = Some(result);
            session.scram_stage.time = Some(Instant::now());
            session.authorizing = false;''', D),
]
X = ['C01']
MUTS += [
 ('v310-empty', C3, '''(packet.client_id.is_empty()
            || global.config.check_v310_client_id_length && packet.client_id.len() > 23)''', '''(global.config.check_v310_client_id_length
            && (packet.client_id.is_empty() || packet.client_id.len() > 23))''', X),
 ('v310-len', C3, 'packet.client_id.len() > 23', 'packet.client_id.len() > 24', X),
 ('v310-len2', C3, 'packet.client_id.len() > 23', 'packet.client_id.len() >= 23', X),
 ('v311-clean', C3, 'packet.client_id.is_empty() && !packet.clean_session', 'packet.client_id.is_empty() && !packet.clean_session && packet.username.is_none()', X),
 ('v311-all', C3, 'if packet.protocol == Protocol::V311 && packet.client_id.is_empty() && !packet.clean_session', 'if packet.protocol == Protocol::V311 && packet.client_id.is_empty()', X),
 ('will-dollar', C3, "if last_will.topic_name.starts_with('$') {", "if last_will.topic_name.starts_with('$') && last_will.retain {", X),
 ('will-empty', C5, "if last_will.topic_name.is_empty() {", "if last_will.topic_name.is_empty() && session.topic_alias_max == 0 {", X),
 ('will-drop', C5, 'session.last_will = Some(last_will);', 'if session.keep_alive > 0 { session.last_will = Some(last_will); }', X),
 ('clamp-hi', C5, 'if packet.keep_alive > global.config.max_keep_alive {', 'if packet.keep_alive > global.config.max_keep_alive && global.config.max_keep_alive > 0 {', X),
 ('clamp-lo', C5, '} else if packet.keep_alive < global.config.min_keep_alive {', '} else if packet.keep_alive > 0 && packet.keep_alive < global.config.min_keep_alive {', X),
 ('told', C5, 'session.server_keep_alive = session.keep_alive != packet.keep_alive;', 'session.server_keep_alive = session.keep_alive < packet.keep_alive;', X),
 ('problem', C5, 'request_problem_info.unwrap_or(true)', 'request_problem_info.unwrap_or(false)', X),
 ('size-default', C5, '.unwrap_or(global.config.max_packet_size_client)', '.unwrap_or(global.config.max_packet_size_server)', X),
 ('receive-default', C5, '.unwrap_or(global.config.max_inflight_client)', '.unwrap_or(global.config.max_inflight_server)', X),
 ('alias', C5, 'properties.topic_alias_max.unwrap_or(0)', 'properties.topic_alias_max.unwrap_or(global.config.topic_alias_max)', X),
 ('receive0', C5, 'if properties.receive_max == Some(0) {', 'if properties.receive_max == Some(0) && packet.clean_start {', X),
 ('size0', C5, 'if session.max_packet_size == 0 {', 'if properties.max_packet_size == Some(1) {', X),
 ('assigned', C5, 'session.assigned_client_id = true;\n', '', X),
 ('id-trim', C3, 'packet.client_id.clone()\n    };', 'Arc::from(packet.client_id.trim())\n    };', X),
 ('clean', C3, 'session.clean_session = packet.clean_session;', 'session.clean_session = packet.clean_session || packet.client_id.len() > 23;', X),
 ('expiry', C5, 'properties.session_expiry_interval.unwrap_or(0)', 'properties.session_expiry_interval.unwrap_or(if session.clean_start { 0 } else { u32::MAX })', X),
 ('=clamp', C5, '''    session.keep_alive = if packet.keep_alive > global.config.max_keep_alive {
        global.config.max_keep_alive
    } else if packet.keep_alive < global.config.min_keep_alive {
        global.config.min_keep_alive
    } else {
        packet.keep_alive
    };''', '''    session.keep_alive = packet
        .keep_alive
        .max(global.config.min_keep_alive)
        .min(global.config.max_keep_alive);''', X),
 ('=receive-matches', C5, 'if properties.receive_max == Some(0) {', 'if matches!(properties.receive_max, Some(0)) {', X),
 ('=receive-and', C5, 'if properties.receive_max == Some(0) {', 'if properties.receive_max.is_some_and(|m| m < 1) {', X),
 ('=will-match', C5, '''        if last_will.topic_name.starts_with('$') {''', '''        if last_will.topic_name.chars().next() == Some('$') {''', X),
 ('=will-bytes', C3, '''        if last_will.topic_name.starts_with('$') {''', '''        if last_will.topic_name.as_bytes()[0] == b'$' {''', X),
 ('=id-match', C3, '''    session.client_identifier = if packet.client_id.is_empty() {
        session.assigned_client_id = true;
        Arc::from(uuid::Uuid::new_v4().to_string())
    } else {
        packet.client_id.clone()
    };''', '''    session.assigned_client_id = packet.client_id.is_empty();
    session.client_identifier = match packet.client_id.len() {
        0 => Arc::from(uuid::Uuid::new_v4().to_string()),
        _ => packet.client_id.clone(),
    };''', X),
 ('=v311-match', C3, 'if packet.protocol == Protocol::V311 && packet.client_id.is_empty() && !packet.clean_session', 'if matches!(packet.protocol, Protocol::V311) && !packet.clean_session && packet.client_id.len() == 0', X),
 ('=default-map', C5, 'properties.session_expiry_interval.unwrap_or(0)', 'match properties.session_expiry_interval { Some(v) => v, None => 0 }', X),
]
Y = ['C03']
MUTS += [
 ('resume-any-proto', C3, 'if !session.clean_session && session.protocol == old_state.protocol {', 'if !session.clean_session {', Y),
 ('resume-clean', C5, 'if !session.clean_start && session.protocol == old_state.protocol {', 'if (!session.clean_start || session.session_expiry_interval > 0) && session.protocol == old_state.protocol {', Y),
 ('no-resume-empty', C5, 'if !session.clean_start && session.protocol == old_state.protocol {', 'if !session.clean_start && session.protocol == old_state.protocol && !old_state.subscribes.is_empty() {', Y),
 ('present-lie', C3, '                session.subscribes = old_state.subscribes;\n                session_present = true;', '                session_present = !old_state.subscribes.is_empty();\n                session.subscribes = old_state.subscribes;', Y),
 ('lose-qos2', C3, '                session.qos2_pids = old_state.qos2_pids;\n', '', Y),
 ('lose-qos2-if', C5, '                session.qos2_pids = old_state.qos2_pids;\n', '                if session.receive_max > 0 { session.qos2_pids = old_state.qos2_pids; }\n', Y),
 ('lose-pid', C5, '                session.server_packet_id = old_state.server_packet_id;\n', '', Y),
 ('lose-reset', C5, '                session.pending_packets.reset_last_sent();\n', '', Y),
 ('reset-first', C3, '                session.pending_packets = old_state.pending_packets;\n                session.pending_packets.reset_last_sent();', '                session.pending_packets.reset_last_sent();\n                session.pending_packets = old_state.pending_packets;', Y),
 ('keep-subs', C5, '                session_present = false;\n            }\n        }\n        Add', '                session.subscribes = old_state.subscribes;\n                session_present = false;\n            }\n        }\n        Add', Y),
 ('=inflight-first', C5, '    let mut session_present = false;\n    match global\n', '    let mut session_present = false;\n    session\n        .pending_packets\n        .set_max_inflight(session.receive_max);\n    match global\n', Y),
 ('inflight-server', C5, '.set_max_inflight(session.receive_max);', '.set_max_inflight(global.config.max_inflight_server);', Y),
 ('no-unsub', C3, '                    global.route_table.unsubscribe(filter, session.client_id);\n', '', Y),
 ('no-unsub-loop', C5, '                for filter in old_state.subscribes.keys() {\n                    global.route_table.unsubscribe(filter, session.client_id);\n                }\n', '', Y),
 ('unsub-first', C5, 'old_state.subscribes.keys() {', 'old_state.subscribes.keys().take(1) {', Y),
 ('receiver-lost', C5, '            *receiver = Some(old_state.receiver);\n', '            if receiver.is_none() && !session.clean_start { *receiver = Some(old_state.receiver); }\n', Y),
 ('no-broadcast', C3, '            session.broadcast_packets = old_state.broadcast_packets;\n', '', Y),
 ('connack-present', C3, 'Connack::new(session_present, return_code)', 'Connack::new(session_present || receiver.is_some(), return_code)', Y),
 ('=resume-match', C5, 'if !session.clean_start && session.protocol == old_state.protocol {', 'let compatible = session.protocol == old_state.protocol;\n            let resume = compatible && !session.clean_start;\n            if resume {', Y),
 ('=unsub-iter', C3, '                for filter in old_state.subscribes.keys() {\n                    global.route_table.unsubscribe(filter, session.client_id);\n                }\n', '                for (filter, _) in &old_state.subscribes {\n                    global.route_table.unsubscribe(filter, old_state.client_id);\n                }\n', Y),
 ('=unsub-foreach', C5, '                for filter in old_state.subscribes.keys() {\n                    global.route_table.unsubscribe(filter, session.client_id);\n                }\n', '                let id = session.client_id;\n                old_state.subscribes.keys().for_each(|f| global.route_table.unsubscribe(f, id));\n', Y),
 ('=order', C5, '                session.server_packet_id = old_state.server_packet_id;\n                session.pending_packets = old_state.pending_packets;\n                session.pending_packets.reset_last_sent();\n                session.qos2_pids = old_state.qos2_pids;', '                session.qos2_pids = old_state.qos2_pids;\n                let mut queue = old_state.pending_packets;\n                queue.reset_last_sent();\n                session.pending_packets = queue;\n                session.server_packet_id = old_state.server_packet_id;', Y),
 ('=present-expr', C3, '                session.subscribes = old_state.subscribes;\n                session_present = true;', '                session.subscribes = old_state.subscribes;\n                session_present |= true;', Y),
]
