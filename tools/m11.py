C5 = 'akasa-core/src/protocols/mqtt/v5/packet/connect.rs'
C3 = 'akasa-core/src/protocols/mqtt/v3/packet/connect.rs'
P = ['C02']
WILL = '''        if will.retain && !global.config.retain_available {
            ConnectReasonCode::RetainNotSupported
        } else if will.qos > global.config.max_allowed_qos() {
            ConnectReasonCode::QoSNotSupported
        } else {
            ConnectReasonCode::Success
        }
'''
SET = '''    if reason_code == ConnectReasonCode::Success {
        session.connected = true;
        session.connected_time = Some(Instant::now());
    }
'''
MUTS = [
('exp-nocap', C5, '        session.session_expiry_interval = global.config.max_session_expiry_interval;\n', '', P),
('exp-noann', C5, '        connack_properties.session_expiry_interval = Some(session.session_expiry_interval);\n', '', P),
('exp-min', C5, 'if session.session_expiry_interval > global.config.max_session_expiry_interval {', 'if session.session_expiry_interval < global.config.max_session_expiry_interval {', P),
('rm-field', C5, 'connack_properties.receive_max = Some(global.config.max_inflight_server);', 'connack_properties.receive_max = Some(global.config.max_inflight_client);', P),
('rm-cond', C5, 'if global.config.max_inflight_server != u16::MAX {', 'if global.config.max_inflight_server == u16::MAX {', P),
('rm-sess', C5, 'connack_properties.receive_max = Some(global.config.max_inflight_server);', 'connack_properties.receive_max = Some(session.receive_max);', P),
('rm-lt1000', C5, 'if global.config.max_inflight_server != u16::MAX {', 'if global.config.max_inflight_server < 1000 {', P),
('qos-l1', C5, 'if global.config.max_allowed_qos() < QoS::Level2 {', 'if global.config.max_allowed_qos() < QoS::Level1 {', P),
('qos-const', C5, 'connack_properties.max_qos = Some(global.config.max_allowed_qos());', 'connack_properties.max_qos = Some(QoS::Level1);', P),
('ra-inv', C5, 'if !global.config.retain_available {\n        connack', 'if global.config.retain_available {\n        connack', P),
('ra-true', C5, 'connack_properties.retain_available = Some(false);', 'connack_properties.retain_available = Some(true);', P),
('mps-client', C5, 'connack_properties.max_packet_size = Some(global.config.max_packet_size_server);', 'connack_properties.max_packet_size = Some(session.max_packet_size);', P),
('aci-pkt', C5, 'connack_properties.assigned_client_id = Some(Arc::clone(&session.client_identifier));', 'connack_properties.assigned_client_id = Some(Arc::from(""));', P),
('aci-inv', C5, 'if session.assigned_client_id {', 'if !session.assigned_client_id {', P),
('tam-sess', C5, 'connack_properties.topic_alias_max = Some(global.config.topic_alias_max);', 'connack_properties.topic_alias_max = Some(session.topic_alias_max);', P),
('tam-gt1', C5, 'if global.config.topic_alias_max > 0 {', 'if global.config.topic_alias_max == 0 {', P),
('wild-swap', C5, 'connack_properties.wildcard_subscription_available = Some(false);', 'connack_properties.shared_subscription_available = Some(false);', P),
('sub-omit', C5, '''    if !global.config.subscription_id_available {
        connack_properties.subscription_id_available = Some(false);
    }
''', '', P),
('shared-cfg', C5, 'if !global.config.shared_subscription_available {', 'if !global.config.wildcard_subscription_available {', P),
('ska-orig', C5, 'connack_properties.server_keep_alive = Some(session.keep_alive);', 'connack_properties.server_keep_alive = Some(global.config.max_keep_alive);', P),
('ska-inv', C5, 'if session.server_keep_alive {', 'if !session.server_keep_alive {', P),
('ad-drop', C5, '        connack_properties.auth_data = Some(Bytes::from(auth_data));\n', '', P),
('ad-empty', C5, 'connack_properties.auth_data = Some(Bytes::from(auth_data));', 'connack_properties.auth_data = Some(Bytes::new());', P),
('am-drop', C5, '        connack_properties.auth_method = session.auth_method.clone();\n', '', P),
('will-retain-skip', C5, 'if will.retain && !global.config.retain_available {', 'if will.retain && will.qos != QoS::Level0 && !global.config.retain_available {', P),
('will-retain-any', C5, 'if will.retain && !global.config.retain_available {', 'if !global.config.retain_available {', P),
('will-qos-ge', C5, 'will.qos > global.config.max_allowed_qos()', 'will.qos >= global.config.max_allowed_qos()', P),
('will-qos-none', C5, '''        } else if will.qos > global.config.max_allowed_qos() {
            ConnectReasonCode::QoSNotSupported
''', '', P),
('will-qos-l2', C5, 'will.qos > global.config.max_allowed_qos()', 'will.qos == QoS::Level2 && global.config.max_allowed_qos() != QoS::Level2', P),
('will-swap', C5, [('            ConnectReasonCode::RetainNotSupported\n        } else', '            ConnectReasonCode::QoSNotSupported\n        } else'), ], P),
('conn-always', C5, 'if reason_code == ConnectReasonCode::Success {\n        session.connected = true;', 'if reason_code != ConnectReasonCode::QoSNotSupported {\n        session.connected = true;', P),
('conn-never', C5, '        session.connected = true;\n', '', P),
('conn-early', C5, '    // Build and send connack packet\n', '    session.connected = true;\n', P),
('v3-conn-never', C3, '    session.connected = true;\n', '', P),
('=exp-min', C5, '''        session.session_expiry_interval = global.config.max_session_expiry_interval;
        connack_properties.session_expiry_interval = Some(session.session_expiry_interval);
''', '''        let capped = session.session_expiry_interval.min(global.config.max_session_expiry_interval);
        connack_properties.session_expiry_interval = Some(capped);
        session.session_expiry_interval = capped;
''', P),
('=rm-always', C5, '''    if global.config.max_inflight_server != u16::MAX {
        connack_properties.receive_max = Some(global.config.max_inflight_server);
    }
''', '''    connack_properties.receive_max = Some(global.config.max_inflight_server);
''', P),
('=rm-then', C5, '''    if global.config.max_inflight_server != u16::MAX {
        connack_properties.receive_max = Some(global.config.max_inflight_server);
    }
''', '''    connack_properties.receive_max = (global.config.max_inflight_server < u16::MAX).then_some(global.config.max_inflight_server);
''', P),
('=qos-match', C5, '''    if global.config.max_allowed_qos() < QoS::Level2 {
        connack_properties.max_qos = Some(global.config.max_allowed_qos());
    }
''', '''    connack_properties.max_qos = match global.config.max_allowed_qos() {
        QoS::Level2 => None,
        lower => Some(lower),
    };
''', P),
('=bool-always', C5, '''    if !global.config.retain_available {
        connack_properties.retain_available = Some(false);
    }
''', '''    connack_properties.retain_available = Some(global.config.retain_available);
''', P),
('=bool-then', C5, '''    if !global.config.wildcard_subscription_available {
        connack_properties.wildcard_subscription_available = Some(false);
    }
''', '''    connack_properties.wildcard_subscription_available = (!global.config.wildcard_subscription_available).then_some(false);
''', P),
('=helper', C5, [('    // Build and send connack packet\n    let mut connack_properties = ConnackProperties::default();\n', '    let mut connack_properties = caps(&global.config);\n'), ('''    if !global.config.shared_subscription_available {
        connack_properties.shared_subscription_available = Some(false);
    }
''', ''), ('#[inline]\npub(crate) async fn handle_disconnect', '#[inline]\npub(crate) async fn handle_disconnect')], P),
('=will-u8', C5, 'will.qos > global.config.max_allowed_qos()', 'will.qos as u8 > global.config.max_allowed_qos', P),
('=will-fn', C5, [('''    let reason_code = if let Some(will) = session.last_will.as_ref() {
''' + WILL + '''    } else {
        ConnectReasonCode::Success
    };
''', '''    let reason_code = will_code(session.last_will.as_ref(), global);
''')], P),
('=will-map', C5, '''    let reason_code = if let Some(will) = session.last_will.as_ref() {
''' + WILL + '''    } else {
        ConnectReasonCode::Success
    };
''', '''    let reason_code = session.last_will.as_ref().map_or(ConnectReasonCode::Success, |will| {
''' + WILL + '''    });
''', P),
('=will-match', C5, WILL, '''        match (will.retain, global.config.retain_available) {
            (true, false) => ConnectReasonCode::RetainNotSupported,
            _ if global.config.max_allowed_qos() < will.qos => ConnectReasonCode::QoSNotSupported,
            _ => ConnectReasonCode::Success,
        }
''', P),
('=set-assign', C5, SET, '''    let accepted = reason_code == ConnectReasonCode::Success;
    session.connected = accepted;
    if accepted {
        session.connected_time = Some(Instant::now());
    }
''', P),
('=set-match', C5, SET, '''    match reason_code {
        ConnectReasonCode::Success => {
            session.connected_time = Some(Instant::now());
            session.connected = true;
        }
        _ => {}
    }
''', P),
('=struct-lit', C5, 'let rv_packet = Connack {\n        session_present,\n        reason_code,\n        properties: connack_properties,\n    };\n    write_packet(session.client_id, conn, &rv_packet.into()).await?;', 'let rv_packet: Packet = Packet::Connack(Connack {\n        properties: connack_properties,\n        reason_code,\n        session_present,\n    });\n    write_packet(session.client_id, conn, &rv_packet).await?;', P),
('=v3-order', C3, '''    session.connected = true;
    session.connected_time = Some(Instant::now());
    Ok(session_present)''', '''    session.connected_time = Some(Instant::now());
    session.connected = true;
    Ok(session_present)''', P),
]
H = '''
fn caps(config: &crate::config::Config) -> ConnackProperties {
    let mut p = ConnackProperties::default();
    if !config.shared_subscription_available {
        p.shared_subscription_available = Some(false);
    }
    p
}
'''
W = '''
fn will_code(will: Option<&mqtt_proto::v5::LastWill>, global: &GlobalState) -> ConnectReasonCode {
    let Some(will) = will else {
        return ConnectReasonCode::Success;
    };
    if will.retain && !global.config.retain_available {
        return ConnectReasonCode::RetainNotSupported;
    }
    if will.qos > global.config.max_allowed_qos() {
        return ConnectReasonCode::QoSNotSupported;
    }
    ConnectReasonCode::Success
}
'''
for i, m in enumerate(MUTS):
    if m[0] in ('=helper', '=will-fn'):
        anchor = '/// Handle Auth or Re-Auth\n'
        ed = [x for x in (m[2] if isinstance(m[2], list) else [(m[2], m[3])]) if x[0] != x[1]]
        MUTS[i] = (m[0], C5, ed + [(anchor, (H if m[0] == '=helper' else W) + '\n' + anchor)], P)
