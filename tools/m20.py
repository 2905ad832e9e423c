C = 'akasa-core/src/protocols/mqtt/v5/packet/common.rs'
U = 'akasa-core/src/protocols/mqtt/v5/packet/publish.rs'
K = 'akasa-core/src/protocols/mqtt/v5/packet/connect.rs'
S = 'akasa-core/src/protocols/mqtt/v5/session.rs'
T1, T2 = ['T01'], ['T02']
MUTS = [
('max-off', U, "if alias > global.config.topic_alias_max {", "if alias >= global.config.topic_alias_max {", T1),
('max-loose', U, "if alias > global.config.topic_alias_max {", "if alias > global.config.topic_alias_max.saturating_add(1) {", T1),
('max-client', U, "if alias > global.config.topic_alias_max {", "if alias > session.topic_alias_max {", T1),
('zero-ok', U, "        if alias == 0 {", "        if alias == 0 && !packet.topic_name.is_empty() {", T1),
('reason', U, "DisconnectReasonCode::TopicAliasInvalid,\n                \"topic alias too large\"", "DisconnectReasonCode::ProtocolError,\n                \"topic alias too large\"", T1),
('=insert-first', U, """        if alias > global.config.topic_alias_max {
""", """        if !packet.topic_name.is_empty() { session.topic_aliases.insert(alias, packet.topic_name.clone()); }
        if alias > global.config.topic_alias_max {
""", T1),
('keep-first', U, """            session
                .topic_aliases
                .insert(alias, packet.topic_name.clone());
""", """            session
                .topic_aliases
                .entry(alias).or_insert_with(|| packet.topic_name.clone());
""", T1),
('qos0-skip', U, """        } else {
            session
                .topic_aliases
                .insert(alias, packet.topic_name.clone());
        }
""", """        } else if packet.qos_pid != QosPid::Level0 {
            session
                .topic_aliases
                .insert(alias, packet.topic_name.clone());
        }
""", T1),
('unknown-own', U, """            if let Some(name) = session.topic_aliases.get(&alias) {
                topic_name = name.clone();
            } else {
""", """            if let Some(name) = session.topic_aliases.get(&alias) {
                topic_name = name.clone();
            } else if session.topic_aliases.is_empty() {
""", T1),
('one-shot', U, """            if let Some(name) = session.topic_aliases.get(&alias) {
                topic_name = name.clone();
""", """            if let Some(name) = session.topic_aliases.remove(&alias) {
                topic_name = name;
""", T1),
('=in-match', U, """            if let Some(name) = session.topic_aliases.get(&alias) {
                topic_name = name.clone();
            } else {
                let err_pkt = build_error_disconnect(
                    session,
                    DisconnectReasonCode::ProtocolError,
                    "topic alias not found",
                );
                return Err(err_pkt);
            }
""", """            topic_name = match session.topic_aliases.get(&alias).cloned() {
                Some(name) => name,
                None => return Err(build_error_disconnect(
                    session,
                    DisconnectReasonCode::ProtocolError,
                    "topic alias not found",
                )),
            };
""", T1),
('=in-one-check', U, """        if alias == 0 {
            // See: 3.3.4 PUBLISH Actions
            let err_pkt = build_error_disconnect(
                session,
                DisconnectReasonCode::TopicAliasInvalid,
                "topic alias is 0",
            );
            return Err(err_pkt);
        }
        if alias > global.config.topic_alias_max {
""", """        if !(1..=global.config.topic_alias_max).contains(&alias) {
""", T1),
('=in-helper', U, """            session
                .topic_aliases
                .insert(alias, packet.topic_name.clone());
""", """            let known = &mut session.topic_aliases;
            if let Some(x) = known.get_mut(&alias) { *x = topic_name.clone(); } else { known.insert(alias, topic_name.clone()); }
""", T1),
# ---- T02
('new-false', C, "    (alias, true)\n", "    (alias, false)\n", T2),
('old-true', C, "        return (alias, false);\n    }\n\n    let alias", "        return (alias, true);\n    }\n\n    let alias", T2),
('from-0', C, "(1..=topic_alias_max)", "(0..=topic_alias_max)", T2),
('to-max1', C, "(1..=topic_alias_max)", "(1..=topic_alias_max.saturating_add(1))", T2),
('no-unlink', C, """        aliases_by_topic.remove(&previous_topic);
""", """        let _ = previous_topic;
""", T2),
('unlink-self', C, """        aliases_by_topic.remove(&previous_topic);
""", """        let _ = previous_topic; aliases_by_topic.remove(topic_name);
""", T2),
('no-by-topic', C, "    aliases_by_topic.insert(topic_name.clone(), alias);\n", "    if current_tick < 1 << 16 { aliases_by_topic.insert(topic_name.clone(), alias); }\n", T2),
('no-by-alias', C, "    aliases_by_alias.insert(alias, (topic_name.clone(), current_tick));\n", "    if alias < 256 { aliases_by_alias.insert(alias, (topic_name.clone(), current_tick)); }\n", T2),
('len-grow', C, """    let alias = if aliases_by_alias.len() < topic_alias_max as usize {
        (1..=topic_alias_max)
            .find(|a| !aliases_by_alias.contains_key(a))
            .unwrap_or(1)
""", """    let alias = if aliases_by_alias.len() <= topic_alias_max as usize {
        aliases_by_alias.len() as u16 + 1
""", T2),
('=len', C, """    let alias = if aliases_by_alias.len() < topic_alias_max as usize {
        (1..=topic_alias_max)
            .find(|a| !aliases_by_alias.contains_key(a))
            .unwrap_or(1)
""", """    let alias = if aliases_by_alias.len() < topic_alias_max as usize {
        aliases_by_alias.len() as u16 + 1
""", T2),
('=cyclic', C, """    let alias = if aliases_by_alias.len() < topic_alias_max as usize {
        (1..=topic_alias_max)
            .find(|a| !aliases_by_alias.contains_key(a))
            .unwrap_or(1)
    } else {
        aliases_by_alias
            .iter()
            .min_by_key(|(_, (_, t))| *t)
            .map(|(&a, _)| a)
            .unwrap_or(1)
    };
""", """    let free = (1..=topic_alias_max).find(|a| !aliases_by_alias.contains_key(a));
    let alias = match free {
        Some(a) => a,
        None => aliases_by_alias.iter().min_by_key(|(_, (_, t))| *t).map(|(&a, _)| a).unwrap_or(1),
    };
""", T2),
('=entry', C, """    if let Some((previous_topic, _)) = aliases_by_alias.remove(&alias) {
        aliases_by_topic.remove(&previous_topic);
    }
    aliases_by_alias.insert(alias, (topic_name.clone(), current_tick));
    aliases_by_topic.insert(topic_name.clone(), alias);
""", """    if let Some((previous_topic, _)) = aliases_by_alias.insert(alias, (topic_name.clone(), current_tick)) {
        aliases_by_topic.remove(&previous_topic);
    }
    aliases_by_topic.insert(topic_name.clone(), alias);
""", T2),
('use-server-max', U, "                session.topic_alias_max,\n", "                global_max(),\n", []),
('pend-invert', C, "                        if !is_new_mapping {", "                        if is_new_mapping {", T2),
('recv-invert', U, "                if !is_new_mapping {", "                if is_new_mapping {", T2),
('pend-always', C, "                        if !is_new_mapping {\n", "                        if !is_new_mapping || packet.qos == QoS::Level1 {\n", T2),
('pend-noalias', C, "                        properties.topic_alias = Some(alias);\n", "                        if !is_new_mapping { properties.topic_alias = Some(alias); }\n", T2),
('pend-before-expiry', C, """                let now_ts = get_unix_ts();
                let mut message_expiry_interval = None;
""", """                let now_ts = get_unix_ts();
                let mut message_expiry_interval = None;
                let early = get_or_assign_server_topic_alias(topic_alias_max, aliases_by_topic, aliases_by_alias, tick, &packet.topic_name);
""", [], ),
('pend-early', C, [("""                let now_ts = get_unix_ts();
                let mut message_expiry_interval = None;
""", """                let now_ts = get_unix_ts();
                let early = if *dup { (0, false) } else { get_or_assign_server_topic_alias(topic_alias_max, aliases_by_topic, aliases_by_alias, tick, &packet.topic_name) };
                let mut message_expiry_interval = None;
"""), ("""                    let (alias, is_new_mapping) = get_or_assign_server_topic_alias(
                        topic_alias_max,
                        aliases_by_topic,
                        aliases_by_alias,
                        tick,
                        &topic_name,
                    );
                    if alias > 0 {
                        properties""", """                    let (alias, is_new_mapping) = early;
                    if alias > 0 {
                        properties""")], T2),
('recv-early', U, [("""        let encode_len = if msg.qos > QoS::Level0 {
            msg.encode_len - 2
        } else {
            msg.encode_len
        };
        if encode_len""", """        let early = get_or_assign_server_topic_alias(
                session.topic_alias_max,
                &mut session.server_topic_aliases_by_topic,
                &mut session.server_topic_aliases_by_alias,
                &mut session.server_alias_tick,
                msg.topic_name,
            );
        let encode_len = if msg.qos > QoS::Level0 {
            msg.encode_len - 2
        } else {
            msg.encode_len
        };
        if encode_len"""), ("""            let (alias, is_new_mapping) = get_or_assign_server_topic_alias(
                session.topic_alias_max,
                &mut session.server_topic_aliases_by_topic,
                &mut session.server_topic_aliases_by_alias,
                &mut session.server_alias_tick,
                &topic_name,
            );
""", """            let (alias, is_new_mapping) = early;
""")], T2),
('=use-helper', U, """            if alias > 0 {
                properties.topic_alias = Some(alias);
                if !is_new_mapping {
                    topic_name = empty_topic_name().clone();
                }
            }
""", """            match (alias, is_new_mapping) {
                (0, _) => {}
                (a, true) => properties.topic_alias = Some(a),
                (a, false) => {
                    properties.topic_alias = Some(a);
                    topic_name = empty_topic_name().clone();
                }
            }
""", T2),
('=no-zero-check', U, """            if alias > 0 {
                properties.topic_alias = Some(alias);
                if !is_new_mapping {
                    topic_name = empty_topic_name().clone();
                }
            }
""", """            properties.topic_alias = Some(alias);
            if !is_new_mapping {
                topic_name = empty_topic_name().clone();
            }
""", T2),
('clear-maps', U, """        if session.topic_alias_max > 0 {
""", """        if session.server_topic_aliases_by_topic.len() > 1000 { session.server_topic_aliases_by_topic.clear(); }
        if session.topic_alias_max > 0 {
""", T2),
('max-default', K, "session.topic_alias_max = properties.topic_alias_max.unwrap_or(0);", "session.topic_alias_max = properties.topic_alias_max.unwrap_or(10);", T2),
('max-cap', K, "session.topic_alias_max = properties.topic_alias_max.unwrap_or(0);", "session.topic_alias_max = properties.topic_alias_max.map_or(0, |x| x.max(16));", T2),
]
MUTS = [m for m in MUTS if m[-1]]
