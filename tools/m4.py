P = 'akasa-core/src/protocols/mqtt/'
U3, U5, M3, M5 = P + 'v3/packet/publish.rs', P + 'v5/packet/publish.rs', P + 'v3/message.rs', P + 'v5/message.rs'
A = ['Q06']
MUTS = [
 ('max3', U3, 'let final_qos = cmp::min(msg.qos, msg.subscribe_qos);', 'let final_qos = cmp::max(msg.qos, msg.subscribe_qos);', A),
 ('pubqos5', U5, 'let final_qos = cmp::min(msg.qos, msg.subscribe_qos);', 'let final_qos = if msg.qos == QoS::Level2 { msg.subscribe_qos } else { msg.qos };', A),
 ('queue-qos3', U3, 'qos: final_qos,', 'qos: msg.qos,', A),
 ('retain-false3', U3, 'retain: msg.retain,\n                payload: msg.payload.clone(),\n            },\n        ) {', 'retain: false,\n                payload: msg.payload.clone(),\n            },\n        ) {', A),
 ('sub-check3', U3, 'if !session.subscribes.contains_key(msg.subscribe_filter) {', 'if session.subscribes.is_empty() {', A),
 ('size5', U5, 'if msg.encode_len > session.max_packet_size as usize {\n            return None;', 'if session.server_disconnected {\n            return None;', A),
 ('drop-disc5', U5, 'if final_qos != QoS::Level0 {\n        if msg', 'if final_qos != QoS::Level0 {\n        if session.client_disconnected { return None; }\n        if msg', A),
 ('props-lost5', U5, 'let mut properties = msg.properties.cloned().unwrap_or_default();', 'let mut properties = PublishProperties { user_properties: msg.properties.map(|p| p.user_properties.clone()).unwrap_or_default(), ..Default::default() };', A),
 ('ids-lost5', U5, 'SubscriptionIds::Precomputed(ids) => properties.subscription_ids = ids,', 'SubscriptionIds::Precomputed(ids) => properties.subscription_ids = ids.into_iter().take(1).collect(),', A),
 ('props-clear5', U5, 'let final_qos = cmp::min(msg.qos, msg.subscribe_qos);', 'properties.message_expiry_interval = None;\n    let final_qos = cmp::min(msg.qos, msg.subscribe_qos);', A),
 ('rap-any', M5, 'if !global.config.retain_available || !retain_as_published {', 'if !global.config.retain_available {', A),
 ('rap-last', M5, 'retain_as_published |= sub.options.retain_as_published;', 'retain_as_published = sub.options.retain_as_published;', A),
 ('rap-v3', M5, 'if !global.config.retain_available || !sub.options.retain_as_published {', 'if !sub.options.retain_as_published {', A),
 ('has-sub', M5, 'if !has_subscription {', 'if subscription_ids.is_empty() {', A),
 ('ids-first', M5, '&& !subscription_ids.contains(&id)', '&& subscription_ids.is_empty()', A),
 ('sub-qos', M5, 'subscribe_qos,\n                        properties: None,', 'subscribe_qos: qos,\n                        properties: None,', A),
 ('v3-first', M3, """.iter()
                .find(|filter| session.subscribes.contains_key(*filter))?;""", '.first()?;', A),
 ('v3-pub-retain', U3, 'retain: packet.retain,', 'retain: packet.retain && packet.qos_pid != QosPid::Level0,', A),
 ('v5-alias-leak', U5, 'properties.topic_alias = None;\n        send', 'properties.topic_alias = properties.topic_alias.filter(|x| *x > 1);\n        send', A),
 ('v5-topic', U5, 'topic_name: &topic_name,\n', 'topic_name: &packet.topic_name,\n', A),
 ('v5-qos', U5, 'qos: packet.qos_pid.qos(),', 'qos: if packet.dup { QoS::Level1 } else { packet.qos_pid.qos() },', A),
 ('v5-props', U5, 'properties.topic_alias = None;\n        send', 'properties.topic_alias = None;\n properties.correlation_data = None;\n       send', A),
 ('=match3', U3, 'let final_qos = cmp::min(msg.qos, msg.subscribe_qos);', 'let final_qos = if msg.subscribe_qos < msg.qos { msg.subscribe_qos } else { msg.qos };', A),
 ('=match3b', U3, 'let final_qos = cmp::min(msg.qos, msg.subscribe_qos);', 'let final_qos = match (msg.qos, msg.subscribe_qos) { (QoS::Level0, _) | (_, QoS::Level0) => QoS::Level0, (QoS::Level1, _) | (_, QoS::Level1) => QoS::Level1, _ => QoS::Level2 };', A),
 ('=min5', U5, 'let final_qos = cmp::min(msg.qos, msg.subscribe_qos);', 'let final_qos = msg.qos.min(msg.subscribe_qos);', A),
 ('=any', M5, """            for subscribe_filter in subscribe_filters {
                if let Some(sub) = session.subscribes.get(subscribe_filter) {
                    has_subscription = true;
                    retain_as_published |= sub.options.retain_as_published;
                    if let Some(id) = sub.id
                        && !subscription_ids.contains(&id)
                    {
                        subscription_ids.push(id);
                    }
                }
            }""", """            for sub in subscribe_filters.iter().filter_map(|f| session.subscribes.get(f)) {
                has_subscription = true;
                if sub.options.retain_as_published { retain_as_published = true; }
                if let Some(id) = sub.id {
                    if subscription_ids.contains(&id) { continue; }
                    subscription_ids.push(id);
                }
            }""", A),
 ('=early', M5, 'if !has_subscription {\n                None\n            } else {\n', 'if !has_subscription {\n return None;\n }\n {\n', A),
 ('=retainexpr', M5, """if !global.config.retain_available || !retain_as_published {
                    retain = false;
                }""", 'retain = retain && global.config.retain_available && retain_as_published;', A),
 ('=insert-helper', U5, """        SubscriptionIds::Lookup(filter) => {
            let subscription_id = if let Some(sub) = session.subscribes.get(filter) {
                sub.id
            } else {
                // the client already unsubscribed.
                return None;
            };
            properties.subscription_ids = subscription_id.into_iter().collect();
        }""", """        SubscriptionIds::Lookup(filter) => {
            let sub = session.subscribes.get(filter)?;
            properties.subscription_ids = match sub.id { Some(id) => vec![id], None => Vec::new() };
        }""", A),
 ('=v3-loop', M3, """let subscribe_filter = subscribe_filters
                .iter()
                .find(|filter| session.subscribes.contains_key(*filter))?;""", """let mut found = None;
            for filter in subscribe_filters {
                if session.subscribes.contains_key(filter) { found = Some(filter); break; }
            }
            let Some(subscribe_filter) = found else { return None; };""", A),
]
