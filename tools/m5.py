P = 'akasa-core/src/protocols/mqtt/'
U3, U5 = P + 'v3/packet/publish.rs', P + 'v5/packet/publish.rs'
A = ['Q07']
MUTS = [
 ('nolocal-other', U5, 'if sub.options.no_local {\n                        continue;', 'if !sub.options.no_local {\n                        continue;', A),
 ('nolocal-gone', U5, 'if sub.options.no_local {\n                        continue;\n                    }', 'if sub.options.no_local && msg.retain {\n                        continue;\n                    }', A),
 ('nolocal-all', U5, 'if *client_id == session.client_id {\n                if let', 'if session.clean_start {\n                if let', A),
 ('max-min', U5, '*max_qos = cmp::max(*max_qos, *subscribe_qos);', '*max_qos = cmp::min(*max_qos, *subscribe_qos);', A),
 ('max-last', U5, '*max_qos = cmp::max(*max_qos, *subscribe_qos);', '*max_qos = *subscribe_qos;', A),
 ('max-none', U5, '*max_qos = cmp::max(*max_qos, *subscribe_qos);', '', A),
 ('filter-none', U5, 'filters.push(subscribe_filter.clone());\n                *max_qos = cmp::max(*max_qos, *subscribe_qos);', '*max_qos = cmp::max(*max_qos, *subscribe_qos);', A),
 ('group-break', U5, 'senders.push((client_id, vec![full_filter], subscribe_qos));\n            }', 'senders.push((client_id, vec![full_filter], subscribe_qos));\n            }\n            if senders.len() > 8 { break; }', A),
 ('match-break', U5, '        for (group_name, shared_clients) in &content.groups {', '        if content.groups.is_empty() && msg.retain { break; }\n        for (group_name, shared_clients) in &content.groups {', A),
 ('groups-cond', U5, '        for (group_name, shared_clients) in &content.groups {', '        if !content.clients.is_empty() { continue; }\n        for (group_name, shared_clients) in &content.groups {', A),
 ('mode-swap', U5, 'shared_clients.get_by_hash(&session.client_identifier)', 'shared_clients.get_by_hash(msg.topic_name)', A),
 ('mode-swap2', U5, 'SharedSubscriptionMode::HashTopicName => shared_clients.get_by_hash(msg.topic_name)', 'SharedSubscriptionMode::HashTopicName => shared_clients.get_by_hash(&session.client_identifier)', A),
 ('mode-rand', U5, 'shared_clients.get_by_number(rand::rng().random())', 'shared_clients.get_by_number(matched_len as u64)', A),
 ('full-filter', U5, 'senders.push((client_id, vec![full_filter], subscribe_qos));', 'senders.push((client_id, vec![subscribe_filter.clone()], subscribe_qos));', A),
 ('msg-qos', U5, 'retain: msg.retain,\n            qos: msg.qos,\n            topic_name: msg.topic_name.clone(),\n            payload: msg.payload.clone(),\n            subscribe_filters', 'retain: msg.retain,\n            qos: subscribe_qos,\n            topic_name: msg.topic_name.clone(),\n            payload: msg.payload.clone(),\n            subscribe_filters', A),
 ('online-skip', U5, 'if !session.broadcast_packets.contains_key(&receiver_client_id)\n', 'if session.broadcast_packets.is_empty()\n', A),
 ('v3-only-first', U3, 'senders.push((*client_id, subscribe_filter.clone(), *subscribe_qos));', 'senders.push((*client_id, subscribe_filter.clone(), *subscribe_qos));\n            if *client_id == session.client_id { break; }', A),
 ('v3-skip', U3, 'senders.push((*client_id, subscribe_filter.clone(), *subscribe_qos));', 'if *client_id != session.client_id || msg.qos != QoS::Level0 { senders.push((*client_id, subscribe_filter.clone(), *subscribe_qos)); }', A),
 ('v3-qos', U3, 'senders.push((*client_id, subscribe_filter.clone(), *subscribe_qos));', 'senders.push((*client_id, subscribe_filter.clone(), msg.qos));', A),
 ('v3-recv', U3, 'info.msgs.push_back(publish);', 'if info.msgs.len() < 1000 { info.msgs.push_back(publish); }', A),
 ('v3-recv2', U3, 'info.msgs.push_back(publish);\n        } else {\n            session.broadcast_packets_cnt -= 1;\n        }', 'info.msgs.push_back(publish);\n            if info.msgs.len() > 1000 { break; }\n        } else {\n            session.broadcast_packets_cnt -= 1;\n        }', A),
 ('=v3-cond', U3, 'if let Some(info) = session.broadcast_packets.get_mut(&receiver_client_id) {\n            info.msgs.push_back(publish);\n        } else {\n            session.broadcast_packets_cnt -= 1;\n        }', 'match session.broadcast_packets.get_mut(&receiver_client_id) {\n            Some(info) => info.msgs.push_back(publish),\n            None => session.broadcast_packets_cnt -= 1,\n        }', A),
 ('=own', U5, """            if *client_id == session.client_id {
                if let Some(sub) = session.subscribes.get(subscribe_filter) {
                    if sub.options.no_local {
                        continue;
                    }
                } else {
                    // already unsubscribed
                    continue;
                }
            }""", """            let own = *client_id == session.client_id;
            let skip = own
                && session
                    .subscribes
                    .get(subscribe_filter)
                    .map(|sub| sub.options.no_local)
                    .unwrap_or(true);
            if skip {
                continue;
            }""", A),
 ('=max', U5, '*max_qos = cmp::max(*max_qos, *subscribe_qos);', 'if *subscribe_qos > *max_qos { *max_qos = *subscribe_qos; }', A),
 ('=pos', U5, """            if let Some((_, filters, max_qos)) = senders
                .iter_mut()
                .find(|(receiver_id, _, _)| receiver_id == client_id)
            {
""", """            if let Some(i) = senders.iter().position(|(receiver_id, _, _)| receiver_id == client_id) {
                let (_, filters, max_qos) = &mut senders[i];
""", A),
 ('=helper', U5, """            } else {
                senders.push((*client_id, vec![subscribe_filter.clone()], *subscribe_qos));
            }""", """            } else {
                let filters = vec![subscribe_filter.clone()];
                let entry = (*client_id, filters, *subscribe_qos);
                senders.push(entry);
            }""", A),
 ('=iter', U3, 'for (client_id, subscribe_qos) in &content.clients {\n            senders.push((*client_id, subscribe_filter.clone(), *subscribe_qos));\n        }', 'senders.extend(content.clients.iter().map(|(id, q)| (*id, subscribe_filter.clone(), *q)));', A),
]
