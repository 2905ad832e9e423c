M = 'akasa-core/src/protocols/mqtt/'
S = 'akasa-core/src/state.rs'
R, RE, T = M + 'route.rs', M + 'retain.rs', M + 'common.rs'
U3, U5 = M + 'v3/packet/publish.rs', M + 'v5/packet/publish.rs'
V3, V5 = M + 'v3/message.rs', M + 'v5/message.rs'
K = ['L01']
MUTS = [
('remove-read', R, """        let mut nodes = self.nodes.write();
        if let Some(node) = nodes.get_mut(filter_item) {
            remove_node = node.remove(rest_items, id, group);
        }
        if remove_node {
            nodes.remove(filter_item);
        }""", """        if let Some(node) = self.nodes.read().get(filter_item) {
            remove_node = node.remove(rest_items, id, group);
        }
        if remove_node {
            self.nodes.write().remove(filter_item);
        }""", K),
('relock', R, "self.content.read().is_empty() && nodes.is_empty()", "self.content.read().is_empty() && self.nodes.read().is_empty()", K),
('relock2', R, "            if content.is_empty() {\n                content.topic_filter = None;", "            if self.content.read().is_empty() {\n                content.topic_filter = None;", K),
('await', T, """                    if last_packet_time.elapsed() <= half_interval * 3 {
                        return Some(half_interval);
                    }
                }
""", """                    if last_packet_time.elapsed() <= half_interval * 3 {
                        tokio::time::sleep(half_interval).await;
                        return Some(Duration::from_millis(1));
                    }
                }
""", ['L01']),
('dash-relock', S, """            let client_id_opt: Option<ClientId> = self
                .client_identifier_map
                .get(client_identifier)
                .map(|pair| *pair.value());
            if let Some(old_id) = client_id_opt {
                if let""", """            if let Some(old) = self.client_identifier_map.get(client_identifier) {
                let old_id = *old.value();
                self.client_identifier_map.insert(client_identifier.to_string(), old_id);
                if let""", K),
('dash-order', S, """        if let Some((_, (client_identifier, online))) = self.client_id_map.remove(&client_id) {
            self.client_identifier_map""", """        if let Some(pair) = self.client_id_map.get(&client_id) {
            let (client_identifier, online) = pair.value().clone();
            self.client_id_map.remove(&client_id);
            self.client_identifier_map""", K),
('mutex-order', S, """        self.clients
            .get(client_id)
            .map(|pair| pair.value().normal.clone())""", """        let pair = self.clients.get(client_id)?;
        if self.next_client_id.lock().0 < client_id.0 {
            return None;
        }
        Some(pair.value().normal.clone())""", K),
('mutex-twice', S, """        let _guard = self.next_client_id.lock();
        if let Some(mut pair) = self.client_id_map.get_mut(&client_id) {
            let online = &mut pair.value_mut().1;
            if *online {
                *online = false;""", """        let _guard = self.next_client_id.lock();
        if let Some(mut pair) = self.client_id_map.get_mut(&client_id) {
            let online = &mut pair.value_mut().1;
            if self.next_client_id.lock().0 <= client_id.0 { return; }
            if *online {
                *online = false;""", K),
('block-send', T, "if let Err(err) = sender.send_async(msg).await {", "if let Err(err) = sender.send(msg) {", K),
('block-sleep', V5, "        handle_pendings(self)\n", "        std::thread::sleep(std::time::Duration::from_millis(1));\n        handle_pendings(self)\n", K),
('publish-unsub', U3, """        let Some(subscribe_filter) = content.topic_filter.as_ref() else {
            continue;
        };
        for""", """        let Some(subscribe_filter) = content.topic_filter.as_ref() else {
            continue;
        };
        if content.clients.is_empty() {
            global.route_table.unsubscribe(subscribe_filter, session.client_id);
        }
        for""", K),
('retain-sub', RE, "            remove_node = node.is_empty();", "            remove_node = node.is_empty() && self.nodes.read().len() > 0;", K),
('=drop', S, """        let _guard = self.next_client_id.lock();
        if let Some(mut pair) = self.client_id_map.get_mut(&client_id) {
            let online = &mut pair.value_mut().1;
            if *online {
                *online = false;
                assert_ne!(self.online_clients.fetch_sub(1, Ordering::AcqRel), 0);
            }
        }""", """        let guard = self.next_client_id.lock();
        let pair = self.client_id_map.get_mut(&client_id);
        match pair {
            None => {}
            Some(mut pair) => {
                let online = &mut pair.1;
                if *online {
                    *online = false;
                    assert_ne!(self.online_clients.fetch_sub(1, Ordering::AcqRel), 0);
                }
                drop(pair);
            }
        }
        drop(guard);
        let _ = self.client_id_map.len();
        let _ = self.next_client_id.lock();""", K),
('=option', S, """            let client_id_opt: Option<ClientId> = self
                .client_identifier_map
                .get(client_identifier)
                .map(|pair| *pair.value());""", """            let mut client_id_opt: Option<ClientId> = None;
            if let Some(pair) = self.client_identifier_map.get(client_identifier) {
                client_id_opt = Some(*pair.value());
            }""", K),
('=helper', R, "                self.content.read().is_empty() && nodes.is_empty()", "                let content = Arc::clone(&self.content);\n                let empty = content.read().is_empty();\n                empty && nodes.is_empty()", K),
('=match-tail', R, """        let mut nodes = self.nodes.write();
        if let Some(node) = nodes.get_mut(filter_item) {
            remove_node = node.remove(rest_items, id, group);
        }
        if remove_node {
            nodes.remove(filter_item);
        }""", """        let mut nodes = self.nodes.write();
        match nodes.get_mut(filter_item) {
            Some(node) => remove_node = node.remove(rest_items, id, group),
            None => {}
        }
        if remove_node {
            nodes.remove(filter_item);
        }""", K),
('=collect', U3, """    for content in matches {
        let content = content.read();""", """    for filter in matches.iter() {
        let guard = filter.read();
        let content = &*guard;""", K),
]
