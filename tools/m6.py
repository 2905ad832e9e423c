P = 'akasa-core/src/protocols/mqtt/'
R, T, U3, U5 = P + 'route.rs', P + 'retain.rs', P + 'v3/packet/publish.rs', P + 'v5/packet/publish.rs'
A, B, C, D = ['R01'], ['R02'], ['R03'], ['R04']
MUTS = [
 ('dollar', R, "if !topic_name.starts_with('$') {", "if !topic_name.starts_with(\"$SYS\") {", A),
 ('dollar-child', R, "for item in [topic_item, MATCH_ALL_STR, MATCH_ONE_STR] {", "for item in [topic_item, MATCH_ONE_STR, MATCH_ONE_STR] {", A),
 ('parent', R, "if let Some(node) = self.nodes.read().get(MATCH_ALL_STR)\n                && !node.content.read().is_empty()", "if let Some(node) = self.nodes.read().get(MATCH_ONE_STR)\n                && !node.content.read().is_empty()", A),
 ('parent-none', R, "filters.push(Arc::clone(&node.content));", "", A),
 ('all-stop', R, "if prev_item == MATCH_ALL_STR {", "if prev_item == MATCH_ALL_STR && topic_items.is_none() {", A),
 ('break', R, "                    node.get_matches(item, rest_items, filters);\n                }\n            }\n        } else {", "                    node.get_matches(item, rest_items, filters);\n                    break;\n                }\n            }\n        } else {", A),
 ('empty', R, "if !self.content.read().is_empty() {\n                filters.push(Arc::clone(&self.content));\n            }\n\n", "if !self.content.read().clients.is_empty() {\n                filters.push(Arc::clone(&self.content));\n            }\n\n", A),
 ('is-empty', R, 'self.clients.is_empty() && self.groups.is_empty()', 'self.clients.is_empty()', A + B),
 ('rest', R, "node.get_matches(item, rest_items, &mut filters);\n                }\n            }\n        }\n        filters", "node.get_matches(item, None, &mut filters);\n                }\n            }\n        }\n        filters", A),
 ('own-mid', R, "            let nodes = self.nodes.read();\n            let (topic_item, rest_items) = split_topic(topic_items);", "            let nodes = self.nodes.read();\n            if nodes.is_empty() { filters.push(Arc::clone(&self.content)); }\n            let (topic_item, rest_items) = split_topic(topic_items);", A),
 ('split', R, 'topic.split_once(LEVEL_SEP)', 'topic.rsplit_once(LEVEL_SEP)', A),
 ('ins-filter', R, 'if content.topic_filter.is_none() {', 'if content.topic_filter.is_none() && group.is_none() {', B),
 ('ins-group', R, '.insert((id, qos));\n            } else {\n                content.clients.insert(id, qos);', '.insert((id, qos));\n                content.clients.remove(&id);\n            } else {\n                content.clients.insert(id, qos);', B),
 ('ins-old', R, 'content.clients.insert(id, qos);', 'content.clients.entry(id).or_insert(qos);', B),
 ('rem-clients', R, '} else {\n                content.clients.remove(&id);\n            }', '}\n            content.clients.remove(&id);', B),
 ('rem-prune', R, 'self.content.read().is_empty() && nodes.is_empty()', 'nodes.is_empty()', B),
 ('rem-prune2', R, 'self.content.read().is_empty() && nodes.is_empty()', 'self.content.read().is_empty()', B),
 ('rem-prune3', R, 'if self.nodes.read().is_empty() {\n                    return true;\n                }', 'return true;', B),
 ('rem-group', R, 'if shared_clients.is_empty() {\n                        content.groups.remove(name);\n                    }', 'content.groups.remove(name);', B),
 ('rem-group2', R, 'if shared_clients.is_empty() {\n                        content.groups.remove(name);\n                    }', 'if shared_clients.is_empty() {\n                        content.groups.clear();\n                    }', B),
 ('rem-filter', R, 'if content.is_empty() {\n                content.topic_filter = None;', 'if content.clients.is_empty() {\n                content.topic_filter = None;', B),
 ('sub-group', R, 'Some(shared_group_name.to_owned()),', 'None,', B),
 ('unsub-group', R, 'Some(shared_group_name),', 'None,', B),
 ('unsub-prune', R, '        if remove_node {\n            nodes.remove(filter_item);\n        }\n    }\n}\n\nimpl RouteNode', '        if remove_node || nodes.len() > 100000 {\n            nodes.remove(filter_item);\n        }\n    }\n}\n\nimpl RouteNode', B),
 ('sub-filter', R, '&TopicFilter::try_from(shared_filter).expect("shared filter"),\n                id,\n                qos,', 'topic_filter,\n                id,\n                qos,', B),
 ('g-stale', R, 'if last_client_id != *item_key {\n                    self.index.insert(last_client_id, idx);\n                }', 'self.index.insert(last_client_id, idx);', C),
 ('g-nomove', R, 'if last_client_id != *item_key {\n                    self.index.insert(last_client_id, idx);\n                }', '', C),
 ('g-qos', R, 'self.items[*idx].1 = item.1;', '', C),
 ('g-idx', R, 'self.index.insert(item.0, self.items.len());\n            self.items.push(item);', 'self.items.push(item);\n            self.index.insert(item.0, self.items.len());', C),
 ('g-range', R, 'number as usize % self.items.len()', 'number as usize % self.items.len().min(16)', C),
 ('g-trunc', R, 'let idx = number as usize % self.items.len();', 'let idx = (number as usize & 0xf) % self.items.len();', C),
 ('g-bound', R, 'number as usize % self.items.len()', 'number as usize % self.index.len()', C),
 ('g-clear', R, 'if self.items.len() == 1 {', 'if self.items.len() <= 2 {', C),
 ('=g-order', R, 'if last_client_id != *item_key {\n                    self.index.insert(last_client_id, idx);\n                }', 'if idx < self.items.len() {\n                    let moved = self.items[idx].0;\n                    self.index.insert(moved, idx);\n                }', C),
 ('=g-order2', R, """        if let Some(idx) = self.index.remove(item_key) {
            if self.items.len() == 1 {
                self.items.clear();
            } else {
                let last_client_id = self.items.last().expect("shared items").0;
                self.items.swap_remove(idx);""", """        if let Some(idx) = self.index.remove(item_key) {
            if self.items.len() == 1 {
                self.items.pop();
            } else {
                let last_client_id = self.items[self.items.len() - 1].0;
                self.items.swap_remove(idx);""", C),
 ('=g-match', R, """        if let Some(idx) = self.index.get(&item.0) {
            self.items[*idx].1 = item.1;
        } else {
            self.index.insert(item.0, self.items.len());
            self.items.push(item);
        }""", """        match self.index.get(&item.0).copied() {
            Some(pos) => self.items[pos].1 = item.1,
            None => {
                let pos = self.items.len();
                self.items.push(item);
                self.index.insert(item.0, pos);
            }
        }""", C),
 ('=match-unroll', R, """            for item in [topic_item, MATCH_ALL_STR, MATCH_ONE_STR] {
                if let Some(node) = nodes.get(item) {
                    node.get_matches(item, rest_items, filters);
                }
            }
        } else {""", """            if let Some(node) = nodes.get(topic_item) {
                node.get_matches(topic_item, rest_items, filters);
            }
            if let Some(all) = nodes.get(MATCH_ALL_STR) {
                all.get_matches(MATCH_ALL_STR, rest_items, filters);
            }
            if let Some(one) = nodes.get(MATCH_ONE_STR) {
                one.get_matches(MATCH_ONE_STR, rest_items, filters);
            }
        } else {""", A),
 ('=match-parent', R, """            if let Some(node) = self.nodes.read().get(MATCH_ALL_STR)
                && !node.content.read().is_empty()
            {
                filters.push(Arc::clone(&node.content));
            }""", """            if let Some(node) = self.nodes.read().get(MATCH_ALL_STR) {
                node.get_matches(MATCH_ALL_STR, None, filters);
            }""", A),
 ('=match-helper', R, """        if prev_item == MATCH_ALL_STR {
            if !self.content.read().is_empty() {
                filters.push(Arc::clone(&self.content));
            }
        } else""", """        let is_all = prev_item == MATCH_ALL_STR;
        if is_all {
            let has_subscribers = !self.content.read().is_empty();
            if has_subscribers {
                filters.push(self.content.clone());
            }
        } else""", A),
 ('=rem', R, """            let remove_parent = if remove_node {
                nodes.remove(filter_item);
                // NOTE: careful lock order
                self.content.read().is_empty() && nodes.is_empty()
            } else {
                false
            };
            return remove_parent;""", """            if !remove_node {
                return false;
            }
            nodes.remove(filter_item);
            return nodes.is_empty() && self.content.read().is_empty();""", B),
 ('=ins', R, """            if content.topic_filter.is_none() {
                content.topic_filter = Some(topic_filter.clone());
            }""", """            content.topic_filter.get_or_insert_with(|| topic_filter.clone());""", B),
 ('=sub', R, """        if let Some((shared_group_name, shared_filter)) = topic_filter.shared_info() {
            self.subscribe_shared(
                &TopicFilter::try_from(shared_filter).expect("shared filter"),
                id,
                qos,
                Some(shared_group_name.to_owned()),
            );
        } else {
            self.subscribe_shared(topic_filter, id, qos, None);
        }""", """        match topic_filter.shared_info() {
            None => self.subscribe_shared(topic_filter, id, qos, None),
            Some((name, filter)) => {
                let filter = TopicFilter::try_from(filter).expect("shared filter");
                self.subscribe_shared(&filter, id, qos, Some(name.to_string()));
            }
        }""", B),
 ('r-dollar', T, "&& !(content.topic_name.starts_with('$') && wildcard_first)\n                {\n                    retains.push", "{\n                    retains.push", D),
 ('r-wild', T, 'topic_filter.starts_with([MATCH_ONE_CHAR, MATCH_ALL_CHAR])', 'topic_filter.starts_with(MATCH_ALL_CHAR)', D),
 ('r-wild2', T, 'node.get_matches(filter_item, rest_items, wildcard_first, retains);\n                    }\n                } else {', 'node.get_matches(filter_item, rest_items, false, retains);\n                    }\n                } else {', D),
 ('r-parent', T, """                if let Some(content) = self.content.as_ref()
                    && !(""", """                if nodes.is_empty() && let Some(content) = self.content.as_ref()
                    && !(""", D),
 ('r-children', T, 'for node in nodes.values() {\n                    node.get_matches(MATCH_ALL_STR', 'if self.content.is_none() { for node in nodes.values() {\n                    node.get_matches(MATCH_ALL_STR', D) if False else
 ('r-children', T, 'for node in nodes.values() {\n                    node.get_matches(MATCH_ALL_STR', 'for node in nodes.values().take(1) {\n                    node.get_matches(MATCH_ALL_STR', D),
 ('r-replace', T, 'node.content.replace(content)', 'if node.content.is_none() { node.content.replace(content) } else { Some(content) }', D),
 ('r-prune', T, 'self.content.is_none() && self.nodes.read().is_empty()', 'self.content.is_none()', D),
 ('r-prune2', T, 'remove_node = node.is_empty();', 'remove_node = node.nodes.read().is_empty();', D),
 ('r-take', T, 'node.content.take()\n            };', 'node.content.clone()\n            };', D),
 ('r-new', T, 'new_node.insert(topic_item, rest_items, content);\n            } else', 'new_node.insert(topic_item, None, content);\n            } else', D),
 ('r-retain', U5, 'if msg.retain\n        && let', 'if msg.qos != QoS::Level0 && msg.retain\n        && let', D),
 ('r-empty', U3, 'if msg.payload.is_empty() {', 'if msg.payload.len() < 2 {', D),
 ('r-props', U5, 'Some(msg.properties.clone()),\n                msg.encode_len', 'None,\n                msg.encode_len', D),
 ('r-qos', U3, 'session.client_identifier.clone(),\n                msg.qos,', 'session.client_identifier.clone(),\n                QoS::Level0,', D),
 ('=r-store', T, """        if let Some(node) = nodes.get_mut(prev_item) {
            if let Some((topic_item, rest_items)) = topic_items.map(split_topic) {
                node.insert(topic_item, rest_items, content)
            } else {
                node.content.replace(content)
            }
        } else {""", """        if let Some(node) = nodes.get_mut(prev_item) {
            match topic_items.map(split_topic) {
                Some((topic_item, rest_items)) => node.insert(topic_item, rest_items, content),
                None => {
                    let old = node.content.take();
                    node.content = Some(content);
                    old
                }
            }
        } else {""", D),
 ('=r-entry', T, """        let mut nodes = self.nodes.write();
        if let Some(node) = nodes.get_mut(prev_item) {
            if let Some((topic_item, rest_items)) = topic_items.map(split_topic) {
                node.insert(topic_item, rest_items, content)
            } else {
                node.content.replace(content)
            }
        } else {
            let mut new_node = RetainNode::default();
            if let Some((topic_item, rest_items)) = topic_items.map(split_topic) {
                new_node.insert(topic_item, rest_items, content);
            } else {
                new_node.content = Some(content);
            }
            nodes.insert(prev_item.to_string(), new_node);
            None
        }""", """        let mut nodes = self.nodes.write();
        let node = nodes.entry(prev_item.to_string()).or_insert_with(RetainNode::default);
        if let Some((topic_item, rest_items)) = topic_items.map(split_topic) {
            node.insert(topic_item, rest_items, content)
        } else {
            node.content.replace(content)
        }""", D),
 ('=r-vis', T, """                        if let Some(content) = node.content.as_ref()
                            && !(content.topic_name.starts_with('$') && wildcard_first)
                        {
                            retains.push(Arc::clone(content));
                        }
                    }
                }""", """                        let Some(content) = node.content.as_ref() else { continue };
                        let hidden = wildcard_first && content.topic_name.starts_with('$');
                        if !hidden {
                            retains.push(content.clone());
                        }
                    }
                }""", D),
 ('=r-rm', T, """        let mut old_content = None;
        let mut remove_node = false;
        let mut nodes = self.nodes.write();
        if let Some(node) = nodes.get_mut(prev_item) {""", """        let mut nodes = self.nodes.write();
        let mut old_content = None;
        let mut remove_node = false;
        if !nodes.contains_key(prev_item) {
            return None;
        }
        if let Some(node) = nodes.get_mut(prev_item) {""", D),
 ('=r-pub', U5, """    if msg.retain
        && let Some(old_content) = if msg.payload.is_empty() {
            log::debug!("retain message removed");
            global.retain_table.remove(msg.topic_name)
        } else {""", """    if msg.retain
        && let Some(old_content) = if msg.payload.len() == 0 {
            global.retain_table.remove(&msg.topic_name)
        } else {""", D),
]
