S = 'akasa-core/src/state.rs'
P = ['C04']
MUTS = [
('dup-count', S, '''                    if !*online {
                        *online = true;
                        self.online_clients.fetch_add(1, Ordering::AcqRel);
                    }
''', '''                    self.online_clients.fetch_add(1, Ordering::AcqRel);
                    *online = true;
''', P),
('no-flag', S, '                        *online = true;\n', '', P),
('no-count-take', S, '''                        *online = true;
                        self.online_clients.fetch_add(1, Ordering::AcqRel);
''', '                        *online = true;\n', P),
('new-flag-false', S, '(client_identifier.to_string(), true)', '(client_identifier.to_string(), false)', P),
('no-next', S, '                next_client_id.0 += 1;\n', '', P),
('next-first', S, '''                let client_id = *next_client_id;
''', '''                next_client_id.0 += 1;
                let client_id = *next_client_id;
''', P),
('next-only-some', S, '                next_client_id.0 += 1;\n', '                if protocol >= Protocol::V500 { next_client_id.0 += 1; }\n', P),
('swap-chan', S, '''                    receiver: ClientReceiver {
                        control: control_receiver,
                        normal: normal_receiver,
''', '''                    receiver: ClientReceiver {
                        control: control_receiver,
                        normal: bounded(8).1,
''', P),
('no-ident', S, '''                self.client_identifier_map
                    .insert(client_identifier.to_string(), client_id);
''', '', P),
('ident-other', S, '.insert(client_identifier.to_string(), client_id);', '.insert(client_identifier.to_lowercase(), client_id);', P),
('no-clients', S, '''                self.clients.insert(client_id, sender);
''', '                drop(sender);\n', P),
('rm-no-ident', S, '            self.client_identifier_map.remove(&client_identifier);\n', '            let _ = client_identifier;\n', P),
('rm-count-always', S, '''            if online {
                assert_ne!(self.online_clients.fetch_sub(1, Ordering::AcqRel), 0);
            }
''', '''            let _ = online;
            assert_ne!(self.online_clients.fetch_sub(1, Ordering::AcqRel), 0);
''', P),
('rm-count-inv', S, '            if online {\n', '            if !online {\n', P),
('rm-no-sender', S, '        self.clients.remove(&client_id);\n', '', P),
('rm-sender-cond', S, '''                assert_ne!(self.online_clients.fetch_sub(1, Ordering::AcqRel), 0);
            }
        }
        self.clients.remove(&client_id);
''', '''                assert_ne!(self.online_clients.fetch_sub(1, Ordering::AcqRel), 0);
                self.clients.remove(&client_id);
            }
        }
''', P),
('rm-nolock', S, '''        // keep client operation atomic
        let _guard = self.next_client_id.lock();
''', '', P),
('rm-lock-drop', S, '''        // keep client operation atomic
        let _guard = self.next_client_id.lock();
''', '        let _ = self.next_client_id.lock();\n', P),
('rm-skip-first', S, 'for filter in subscribes {', 'for filter in subscribes.into_iter().skip(1) {', P),
('rm-no-unsub', S, '''        for filter in subscribes {
            self.route_table.unsubscribe(filter, client_id);
        }
''', '        let _ = subscribes;\n', P),
('off-nolock', S, '''    pub fn offline_client(&self, client_id: ClientId) {
        let _guard = self.next_client_id.lock();
''', '''    pub fn offline_client(&self, client_id: ClientId) {
''', P),
('off-noflag', S, '                *online = false;\n', '', P),
('off-nocount', S, '''                *online = false;
                assert_ne!(self.online_clients.fetch_sub(1, Ordering::AcqRel), 0);
''', '                *online = false;\n', P),
('off-always', S, '''            if *online {
                *online = false;
                assert_ne!(self.online_clients.fetch_sub(1, Ordering::AcqRel), 0);
            }
''', '''            *online = false;
            assert_ne!(self.online_clients.fetch_sub(1, Ordering::AcqRel), 0);
''', P),
('off-remove', S, '''            if *online {
                *online = false;
''', '''            if *online {
                *online = false;
                self.clients.remove(&client_id);
''', P),
('wait-locked', S, '''                self.get_client_control_sender(&old_id).unwrap()
''', '''                let s = self.get_client_control_sender(&old_id).unwrap();
                self.client_identifier_map.remove(client_identifier);
                s
''', P),
('early-unlock', S, '''            let mut next_client_id = self.next_client_id.lock();
            let client_id_opt: Option<ClientId> = self
                .client_identifier_map
                .get(client_identifier)
                .map(|pair| *pair.value());
''', '''            let client_id_opt: Option<ClientId> = self
                .client_identifier_map
                .get(client_identifier)
                .map(|pair| *pair.value());
            let mut next_client_id = self.next_client_id.lock();
''', P),
('other-remove', S, '''        self.clients
            .get(client_id)
            .map(|pair| pair.value().normal.clone())
''', '''        let s = self.clients
            .get(client_id)
            .map(|pair| pair.value().normal.clone());
        if s.as_ref().is_some_and(|s| s.is_disconnected()) {
            self.clients.remove(client_id);
        }
        s
''', P),
('=match', S, '''            if online {
                assert_ne!(self.online_clients.fetch_sub(1, Ordering::AcqRel), 0);
            }
''', '''            match online {
                true => assert!(self.online_clients.fetch_sub(1, Ordering::AcqRel) > 0),
                false => {}
            }
''', P),
('=clients-first', S, [('''        self.clients.remove(&client_id);
        for filter''', '''        for filter'''), ('''        if let Some((_, (client_identifier, online))) =''', '''        self.clients.remove(&client_id);
        if let Some((_, (client_identifier, online))) =''')], P),
('=foreach', S, '''        for filter in subscribes {
            self.route_table.unsubscribe(filter, client_id);
        }
''', '''        subscribes
            .into_iter()
            .for_each(|filter| self.route_table.unsubscribe(filter, client_id));
''', P),
('=helper-dec', S, [('''                assert_ne!(self.online_clients.fetch_sub(1, Ordering::AcqRel), 0);
            }
        }
        self.clients''', '''                self.one_less();
            }
        }
        self.clients'''), ('''    // When clean_session=0 and client disconnected
''', '''    fn one_less(&self) {
        assert_ne!(self.online_clients.fetch_sub(1, Ordering::AcqRel), 0);
    }

    // When clean_session=0 and client disconnected
''')], P),
('=helper-new', S, [('''                let client_id = *next_client_id;
                self.client_id_map
                    .insert(client_id, (client_identifier.to_string(), true));
                self.online_clients.fetch_add(1, Ordering::AcqRel);
                self.client_identifier_map
                    .insert(client_identifier.to_string(), client_id);
''', '''                let client_id = *next_client_id;
                self.enter(client_id, client_identifier);
'''), ('''    // When clean_session=0 and client disconnected
''', '''    fn enter(&self, client_id: ClientId, name: &str) {
        self.client_identifier_map.insert(name.to_owned(), client_id);
        self.client_id_map.insert(client_id, (name.to_owned(), true));
        self.online_clients.fetch_add(1, Ordering::AcqRel);
    }

    // When clean_session=0 and client disconnected
''')], P),
('=match-id', S, '''            if let Some(old_id) = client_id_opt {
                if let Some''', '''            if client_id_opt.is_some() {
                let old_id = client_id_opt.unwrap();
                if let Some''', P),
('=next-id', S, '                next_client_id.0 += 1;\n', '                *next_client_id = ClientId(client_id.0 + 1);\n', P),
('=drop-guard', S, '''        for filter in subscribes {
            self.route_table''', '''        drop(_guard);
        for filter in subscribes {
            self.route_table''', P),
('=off-replace', S, '''            if *online {
                *online = false;
                assert_ne''', '''            if std::mem::replace(online, false) {
                assert_ne''', P),
]
