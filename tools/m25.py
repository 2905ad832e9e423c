"""V01"""
F = 'akasa-core/src/config.rs'
Q = '''        if self.max_packet_size_server == 0 {
            log::error!("invalid server max_packet_size, 0 is not allowed");
            return false;
        }
'''
ME = '''        for mechanism in &self.sasl_mechanisms {
            if mechanism != &SaslMechanism::ScramSha256 {
                log::error!("invalid sasl_mechanism, only `SCRAM-SHA-256` is allowed");
                return false;
            }
        }
'''
SC = '''        for password_info in self.scram_users.values() {
            if password_info.iterations < 4096 {
                // RFC-7677: For the SCRAM-SHA-256 and SCRAM-SHA-256-PLUS SASL
                // mechanisms, the hash iteration-count announced by a server
                // SHOULD be at least 4096.
                log::error!("scram_users password iterations must >= 4096 (see RFC-7677)");
                return false;
            }
        }
'''
LI = '''            mqtt: None,
            mqtts: None,
            ws: None,
            wss: None,
            http: None,
'''
MUTS = [
 ('qos3', F, 'if self.max_allowed_qos > 2 {', 'if self.max_allowed_qos > 3 {', ['V01']),
 ('qos1', F, 'if self.max_allowed_qos > 2 {', 'if self.max_allowed_qos > 1 {', ['V01']),
 ('auth-or', F, 'if self.auth.enable && self.auth.password_file.is_none() {', 'if self.auth.enable && self.auth.password_file.is_none() && self.scram_users.is_empty() {', ['V01']),
 ('auth-always', F, 'if self.auth.enable && self.auth.password_file.is_none() {', 'if self.auth.password_file.is_none() {', ['V01']),
 ('pkt-dup', F, 'if self.max_packet_size_server == 0 {', 'if self.max_packet_size_client == 0 {', ['V01']),
 ('pkt-gone', F, Q, '', ['V01']),
 ('mech-break', F, 'if mechanism != &SaslMechanism::ScramSha256 {', 'if mechanism == &SaslMechanism::ScramSha256 { break; } else {', ['V01']),
 ('mech-plus', F, 'if mechanism != &SaslMechanism::ScramSha256 {', 'if mechanism == &SaslMechanism::ScramSha256Plus && self.sasl_mechanisms.len() == 1 {', ['V01']),
 ('mech-gone', F, ME, '', ['V01']),
 ('iter-low', F, 'password_info.iterations < 4096', 'password_info.iterations < 1024', ['V01']),
 ('iter-le', F, 'password_info.iterations < 4096', 'password_info.iterations <= 4096', ['V01']),
 ('iter-first', F, 'for password_info in self.scram_users.values() {', 'if let Some(password_info) = self.scram_users.values().next() {', ['V01']),
 ('iter-skip', F, 'for password_info in self.scram_users.values() {', 'for password_info in self.scram_users.values().skip(1) {', ['V01']),
 ('iter-last', F, SC, '''        let mut ok = true;
        for password_info in self.scram_users.values() {
            ok = password_info.iterations >= 4096;
        }
        if !ok {
            return false;
        }
''', ['V01']),
 ('listen-http', F, LI, LI.replace('            http: None,\n', '            ..\n'), ['V01']),
 ('listen-wss', F, LI, LI.replace('            wss: None,\n', '            wss: Some(_),\n'), ['V01']),
 ('level-swap', F, '            1 => QoS::Level1,\n            2 => QoS::Level2,', '            1 => QoS::Level1,\n            2 if self.retain_available => QoS::Level2,', ['V01']),
 ('level-1', F, '            1 => QoS::Level1,', '            1 => QoS::Level2,', ['V01']),
 ('anon', F, '''            auth: AuthConfig {
                enable: false,
                password_file: None,''', '''            auth: AuthConfig {
                enable: true,
                password_file: Some(PathBuf::new()),''', ['V01']),
 ('=mech-all', F, ME, '''        if !self.sasl_mechanisms.iter().all(|m| *m == SaslMechanism::ScramSha256) {
            return false;
        }
''', ['V01']),
 ('=mech-any', F, ME, '''        if self.sasl_mechanisms.iter().any(|m| m != &SaslMechanism::ScramSha256) {
            log::error!("invalid");
            return false;
        }
''', ['V01']),
 ('=mech-match', F, 'if mechanism != &SaslMechanism::ScramSha256 {', 'if !matches!(mechanism, SaslMechanism::ScramSha256) {', ['V01']),
 ('=iter-pairs', F, SC, '''        for (_name, info) in &self.scram_users {
            if info.iterations >= 4096 {
                continue;
            }
            return false;
        }
''', ['V01']),
 ('=iter-any', F, SC, '''        let weak = |info: &ScramPasswordInfo| info.iterations < 4096;
        if self.scram_users.values().any(weak) {
            return false;
        }
''', ['V01']),
 ('=iter-flag', F, SC, '''        let mut ok = true;
        for password_info in self.scram_users.values() {
            ok = ok && password_info.iterations >= 4096;
        }
        if !ok {
            return false;
        }
''', ['V01']),
 ('=iter-find', F, SC, '''        if let Some((name, _)) = self.scram_users.iter().find(|(_, info)| info.iterations < 4096) {
            log::error!("{}", name);
            return false;
        }
''', ['V01']),
 ('=listen-any', F, '''        if let Listeners {
%s        } = self.listeners
        {''' % LI, '''        let l = &self.listeners;
        let any = l.mqtt.is_some() || l.mqtts.is_some() || l.ws.is_some() || l.wss.is_some() || l.http.is_some();
        if !any {''', ['V01']),
 ('=all-helper', F, Q, '''        if !positive(self.max_packet_size_server) {
            return false;
        }
''', ['V01']) ,
 ('=expr', F, '''            log::error!("No listen address found");
            return false;
        }
        true''', '''            log::error!("No listen address found");
            false
        } else {
            true
        }''', ['V01']),
 ('=level-try', F, '            0 => QoS::Level0,\n', '            0u8 => QoS::Level0,\n', ['V01']),
]
for i, m in enumerate(MUTS):
    if m[0] == '=all-helper':
        MUTS[i] = (m[0], m[1], [(m[2], m[3]), ('impl FromStr for SaslMechanism {', 'fn positive(n: u32) -> bool {\n    n > 0\n}\n\nimpl FromStr for SaslMechanism {')], m[4])
