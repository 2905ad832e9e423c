M = 'akasa-core/src/protocols/mqtt/'
T = M + 'common.rs'
V3, V5 = M + 'v3/message.rs', M + 'v5/message.rs'
C3, C5 = M + 'v3/packet/connect.rs', M + 'v5/packet/connect.rs'
P3, P5 = M + 'v3/packet/common.rs', M + 'v5/packet/common.rs'
PUB3 = M + 'v3/packet/publish.rs'
K = ['K01']
ST3 = """    start_keep_alive_timer(
        session.keep_alive,
        session.client_id,
        &session.last_packet_time,
        global,
    )?;
"""
MUTS = [
('strong', T, """                    let last_packet_time = last_packet_time.upgrade()?;
""", """                    let Some(last_packet_time) = last_packet_time.upgrade() else { return Some(half_interval) };
""", K),
('strong-2', T, """        let last_packet_time = Arc::downgrade(last_packet_time);
        let global = Arc::clone(global);
        let action_gen = move || {
            // Need clone twice: https://stackoverflow.com/a/68462908/1274372
            let last_packet_time = Weak::clone(&last_packet_time);
            let global = Arc::clone(&global);
            async move {
                {
                    let last_packet_time = last_packet_time.upgrade()?;
""", """        let last_packet_time = Arc::clone(last_packet_time);
        let _: Option<Weak<()>> = None;
        let global = Arc::clone(global);
        let action_gen = move || {
            // Need clone twice: https://stackoverflow.com/a/68462908/1274372
            let last_packet_time = Arc::clone(&last_packet_time);
            let global = Arc::clone(&global);
            async move {
                {
""", K),
('limit-2', T, "half_interval * 3 {", "half_interval * 2 {", K),
('limit-4', T, "half_interval * 3 {", "half_interval * 4 {", K),
('neg', T, "elapsed() <= half", "elapsed() > half", K),
('ms', T, "keep_alive as u64 * 500", "keep_alive as u64 * 50", K),
('min-1', T, "if keep_alive > 0 {", "if keep_alive > 1 {", K),
('always', T, "if keep_alive > 0 {", "if keep_alive < u16::MAX {", K),
('sleep-2', T, "return Some(half_interval);", "return Some(half_interval * 2);", K),
('sleep-0', T, "return Some(half_interval);", "return Some(Duration::from_millis(0));", K),
('once', T, "while let Some(duration) = action_gen().await {\n                tokio::time::sleep(duration).await;\n            }", "if let Some(duration) = action_gen().await {\n                tokio::time::sleep(duration).await;\n                action_gen().await;\n            }", K),
('no-kick', T, "if let Err(err) = sender.send_async(msg).await {", "if sender.is_full() { return None; }\n                    if let Err(err) = sender.send_async(msg).await {", K),
('no-timer3', C3, ST3, "    if !session_present {\n" + ST3 + "    }\n", K),
('no-timer5', C5, ST3, "    if session.server_keep_alive || session.keep_alive < 60 {\n" + ST3 + "    }\n", K),
('not-noted3', P3, "    *session.last_packet_time.write() = Instant::now();\n", "    if !session.pending_packets.is_empty() { return handle_pendings(session); }\n    *session.last_packet_time.write() = Instant::now();\n", K),
('not-noted5', P5, "    *session.last_packet_time.write() = Instant::now();\n", "    if session.client_identifier.is_empty() { *session.last_packet_time.write() = Instant::now(); }\n", K),
('loop5', V5, "        let pending_packets = after_handle_packet(self);", "        let pending_packets = handle_pendings(self);", K),
('new-time', P3, "    *session.last_packet_time.write() = Instant::now();\n", "    session.last_packet_time = std::sync::Arc::new(parking_lot::RwLock::new(Instant::now()));\n", K),
('elsewhere', V3, "        handle_pendings(self)", "        *self.last_packet_time.write() = std::time::Instant::now();\n        handle_pendings(self)", K),
('kick-offline', V5, "            if offline {\n                log::info!(\n                    \"ignore kick", "            if offline && session.connected {\n                log::info!(\n                    \"ignore kick", ['C05']),
('=secs', T, "Duration::from_millis(keep_alive as u64 * 500)", "Duration::from_secs(keep_alive as u64) / 2", K),
('=gt', T, """                    if last_packet_time.elapsed() <= half_interval * 3 {
                        return Some(half_interval);
                    }
                }""", """                    let idle = Instant::now().duration_since(*last_packet_time);
                    let late = idle > half_interval * 3;
                    if !late {
                        return Some(half_interval);
                    }
                }""", K),
('=remaining', T, "return Some(half_interval);", "return Some((half_interval * 3).saturating_sub(last_packet_time.elapsed()) + Duration::from_millis(10));", K),
('=loop', T, "while let Some(duration) = action_gen().await {\n                tokio::time::sleep(duration).await;\n            }", "loop {\n                match action_gen().await {\n                    Some(duration) => tokio::time::sleep(duration).await,\n                    None => break,\n                }\n            }", K),
('=early-ret', T, "    if keep_alive > 0 {\n", "    if keep_alive == 0 {\n        return Ok(());\n    }\n    {\n", K),
]
