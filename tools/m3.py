P = 'akasa-core/src/protocols/mqtt/'
PE, C3, C5, U3, U5 = P + 'pending.rs', P + 'v3/packet/common.rs', P + 'v5/packet/common.rs', P + 'v3/packet/publish.rs', P + 'v5/packet/publish.rs'
A = ['Q01', 'Q02', 'Q03', 'Q04']
MUTS = [
 ('pubrec-any', PE, 'PendingPacketStatus::New { pid, .. } => {\n                    if *pid == target_pid {\n                        *packet_status = PendingPacketStatus::Pubrec', 'PendingPacketStatus::New { pid, .. } => {\n                    if *pid >= target_pid {\n                        *packet_status = PendingPacketStatus::Pubrec', A),
 ('complete-new-l2', PE, 'PendingPacketStatus::New { pid, .. } if qos == QoS::Level1', 'PendingPacketStatus::New { pid, .. } if qos != QoS::Level0', A),
 ('complete-rec-l1', PE, 'PendingPacketStatus::Pubrec { pid, .. } if qos == QoS::Level2', 'PendingPacketStatus::Pubrec { pid, .. } if qos >= QoS::Level1', A),
 ('clean-pubrec', PE, 'while let Some(PendingPacketStatus::Complete) = self.packets.front()', 'while let Some(PendingPacketStatus::Complete | PendingPacketStatus::Pubrec { .. }) = self.packets.front()', A),
 ('window-off', PE, 'for idx in start_idx..current_inflight {', 'for idx in start_idx..self.packets.len() {', A),
 ('full-off', PE, 'if self.packets.len() >= self.max_packets {', 'if self.packets.len() > self.max_packets {', A),
 ('timeout-off', PE, 'PendingPacketStatus::Pubrec { last_sent, .. } => {\n                    if now_ts >= self.timeout + *last_sent {', 'PendingPacketStatus::Pubrec { last_sent, .. } => {\n                    if now_ts >= *last_sent {', A),
 ('dup-first', PE, 'dup: false,\n        });', 'dup: true,\n        });', A),
 ('reset-new-only', PE, 'PendingPacketStatus::Pubrec { last_sent, .. } => *last_sent = 0,\n', 'PendingPacketStatus::Pubrec { .. } => {}\n', A),
 ('no-dup3', C3, '*dup = true;\n', '', A),
 ('no-dup5', C5, '*dup = true;\n', '', A),
 ('dup-const5', C5, 'dup: *dup,', 'dup: false,', A),
 ('no-sent3', C3, '*last_sent = get_unix_ts();\n                packets.push(Packet::Pubrel', 'packets.push(Packet::Pubrel', A),
 ('qos-low3', C3, 'QoS::Level2 => QosPid::Level2(*pid),', 'QoS::Level2 => QosPid::Level1(*pid),', A),
 ('retain5', C5, 'retain: packet.retain,', 'retain: packet.retain && !*dup,', A),
 ('expire-sent5', C5, 'if *last_sent == 0 && passed_secs', 'if passed_secs', A),
 ('expire-late5', C5, 'passed_secs >= value as u64', 'passed_secs > value as u64', A),
 ('expire-orig5', C5, 'message_expiry_interval = Some(value.saturating_sub(passed_secs as u32));', 'message_expiry_interval = Some(value);', A),
 ('expire-drop5', C5, 'properties.message_expiry_interval = message_expiry_interval;', 'properties.message_expiry_interval = None;', A),
 ('expire-last5', C5, 'let passed_secs = now_ts - *added_at;', 'let passed_secs = now_ts - *last_sent;', A),
 ('pubcomp-l1', U5, 'packet.pid, QoS::Level2);', 'packet.pid, QoS::Level1);', A),
 ('alias-topic5', C5, 'if !is_new_mapping {\n                            topic_name', 'if alias > 0 {\n                            topic_name', A),
 ('start-idx', C3, 'start_idx = idx + 1;', 'start_idx = idx + 2;', A),
 ('=iter', PE, '''        for idx in 0..current_inflight {
            let packet_status = self.packets.get_mut(idx).expect("packet");
            match packet_status {
                PendingPacketStatus::New { pid, .. } => {
                    if *pid == target_pid {
                        *packet_status = PendingPacketStatus::Pubrec {
                            last_sent: get_unix_ts(),
                            pid: target_pid,
                        };
                        return true;
                    }
                }
                PendingPacketStatus::Pubrec { .. } => {}
                PendingPacketStatus::Complete => {}
            }
        }
        false''', '''        for packet_status in self.packets.iter_mut().take(current_inflight) {
            if let PendingPacketStatus::New { pid, .. } = packet_status
                && *pid == target_pid
            {
                let pid = *pid;
                *packet_status = PendingPacketStatus::Pubrec { last_sent: get_unix_ts(), pid };
                return true;
            }
        }
        false''', A),
 ('=ready', PE, '''                PendingPacketStatus::New { last_sent, .. } => {
                    if now_ts >= self.timeout + *last_sent {
                        next_idx = Some(idx);
                        break;
                    }
                }
                PendingPacketStatus::Pubrec { last_sent, .. } => {
                    if now_ts >= self.timeout + *last_sent {
                        next_idx = Some(idx);
                        break;
                    }
                }
                PendingPacketStatus::Complete => {}''', '''                PendingPacketStatus::New { last_sent, .. }
                | PendingPacketStatus::Pubrec { last_sent, .. } => {
                    let due = self.timeout + *last_sent;
                    if due <= now_ts {
                        next_idx = Some(idx);
                        break;
                    }
                }
                PendingPacketStatus::Complete => {}''', A),
 ('=helper5', C5, [('''                let rv_packet = Publish {
                    dup: *dup,
                    retain: packet.retain,
                    qos_pid,
                    topic_name,
                    payload: packet.payload.clone(),
                    properties,
                };
                *dup = true;
                *last_sent = now_ts;
                packets.push(rv_packet.into());''', '''                let was = std::mem::replace(dup, true);
                *last_sent = now_ts;
                packets.push(build(was, packet, qos_pid, topic_name, properties).into());'''), ('''#[inline]
pub(crate) fn handle_pendings(''', '''fn build(dup: bool, p: &super::PubPacket, qos_pid: QosPid, topic_name: TopicName, properties: mqtt_proto::v5::PublishProperties) -> Publish {
    Publish { dup, retain: p.retain, qos_pid, topic_name, payload: p.payload.clone(), properties }
}
#[inline]
pub(crate) fn handle_pendings(''')], A),
 ('=expiry5', C5, '''                    let passed_secs = now_ts - *added_at;
                    if *last_sent == 0 && passed_secs >= value as u64 {
                        expired_packets.push(*pid);
                        continue;
                    }
                    message_expiry_interval = Some(value.saturating_sub(passed_secs as u32));''', '''                    let passed_secs = now_ts - *added_at;
                    let expired = u64::from(value) <= passed_secs;
                    if expired && *last_sent == 0 {
                        expired_packets.push(*pid);
                        continue;
                    }
                    let left = if expired { 0 } else { value - passed_secs as u32 };
                    message_expiry_interval = Some(left);''', A),
 ('=while3', C3, '''    while let Some((idx, packet_status)) = session.pending_packets.get_ready_packet(start_idx) {
        start_idx = idx + 1;''', '''    loop {
        let Some((idx, packet_status)) = session.pending_packets.get_ready_packet(start_idx) else { break };
        start_idx = idx + 1;''', A),
]
B = ['Q05']
MUTS += [
 ('l2-no-insert3', U3, 'session.qos2_pids.insert(pid, current_hash);', 'let _ = current_hash;', B),
 ('l2-twice5', U5, 'redelivered = true;', 'redelivered = packet.dup && packet.retain;', B),
 ('l2-limit5', U5, 'session.qos2_pids.len() >= global.config.max_inflight_server as usize', 'session.qos2_pids.len() > global.config.max_inflight_server as usize', B),
 ('rel-keep3', U3, 'session.qos2_pids.remove(&pid).is_none()', '!session.qos2_pids.contains_key(&pid)', B),
 ('rel-reason5', U5, 'session.qos2_pids.remove(&packet.pid).is_some()', 'session.qos2_pids.remove(&packet.pid).is_none()', B),
 ('hash-dup5', U5, 'packet_content.dup = false;', '', B),
 ('drop-level1', U3, 'if !redelivered {', 'if !redelivered && !(packet.dup && packet.qos_pid.qos() == mqtt_proto::QoS::Level1) {', B),
 ('pubrec-pid', U3, 'QosPid::Level2(pid) => Ok(Some(Packet::Pubrec(pid))),', 'QosPid::Level2(pid) => Ok(Some(Packet::Pubcomp(pid))),', B),
 ('send-dropped5', U5, "    if !properties.subscription_ids.is_empty() {", "    if !properties.subscription_ids.is_empty() && packet.dup {", B),
 ('clear-on-complete', U3, "let _matched = session.pending_packets.complete(pid, QoS::Level2);", "let _matched = session.pending_packets.complete(pid, QoS::Level2); session.qos2_pids.remove(&pid);", B),
 ('in-use-forward5', U5, '            // hash collision is acceptable here, since u16 packet identifier is a small range\n            if current_hash != *previous_hash {', '            if current_hash != *previous_hash && !packet.dup {', B),
 ('=split3', U3, [('    let mut redelivered = false;\n    if let QosPid::Level2(pid) = packet.qos_pid {', '    let redelivered = match check_qos2(session, &packet) { Ok(v) => v, Err(e) => return Err(e) };\n    if false {\n        let pid = Pid::default();\n        let mut redelivered = false;\n        let _ = &mut redelivered;')], B),
 ('=entry5', U5, '''        } else {
            // FIXME: check qos2_pids limit
            session.qos2_pids.insert(pid, current_hash);
        }''', '''        } else {
            *session.qos2_pids.entry(pid).or_default() = current_hash;
        }''', B),
 ('=rel5', U5, '''    let reason_code = if session.qos2_pids.remove(&packet.pid).is_some() {
        PubcompReasonCode::Success
    } else {
        PubcompReasonCode::PacketIdentifierNotFound
    };''', '''    let reason_code = match session.qos2_pids.remove(&packet.pid) {
        None => PubcompReasonCode::PacketIdentifierNotFound,
        Some(_) => PubcompReasonCode::Success,
    };''', B),
 ('=contains3', U3, 'session.qos2_pids.insert(pid, current_hash);', 'if !session.qos2_pids.contains_key(&pid) { session.qos2_pids.insert(pid, current_hash); }', B),
]
MUTS = [m for m in MUTS if m[0] != '=split3']
MUTS += [('=split3', U3, [('''    let mut redelivered = false;
    if let QosPid::Level2(pid) = packet.qos_pid {
        let mut hasher''', '''    let mut redelivered = false;
    if let QosPid::Level2(pid) = packet.qos_pid {
        redelivered = seen_before(session, &packet, pid)?;
    }
    if !redelivered {
        let encode_len = total_len(packet.encode_len()).expect("packet too large");
        let msg = SendPublish { topic_name: &packet.topic_name, retain: packet.retain, qos: packet.qos_pid.qos(), payload: &packet.payload, encode_len };
        send_publish(session, msg, global);
    }
    Ok(match packet.qos_pid {
        QosPid::Level0 => None,
        QosPid::Level1(pid) => Some(Packet::Puback(pid)),
        QosPid::Level2(pid) => Some(Packet::Pubrec(pid)),
    })
}

fn seen_before(session: &mut Session, packet: &Publish, pid: Pid) -> io::Result<bool> {
    let mut redelivered = false;
    {
        let mut hasher'''), ('''    if !redelivered {
        let encode_len = total_len(packet.encode_len()).expect("packet too large");
        send_publish(
            session,
            SendPublish {
                topic_name: &packet.topic_name,
                retain: packet.retain,
                qos: packet.qos_pid.qos(),
                payload: &packet.payload,
                encode_len,
            },
            global,
        );
    }
    match packet.qos_pid {
        QosPid::Level0 => Ok(None),
        QosPid::Level1(pid) => Ok(Some(Packet::Puback(pid))),
        QosPid::Level2(pid) => Ok(Some(Packet::Pubrec(pid))),
    }
}''', '''    Ok(redelivered)
}''')], B)]
