M = 'akasa-core/src/protocols/mqtt/'
V3, V5, H = M + 'v3/message.rs', M + 'v5/message.rs', 'akasa-core/src/hook.rs'
D, K = ['D01'], ['H01']
MUTS = [
('large-off', V5, "if encode_len > global.config.max_packet_size_server as usize {", "if encode_len > global.config.max_packet_size_server as usize + 5 {", D),
('large-ge', V3, "if encode_len > global.config.max_packet_size_server as usize {", "if encode_len >= global.config.max_packet_size_server as usize {", D),
('large-client', V5, "if encode_len > global.config.max_packet_size_server as usize {", "if encode_len > global.config.max_packet_size_client as usize {", D),
('large-code', V5, "DisconnectReasonCode::PacketTooLarge,", "DisconnectReasonCode::MalformedPacket,", D),
('large-go', V5, "            write_packets.push_back(err_pkt.into());\n            return Ok(None);\n        }\n\n        match packet {", "            write_packets.push_back(err_pkt.into());\n        }\n\n        match packet {", D),
('rec-comp', V5, "Packet::Pubcomp(pkt) => handle_pubcomp(self, pkt),", "Packet::Pubcomp(_) => {}", D),
('rel-noans', V3, "Packet::Pubrel(pid) => write_packets.push_back(handle_pubrel(self, pid).into()),", "Packet::Pubrel(pid) => { let p = handle_pubrel(self, pid); if write_packets.len() < 64 { write_packets.push_back(p.into()) } }", D),
('rel-front', V3, "Packet::Pubrel(pid) => write_packets.push_back(handle_pubrel(self, pid).into()),", "Packet::Pubrel(pid) => write_packets.push_front(handle_pubrel(self, pid).into()),", D),
('ack-as-comp', V3, "Packet::Pubcomp(pid) => handle_pubcomp(self, pid),", "Packet::Pubcomp(pid) => handle_puback(self, pid),", D),
('hook-wrong', V5, "if global.config.hook.enable_unsubscribe {", "if global.config.hook.enable_subscribe {", D),
('hook-and', V3, "if global.config.hook.enable_publish {", "if global.config.hook.enable_publish && global.config.hook.enable_before_connect {", D),
('ping-none', V3, "write_packets.push_back(Packet::Pingresp.into())", "if write_packets.is_empty() { write_packets.push_back(Packet::Pingresp.into()) }", D),
('other-ok', V3, "                return Err(Some(io::ErrorKind::InvalidData.into()));\n            }\n        }\n        Ok(None)", "            }\n        }\n        Ok(None)", D),
('auth-ok', V5, "            Packet::Pingreq => {", "            Packet::Auth(_) => {}\n            Packet::Pingreq => {", D),
('pub-err', V5, "                        Err(err_pkt) => write_packets.push_back(err_pkt.into()),\n                    }\n                }\n            }\n            Packet::Puback", "                        Err(_) => {}\n                    }\n                }\n            }\n            Packet::Puback", D),
('sub-first', V5, "write_packets.extend(packets.into_iter().map(WritePacket::Packet))", "write_packets.extend(packets.into_iter().last().map(WritePacket::Packet))", []),
('sub-swallow', V3, "let retain_packets = handle_subscribe(self, &pkt, global)?;", "let retain_packets = handle_subscribe(self, &pkt, global).unwrap_or_default();", D),
('disc-err', V5, "                    write_packets.push_back(err_pkt.into());\n                }\n            }\n            Packet::Publish", "                    let _ = err_pkt;\n                }\n            }\n            Packet::Publish", D),
('=loop-sub', V5, "write_packets.extend(packets.into_iter().map(WritePacket::Packet))", "for p in packets { write_packets.push_back(WritePacket::Packet(p)); }", D),
('=large-flip', V5, "if encode_len > global.config.max_packet_size_server as usize {", "let limit = global.config.max_packet_size_server as usize;\n        if limit < encode_len {", D),
('=let-flag', V5, "                if global.config.hook.enable_publish {", "                let ask = global.config.hook.enable_publish;\n                if ask {", D),
('=pub-if', V3, "} else if let Some(packet) = handle_publish(self, pkt, global).map_err(Some)? {\n                    write_packets.push_back(packet.into());\n                }", "} else {\n                    let answer = match handle_publish(self, pkt, global) { Ok(x) => x, Err(err) => return Err(Some(err)) };\n                    write_packets.extend(answer.map(|p| p.into()));\n                }", D),
('=ping-let', V3, "write_packets.push_back(Packet::Pingresp.into())", "let pong: WritePacket<Packet> = Packet::Pingresp.into();\n                write_packets.push_back(pong);", D),
# H01
('gate-after', V5, "if global.config.hook.enable_after_connect {", "if global.config.hook.enable_before_connect {", K),
('gate-gone', V3, "if global.config.hook.enable_after_disconnect {", "if global.config.hook.enable_after_connect {", K),
('gate-gone-taken', V5, "if global.config.hook.enable_after_disconnect {", "if global.config.hook.enable_after_disconnect && !taken_over {", K),
('before-late', V3, """    // Run before connect hook
    if global.config.hook.enable_before_connect {
        before_connect_hook(peer, &packet, hook_handler, global).await?;
    }

    let session_present =
        handle_connect(&mut session, &mut receiver, packet, &mut conn, global).await?;
""", """    let packet2 = packet.clone();
    let session_present =
        handle_connect(&mut session, &mut receiver, packet, &mut conn, global).await?;
    // Run before connect hook
    if global.config.hook.enable_before_connect {
        before_connect_hook(peer, &packet2, hook_handler, global).await?;
    }
""", K),
('before-ignored', V3, "before_connect_hook(peer, &packet, hook_handler, global).await?;", "let _ = before_connect_hook(peer, &packet, hook_handler, global).await;", K),
('before-code', V3, "if code != ConnectReturnCode::Accepted {", "if code == ConnectReturnCode::NotAuthorized {", K),
('before-answer', V5, "build_error_connack(session, false, code, \"\");\n        write_packet", "build_error_connack(session, false, ConnectReasonCode::NotAuthorized, \"\");\n        write_packet", K),
('before-noanswer', V5, "        let err_pkt = build_error_connack(session, false, code, \"\");\n        write_packet(session.client_id, conn, &err_pkt).await?;\n        return Err(io::ErrorKind::InvalidData.into());\n    }\n    Ok(())", "        let _ = conn;\n        return Err(io::ErrorKind::InvalidData.into());\n    }\n    Ok(())", K),
('taken-false', V5, "let locked_hook_context = LockedHookContext::new(session, &mut Default::default());\n    let hook_request = HookRequest::V5AfterDisconnect {\n        context: locked_hook_context,\n        taken_over,", "let locked_hook_context = LockedHookContext::new(session, &mut Default::default());\n    let _ = taken_over;\n    let hook_request = HookRequest::V5AfterDisconnect {\n        context: locked_hook_context,\n        taken_over: false,", K),
('veto-v3', H, "                // TODO: return error or just ignore the packet?\n                Ok(_) => Err(Some(io::ErrorKind::InvalidData.into())),", "                Ok(HookPublishCode::QuotaExceeded) => v3_handle_publish(session, publish.clone(), &global).map(|_| Vec::new()).map_err(Some),\n                Ok(_) => Err(Some(io::ErrorKind::InvalidData.into())),", K),
('veto-ok3', H, "                // TODO: return error or just ignore the packet?\n                Ok(_code) => Err(Some(io::ErrorKind::InvalidData.into())),", "                Ok(_code) => Ok(Vec::new()),", K),
('err-ok', H, "                    Ok(Vec::new())\n                }\n                Err(err) => Err(Some(err.into())),", "                    Ok(Vec::new())\n                }\n                Err(_) => Ok(Vec::new()),", K),
('changed', H, "match v5_handle_publish(session, publish.clone(), &global) {", "match v5_handle_publish(session, original.clone(), &global) {", []),
('pub-after-skip', H, """                            if let Some(packet) = packet_opt {
                                write_packets.push_back(packet.into());
                            }
                            handler
                                .v5_after_publish(session, encode_len, body, &publish, changed)
                                .await
                                .map_err(|err| Some(err.into()))""", """                            if let Some(packet) = packet_opt {
                                write_packets.push_back(packet.into());
                                return HookResponse::Normal(Ok(Vec::new()));
                            }
                            handler
                                .v5_after_publish(session, encode_len, body, &publish, changed)
                                .await
                                .map_err(|err| Some(err.into()))""", K),
('rec-ack', H, """                        QosPid::Level2(pid) => {
                            let pkt: v5::Packet = v5::Pubrec {
                                pid,
                                reason_code: code.to_v5_pubrec_code(),
                                properties: v5::PubrecProperties::default(),
                            }""", """                        QosPid::Level2(pid) => {
                            let pkt: v5::Packet = v5::Puback {
                                pid,
                                reason_code: code.to_v5_puback_code(),
                                properties: v5::PubackProperties::default(),
                            }""", K),
('suback-one', H, "let topics = vec![reason_code; subscribe.topics.len()];", "let topics = vec![reason_code; 1];", K),
('unsub-len', H, "let topics = vec![reason_code; unsubscribe.topics.len()];", "let topics = vec![reason_code];", K),
('suback-code', H, "let reason_code = code.to_v5_code();\n                    let topics = vec![reason_code; subscribe", "let _ = code;\n                    let reason_code = v5::SubscribeReasonCode::NotAuthorized;\n                    let topics = vec![reason_code; subscribe", K),
('map-quota', H, "Self::QuotaExceeded => v5::PubackReasonCode::QuotaExceeded,", "Self::QuotaExceeded => v5::PubackReasonCode::NoMatchingSubscribers,", K),
('map-v3', H, "            _ => v3::ConnectReturnCode::ServerUnavailable,", "            Self::QuotaExceeded => v3::ConnectReturnCode::Accepted,\n            _ => v3::ConnectReturnCode::ServerUnavailable,", K),
('map-sub', H, "Self::UnspecifiedError => v5::SubscribeReasonCode::UnspecifiedError,", "Self::UnspecifiedError => v5::SubscribeReasonCode::GrantedQoS0,", K),
('wrong-hook', H, ".v5_before_unsubscribe(session, encode_len, body, &mut unsubscribe, &mut changed)", ".v5_before_unsubscribe(session, encode_len, body, &mut unsubscribe.clone(), &mut changed)", K),
('unsub-lost', H, "                    let unsuback = v5_handle_unsubscribe(session, &unsubscribe, &global);\n                    write_packets.push_back(unsuback.into());", "                    let unsuback = v5_handle_unsubscribe(session, &unsubscribe, &global);\n                    if !changed { write_packets.push_back(unsuback.into()); }", K),
('actions-lost', H, """                    handler
                        .v3_after_unsubscribe(session, encode_len, body, &unsubscribe, changed)
                        .await
                        .map_err(|err| Some(err.into()))""", """                    handler
                        .v3_after_unsubscribe(session, encode_len, body, &unsubscribe, changed)
                        .await
                        .map(|_| Vec::new())
                        .map_err(|err| Some(err.into()))""", K),
('=verdict-if', H, """                // TODO: return error or just ignore the packet?
                Ok(_code) => Err(Some(io::ErrorKind::InvalidData.into())),
                Err(err) => Err(Some(err.into())),
            };
            HookResponse::Normal(receipt)
        }
        HookRequest::V3Unsubscribe {""", """                Ok(code) if code != HookSubscribeCode::Success => Err(Some(io::ErrorKind::InvalidData.into())),
                Ok(_) => unreachable!(),
                Err(err) => Err(Some(err.into())),
            };
            HookResponse::Normal(receipt)
        }
        HookRequest::V3Unsubscribe {""", K),
('=gate-let', V5, "    if global.config.hook.enable_before_connect {\n        before_connect_hook", "    let ask = global.config.hook.enable_before_connect;\n    if ask {\n        before_connect_hook", K),
('=gate-inner', V3, """    if global.config.hook.enable_before_connect {
        before_connect_hook(peer, &packet, hook_handler, global).await?;
    }
""", """    let hooks = &global.config.hook;
    if hooks.enable_before_connect {
        match before_connect_hook(peer, &packet, hook_handler, global).await {
            Ok(()) => {}
            Err(err) => return Err(err),
        }
    }
""", K),
('=refuse-let', H, """                            let pkt: v5::Packet = v5::Puback {
                                pid,
                                reason_code: code.to_v5_puback_code(),
                                properties: v5::PubackProperties::default(),
                            }
                            .into();
                            write_packets.push_back(pkt.into());""", """                            let reason_code = code.to_v5_puback_code();
                            let ack = v5::Puback { pid, reason_code, properties: Default::default() };
                            write_packets.push_back(WritePacket::Packet(ack.into()));""", K),
]
