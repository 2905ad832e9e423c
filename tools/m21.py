M = 'akasa-core/src/protocols/mqtt/'
O, V3, V5 = M + 'online_loop.rs', M + 'v3/message.rs', M + 'v5/message.rs'
K = ['H02']
LOOP1 = """            for action in actions {
                if let Err(err) = session.apply_action(action, global) {
                    return Poll::Ready(Some(err));
                }
            }
            session.after_handle_packet(write_packets);
"""
LOOP2 = """                            for action in actions {
                                if let Err(err) = session.apply_action(action, global) {
                                    return Poll::Ready(Some(err));
                                }
                            }
"""
MUTS = [
('first-only', O, LOOP1, LOOP1.replace('in actions', 'in actions.into_iter().take(8)'), K),
('skip-first', O, LOOP2, LOOP2.replace('in actions', 'in actions.into_iter().skip(1)'), K),
('ignore-err', O, LOOP2, """                            for action in actions {
                                if let Err(err) = session.apply_action(action, global) {
                                    log::error!("{err:?}");
                                }
                            }
""", K),
('break-err', O, LOOP2, """                            for action in actions {
                                if let Err(err) = session.apply_action(action, global) {
                                    log::error!("{err:?}");
                                    break;
                                }
                            }
""", K),
('late-dropped', O, LOOP1, """            let _ = actions;
            session.after_handle_packet(write_packets);
""", K),
('late-twice', O, LOOP1, LOOP1.replace("session.apply_action(action, global)", "session.apply_action(action.clone(), global).and_then(|_| session.apply_action(action, global))"), K),
('disc-skip', O, LOOP1, LOOP1.replace("                if let", "                if session.disconnected().is_some() { continue; }\n                if let"), K),
('no-fetch', O, LOOP1, LOOP1.replace("            session.after_handle_packet(write_packets);\n", ""), K),
('late-err-on', O, """                        HookResponse::Normal(Ok(actions)) => actions,
                        HookResponse::Normal(Err(err_opt)) => return Poll::Ready(err_opt),
                        _ => panic!("invalid hook response"),
                    }
                }
                Poll::Pending => return""", """                        HookResponse::Normal(Ok(actions)) => actions,
                        HookResponse::Normal(Err(err_opt)) => if err_opt.is_some() { return Poll::Ready(err_opt) } else { Default::default() },
                        _ => panic!("invalid hook response"),
                    }
                }
                Poll::Pending => return""", K),
('pending-on', O, "                                    *hook_fut = Some(fut);\n                                    return Poll::Pending;", "                                    *hook_fut = Some(fut);\n                                    break;", K),
('pending-drop', O, "                                    *hook_fut = Some(fut);\n                                    return Poll::Pending;", "                                    return Poll::Pending;", K),
('pending-loop', O, "                Poll::Pending => return Poll::Pending,\n            };\n            for action", "                Poll::Pending => Default::default(),\n            };\n            for action", K),
('hook-keep', O, "                    *hook_fut = None;\n", "                    if write_packets.is_empty() { *hook_fut = None; }\n", K),
('=try-each', O, LOOP2, """                            let applied = actions.into_iter().try_for_each(|action| session.apply_action(action, global));
                            if let Err(err) = applied {
                                return Poll::Ready(Some(err));
                            }
""", K),
('=while-let', O, LOOP1, """            let mut todo = actions.into_iter();
            while let Some(action) = todo.next() {
                match session.apply_action(action, global) {
                    Ok(()) => {}
                    Err(err) => return Poll::Ready(Some(err)),
                }
            }
            session.after_handle_packet(write_packets);
""", K),
('=empty', O, LOOP1, "            if !actions.is_empty() {\n" + LOOP1.replace("            session.after_handle_packet(write_packets);\n", "") + "            }\n            session.after_handle_packet(write_packets);\n", K),
('ac-ignore', V5, """    for action in actions {
        session.apply_action(action, global)?;
    }
    Ok(())""", """    for action in actions {
        let _ = session.apply_action(action, global);
    }
    Ok(())""", K),
('ac-present', V5, """    for action in actions {
        session.apply_action(action, global)?;
    }
    Ok(())""", """    if !session_present {
        for action in actions {
            session.apply_action(action, global)?;
        }
    }
    Ok(())""", K),
('ac-err', V3, "HookResponse::AfterConnect(result) => result?,", "HookResponse::AfterConnect(result) => result.unwrap_or_default(),", K),
('pub-retain', V5, """                let _matched_len = send_publish(
                    self,
                    SendPublish {
                        qos,
                        retain,""", """                let _matched_len = send_publish(
                    self,
                    SendPublish {
                        qos,
                        retain: retain && qos != QoS::Level0,""", K),
('pub-expiry', V5, """                    payload_is_utf8,
                    message_expiry_interval,
                    content_type,
                    ..Default::default()""", """                    payload_is_utf8,
                    content_type,
                    ..{ let _ = message_expiry_interval; Default::default() }""", K),
('pub-qos', V3, """                send_publish(
                    self,
                    SendPublish {
                        qos,""", """                send_publish(
                    self,
                    SendPublish {
                        qos: QoS::Level0.max(QoS::Level1.min(qos)),""", K),
('pub-skip', V3, """                send_publish(
                    self,
                    SendPublish {
                        qos,
                        retain,
                        topic_name: &topic_name,
                        payload: &payload,
                        encode_len,
                    },
                    global,
                );
            }
            HookAction::Sub""", """                if !payload.is_empty() { send_publish(
                    self,
                    SendPublish {
                        qos,
                        retain,
                        topic_name: &topic_name,
                        payload: &payload,
                        encode_len,
                    },
                    global,
                ); }
            }
            HookAction::Sub""", K),
('sub-qos', V5, "                                max_qos: qos,\n                                no_local: false,", "                                max_qos: QoS::Level0.max(qos.min(QoS::Level1)),\n                                no_local: false,", K),
('sub-local', V5, "                                max_qos: qos,\n                                no_local: false,", "                                max_qos: qos,\n                                no_local: true,", K),
('sub-one', V3, "let subscribe = Subscribe::new(Pid::default(), topics.clone());", "let subscribe = Subscribe::new(Pid::default(), topics.iter().take(1).cloned().collect());", K),
('unsub-one', V3, "let unsubscribe = Unsubscribe::new(Pid::default(), topics);", "let unsubscribe = Unsubscribe::new(Pid::default(), topics.into_iter().take(1).collect());", K),
('sub-err-ends', V3, """                    Err(err) => log::error!("action subscribe message invalid: {:?}", err),""", """                    Err(err) => { log::error!("action subscribe message invalid: {:?}", err); return Err(io::ErrorKind::InvalidData.into()); }""", []),
]
MUTS = [m for m in MUTS if m[-1]]
