O = 'akasa-core/src/protocols/mqtt/online_loop.rs'
P = ['O01']
MUTS = [
('pend-drop', O, """                    write_packets
                        .push_front(WritePacket::Data((VarBytes::Dynamic(data_all), data_idx)));
                    pendings.write = true;
                    break;
""", """                    if data_idx > 0 { write_packets
                        .push_front(WritePacket::Data((VarBytes::Dynamic(data_all), data_idx))); }
                    pendings.write = true;
                    break;
""", P),
('pend-zero', O, """                    write_packets
                        .push_front(WritePacket::Data((VarBytes::Dynamic(data_all), data_idx)));
                    pendings.write = true;
""", """                    write_packets
                        .push_front(WritePacket::Data((VarBytes::Dynamic(data_all), 0)));
                    pendings.write = true;
""", P),
('part-idx', O, """                    have_write = true;
                    data_idx += size;
""", """                    have_write = true;
                    data_idx = size;
""", P),
('rest-from-0', O, """                        };
                        data_idx = idx;
                    }
                    WritePacket::Packet(pkt) => match pkt.encode() {
                        Ok(data) => data_all.extend(data.as_ref()),
                        Err(err) => return Poll::Ready(Some(err)),
                    },
                }
                // NOTE""", """                        };
                        let _ = idx;
                    }
                    WritePacket::Packet(pkt) => match pkt.encode() {
                        Ok(data) => data_all.extend(data.as_ref()),
                        Err(err) => return Poll::Ready(Some(err)),
                    },
                }
                // NOTE""", P),
('push-back', O, """                    write_packets
                        .push_front(WritePacket::Data((VarBytes::Dynamic(data_all), data_idx)));
                    pendings.write = true;
""", """                    write_packets
                        .push_back(WritePacket::Data((VarBytes::Dynamic(data_all), data_idx)));
                    pendings.write = true;
""", P),
('batch-lose', O, """            while let Some(write_packet) = write_packets.pop_front() {
                log::trace!""", """            while let Some(write_packet) = write_packets.pop_front() {
                if data_all.len() >= WRITE_BATCH_SIZE { break; }
                log::trace!""", P),
('bc-lose', O, """                        consume_cnt -= 1;
                        info.msgs.push_front(msg);
                        pendings.broadcast = true;
""", """                        pendings.broadcast = true;
""", P),
('bc-back', O, "info.msgs.push_front(msg);", "info.msgs.push_back(msg);", P),
('take-early', O, """                    Poll::Pending => {
                        // channel is full
                        *session_state_sender = Some((send_sink, false));
                        return Poll::Pending;
""", """                    Poll::Pending => {
                        // channel is full
                        *session_state_sender = Some((send_sink, true));
                        return Poll::Pending;
""", P),
('take-err', O, """                Poll::Ready(Err(_)) => {
                    log::info!(
                        "[{}] The connection want take over current session already ended, process canceled",
                        current_client_id
                    );
                    cx.waker().wake_by_ref();
                    Poll::Pending
                }
                Poll::Pending => {
                    // channel is full
                    *session""", """                Poll::Ready(Err(_)) => {
                    **taken_over = true;
                    Poll::Ready(None)
                }
                Poll::Pending => {
                    // channel is full
                    *session""", P),
('take-nowake', O, """                // Since it's high priority, we just return here so session start take over process.
                cx.waker().wake_by_ref();
""", """                // Since it's high priority, we just return here so session start take over process.
                if write_packets.is_empty() { cx.waker().wake_by_ref(); }
""", P),
('hook-drop', O, """                                Poll::Pending => {
                                    *hook_fut = Some(fut);
                                    return Poll::Pending;
""", """                                Poll::Pending => {
                                    if write_packets.is_empty() { *hook_fut = Some(fut); }
                                    return Poll::Pending;
""", P),
('after-cond', O, """                    session.after_handle_packet(write_packets);
                }
                Err(err) => {""", """                    if write_packets.is_empty() { session.after_handle_packet(write_packets); }
                }
                Err(err) => {""", P),
('drain-nowait', O, """                    Poll::Pending => {
                        write_packets
                            .push_front(WritePacket::Data((VarBytes::Dynamic(data_all), data_idx)));
                        return Poll::Pending;
                    }
                }
            }
            match""", """                    Poll::Pending => break,
                }
            }
            match""", P),
('drain-partial', O, """                            write_packets.push_front(WritePacket::Data((
                                VarBytes::Dynamic(data_all),
                                data_idx,
                            )));
                        }
""", """                            write_packets.push_front(WritePacket::Data((
                                VarBytes::Dynamic(data_all),
                                data_idx,
                            )));
                            break;
                        }
""", P),
('drain-read-nowake', O, """                Poll::Ready(Ok(())) => {
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
""", """                Poll::Ready(Ok(())) => {
                    return Poll::Pending;
""", ['C05']),
('=encode-helper', O, """                    WritePacket::Packet(pkt) => match pkt.encode() {
                        Ok(data) => data_all.extend(data.as_ref()),
                        Err(err) => return Poll::Ready(Some(err)),
                    },
                }
                // NOTE""", """                    WritePacket::Packet(pkt) => {
                        let data = match pkt.encode() {
                            Ok(data) => data,
                            Err(err) => return Poll::Ready(Some(err)),
                        };
                        data_all.extend_from_slice(data.as_ref());
                    }
                }
                // NOTE""", P),
('=cond-continue', O, """                    if data_idx < data_all.len() {
                        // Go on until the write is pending: no one else wakes up this task
                        write_packets
                            .push_front(WritePacket::Data((VarBytes::Dynamic(data_all), data_idx)));
                    }
""", """                    if data_idx >= data_all.len() {
                        continue;
                    }
                    let rest = WritePacket::Data((VarBytes::Dynamic(data_all), data_idx));
                    write_packets.push_front(rest);
""", P),
('=wake-break', O, """                        write_packets
                            .push_front(WritePacket::Data((VarBytes::Dynamic(data_all), data_idx)));
                    }
                }
                Poll::Ready(Err(err)) => return Poll::Ready(Some(err)),
                Poll::Pending => {
                    write_packets
                        .push_front(WritePacket::Data((VarBytes::Dynamic(data_all), data_idx)));
                    pendings""", """                        write_packets
                            .push_front(WritePacket::Data((VarBytes::Dynamic(data_all), data_idx)));
                        cx.waker().wake_by_ref();
                        break;
                    }
                }
                Poll::Ready(Err(err)) => return Poll::Ready(Some(err)),
                Poll::Pending => {
                    write_packets
                        .push_front(WritePacket::Data((VarBytes::Dynamic(data_all), data_idx)));
                    pendings""", P),
]
