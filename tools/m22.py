MUTS = [
('idx-not-reset', 'akasa-core/src/server/mod.rs', '                                *read_data_idx = 0;\n', '', ['X01']),
('idx-off', 'akasa-core/src/server/mod.rs', '                    *data_idx += amt;', '                    *data_idx = amt;', ['X01']),
('amt-less', 'akasa-core/src/server/mod.rs', 'buf.put_slice(&data[*data_idx..*data_idx + amt]);', 'buf.put_slice(&data[*data_idx..*data_idx + amt.min(16384)]);', ['X01']),
('from-zero', 'akasa-core/src/server/mod.rs', 'buf.put_slice(&data[*data_idx..*data_idx + amt]);', 'buf.put_slice(&data[..amt]);', ['X01']),
('rest-skip', 'akasa-core/src/server/mod.rs', 'if *read_data_idx < read_data.len() {\n                    copy', 'if *read_data_idx + 1 < read_data.len() {\n                    copy', ['X01']),
('rest-only-fit', 'akasa-core/src/server/mod.rs', 'if *read_data_idx < read_data.len() {\n                    copy', 'if *read_data_idx < read_data.len() && buf.remaining() > 1 {\n                    copy', ['X01']),
('empty-eof', 'akasa-core/src/server/mod.rs', '                                if bin.is_empty() {\n                                    continue;\n                                }\n', '', ['X01']),
('small-skip', 'akasa-core/src/server/mod.rs', 'if bin.is_empty() {', 'if bin.len() <= 1 {', ['X01']),
('text-ok', 'akasa-core/src/server/mod.rs', '                                log::debug!("WebSocket text message not allowed!");\n                                return Poll::Ready(Err(io::ErrorKind::InvalidData.into()));', '                                log::debug!("WebSocket text message not allowed!");', ['X01']),
('text-eof', 'akasa-core/src/server/mod.rs', '                                log::debug!("WebSocket text message not allowed!");\n                                return Poll::Ready(Err(io::ErrorKind::InvalidData.into()));', '                                return Poll::Ready(Ok(()));', ['X01']),
('pong-pending', 'akasa-core/src/server/mod.rs', '                                log::debug!("WebSocket pong message not allowed!");\n                                return Poll::Ready(Err(io::ErrorKind::InvalidData.into()));', '                                return Poll::Pending;', ['X01']),
('ping-return', 'akasa-core/src/server/mod.rs', '                                ws_send_pong(stream, pending_pong, cx)?;\n                            }\n                            Message::Pong', '                                ws_send_pong(stream, pending_pong, cx)?;\n                                return Poll::Pending;\n                            }\n                            Message::Pong', ['X01']),
('ping-lost', 'akasa-core/src/server/mod.rs', '                *pong = Some(data);\n', '', ['X01', 'X02']),
('ping-unanswered', 'akasa-core/src/server/mod.rs', '                                *pending_pong = Some(data);\n                                ws_send_pong(stream, pending_pong, cx)?;\n                            }\n', '                                *pending_pong = Some(data);\n                            }\n', ['X01']),
('ping-echo', 'akasa-core/src/server/mod.rs', '.start_send(Message::Pong(data))', '.start_send(Message::Pong(Bytes::new()))', ['X01']),
('err-eof', 'akasa-core/src/server/mod.rs', '                            log::debug!("WebSocket read error: {:?}", err);\n                            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));', '                            log::debug!("WebSocket read error: {:?}", err);\n                            return Poll::Ready(Ok(()));', ['X01']),
('close-continue', 'akasa-core/src/server/mod.rs', 'Message::Close(_) => return Poll::Ready(Ok(())),', 'Message::Close(_) => return Poll::Pending,', ['X01']),
('tls-raw-none', 'akasa-core/src/server/mod.rs', 'TlsWrapper::Tls(tls_stream) => Pin::new(tls_stream).poll_read(cx, buf),', 'TlsWrapper::Tls(_) => Poll::Pending,', ['X01']),
('flush-is-shutdown', 'akasa-core/src/server/mod.rs', 'TlsWrapper::Tls(tls_stream) => Pin::new(tls_stream).poll_flush(cx),', 'TlsWrapper::Tls(_) => Poll::Ready(Ok(())),', ['X02']),
('shutdown-raw', 'akasa-core/src/server/mod.rs', '            WebSocketWrapper::Raw(conn) => Pin::new(conn).poll_shutdown(cx),', '            WebSocketWrapper::Raw(conn) => Pin::new(conn).poll_flush(cx),', ['X02']),
('write-pending', 'akasa-core/src/server/mod.rs', '                    Poll::Pending => return Poll::Pending,\n                }\n                let message', '                    Poll::Pending => {}\n                }\n                let message', ['X02']),
('write-flush-pend', 'akasa-core/src/server/mod.rs', '                let _ignore = Pin::new(&mut *stream)\n                    .as_mut()\n                    .poll_flush(cx)\n                    .map_err::<io::Error, _>(|_| Into::into(io::ErrorKind::BrokenPipe))?;\n                Poll::Ready(Ok(buf.len()))', '                match Pin::new(&mut *stream).poll_flush(cx) {\n                    Poll::Pending => Poll::Pending,\n                    Poll::Ready(Ok(())) => Poll::Ready(Ok(buf.len())),\n                    Poll::Ready(Err(_)) => Poll::Ready(Err(io::ErrorKind::BrokenPipe.into())),\n                }', ['X02']),
('=write-flush-match', 'akasa-core/src/server/mod.rs', '                let _ignore = Pin::new(&mut *stream)\n                    .as_mut()\n                    .poll_flush(cx)\n                    .map_err::<io::Error, _>(|_| Into::into(io::ErrorKind::BrokenPipe))?;\n                Poll::Ready(Ok(buf.len()))', '                match Pin::new(&mut *stream).poll_flush(cx) {\n                    Poll::Pending | Poll::Ready(Ok(())) => Poll::Ready(Ok(buf.len())),\n                    Poll::Ready(Err(_)) => Poll::Ready(Err(io::ErrorKind::BrokenPipe.into())),\n                }', ['X02']),
('write-noflush', 'akasa-core/src/server/mod.rs', '                let _ignore = Pin::new(&mut *stream)\n                    .as_mut()\n                    .poll_flush(cx)\n                    .map_err::<io::Error, _>(|_| Into::into(io::ErrorKind::BrokenPipe))?;\n                Poll::Ready(Ok(buf.len()))', '                Poll::Ready(Ok(buf.len()))', ['X02']),
('write-part', 'akasa-core/src/server/mod.rs', 'let message = Message::Binary(buf.to_vec().into());', 'let message = Message::Binary(buf[..buf.len().min(4096)].to_vec().into());', ['X02']),
('=write-chunk', 'akasa-core/src/server/mod.rs', [('let message = Message::Binary(buf.to_vec().into());', 'let n = buf.len().min(65536);\n let message = Message::Binary(buf[..n].to_vec().into());'), ('Poll::Ready(Ok(buf.len()))', 'Poll::Ready(Ok(n))')], ['X02']),
('write-text', 'akasa-core/src/server/mod.rs', 'let message = Message::Binary(buf.to_vec().into());', 'let message = if buf.len() == 2 { Message::Ping(buf.to_vec().into()) } else { Message::Binary(buf.to_vec().into()) };', ['X02']),
('close-again', 'akasa-core/src/server/mod.rs', '                            *closed = true;\n', '', ['X02']),
('shutdown-early', 'akasa-core/src/server/mod.rs', '                        Poll::Pending => return Poll::Pending,\n                        Poll::Ready(Err(_)) => {\n                            return Poll::Ready(Err(Into::into(io::ErrorKind::BrokenPipe)));\n                        }\n                    }\n                }\n                Pin::new(&mut *stream).poll_close', '                        Poll::Pending => return Poll::Ready(Ok(())),\n                        Poll::Ready(Err(_)) => {\n                            return Poll::Ready(Err(Into::into(io::ErrorKind::BrokenPipe)));\n                        }\n                    }\n                }\n                Pin::new(&mut *stream).poll_close', ['X02']),
('flush-ignore', 'akasa-core/src/server/mod.rs', '            WebSocketWrapper::WebSocket { stream, .. } => {\n                Pin::new(stream).poll_flush(cx).map_err(|err| {\n                    log::debug!("WebSocket flush error: {:?}", err);\n                    io::ErrorKind::BrokenPipe.into()\n                })\n            }', '            WebSocketWrapper::WebSocket { stream, .. } => {\n                let _ = Pin::new(stream).poll_flush(cx);\n                Poll::Ready(Ok(()))\n            }', ['X02']),
('=drain-top', 'akasa-core/src/server/mod.rs', [('                if *read_data_idx < read_data.len() {\n                    copy_data(buf, read_data, read_data_idx);\n                    return Poll::Ready(Ok(()));\n                }\n                loop {\n', '                loop {\n                    if *read_data_idx < read_data.len() {\n                        copy_data(buf, read_data, read_data_idx);\n                        return Poll::Ready(Ok(()));\n                    }\n'), ('                                *read_data_idx = 0;\n                                copy_data(buf, read_data, read_data_idx);\n                                return Poll::Ready(Ok(()));\n', '                                *read_data_idx = 0;\n')], ['X01']),
('=copy-slices', 'akasa-core/src/server/mod.rs', '                    let amt = cmp::min(data.len() - *data_idx, buf.remaining());\n                    buf.put_slice(&data[*data_idx..*data_idx + amt]);\n                    *data_idx += amt;\n                    amt', '                    let rest = &data[*data_idx..];\n                    let amt = rest.len().min(buf.remaining());\n                    buf.put_slice(&rest[..amt]);\n                    *data_idx = *data_idx + amt;\n                    amt', ['X01']),
('=guard-style', 'akasa-core/src/server/mod.rs', 'if *read_data_idx < read_data.len() {\n                    copy', 'let rest = read_data.len() - *read_data_idx;\n                if rest > 0 {\n                    copy', ['X01']),
('=pong-unless', 'akasa-core/src/server/mod.rs', '    if let Some(data) = pong.take() {\n', '    let owed = pong.take();\n    if let Some(data) = owed {\n', ['X01', 'X02']),
('=bin-guard', 'akasa-core/src/server/mod.rs', '                            Message::Binary(bin) => {\n                                if bin.is_empty() {\n                                    continue;\n                                }\n', '                            Message::Binary(bin) if bin.len() == 0 => continue,\n                            Message::Binary(bin) => {\n', ['X01']),
('=refuse-merged', 'akasa-core/src/server/mod.rs', '                            Message::Pong(_) => {\n                                log::debug!("WebSocket pong message not allowed!");\n                                return Poll::Ready(Err(io::ErrorKind::InvalidData.into()));\n                            }\n                            Message::Text(_) => {\n                                log::debug!("WebSocket text message not allowed!");\n                                return Poll::Ready(Err(io::ErrorKind::InvalidData.into()));\n                            }\n                            Message::Frame(_) => {\n                                log::debug!("WebSocket frame message not allowed!");\n', '                            Message::Pong(_) | Message::Text(_) | Message::Frame(_) => {\n                                log::debug!("WebSocket frame message not allowed!");\n', ['X01'])]
