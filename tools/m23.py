MUTS = [
('ws-no-timeout', 'akasa-core/src/server/mod.rs', '            .or(async {\n                let _ = timeout_receiver.recv_async().await;\n                log::info!("timeout when accept websocket: {}", peer);\n                Err(io::ErrorKind::TimedOut.into())\n            })\n            .await?;', '            .await?;', ['N01']),
('tls-no-timeout', 'akasa-core/src/server/mod.rs', '            .or(async {\n                let _ = timeout_receiver.recv_async().await;\n                log::info!("timeout when tls accept: {}", peer);\n                Err(io::ErrorKind::TimedOut.into())\n            })\n            .await?;', '            .await?;', ['N01']),
('header-no-timeout', 'akasa-core/src/server/mod.rs', '        .or(async {\n            let _ = timeout_receiver.recv_async().await;\n            log::info!("timeout when decode raw mqtt header: {}", peer);\n            Err(Error::IoError(IoErrorKind::TimedOut))\n        })\n', '', ['N01']),
('proto-no-timeout', 'akasa-core/src/server/mod.rs', '        .or(async {\n            let _ = timeout_receiver.recv_async().await;\n            log::info!("timeout when decode mqtt protocol: {}", peer);\n            Err(Error::IoError(IoErrorKind::TimedOut))\n        })\n', '', ['N01']),
('proxy-timeout-health', 'akasa-core/src/server/mod.rs', '                log::info!("timeout when parse proxy header: {}", peer);\n                Err(io::ErrorKind::TimedOut.into())', '                log::info!("timeout when parse proxy header: {}", peer);\n                Ok(None)', ['N01']),
('secs', 'akasa-core/src/server/mod.rs', 'const CONNECT_TIMEOUT_SECS: u64 = 5;', 'const CONNECT_TIMEOUT_SECS: u64 = 5000;', ['N01']),
('no-sleep', 'akasa-core/src/server/mod.rs', '        tokio::time::sleep(Duration::from_secs(CONNECT_TIMEOUT_SECS)).await;\n', '', ['N01']),
('first-any', 'akasa-core/src/server/mod.rs', 'if packet_type != 0b00010000 {', 'if packet_type & 0b11110000 != 0b00010000 {', ['N01']),
('first-none', 'akasa-core/src/server/mod.rs', 'if packet_type != 0b00010000 {', 'if packet_type == 0 {', ['N01']),
('dest-addr', 'akasa-core/src/server/mod.rs', '                Addresses::IPv4 {\n                    source_address,\n                    source_port,\n                    ..\n                } => (source_address, source_port).into(),', '                Addresses::IPv4 {\n                    destination_address,\n                    source_port,\n                    ..\n                } => (destination_address, source_port).into(),', ['N01']),
('peer-unchanged', 'akasa-core/src/server/mod.rs', '            peer = match header.addresses {', '            let _peer: SocketAddr = match header.addresses {', ['N01']),
('unix-ok', 'akasa-core/src/server/mod.rs', '                    return Err(io::ErrorKind::InvalidData.into());\n                }\n            };\n            log::debug!("Proxy', '                    peer\n                }\n            };\n            log::debug!("Proxy', ['N01']),
('health-continue', 'akasa-core/src/server/mod.rs', '            log::info!("Proxy protocol health check");\n            return Ok(());', '            log::info!("Proxy protocol health check");', ['N01']),
('termination', 'akasa-core/src/server/mod.rs', 'parse_header(&mut conn, conn_args.proxy_tls_termination)', 'parse_header(&mut conn, conn_args.proxy || conn_args.proxy_tls_termination)', ['N01']),
('termination-off', 'akasa-core/src/server/mod.rs', 'parse_header(&mut conn, conn_args.proxy_tls_termination)', 'parse_header(&mut conn, false)', ['N01']),
('sub-any', 'akasa-core/src/server/mod.rs', 'if protocol != "mqtt" {', 'if protocol.is_empty() {', ['N01']),
('sub-v31', 'akasa-core/src/server/mod.rs', 'if protocol != "mqtt" {', 'if protocol != "mqtt" && protocol != "mqttv3.1" {', ['N01']),
('sub-echo', 'akasa-core/src/server/mod.rs', '                resp.headers_mut()\n                    .insert("Sec-WebSocket-Protocol", protocol.clone());\n', '                let _ = &mut resp;\n', ['N01']),
('v310-refused', 'akasa-core/src/server/mod.rs', [('        Protocol::V310 | Protocol::V311 => {\n            let header = v3', '        Protocol::V311 => {\n            let header = v3'), ('        Protocol::V500 => {\n', '        Protocol::V310 => return Err(io::ErrorKind::InvalidData.into()),\n        Protocol::V500 => {\n')], ['N01']),
('ws-fresh', 'akasa-core/src/server/mod.rs', '            read_data_idx: 0,\n            pending_pong: None,\n            closed: false,', '            read_data_idx: 0,\n            pending_pong: None,\n            closed: true,', ['N01']),
('=tls-error-kind', 'akasa-core/src/server/mod.rs', '                log::debug!("accept tls connection error: {:?}", err);\n                io::Error::from(io::ErrorKind::InvalidData)', '                log::debug!("accept tls connection error: {:?}", err);\n                io::Error::from(io::ErrorKind::Other)', ['N01']),
('=proxy-match', 'akasa-core/src/server/mod.rs', '    if conn_args.proxy {\n        if let Some(header)', '    let use_proxy = conn_args.proxy;\n    if use_proxy {\n        if let Some(header)', ['N01']),
('=first-style', 'akasa-core/src/server/mod.rs', 'if packet_type != 0b00010000 {', 'if packet_type != 16 {', ['N01']),
('=sub-style', 'akasa-core/src/server/mod.rs', 'if protocol != "mqtt" {', 'let wanted = "mqtt";\n                if !(protocol == wanted) {', ['N01']),
('=sub-bytes', 'akasa-core/src/server/mod.rs', 'if protocol != "mqtt" {', 'if protocol.as_bytes() != b"mqtt" {', ['N01']),
('=socket-addr', 'akasa-core/src/server/mod.rs', '(source_address, source_port).into(),\n                Addresses::IPv6', 'SocketAddr::from((source_address, source_port)),\n                Addresses::IPv6', ['N01']),
('=socket-addr-new', 'akasa-core/src/server/mod.rs', '(source_address, source_port).into(),\n                Addresses::IPv6', 'SocketAddr::new(source_address.into(), source_port),\n                Addresses::IPv6', ['N01']),
('=timeout-fn', 'akasa-core/src/server/mod.rs', [('        .or(async {\n            let _ = timeout_receiver.recv_async().await;\n            log::info!("timeout when decode mqtt protocol: {}", peer);\n            Err(Error::IoError(IoErrorKind::TimedOut))\n        })\n', '        .or(expired(&timeout_receiver))\n'), ('fn build_tls_context', 'async fn expired<T>(r: &flume::Receiver<()>) -> Result<T, Error> {\n    let _ = r.recv_async().await;\n    Err(Error::IoError(IoErrorKind::TimedOut))\n}\n\nfn build_tls_context')], ['N01']),
('=ms', 'akasa-core/src/server/mod.rs', 'Duration::from_secs(CONNECT_TIMEOUT_SECS)', 'Duration::from_millis(CONNECT_TIMEOUT_SECS * 1000)', ['N01'])]
