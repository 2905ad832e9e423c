MUTS = [
('must-inverted', 'akasa-core/src/server/mod.rs', 'let client_verifier = if listener.fail_if_no_peer_cert {', 'let client_verifier = if !listener.fail_if_no_peer_cert {', ['N02']),
('must-ignored', 'akasa-core/src/server/mod.rs', '            WebPkiClientVerifier::builder(Arc::new(root_store))\n                .build()', '            WebPkiClientVerifier::builder(Arc::new(root_store))\n                .allow_unauthenticated()\n                .build()', ['N02']),
('verify-needs-ca', 'akasa-core/src/server/mod.rs', 'let server_config = if listener.verify_peer {', 'let server_config = if listener.verify_peer && listener.fail_if_no_peer_cert {', ['N02']),
('ca-guard', 'akasa-core/src/server/mod.rs', [('    if listener.verify_peer && listener.ca_file.is_none() {', '    if listener.verify_peer && listener.fail_if_no_peer_cert && listener.ca_file.is_none() {'), ('let server_config = if listener.verify_peer {', 'let server_config = if listener.verify_peer && listener.ca_file.is_some() {')], ['N02']),
('ca-own', 'akasa-core/src/server/mod.rs', 'let ca_file = listener.ca_file.as_ref().unwrap();', 'let _ca = listener.ca_file.as_ref().unwrap();\n        let ca_file = &listener.cert_file;', ['N02']),
('ca-bad-skip', 'akasa-core/src/server/mod.rs', '            let cert = cert.map_err(|err| {\n                log::error!("Invalid CA-certfile: {}", err);\n                io::Error::from(io::ErrorKind::InvalidInput)\n            })?;', '            let Ok(cert) = cert else { continue };', ['N02']),
('ca-add-ignore', 'akasa-core/src/server/mod.rs', '            root_store.add(cert).map_err(|err| {\n                log::error!("Failed to add CA certificate: {}", err);\n                io::Error::from(io::ErrorKind::InvalidInput)\n            })?;', '            if let Err(err) = root_store.add(cert) { log::error!("{}", err); }', ['N02']),
('key-file', 'akasa-core/src/server/mod.rs', 'File::open(&listener.key_file)', 'File::open(&listener.cert_file)', ['N02']),
('wss-acceptor', 'akasa-core/src/server/rt.rs', [('                    tls_acceptor: wss_tls_acceptor,', '                    tls_acceptor: mqtts2.clone(),'), ('        let listeners = &global.config.listeners;', '        let mqtts2 = mqtts_tls_acceptor.clone();\n        let _ = &wss_tls_acceptor;\n        let listeners = &global.config.listeners;')], ['N02']),
('wss-section', 'akasa-core/src/server/rt.rs', '        .wss\n        .as_ref()\n        .map(|listener| {\n            log::info!("Building TLS', '        .mqtts\n        .as_ref()\n        .map(|listener| {\n            log::info!("Building TLS', ['N02']),
('proxy-any', 'akasa-core/src/server/rt.rs', '                    proxy: proxy_mode.is_some(),\n                    proxy_tls_termination: *proxy_mode == Some(ProxyMode::TlsTermination),\n                    websocket: false,', '                    proxy: proxy_mode.is_some(),\n                    proxy_tls_termination: proxy_mode.is_some(),\n                    websocket: false,', ['N02']),
('proxy-normal', 'akasa-core/src/server/rt.rs', '                    proxy: proxy_mode.is_some(),\n                    proxy_tls_termination: *proxy_mode == Some(ProxyMode::TlsTermination),\n                    websocket: true,', '                    proxy: *proxy_mode == Some(ProxyMode::Normal),\n                    proxy_tls_termination: *proxy_mode == Some(ProxyMode::TlsTermination),\n                    websocket: true,', ['N02']),
('wss-term', 'akasa-core/src/server/rt.rs', '                    proxy: *proxy,\n                    proxy_tls_termination: false,\n                    websocket: true,', '                    proxy: *proxy,\n                    proxy_tls_termination: *proxy,\n                    websocket: true,', ['N02']),
('ws-raw', 'akasa-core/src/server/rt.rs', '                    websocket: true,\n                    tls_acceptor: None,', '                    websocket: false,\n                    tls_acceptor: None,', ['N02']),
('ws-missing', 'akasa-core/src/server/rt.rs', '            listeners.ws.as_ref().map(', '            listeners.ws.as_ref().filter(|x| !x.reuse_port).map(', ['N02']),
('v6-unshared', 'akasa-core/src/server/rt.rs', '    if reuse_port {\n        socket', '    if reuse_port && addr.is_ipv4() {\n        socket', ['N02']),
('shared', 'akasa-core/src/server/rt.rs', '    if reuse_port {\n        socket', '    if reuse_port || conn_args.reuse_port {\n        socket', ['N02']),
('addr-any', 'akasa-core/src/server/rt.rs', '    socket.bind(addr)?;', '    socket.bind(std::net::SocketAddr::from(([0, 0, 0, 0], addr.port())))?;', ['N02']),
('peer-local', 'akasa-core/src/server/rt.rs', 'let _ = handle_accept(conn, conn_args, peer, hook_handler, Arc::clone(&global)).await;', 'let _ = handle_accept(conn, conn_args, addr, hook_handler, Arc::clone(&global)).await;', ['N02']),
('args-lost', 'akasa-core/src/server/rt.rs', 'let _ = handle_accept(conn, conn_args, peer, hook_handler, Arc::clone(&global)).await;', 'let _ = handle_accept(conn, ConnectionArgs { tls_acceptor: None, ..conn_args }, peer, hook_handler, Arc::clone(&global)).await;', ['N02']),
('=matches', 'akasa-core/src/server/rt.rs', '                    proxy: proxy_mode.is_some(),\n                    proxy_tls_termination: *proxy_mode == Some(ProxyMode::TlsTermination),\n                    websocket: false,', '                    proxy: !proxy_mode.is_none(),\n                    proxy_tls_termination: matches!(proxy_mode, Some(ProxyMode::TlsTermination)),\n                    websocket: false,', ['N02']),
('=loop-for', 'akasa-core/src/server/rt.rs', '    loop {\n        let (conn, peer) = listener.accept().await?;', '    loop {\n        let accepted = listener.accept().await?;\n        let (conn, peer) = accepted;', ['N02']),
('=verifier-builder', 'akasa-core/src/server/mod.rs', '        let client_verifier = if listener.fail_if_no_peer_cert {\n            WebPkiClientVerifier::builder(Arc::new(root_store))\n                .build()\n                .map_err(|err| {\n                    log::error!("Failed to build client verifier: {}", err);\n                    io::Error::from(io::ErrorKind::InvalidInput)\n                })?\n        } else {\n            WebPkiClientVerifier::builder(Arc::new(root_store))\n                .allow_unauthenticated()\n                .build()\n                .map_err(|err| {\n                    log::error!("Failed to build client verifier: {}", err);\n                    io::Error::from(io::ErrorKind::InvalidInput)\n                })?\n        };\n', '        let mut builder = WebPkiClientVerifier::builder(Arc::new(root_store));\n        if !listener.fail_if_no_peer_cert {\n            builder = builder.allow_unauthenticated();\n        }\n        let client_verifier = builder.build().map_err(|err| {\n            log::error!("Failed to build client verifier: {}", err);\n            io::Error::from(io::ErrorKind::InvalidInput)\n        })?;\n', ['N02']),
('=reuse-call', 'akasa-core/src/server/rt.rs', '    if reuse_port {\n        socket.set_reuseport(true)?;\n    }', '    socket.set_reuseport(reuse_port)?;', ['N02']),
('=helper-args', 'akasa-core/src/server/rt.rs', [('            listeners.mqtts.as_ref().map(\n                |TlsListener {\n                     addr,\n                     reuse_port,\n                     proxy,\n                     ..\n                 }| ConnectionArgs {\n                    addr: *addr,\n                    reuse_port: *reuse_port,\n                    proxy: *proxy,\n                    proxy_tls_termination: false,\n                    websocket: false,\n                    tls_acceptor: mqtts_tls_acceptor,\n                },\n            ),', '            listeners.mqtts.as_ref().map(|l| tls_args(l, false, mqtts_tls_acceptor)),'), ('async fn listen<', 'fn tls_args(l: &TlsListener, websocket: bool, tls_acceptor: Option<tokio_rustls::TlsAcceptor>) -> ConnectionArgs {\n    ConnectionArgs { addr: l.addr, reuse_port: l.reuse_port, proxy: l.proxy, proxy_tls_termination: false, websocket, tls_acceptor }\n}\n\nasync fn listen<')], ['N02'])]
