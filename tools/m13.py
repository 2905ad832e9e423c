M = 'akasa-core/src/protocols/mqtt/'
V3, V5 = M + 'v3/message.rs', M + 'v5/message.rs'
P = ['C05']
MUTS = [
('clean-always3', V3, 'if session.clean_session {', 'if session.clean_session || session.subscribes.is_empty() {', P),
('clean-never5', V5, """    if session.session_expiry_interval == 0 {
        global.remove_client""", """    if session.session_expiry_interval == 0 && !session.server_disconnected {
        global.remove_client""", P),
('early-err3', V3, """    handle_will(&mut session, global).await?;
""", """    handle_will(&mut session, global).await?;
    if session.subscribes.is_empty() { return Ok(None); }
""", P),
('taken-too', V5, """    if taken_over {
        return Ok(None);
    }
""", """    if taken_over && session.client_disconnected {
        return Ok(None);
    }
""", P),
('no-offline5', V5, """        global.offline_client(session.client_id);
""", "", P),
('no-remove5', V5, """        global.remove_client(session.client_id, session.subscribes.keys());
        if let Some""", """        if let Some""", P),
('err-first', V5, """        global.remove_client(session.client_id, session.subscribes.keys());
        if let Some(err) = io_error {
            return Err(err);
        }
""", """        if let Some(err) = io_error {
            return Err(err);
        }
        global.remove_client(session.client_id, session.subscribes.keys());
""", P),
('timer-half', V5, "tokio::time::sleep(session_expiry).await;", "tokio::time::sleep(session_expiry / 2).await;", P),
('timer-ka', V5, "Duration::from_secs(session.session_expiry_interval as u64);", "Duration::from_secs(session.keep_alive as u64);", P),
('expire-stale', V5, """            if !session.connected && session.connected_time == Some(connected_time) {
                if send_will""", """            if !session.connected && session.connected_time.is_some() {
                if send_will""", P),
('expire-online', V5, """            if !session.connected && session.connected_time == Some(connected_time) {
                if send_will""", """            if session.connected_time == Some(connected_time) {
                if send_will""", P),
('expire-nostop', V5, """                global.remove_client(session.client_id, session.subscribes.keys());
                stop = true;
""", """                global.remove_client(session.client_id, session.subscribes.keys());
""", P),
('expire-later', V5, """            if !session.connected && session.connected_time == Some(connected_time) {
                if send_will""", """            if !session.connected && session.connected_time >= Some(connected_time) {
                if send_will""", P),
('off-taken', V5, """                            taken_over = true;
""", "", P),
('off-taken-fail3', V3, """                        if let Err(err) = sender.send_async(old_state).await {
                            log::warn!("offline send session state failed: {err:?}");
                        } else {
                            taken_over = true;
                        }
""", """                        if let Err(err) = sender.send_async(old_state).await {
                            log::warn!("offline send session state failed: {err:?}");
                        }
                        taken_over = true;
""", P),
('off-return', V5, """                Err(err) => {
                    log::warn!("offline client receive normal message error: {err:?}");
                    break;
""", """                Err(err) => {
                    log::warn!("offline client receive normal message error: {err:?}");
                    return;
""", P),
('take5-drop', V5, "ControlMessage::OnlineV5 { sender } => return (false, Some(sender)),", "ControlMessage::OnlineV5 { sender } => { if session.disconnected().is_none() || offline { return (false, Some(sender)) } }", P),
('kick-off', V5, """            if offline {
                log::info!(
                    "ignore kick""", """            if offline && session.disconnected().is_none() {
                log::info!(
                    "ignore kick""", P),
('notask3', V3, "tokio::spawn(handle_offline(session, receiver, global));", "if !session.subscribes.is_empty() { tokio::spawn(handle_offline(session, receiver, global)); }", P),
('=match-taken', V5, """    if taken_over {
        return Ok(None);
    }
""", """    match taken_over {
        true => return Ok(None),
        false => {}
    }
""", P),
('=flip', V5, """    if session.session_expiry_interval == 0 {
        global.remove_client(session.client_id, session.subscribes.keys());
        if let Some(err) = io_error {
            return Err(err);
        }
    } else {
        // become a offline client, but session keep updating
        global.offline_client(session.client_id);
        session.connected = false;
        session.connection_closed_time = Some(Instant::now());
        return Ok(Some((session, receiver)));
    }

    Ok(None)
""", """    let stays = session.session_expiry_interval > 0;
    if !stays {
        let id = session.client_id;
        global.remove_client(id, session.subscribes.keys());
        return io_error.map_or(Ok(None), Err);
    }
    session.connected = false;
    session.connection_closed_time = Some(Instant::now());
    global.offline_client(session.client_id);
    Ok(Some((session, receiver)))
""", P),
('=timer-fn', V5, """            tokio::spawn(async move {
                // FIXME: potencial memory leak
                tokio::time::sleep(session_expiry).await;
                if let Some(sender) = global_clone.get_client_control_sender(&client_id) {
                    let msg = ControlMessage::SessionExpired { connected_time };
""", """            tokio::spawn(async move {
                let deadline = tokio::time::Instant::now() + session_expiry;
                tokio::time::sleep_until(deadline).await;
                let found = global_clone.get_client_control_sender(&client_id);
                if let Some(sender) = found {
                    let msg = ControlMessage::SessionExpired { connected_time };
""", P),
('=expired-guard', V5, """            if !session.connected && session.connected_time == Some(connected_time) {
                if send_will""", """            let same = session.connected_time.map_or(false, |t| t == connected_time);
            if same && !session.connected {
                if send_will""", P),
('=offline-fn', V5, """    if !taken_over {
        global.remove_client(session.client_id, session.subscribes.keys());
    }
    log::debug!("offline client finished: {:?}", session.client_id());
""", """    if taken_over {
        return;
    }
    let id = session.client_id;
    global.remove_client(id, session.subscribes.keys());
""", P),
]
