"""seeds whose demonstration runs a whole broker in process (tools/seed_full)"""
P = 'akasa-core/src/protocols/mqtt/'
PE, RT, RE = P + 'pending.rs', P + 'route.rs', P + 'retain.rs'
U3, U5, C3, C5, M3, M5 = [P + v + f for f in ('packet/publish.rs', 'packet/common.rs', 'message.rs') for v in ('v3/', 'v5/')]
SEEDS = []


def seed(id, property, edits, main, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, main='fn main() { run(async {\n' + main + '\n}) }\n', needs=needs, breaks=breaks, full=True))


seed('pubcomp-skips-pubrec', 'Q01', [(PE, 'PendingPacketStatus::New { pid, .. } if qos == QoS::Level1', 'PendingPacketStatus::New { pid, .. } if qos != QoS::Level0')], '''
    let g = start(conf());
    let mut p = open(&g, NoHook);
    p.con3("pub", true).await;
    let mut s = open(&g, NoHook);
    s.con3("sub", false).await;
    s.sub3("a/b", QoS::Level2).await;
    p.pub3("a/b", QosPid::Level2(pid(5)), "x").await;
    let id = match s.recv3().await { Some(v3::Packet::Publish(x)) => match x.qos_pid { QosPid::Level2(i) => i, q => panic!("{q:?}") }, q => panic!("{q:?}") };
    // a PUBCOMP that acknowledges nothing yet: no PUBREC was sent
    s.send3(v3::Packet::Pubcomp(id)).await;
    s.recv3().await;
    drop(s);
    tokio::time::sleep(Duration::from_millis(200)).await;
    let mut s = open(&g, NoHook);
    assert!(s.con3("sub", false).await.session_present);
    let r = s.recv3().await;
    println!("{r:?}");
    assert!(matches!(r, Some(v3::Packet::Publish(_))), "the message is delivered again");''',
     'a PUBCOMP for a QoS 2 message that was not acknowledged with PUBREC, then a reconnection', 'a QoS 2 message is taken as delivered although the receiver never took it over')

seed('window-ignored', 'Q02', [(PE, 'for idx in start_idx..current_inflight {', 'for idx in start_idx..self.packets.len().min(current_inflight + start_idx) {')], '''
    let g = start(conf());
    let mut p = open(&g, NoHook);
    p.con3("pub", true).await;
    let mut s = open(&g, NoHook);
    let keep = |c: &mut v5::Connect| { c.clean_start = false; c.properties.session_expiry_interval = Some(1000); c.properties.receive_max = Some(2) };
    s.con5("sub", keep).await;
    s.sub5("a/b", QoS::Level1).await;
    drop(s);
    tokio::time::sleep(Duration::from_millis(200)).await;
    for i in 1..=6u16 { p.pub3("a/b", QosPid::Level1(pid(i)), "x").await; tokio::time::sleep(Duration::from_millis(50)).await; }
    let mut s = open(&g, NoHook);
    assert!(s.con5("sub", keep).await.session_present);
    let mut n = 0;
    while let Some(x) = s.recv5().await { println!("{x:?}"); if matches!(x, v5::Packet::Publish(_)) { n += 1; } }
    assert!(n <= 2, "{n} unacknowledged messages sent, at most 2 allowed");''',
     'more than Receive Maximum messages queued for a client that was away', 'more unacknowledged messages are in flight than the client allowed')

seed('resume-pubrel-late', 'Q03', [(PE, 'PendingPacketStatus::Pubrec { last_sent, .. } => *last_sent = 0,\n', 'PendingPacketStatus::Pubrec { .. } => {}\n')], '''
    let g = start(conf());
    let mut p = open(&g, NoHook);
    p.con3("pub", true).await;
    let mut s = open(&g, NoHook);
    s.con3("sub", false).await;
    s.sub3("a/b", QoS::Level2).await;
    p.pub3("a/b", QosPid::Level2(pid(5)), "x").await;
    let id = match s.recv3().await { Some(v3::Packet::Publish(x)) => match x.qos_pid { QosPid::Level2(i) => i, q => panic!("{q:?}") }, q => panic!("{q:?}") };
    s.send3(v3::Packet::Pubrec(id)).await;
    assert!(matches!(s.recv3().await, Some(v3::Packet::Pubrel(_))));
    drop(s);
    tokio::time::sleep(Duration::from_millis(200)).await;
    let mut s = open(&g, NoHook);
    assert!(s.con3("sub", false).await.session_present);
    let r = s.recv3_in(1500).await;
    println!("{r:?}");
    assert!(matches!(r, Some(v3::Packet::Pubrel(x)) if x == id), "PUBREL is sent again when the session is resumed");''',
     'a connection that ends between PUBREL and PUBCOMP and a resumed session', 'PUBREL is not sent again when the session is resumed')

seed('expiry-not-counted', 'Q04', [(C5, 'message_expiry_interval = Some(value.saturating_sub(passed_secs as u32));', 'message_expiry_interval = Some(if *last_sent == 0 { value.saturating_sub(passed_secs as u32) } else { value });')], '''
    let g = start(conf());
    let mut p = open(&g, NoHook);
    p.con5("pub", |_| ()).await;
    let mut s = open(&g, NoHook);
    s.con5("sub", |c| { c.clean_start = false; c.properties.session_expiry_interval = Some(1000); }).await;
    s.sub5("a/b", QoS::Level1).await;
    let mut m = v5::Publish::new(QosPid::Level1(pid(3)), topic("a/b"), Bytes::from_static(b"x"));
    m.properties.message_expiry_interval = Some(100);
    p.send5(v5::Packet::Publish(m)).await;
    match s.recv5().await { Some(v5::Packet::Publish(x)) => assert!(x.properties.message_expiry_interval.unwrap() >= 99), q => panic!("{q:?}") }
    for _ in 0..40 {
        s.send5(v5::Packet::Pingreq).await;
        match s.recv5_in(1000).await {
            Some(v5::Packet::Publish(x)) => { println!("{x:?}"); assert!(x.dup); let e = x.properties.message_expiry_interval.unwrap(); assert!(e <= 98, "{e} seconds left"); return; }
            _ => tokio::time::sleep(Duration::from_millis(500)).await,
        }
    }
    panic!("not sent again");''',
     'a message with an expiry interval that is sent a second time', 'a retransmission forwards the full expiry interval although part of it has passed')

seed('qos2-id-shared-directions', 'Q05', [(U3, 'let _matched = session.pending_packets.complete(pid, QoS::Level2);', 'let _matched = session.pending_packets.complete(pid, QoS::Level2);\n    session.qos2_pids.remove(&pid);')], '''
    let g = start(conf());
    let mut w = open(&g, NoHook);
    w.con3("watch", true).await;
    w.sub3("x/y", QoS::Level0).await;
    let mut c = open(&g, NoHook);
    c.con3("both", true).await;
    c.sub3("in", QoS::Level2).await;
    let mut p = open(&g, NoHook);
    p.con3("pub", true).await;
    // a message to the client, delivered up to PUBREL
    p.pub3("in", QosPid::Level2(pid(5)), "x").await;
    let id = match c.recv3().await { Some(v3::Packet::Publish(x)) => match x.qos_pid { QosPid::Level2(i) => i, q => panic!("{q:?}") }, q => panic!("{q:?}") };
    c.send3(v3::Packet::Pubrec(id)).await;
    assert!(matches!(c.recv3().await, Some(v3::Packet::Pubrel(_))));
    // a message from the client under the same identifier
    c.pub3("x/y", QosPid::Level2(id), "once").await;
    assert!(matches!(c.recv3().await, Some(v3::Packet::Pubrec(_))));
    c.send3(v3::Packet::Pubcomp(id)).await;
    let mut m = v3::Publish::new(QosPid::Level2(id), topic("x/y"), Bytes::from_static(b"once"));
    m.dup = true;
    c.send3(v3::Packet::Publish(m)).await;
    assert!(matches!(c.recv3().await, Some(v3::Packet::Pubrec(_))));
    let mut n = 0;
    while let Some(v3::Packet::Publish(_)) = w.recv3().await { n += 1; }
    assert!(n == 1, "delivered {n} times");''',
     'the same packet identifier in use in both directions and a redelivery of the inbound message', 'a QoS 2 message is forwarded twice')

seed('retain-flag-last-subscription', 'Q06', [(M5, 'retain_as_published |= sub.options.retain_as_published;', 'retain_as_published = sub.options.retain_as_published;')], '''
    let g = start(conf());
    for order in 0..2 {
        let mut s = open(&g, NoHook);
        s.con5(&format!("sub{order}"), |_| ()).await;
        for (i, f) in [format!("t{order}/+"), format!("t{order}/#")].iter().enumerate() {
            let mut o = v5::SubscriptionOptions::new(QoS::Level0);
            o.retain_as_published = i == order;
            s.send5(v5::Packet::Subscribe(v5::Subscribe::new(pid(9), vec![(filter(f), o)]))).await;
            assert!(matches!(s.recv5().await, Some(v5::Packet::Suback(_))));
        }
        let mut p = open(&g, NoHook);
        p.con5("pub", |_| ()).await;
        let mut m = v5::Publish::new(QosPid::Level0, topic(&format!("t{order}/a")), Bytes::from_static(b"x"));
        m.retain = true;
        p.send5(v5::Packet::Publish(m)).await;
        match s.recv5().await { Some(v5::Packet::Publish(x)) => { println!("{x:?}"); assert!(x.retain, "one of the subscriptions asked for it"); } q => panic!("{q:?}") }
    }''',
     'overlapping subscriptions of one client of which only some ask for Retain As Published, in a certain order', 'the retain flag is lost although a matching subscription asked to keep it')

seed('overlap-takes-last-qos', 'Q07', [(U5, '*max_qos = cmp::max(*max_qos, *subscribe_qos);', '*max_qos = *subscribe_qos;')], '''
    let g = start(conf());
    for i in 0..2 {
        let mut s = open(&g, NoHook);
        s.con5(&format!("sub{i}"), |_| ()).await;
        s.sub5(&format!("t{i}/+"), [QoS::Level2, QoS::Level0][i]).await;
        s.sub5(&format!("t{i}/#"), [QoS::Level0, QoS::Level2][i]).await;
        let mut p = open(&g, NoHook);
        p.con5("pub", |_| ()).await;
        p.pub5(&format!("t{i}/a"), QosPid::Level2(pid(4)), "x").await;
        match s.recv5().await { Some(v5::Packet::Publish(x)) => { println!("{x:?}"); assert!(matches!(x.qos_pid, QosPid::Level2(_))); } q => panic!("{q:?}") }
    }''',
     'overlapping subscriptions of one client with different granted QoS, matched in a certain order', 'the message is delivered with a lower QoS than the highest one granted')

seed('group-only-filter-unmatched', 'R01', [(RT, 'self.clients.is_empty() && self.groups.is_empty()', 'self.clients.is_empty() && self.groups.len() < 2')], '''
    let g = start(conf());
    let mut s = open(&g, NoHook);
    s.con5("sub", |_| ()).await;
    s.sub5("$share/g/a/+", QoS::Level0).await;
    let mut p = open(&g, NoHook);
    p.con5("pub", |_| ()).await;
    p.pub5("a/b", QosPid::Level0, "x").await;
    let r = s.recv5().await;
    println!("{r:?}");
    assert!(matches!(r, Some(v5::Packet::Publish(_))));''',
     'a filter with a single shared subscription group and no ordinary subscriber', 'the filter is not found for topics it matches')

seed('unsubscribe-drops-parent', 'R02', [(RT, 'self.content.read().is_empty() && nodes.is_empty()', 'self.content.read().clients.is_empty() && nodes.is_empty()')], '''
    let g = start(conf());
    let mut s = open(&g, NoHook);
    s.con5("sub", |_| ()).await;
    s.sub5("$share/g/a/b", QoS::Level0).await;
    s.sub5("a/b/c", QoS::Level0).await;
    s.send5(v5::Packet::Unsubscribe(v5::Unsubscribe::new(pid(8), vec![filter("a/b/c")]))).await;
    assert!(matches!(s.recv5().await, Some(v5::Packet::Unsuback(_))));
    let mut p = open(&g, NoHook);
    p.con5("pub", |_| ()).await;
    p.pub5("a/b", QosPid::Level0, "x").await;
    let r = s.recv5().await;
    println!("{r:?}");
    assert!(matches!(r, Some(v5::Packet::Publish(_))), "a/b is still subscribed");''',
     'a shared subscription on the level above an ordinary one that is removed', 'unsubscribing a filter drops the shared subscription of its parent level')

seed('group-member-old-qos', 'R03', [(RT, 'self.items[*idx].1 = item.1;', 'self.items[*idx].1 = self.items[*idx].1.max(item.1);')], '''
    let g = start(conf());
    let mut s = open(&g, NoHook);
    s.con5("sub", |_| ()).await;
    s.sub5("$share/g/a", QoS::Level1).await;
    s.sub5("$share/g/a", QoS::Level0).await;
    let mut p = open(&g, NoHook);
    p.con5("pub", |_| ()).await;
    p.pub5("a", QosPid::Level1(pid(7)), "x").await;
    match s.recv5().await { Some(v5::Packet::Publish(x)) => { println!("{x:?}"); assert!(x.qos_pid == QosPid::Level0); } q => panic!("{q:?}") }''',
     'a member of a shared group that subscribes again with a lower QoS', 'messages are delivered with the QoS of an earlier subscription')

seed('retain-clear-drops-below', 'R04', [(RE, 'self.content.is_none() && self.nodes.read().is_empty()', 'self.content.is_none() && self.nodes.read().len() < 2')], '''
    let g = start(conf());
    let mut p = open(&g, NoHook);
    p.con5("pub", |_| ()).await;
    for (t, b) in [("a/b", "x"), ("a/b/c", "y"), ("a/b", "")] {
        let mut m = v5::Publish::new(QosPid::Level0, topic(t), Bytes::copy_from_slice(b.as_bytes()));
        m.retain = true;
        p.send5(v5::Packet::Publish(m)).await;
    }
    tokio::time::sleep(Duration::from_millis(200)).await;
    let mut s = open(&g, NoHook);
    s.con5("sub", |_| ()).await;
    s.send5(v5::Packet::Subscribe(v5::Subscribe::new(pid(9), vec![(filter("a/b/c"), v5::SubscriptionOptions::new(QoS::Level0))]))).await;
    let mut found = false;
    while let Some(x) = s.recv5().await { println!("{x:?}"); found |= matches!(x, v5::Packet::Publish(_)); }
    assert!(found, "a/b/c is still retained");''',
     'a retained message on a level whose only child also has one, then cleared', 'clearing the retained message of a topic forgets those of topics below it')

seed('mechanisms-one-supported-suffices', 'V01', [('akasa-core/src/config.rs', '''        for mechanism in &self.sasl_mechanisms {
            if mechanism != &SaslMechanism::ScramSha256 {
                log::error!("invalid sasl_mechanism, only `SCRAM-SHA-256` is allowed");
                return false;
            }
        }
''', '''        if !self.sasl_mechanisms.is_empty()
            && !self.sasl_mechanisms.contains(&SaslMechanism::ScramSha256)
        {
            log::error!("invalid sasl_mechanism, only `SCRAM-SHA-256` is allowed");
            return false;
        }
''')], '''
    let mut c = conf();
    assert!(c.is_valid());
    c.sasl_mechanisms.insert("SCRAM-SHA-256-PLUS".parse().unwrap());
    assert!(!c.is_valid(), "a mechanism the server does not have is offered");''',
     'a configuration that offers a second SASL mechanism beside the supported one', 'a configuration with a SASL mechanism the server does not implement is accepted')
