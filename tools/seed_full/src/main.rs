#![allow(dead_code, unused_imports, unexpected_cfgs)]
// the repository's own modules, unchanged
#[path = "@REPO@/akasa-core/src/config.rs"]
mod config;
#[path = "@REPO@/akasa-core/src/hook.rs"]
mod hook;
#[path = "@REPO@/akasa-core/src/protocols/mod.rs"]
pub mod protocols;
#[path = "@REPO@/akasa-core/src/server/mod.rs"]
pub mod server;
#[path = "@REPO@/akasa-core/src/state.rs"]
mod state;
#[path = "@REPO@/akasa-core/src/storage.rs"]
mod storage;
pub use crate::config::*;
pub use crate::hook::*;
pub use crate::protocols::mqtt::{
    MIN_SALT_LEN, dump_passwords, hash_password, load_passwords,
    v3::Session as SessionV3,
    v5::{Session as SessionV5, SubscriptionData},
};
pub use crate::state::*;
pub use mqtt_proto;

use bytes::Bytes;
use mqtt_proto::{v3, v5, Pid, QoS, QosPid, TopicFilter, TopicName};
use std::future::Future;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt, DuplexStream};

/// connection to a broker running in this process
pub struct C { io: DuplexStream, buf: Vec<u8>, pub task: tokio::task::JoinHandle<std::io::Result<()>> }
pub fn conf() -> Config { let mut c = Config::default(); c.auth.enable = false; c }
pub fn start(c: Config) -> Arc<GlobalState> { Arc::new(GlobalState::new(c)) }
pub fn open<H: Hook + Clone + Send + Sync + 'static>(g: &Arc<GlobalState>, hook: H) -> C {
    open_n(g, hook, 1 << 20)
}
/// the connection holds so many bytes that were not read yet
pub fn open_n<H: Hook + Clone + Send + Sync + 'static>(g: &Arc<GlobalState>, hook: H, size: usize) -> C {
    let (a, b) = tokio::io::duplex(size);
    let addr: SocketAddr = "127.0.0.1:1883".parse().unwrap();
    let args = server::ConnectionArgs { addr, reuse_port: false, proxy: false, proxy_tls_termination: false, websocket: false, tls_acceptor: None };
    let task = tokio::spawn(server::handle_accept(b, args, addr, hook, Arc::clone(g)));
    C { io: a, buf: vec![], task }
}
impl C {
    pub async fn send3(&mut self, p: v3::Packet) { self.io.write_all(p.encode().unwrap().as_ref()).await.unwrap() }
    pub async fn send5(&mut self, p: v5::Packet) { self.io.write_all(p.encode().unwrap().as_ref()).await.unwrap() }
    /// next packet, None when nothing comes within the time or the connection ends
    async fn raw(&mut self, ms: u64) -> Option<Vec<u8>> {
        loop {
            if self.buf.len() >= 2 {
                let (mut n, mut i, mut sh) = (0usize, 1, 0);
                while i < self.buf.len() {
                    n |= ((self.buf[i] & 0x7f) as usize) << sh; sh += 7; i += 1;
                    if self.buf[i - 1] & 0x80 == 0 { if self.buf.len() >= i + n { return Some(self.buf.drain(..i + n).collect()); } break; }
                }
            }
            let mut b = vec![0u8; 65536];
            match tokio::time::timeout(Duration::from_millis(ms), self.io.read(&mut b)).await {
                Ok(Ok(n)) if n > 0 => self.buf.extend_from_slice(&b[..n]),
                _ => return None,
            }
        }
    }
    pub async fn recv3(&mut self) -> Option<v3::Packet> { self.recv3_in(400).await }
    pub async fn recv5(&mut self) -> Option<v5::Packet> { self.recv5_in(400).await }
    pub async fn recv3_in(&mut self, ms: u64) -> Option<v3::Packet> { let b = self.raw(ms).await?; v3::Packet::decode(&b).unwrap() }
    pub async fn recv5_in(&mut self, ms: u64) -> Option<v5::Packet> { let b = self.raw(ms).await?; v5::Packet::decode(&b).unwrap() }
    pub async fn con3(&mut self, id: &str, clean: bool) -> v3::Connack {
        let mut c = v3::Connect::new(Arc::from(id), 60); c.clean_session = clean;
        self.send3(v3::Packet::Connect(c)).await;
        match self.recv3().await { Some(v3::Packet::Connack(a)) => a, p => panic!("{p:?}") }
    }
    pub async fn con5(&mut self, id: &str, f: impl Fn(&mut v5::Connect)) -> v5::Connack {
        let mut c = v5::Connect::new(Arc::from(id), 60); f(&mut c);
        self.send5(v5::Packet::Connect(c)).await;
        match self.recv5().await { Some(v5::Packet::Connack(a)) => a, p => panic!("{p:?}") }
    }
    pub async fn sub3(&mut self, f: &str, q: QoS) -> v3::Suback {
        self.send3(v3::Packet::Subscribe(v3::Subscribe::new(pid(9), vec![(filter(f), q)]))).await;
        match self.recv3().await { Some(v3::Packet::Suback(a)) => a, p => panic!("{p:?}") }
    }
    pub async fn sub5(&mut self, f: &str, q: QoS) -> v5::Suback {
        self.send5(v5::Packet::Subscribe(v5::Subscribe::new(pid(9), vec![(filter(f), v5::SubscriptionOptions::new(q))]))).await;
        match self.recv5().await { Some(v5::Packet::Suback(a)) => a, p => panic!("{p:?}") }
    }
    pub async fn pub3(&mut self, t: &str, q: QosPid, body: &str) {
        self.send3(v3::Packet::Publish(v3::Publish::new(q, topic(t), Bytes::copy_from_slice(body.as_bytes())))).await
    }
    pub async fn pub5(&mut self, t: &str, q: QosPid, body: &str) {
        self.send5(v5::Packet::Publish(v5::Publish::new(q, topic(t), Bytes::copy_from_slice(body.as_bytes())))).await
    }
}
pub fn pid(n: u16) -> Pid { Pid::try_from(n).unwrap() }
pub fn topic(t: &str) -> TopicName { TopicName::try_from(t).unwrap() }
pub fn filter(t: &str) -> TopicFilter { TopicFilter::try_from(t).unwrap() }
pub fn run(f: impl Future<Output = ()>) {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(async { tokio::time::timeout(Duration::from_secs(60), f).await.expect("timeout") })
}
/// a hook that accepts everything; demonstrations with their own hook use the macro on their type
#[macro_export]
macro_rules! hook_impl { ($t:ty, $($body:tt)*) => {
    impl Hook for $t {
        $($body)*
    }
} }
/*DEMO*/
