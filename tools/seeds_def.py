SS = 'akasa-core/src/protocols/scram/server.rs'
SC = 'akasa-core/src/protocols/scram/client.rs'
SM = 'akasa-core/src/protocols/scram/mod.rs'
PX = 'akasa-core/src/server/proxy.rs'
SEEDS = []


def seed(id, property, edits, main, needs, breaks, full=False):
    SEEDS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, breaks=breaks, full=full))


COMMON = '''
use base64::Engine;
use base64::engine::general_purpose::STANDARD;
use scram::server::{AuthenticationStatus as St, ScramServer};
use scram::hash_password;
use std::num::NonZeroU32;
const N: u32 = 17;
fn hashed() -> Vec<u8> { hash_password("pass", NonZeroU32::new(N).unwrap(), b"salty").to_vec() }
fn started(first: &str) -> (ScramServer, String) {
    let mut s = ScramServer::new();
    s.decode_client_first(first).unwrap();
    let m = s.encode_server_first(hashed(), b"salty", N as u16, &mut rand::rng()).unwrap();
    (s, m)
}
fn nonce(m: &str) -> String { m.split(',').next().unwrap()[2..].to_string() }
fn proof(gs2: &str, bare: &str, first: &str, pw: &[u8]) -> String {
    STANDARD.encode(scram::find_proofs(gs2, bare, first, pw, &nonce(first)).0)
}
fn fin(gs2: &str, first: &str, proof: &str) -> String {
    format!("c={},r={},p={}", STANDARD.encode(gs2), nonce(first), proof)
}
'''

seed('scram-short-proof', 'S01', [(SS, 'if proof_bytes != client_proof {',
     'if proof_bytes.iter().zip(client_proof.iter()).any(|(a, b)| a != b) {')], COMMON + '''
fn main() {
    let (mut s, m) = started("n,,n=user,r=abcdef");
    let r = s.decode_client_final(&fin("n,,", &m, ""));
    println!("{r:?}");
    assert!(!matches!(r, Ok((St::Authenticated, _))));
    let (mut s, m) = started("n,,n=user,r=abcdef");
    let p = proof("n,,", "n=user,r=abcdef", &m, &hashed());
    assert_eq!(s.decode_client_final(&fin("n,,", &m, &p)).unwrap().0, St::Authenticated);
}''', 'a client-final whose decoded proof is shorter than 32 bytes, e.g. empty', 'a client without the password is authenticated with an empty proof')

seed('scram-authz-first', 'S02', [(SS, '''        if proof_bytes != client_proof {
            return Ok((
                AuthenticationStatus::NotAuthenticated,
                "e=Invalid Password".to_owned(),
            ));
        }

        let server_sig''', '''        let server_sig'''), (SS, '''            _ => (AuthenticationStatus::Authenticated, server_sig),
        };''', '''            _ if proof_bytes == client_proof => (AuthenticationStatus::Authenticated, server_sig),
            _ => (
                AuthenticationStatus::NotAuthenticated,
                "e=Invalid Password".to_owned(),
            ),
        };''')], COMMON + '''
fn main() {
    let (mut s, m) = started("n,a=root,n=user,r=abcdef");
    let p = proof("n,a=root,", "n=user,r=abcdef", &m, b"not the password");
    let r = s.decode_client_final(&fin("n,a=root,", &m, &p)).unwrap();
    println!("{r:?}");
    assert_eq!(r.0, St::NotAuthenticated);
}''', 'a client-final with a foreign authorization identity and a wrong proof', 'the verdict NotAuthorized no longer implies a verified password')

seed('scram-retry-after-bad-proof', 'S03', [(SS, '''            return Ok((
                AuthenticationStatus::NotAuthenticated,''', '''            // keep the exchange open so that the peer may correct its answer
            *self = ScramServer::WaitingForClientFinal {
                hashed_password,
                nonce,
                gs2header,
                client_first_bare,
                server_first,
                authcid,
                authzid,
            };
            return Ok((
                AuthenticationStatus::NotAuthenticated,''')], COMMON + '''
fn main() {
    let (mut s, m) = started("n,,n=user,r=abcdef");
    let bad = proof("n,,", "n=user,r=abcdef", &m, b"guess");
    assert_eq!(s.decode_client_final(&fin("n,,", &m, &bad)).unwrap().0, St::NotAuthenticated);
    let p = proof("n,,", "n=user,r=abcdef", &m, &hashed());
    let r = s.decode_client_final(&fin("n,,", &m, &p));
    println!("{r:?}");
    assert!(r.is_err());
}''', 'a second client-final on the same exchange after a wrong proof', 'one exchange (one nonce) can be tried with many proofs')

seed('scram-client-weak-iterations', 'S04', [(SM, '''        SHA256,
        iterations,
        salt,''', '''        SHA256,
        iterations.min(NonZeroU32::new(u16::MAX as u32).unwrap()),
        salt,''')], '''
use std::num::NonZeroU32;
fn main() {
    let n = 65_600u32;
    let mut want = [0u8; 32];
    ring::pbkdf2::derive(ring::pbkdf2::PBKDF2_HMAC_SHA256, NonZeroU32::new(n).unwrap(), b"salt", b"pass", &mut want);
    assert_eq!(scram::hash_password("pass", NonZeroU32::new(n).unwrap(), b"salt"), want);
}''', 'an iteration count above 65535', 'passwords are hashed with fewer iterations than announced, and not as RFC 5802 says')

seed('scram-nonce-budget', 'S05', [(SS, '                .take(NONCE_LENGTH),', '                .take((2 * NONCE_LENGTH).saturating_sub(client_nonce.len()).min(NONCE_LENGTH)),')], COMMON + '''
fn main() {
    for n in [1usize, 20, 30, 47, 48, 60, 200] {
        let cn: String = std::iter::repeat_n('x', n).collect();
        let (_, m) = started(&format!("n,,n=user,r={cn}"));
        let got = nonce(&m).len() - n;
        println!("client nonce {n}: {got} own characters");
        assert!(got >= 16);
    }
}''', 'a client nonce longer than about thirty characters', 'the server adds few or no characters of its own to the nonce, so old exchanges can be replayed')

seed('scram-multibyte-prefix', 'S08', [(SS, '            if p.len() >= 2 && p.as_bytes()[..2] == *prefix {', '            if p.len() >= 2 && p[..2].as_bytes() == prefix {')], COMMON + '''
fn main() {
    let mut s = ScramServer::new();
    println!("{:?}", s.decode_client_first("n,,\\u{20ac}user,r=abc"));
}''', 'a client-first whose third field starts with a three-byte character', 'a remote client can panic the connection task')

seed('scram-bare-flag', 'S06', [(SS, "            Some(c) if (c == 'n' || c == 'y') && token.len() == 1 => {}", "            Some(c) if c == 'n' && token.len() == 1 => {}\n            Some(c) if c == 'y' => {}")], COMMON + '''
fn main() {
    let mut s = ScramServer::new();
    let r = s.decode_client_first("y=tls-unique,,n=user,r=abc");
    println!("{r:?}");
    assert!(r.is_err());
    let mut s = ScramServer::new();
    s.decode_client_first("y,,n=user,r=abc").unwrap();
}''', 'a client-first whose first field is y followed by more text', 'client-first messages outside the defined form are accepted')

seed('scram-client-server-check', 'S07', [(SC, '        if server_signature.as_ref() == received.as_slice() {', '        if server_signature.as_ref().starts_with(&received) {')], '''
use scram::server::ScramServer;
#[path = "@REPO@/akasa-core/src/protocols/scram/client.rs"]
mod client_src_unused {}
use scram::client::ScramClient;
fn main() {
    let mut c = ScramClient::new("user", "pass", None);
    let f = c.encode_client_first().unwrap();
    let n = f.rsplit("r=").next().unwrap();
    c.decode_server_first(&format!("r={n}srv,s=c2FsdA==,i=10")).unwrap();
    let r = c.decode_server_final("v=");
    println!("{r:?}");
    assert!(r.is_err());
}'''.replace('''#[path = "@REPO@/akasa-core/src/protocols/scram/client.rs"]
mod client_src_unused {}
''', ''), 'a server-final with an empty (or short) signature', 'the client accepts a server that does not know the password')

PXC = '''
use proxy::*;
const SIG: [u8; 12] = [13, 10, 13, 10, 0, 13, 10, 81, 85, 73, 84, 10];
fn head(cmd: u8, fam: u8, extra: &[u8]) -> Vec<u8> {
    let mut v = SIG.to_vec();
    v.push(cmd);
    v.push(fam);
    v.extend_from_slice(&(extra.len() as u16).to_be_bytes());
    v.extend_from_slice(extra);
    v
}
fn run(data: &[u8], tls: bool) -> std::io::Result<Option<Header>> {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let mut r: &[u8] = data;
    rt.block_on(parse_header(&mut r, tls))
}
const V4: [u8; 12] = [10, 0, 0, 1, 10, 0, 0, 2, 1, 2, 3, 4];
'''
seed('proxy-short-tlv', 'P01', [(PX, '        if rest_len < 3 {', '        if rest_len < 2 {')], PXC + '''
fn main() {
    let mut e = V4.to_vec();
    e.extend_from_slice(&[0x04, 0x00]);
    println!("{:?}", run(&head(0x21, 0x11, &e), false));
}''', 'a header whose last field is cut after its second byte', 'the parser indexes past the field area and panics')

seed('proxy-local-payload', 'P02', [(PX, 'if !(byte_14th == 0 && extra_length == 0) {', 'if byte_14th != 0 || extra_length > UNIX_ADDRS_LEN {')], PXC + '''
fn main() {
    let r = run(&head(0x20, 0x00, &[1, 2, 3]), false);
    println!("{r:?}");
    assert!(r.is_err());
    assert!(run(&head(0x20, 0x00, &[]), false).unwrap().is_none());
}''', 'a LOCAL command that announces a payload', 'a malformed LOCAL header is accepted and its payload is left in the stream')

seed('proxy-v6-port', 'P03', [(PX, 'let destination_port = u16::from_be_bytes([bytes[34], bytes[35]]);', 'let destination_port = u16::from_be_bytes([bytes[33], bytes[35]]);')], PXC + '''
fn main() {
    let e: Vec<u8> = (0..36).collect();
    match run(&head(0x21, 0x21, &e), false).unwrap().unwrap().addresses {
        Addresses::IPv6 { source_port, destination_port, .. } => {
            assert_eq!(source_port, u16::from_be_bytes([32, 33]));
            assert_eq!(destination_port, u16::from_be_bytes([34, 35]));
        }
        _ => panic!(),
    }
}''', 'an IPv6 header', 'the destination port of IPv6 headers is wrong')

seed('proxy-crc-tail', 'P04', [(PX, 'value = crc32c::crc32c_append(value, tlv_bytes);', 'value = crc32c::crc32c_append(value, &tlv_bytes[..rest_len + offset - 3]);'),
                               (PX, '        let rest_len = remaining_len - offset;', '        let rest_len = (remaining_len - offset).min(120);')], PXC + '''
fn main() {
    // CRC field first, then 140 bytes of other fields
    let mut e = V4.to_vec();
    e.extend_from_slice(&[0x03, 0, 4, 0, 0, 0, 0]);
    e.extend_from_slice(&[0x04, 0, 60]);
    e.extend_from_slice(&[7; 60]);
    e.extend_from_slice(&[0x04, 0, 77]);
    e.extend_from_slice(&[8; 77]);
    let mut h = head(0x21, 0x11, &e);
    let c = crc32c::crc32c(&h);
    h[31..35].copy_from_slice(&c.to_be_bytes());
    let r = run(&h, false);
    println!("{r:?}");
    assert!(r.is_ok());
    let n = h.len() - 1;
    h[n] ^= 1;
    let r = run(&h, false);
    println!("{r:?}");
    assert!(r.is_err());
}''', 'a header with a checksum and more than 120 bytes of fields behind it', 'the checksum does not cover the end of the header')

seed('proxy-verify-any', 'P05', [(PX, 'if tlv_bytes[offset + 1..offset + 5] != [0u8; 4] {', 'if tlv_bytes[offset + 1..offset + 5].iter().all(|b| *b != 0) {')], PXC + '''
fn main() {
    let mut e = V4.to_vec();
    e.extend_from_slice(&[0x02, 0, 1, b'h']);
    e.extend_from_slice(&[0x20, 0, 5, 1, 0, 0, 0, 18]);
    let r = run(&head(0x21, 0x11, &e), true);
    println!("{r:?}");
    assert!(r.is_err());
}''', 'an SSL field whose verify value is non-zero in some but not all of its four bytes', 'a client whose certificate failed verification is accepted as TLS client')

seed('proxy-short-read', 'P06', [(PX, '    reader.read_exact(tlv_bytes).await?;', '''    if remaining_len > 0 && reader.read(tlv_bytes).await? == 0 {
        return Err(io::ErrorKind::UnexpectedEof.into());
    }''')], PXC + '''
struct Slow<'a>(&'a [u8], usize);
impl tokio::io::AsyncRead for Slow<'_> {
    fn poll_read(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>, b: &mut tokio::io::ReadBuf<'_>) -> std::task::Poll<std::io::Result<()>> {
        let n = self.1.min(self.0.len()).min(b.remaining());
        b.put_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        std::task::Poll::Ready(Ok(()))
    }
}
fn main() {
    let mut e = V4.to_vec();
    e.extend_from_slice(&[0x04, 0, 9, 1, 2, 3, 4, 5, 6, 7, 8, 9]);
    let mut h = head(0x21, 0x11, &e);
    h.extend_from_slice(b"CLIENT");
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let mut r = Slow(&h, 5);
    let got = rt.block_on(parse_header(&mut r, false));
    println!("{got:?} rest={:?}", r.0);
    assert!(got.is_err() || r.0 == b"CLIENT");
}''', 'a connection that delivers the header in several pieces', 'part of the header is left in the stream and read as client data')
from seeds_full import SEEDS as _FULL  # noqa: E402
SEEDS += _FULL
