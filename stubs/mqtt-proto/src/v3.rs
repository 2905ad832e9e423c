//! MQTT v3.1 / v3.1.1.
use std::convert::TryFrom;
use std::io;
use std::sync::Arc;

use bytes::Bytes;
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};

use crate::*;

pub type PollPacket<'a, T> = GenericPollPacket<'a, T, Header>;
pub type PollPacketState = GenericPollPacketState<Header>;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum PacketType {
    Connect,
    Connack,
    Publish,
    Puback,
    Pubrec,
    Pubrel,
    Pubcomp,
    Subscribe,
    Suback,
    Unsubscribe,
    Unsuback,
    Pingreq,
    Pingresp,
    Disconnect,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Header {
    pub typ: PacketType,
    pub dup: bool,
    pub qos: QoS,
    pub retain: bool,
    pub remaining_len: u32,
    pub header_len: u32,
}
impl Header {
    pub fn new_with(hd: u8, remaining_len: u32, header_len: u32) -> Result<Header, Error> {
        let flags = hd & 0x0f;
        let (typ, ok) = match hd >> 4 {
            1 => (PacketType::Connect, flags == 0),
            2 => (PacketType::Connack, flags == 0),
            3 => (PacketType::Publish, true),
            4 => (PacketType::Puback, flags == 0),
            5 => (PacketType::Pubrec, flags == 0),
            6 => (PacketType::Pubrel, flags == 2),
            7 => (PacketType::Pubcomp, flags == 0),
            8 => (PacketType::Subscribe, flags == 2),
            9 => (PacketType::Suback, flags == 0),
            10 => (PacketType::Unsubscribe, flags == 2),
            11 => (PacketType::Unsuback, flags == 0),
            12 => (PacketType::Pingreq, flags == 0),
            13 => (PacketType::Pingresp, flags == 0),
            14 => (PacketType::Disconnect, flags == 0),
            _ => return Err(Error::InvalidHeader),
        };
        if !ok {
            return Err(Error::InvalidHeader);
        }
        let (dup, qos, retain) = if typ == PacketType::Publish {
            (
                flags & 8 != 0,
                QoS::from_u8((flags >> 1) & 3)?,
                flags & 1 != 0,
            )
        } else {
            (false, QoS::Level0, false)
        };
        Ok(Header {
            typ,
            dup,
            qos,
            retain,
            remaining_len,
            header_len,
        })
    }
    pub async fn decode_async<T: AsyncRead + Unpin>(reader: &mut T) -> Result<Self, Error> {
        let (hd, remaining_len, len) = decode_raw_header_async(reader).await?;
        Header::new_with(hd, remaining_len, len as u32)
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Packet {
    Connect(Connect),
    Connack(Connack),
    Publish(Publish),
    Puback(Pid),
    Pubrec(Pid),
    Pubrel(Pid),
    Pubcomp(Pid),
    Subscribe(Subscribe),
    Suback(Suback),
    Unsubscribe(Unsubscribe),
    Unsuback(Pid),
    Pingreq,
    Pingresp,
    Disconnect,
}

impl PollHeader for Header {
    type Error = Error;
    type Packet = Packet;
    fn new_with_raw(hd: u8, remaining_len: u32) -> Result<Self, Error> {
        Header::new_with(hd, remaining_len, header_len(remaining_len as usize)? as u32)
    }
    fn build_empty_packet(&self) -> Option<Packet> {
        if self.remaining_len != 0 {
            return None;
        }
        match self.typ {
            PacketType::Pingreq => Some(Packet::Pingreq),
            PacketType::Pingresp => Some(Packet::Pingresp),
            PacketType::Disconnect => Some(Packet::Disconnect),
            _ => None,
        }
    }
    fn block_decode(self, reader: &mut &[u8]) -> Result<Packet, Error> {
        let mut r = Reader(reader);
        let packet = Packet::decode_body(self, &mut r)?;
        *reader = r.0;
        Ok(packet)
    }
    fn remaining_len(&self) -> usize {
        self.remaining_len as usize
    }
    fn is_eof_error(err: &Error) -> bool {
        err.is_eof()
    }
}

struct PidBody(Pid);
impl Encodable for PidBody {
    fn encode<W: io::Write>(&self, w: &mut W) -> io::Result<()> {
        w.write_all(&self.0.value().to_be_bytes())
    }
    fn encode_len(&self) -> usize {
        2
    }
}

impl Packet {
    fn decode_body(h: Header, r: &mut Reader<'_>) -> Result<Packet, Error> {
        Ok(match h.typ {
            PacketType::Connect => {
                let protocol = Protocol::decode(r)?;
                Packet::Connect(Connect::decode_rest(r, protocol)?)
            }
            PacketType::Connack => {
                let flags = r.u8()?;
                if flags > 1 {
                    return Err(Error::InvalidConnackFlags(flags));
                }
                Packet::Connack(Connack {
                    session_present: flags == 1,
                    code: ConnectReturnCode::from_u8(r.u8()?)?,
                })
            }
            PacketType::Publish => {
                let topic_name = TopicName::try_from(r.string()?)?;
                let qos_pid = match h.qos {
                    QoS::Level0 => QosPid::Level0,
                    QoS::Level1 => QosPid::Level1(r.pid()?),
                    QoS::Level2 => QosPid::Level2(r.pid()?),
                };
                let payload = Bytes::copy_from_slice(r.0);
                r.0 = &[];
                Packet::Publish(Publish {
                    dup: h.dup,
                    qos_pid,
                    retain: h.retain,
                    topic_name,
                    payload,
                })
            }
            PacketType::Puback => Packet::Puback(r.pid()?),
            PacketType::Pubrec => Packet::Pubrec(r.pid()?),
            PacketType::Pubrel => Packet::Pubrel(r.pid()?),
            PacketType::Pubcomp => Packet::Pubcomp(r.pid()?),
            PacketType::Unsuback => Packet::Unsuback(r.pid()?),
            PacketType::Subscribe => {
                let pid = r.pid()?;
                let mut topics = Vec::new();
                while !r.is_empty() {
                    let f = TopicFilter::try_from(r.string()?)?;
                    topics.push((f, QoS::from_u8(r.u8()?)?));
                }
                if topics.is_empty() {
                    return Err(Error::EmptySubscription);
                }
                Packet::Subscribe(Subscribe { pid, topics })
            }
            PacketType::Suback => {
                let pid = r.pid()?;
                let mut topics = Vec::new();
                while !r.is_empty() {
                    topics.push(SubscribeReturnCode::from_u8(r.u8()?)?);
                }
                Packet::Suback(Suback { pid, topics })
            }
            PacketType::Unsubscribe => {
                let pid = r.pid()?;
                let mut topics = Vec::new();
                while !r.is_empty() {
                    topics.push(TopicFilter::try_from(r.string()?)?);
                }
                if topics.is_empty() {
                    return Err(Error::EmptySubscription);
                }
                Packet::Unsubscribe(Unsubscribe { pid, topics })
            }
            PacketType::Pingreq => Packet::Pingreq,
            PacketType::Pingresp => Packet::Pingresp,
            PacketType::Disconnect => Packet::Disconnect,
        })
    }
    pub async fn decode_async<T: AsyncRead + Unpin>(reader: &mut T) -> Result<Self, Error> {
        let h = Header::decode_async(reader).await?;
        let mut buf = vec![0u8; h.remaining_len as usize];
        reader.read_exact(&mut buf).await?;
        Packet::decode_body(h, &mut Reader(&buf))
    }
    pub fn decode(data: &[u8]) -> Result<Option<Packet>, Error> {
        let Some((hd, remaining, n)) = decode_raw_header(data)? else {
            return Ok(None);
        };
        let h = Header::new_with(hd, remaining, n as u32)?;
        if data.len() < n + remaining as usize {
            return Ok(None);
        }
        let mut r = Reader(&data[n..n + remaining as usize]);
        let packet = Packet::decode_body(h, &mut r)?;
        if !r.is_empty() {
            return Err(Error::InvalidRemainingLength);
        }
        Ok(Some(packet))
    }
    pub fn get_type(&self) -> PacketType {
        match self {
            Packet::Connect(_) => PacketType::Connect,
            Packet::Connack(_) => PacketType::Connack,
            Packet::Publish(_) => PacketType::Publish,
            Packet::Puback(_) => PacketType::Puback,
            Packet::Pubrec(_) => PacketType::Pubrec,
            Packet::Pubrel(_) => PacketType::Pubrel,
            Packet::Pubcomp(_) => PacketType::Pubcomp,
            Packet::Subscribe(_) => PacketType::Subscribe,
            Packet::Suback(_) => PacketType::Suback,
            Packet::Unsubscribe(_) => PacketType::Unsubscribe,
            Packet::Unsuback(_) => PacketType::Unsuback,
            Packet::Pingreq => PacketType::Pingreq,
            Packet::Pingresp => PacketType::Pingresp,
            Packet::Disconnect => PacketType::Disconnect,
        }
    }
    pub fn encode(&self) -> Result<VarBytes, Error> {
        let pid = |control: u8, pid: Pid| {
            let b = pid.value().to_be_bytes();
            Ok(VarBytes::Fixed4([control, 2, b[0], b[1]]))
        };
        match self {
            Packet::Connect(p) => frame(0x10, p),
            Packet::Connack(p) => Ok(VarBytes::Fixed4([
                0x20,
                2,
                p.session_present as u8,
                p.code as u8,
            ])),
            Packet::Publish(p) => frame(
                0x30 | ((p.dup as u8) << 3) | ((p.qos_pid.qos() as u8) << 1) | p.retain as u8,
                p,
            ),
            Packet::Puback(p) => pid(0x40, *p),
            Packet::Pubrec(p) => pid(0x50, *p),
            Packet::Pubrel(p) => pid(0x62, *p),
            Packet::Pubcomp(p) => pid(0x70, *p),
            Packet::Subscribe(p) => frame(0x82, p),
            Packet::Suback(p) => frame(0x90, p),
            Packet::Unsubscribe(p) => frame(0xa2, p),
            Packet::Unsuback(p) => pid(0xb0, *p),
            Packet::Pingreq => Ok(VarBytes::Fixed2([0xc0, 0])),
            Packet::Pingresp => Ok(VarBytes::Fixed2([0xd0, 0])),
            Packet::Disconnect => Ok(VarBytes::Fixed2([0xe0, 0])),
        }
    }
    pub async fn encode_async<T: AsyncWrite + Unpin>(&self, writer: &mut T) -> Result<(), Error> {
        let data = self.encode()?;
        writer.write_all(data.as_ref()).await?;
        Ok(())
    }
    pub fn encode_len(&self) -> Result<usize, Error> {
        match self {
            Packet::Pingreq | Packet::Pingresp | Packet::Disconnect => Ok(2),
            Packet::Connect(p) => total_len(p.encode_len()),
            Packet::Publish(p) => total_len(p.encode_len()),
            Packet::Subscribe(p) => total_len(p.encode_len()),
            Packet::Suback(p) => total_len(p.encode_len()),
            Packet::Unsubscribe(p) => total_len(p.encode_len()),
            Packet::Connack(_) => Ok(4),
            Packet::Puback(p)
            | Packet::Pubrec(p)
            | Packet::Pubrel(p)
            | Packet::Pubcomp(p)
            | Packet::Unsuback(p) => total_len(PidBody(*p).encode_len()),
        }
    }
}

macro_rules! from_packet {
    ($($t:ident),*) => {$(
        impl From<$t> for Packet {
            fn from(p: $t) -> Packet { Packet::$t(p) }
        }
    )*};
}
from_packet!(Connect, Connack, Publish, Subscribe, Suback, Unsubscribe);

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct LastWill {
    pub qos: QoS,
    pub retain: bool,
    pub topic_name: TopicName,
    pub message: Bytes,
}
impl LastWill {
    pub fn new(qos: QoS, topic_name: TopicName, message: Bytes) -> Self {
        LastWill {
            qos,
            retain: false,
            topic_name,
            message,
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Connect {
    pub protocol: Protocol,
    pub clean_session: bool,
    pub keep_alive: u16,
    pub client_id: Arc<str>,
    pub last_will: Option<LastWill>,
    pub username: Option<Arc<str>>,
    pub password: Option<Bytes>,
}
impl Connect {
    pub fn new(client_id: Arc<str>, keep_alive: u16) -> Self {
        Connect {
            protocol: Protocol::V311,
            clean_session: true,
            keep_alive,
            client_id,
            last_will: None,
            username: None,
            password: None,
        }
    }
    fn decode_rest(r: &mut Reader<'_>, protocol: Protocol) -> Result<Self, Error> {
        if protocol == Protocol::V500 {
            return Err(Error::UnexpectedProtocol(protocol));
        }
        let flags = r.u8()?;
        if flags & 1 != 0 {
            return Err(Error::InvalidConnectFlags(flags));
        }
        let keep_alive = r.u16()?;
        let client_id = Arc::from(r.string()?);
        let last_will = if flags & 4 != 0 {
            let topic_name = TopicName::try_from(r.string()?)?;
            let message = r.bytes()?;
            Some(LastWill {
                qos: QoS::from_u8((flags >> 3) & 3)?,
                retain: flags & 0x20 != 0,
                topic_name,
                message,
            })
        } else if flags & 0b111000 != 0 {
            return Err(Error::InvalidConnectFlags(flags));
        } else {
            None
        };
        let username = if flags & 0x80 != 0 {
            Some(Arc::from(r.string()?))
        } else {
            None
        };
        let password = if flags & 0x40 != 0 {
            Some(r.bytes()?)
        } else {
            None
        };
        Ok(Connect {
            protocol,
            clean_session: flags & 2 != 0,
            keep_alive,
            client_id,
            last_will,
            username,
            password,
        })
    }
    /// The fields after the protocol, read one by one from the stream.
    pub async fn decode_stream_with_protocol<T: AsyncRead + Unpin>(
        reader: &mut T,
        protocol: Protocol,
    ) -> Result<Self, Error> {
        async fn blob<T: AsyncRead + Unpin>(r: &mut T, out: &mut Vec<u8>) -> Result<(), Error> {
            let n = r.read_u16().await?;
            out.extend(n.to_be_bytes());
            let start = out.len();
            out.resize(start + n as usize, 0);
            r.read_exact(&mut out[start..]).await?;
            Ok(())
        }
        let flags = reader.read_u8().await?;
        let keep_alive = reader.read_u16().await?;
        let mut out = vec![flags];
        out.extend(keep_alive.to_be_bytes());
        blob(reader, &mut out).await?;
        if flags & 4 != 0 {
            blob(reader, &mut out).await?;
            blob(reader, &mut out).await?;
        }
        if flags & 0x80 != 0 {
            blob(reader, &mut out).await?;
        }
        if flags & 0x40 != 0 {
            blob(reader, &mut out).await?;
        }
        Connect::decode_rest(&mut Reader(&out), protocol)
    }
}
impl Encodable for Connect {
    fn encode<W: io::Write>(&self, w: &mut W) -> io::Result<()> {
        self.protocol.encode(w)?;
        let mut flags = 0u8;
        if self.clean_session {
            flags |= 2;
        }
        if self.username.is_some() {
            flags |= 0x80;
        }
        if self.password.is_some() {
            flags |= 0x40;
        }
        if let Some(will) = &self.last_will {
            flags |= 4 | ((will.qos as u8) << 3);
            if will.retain {
                flags |= 0x20;
            }
        }
        w.write_all(&[flags])?;
        w.write_all(&self.keep_alive.to_be_bytes())?;
        put_str(w, &self.client_id)?;
        if let Some(will) = &self.last_will {
            put_str(w, &will.topic_name)?;
            put_bytes(w, &will.message)?;
        }
        if let Some(v) = &self.username {
            put_str(w, v)?;
        }
        if let Some(v) = &self.password {
            put_bytes(w, v)?;
        }
        Ok(())
    }
    fn encode_len(&self) -> usize {
        let mut n = self.protocol.encode_len() + 1 + 2 + 2 + self.client_id.len();
        if let Some(will) = &self.last_will {
            n += 4 + will.topic_name.len() + will.message.len();
        }
        n += self.username.as_ref().map_or(0, |v| 2 + v.len());
        n += self.password.as_ref().map_or(0, |v| 2 + v.len());
        n
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum ConnectReturnCode {
    Accepted = 0,
    UnacceptableProtocolVersion = 1,
    IdentifierRejected = 2,
    ServerUnavailable = 3,
    BadUserNameOrPassword = 4,
    NotAuthorized = 5,
}
impl ConnectReturnCode {
    pub fn from_u8(v: u8) -> Result<Self, Error> {
        Ok(match v {
            0 => ConnectReturnCode::Accepted,
            1 => ConnectReturnCode::UnacceptableProtocolVersion,
            2 => ConnectReturnCode::IdentifierRejected,
            3 => ConnectReturnCode::ServerUnavailable,
            4 => ConnectReturnCode::BadUserNameOrPassword,
            5 => ConnectReturnCode::NotAuthorized,
            _ => return Err(Error::InvalidConnectReturnCode(v)),
        })
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Connack {
    pub session_present: bool,
    pub code: ConnectReturnCode,
}
impl Connack {
    pub fn new(session_present: bool, code: ConnectReturnCode) -> Self {
        Connack {
            session_present,
            code,
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Publish {
    pub dup: bool,
    pub qos_pid: QosPid,
    pub retain: bool,
    pub topic_name: TopicName,
    pub payload: Bytes,
}
impl Publish {
    pub fn new(qos_pid: QosPid, topic_name: TopicName, payload: Bytes) -> Self {
        Publish {
            dup: false,
            qos_pid,
            retain: false,
            topic_name,
            payload,
        }
    }
}
impl Encodable for Publish {
    fn encode<W: io::Write>(&self, w: &mut W) -> io::Result<()> {
        put_str(w, &self.topic_name)?;
        if let Some(pid) = self.qos_pid.pid() {
            w.write_all(&pid.value().to_be_bytes())?;
        }
        w.write_all(&self.payload)
    }
    fn encode_len(&self) -> usize {
        2 + self.topic_name.len() + self.qos_pid.pid().map_or(0, |_| 2) + self.payload.len()
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Subscribe {
    pub pid: Pid,
    pub topics: Vec<(TopicFilter, QoS)>,
}
impl Subscribe {
    pub fn new(pid: Pid, topics: Vec<(TopicFilter, QoS)>) -> Self {
        Subscribe { pid, topics }
    }
}
impl Encodable for Subscribe {
    fn encode<W: io::Write>(&self, w: &mut W) -> io::Result<()> {
        w.write_all(&self.pid.value().to_be_bytes())?;
        for (f, q) in &self.topics {
            put_str(w, f)?;
            w.write_all(&[*q as u8])?;
        }
        Ok(())
    }
    fn encode_len(&self) -> usize {
        2 + self.topics.iter().map(|(f, _)| 3 + f.len()).sum::<usize>()
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum SubscribeReturnCode {
    MaxLevel0 = 0,
    MaxLevel1 = 1,
    MaxLevel2 = 2,
    Failure = 0x80,
}
impl SubscribeReturnCode {
    pub fn from_u8(v: u8) -> Result<Self, Error> {
        Ok(match v {
            0x80 => SubscribeReturnCode::Failure,
            v => QoS::from_u8(v)?.into(),
        })
    }
}
impl From<QoS> for SubscribeReturnCode {
    fn from(q: QoS) -> Self {
        match q {
            QoS::Level0 => SubscribeReturnCode::MaxLevel0,
            QoS::Level1 => SubscribeReturnCode::MaxLevel1,
            QoS::Level2 => SubscribeReturnCode::MaxLevel2,
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Suback {
    pub pid: Pid,
    pub topics: Vec<SubscribeReturnCode>,
}
impl Suback {
    pub fn new(pid: Pid, topics: Vec<SubscribeReturnCode>) -> Self {
        Suback { pid, topics }
    }
}
impl Encodable for Suback {
    fn encode<W: io::Write>(&self, w: &mut W) -> io::Result<()> {
        w.write_all(&self.pid.value().to_be_bytes())?;
        for c in &self.topics {
            w.write_all(&[*c as u8])?;
        }
        Ok(())
    }
    fn encode_len(&self) -> usize {
        2 + self.topics.len()
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Unsubscribe {
    pub pid: Pid,
    pub topics: Vec<TopicFilter>,
}
impl Unsubscribe {
    pub fn new(pid: Pid, topics: Vec<TopicFilter>) -> Self {
        Unsubscribe { pid, topics }
    }
}
impl Encodable for Unsubscribe {
    fn encode<W: io::Write>(&self, w: &mut W) -> io::Result<()> {
        w.write_all(&self.pid.value().to_be_bytes())?;
        for f in &self.topics {
            put_str(w, f)?;
        }
        Ok(())
    }
    fn encode_len(&self) -> usize {
        2 + self.topics.iter().map(|f| 2 + f.len()).sum::<usize>()
    }
}
