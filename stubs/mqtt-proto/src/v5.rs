//! MQTT v5.0.
use std::convert::TryFrom;
use std::fmt;
use std::io;
use std::sync::Arc;

use bytes::Bytes;
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};

use crate::*;

pub type PollPacket<'a, T> = GenericPollPacket<'a, T, Header>;
pub type PollPacketState = GenericPollPacketState<Header>;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum PacketType {
    Connect,
    Connack,
    Publish,
    Puback,
    Pubrec,
    Pubrel,
    Pubcomp,
    Subscribe,
    Suback,
    Unsubscribe,
    Unsuback,
    Pingreq,
    Pingresp,
    Disconnect,
    Auth,
}
impl fmt::Display for PacketType {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum PropertyId {
    PayloadFormatIndicator = 1,
    MessageExpiryInterval = 2,
    ContentType = 3,
    ResponseTopic = 8,
    CorrelationData = 9,
    SubscriptionIdentifier = 11,
    SessionExpiryInterval = 17,
    AssignedClientIdentifier = 18,
    ServerKeepAlive = 19,
    AuthenticationMethod = 21,
    AuthenticationData = 22,
    RequestProblemInformation = 23,
    WillDelayInterval = 24,
    RequestResponseInformation = 25,
    ResponseInformation = 26,
    ServerReference = 28,
    ReasonString = 31,
    ReceiveMaximum = 33,
    TopicAliasMaximum = 34,
    TopicAlias = 35,
    MaximumQoS = 36,
    RetainAvailable = 37,
    UserProperty = 38,
    MaximumPacketSize = 39,
    WildcardSubscriptionAvailable = 40,
    SubscriptionIdentifierAvailable = 41,
    SharedSubscriptionAvailable = 42,
}

#[derive(Debug, Clone, PartialEq, Eq, thiserror::Error)]
pub enum ErrorV5 {
    #[error("common error: {0}")]
    Common(Error),
    #[error("invalid reason code {1} in {0}")]
    InvalidReasonCode(PacketType, u8),
    #[error("invalid subscription option {0}")]
    InvalidSubscriptionOption(u8),
    #[error("invalid property id {0}")]
    InvalidPropertyId(u8),
    #[error("invalid property {1} in {0}")]
    InvalidProperty(PacketType, u8),
    #[error("invalid will property {0}")]
    InvalidWillProperty(u8),
    #[error("duplicated property {0}")]
    DuplicatedProperty(u8),
    #[error("invalid property length {0}")]
    InvalidPropertyLength(u32),
    #[error("invalid byte property {0}")]
    InvalidByteProperty(u8),
    #[error("invalid payload format, utf8 expected")]
    InvalidPayloadFormat,
    #[error("invalid response topic")]
    InvalidResponseTopic,
}
impl From<Error> for ErrorV5 {
    fn from(e: Error) -> Self {
        ErrorV5::Common(e)
    }
}
impl From<io::Error> for ErrorV5 {
    fn from(e: io::Error) -> Self {
        ErrorV5::Common(e.into())
    }
}
impl From<ErrorV5> for io::Error {
    fn from(e: ErrorV5) -> Self {
        match e {
            ErrorV5::Common(e) => e.into(),
            _ => io::ErrorKind::InvalidData.into(),
        }
    }
}
impl ErrorV5 {
    pub fn is_eof(&self) -> bool {
        matches!(self, ErrorV5::Common(e) if e.is_eof())
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct VarByteInt(u32);
impl VarByteInt {
    pub fn value(self) -> u32 {
        self.0
    }
}
impl TryFrom<u32> for VarByteInt {
    type Error = Error;
    fn try_from(v: u32) -> Result<Self, Error> {
        if v < 268435456 {
            Ok(VarByteInt(v))
        } else {
            Err(Error::InvalidVarByteInt)
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct UserProperty {
    pub name: Arc<str>,
    pub value: Arc<str>,
}

// ------------------------------------------------------------- properties

/// One property field: how it is encoded and decoded.
trait Prop {
    fn put(&self, id: u8, w: &mut Vec<u8>);
    fn get(&mut self, id: u8, r: &mut Reader<'_>) -> Result<(), ErrorV5>;
}
fn once<T>(slot: &mut Option<T>, id: u8, v: T) -> Result<(), ErrorV5> {
    if slot.is_some() {
        return Err(ErrorV5::DuplicatedProperty(id));
    }
    *slot = Some(v);
    Ok(())
}
macro_rules! prop {
    ($t:ty, |$v:ident, $w:ident| $put:expr, |$r:ident, $id:ident| $get:expr) => {
        impl Prop for Option<$t> {
            fn put(&self, id: u8, $w: &mut Vec<u8>) {
                if let Some($v) = self {
                    $w.push(id);
                    $put
                }
            }
            fn get(&mut self, $id: u8, $r: &mut Reader<'_>) -> Result<(), ErrorV5> {
                let v = $get;
                once(self, $id, v)
            }
        }
    };
}
prop!(u16, |v, w| w.extend(v.to_be_bytes()), |r, _id| r.u16()?);
prop!(u32, |v, w| w.extend(v.to_be_bytes()), |r, _id| r.u32()?);
prop!(bool, |v, w| w.push(*v as u8), |r, id| match r.u8()? {
    0 => false,
    1 => true,
    _ => return Err(ErrorV5::InvalidByteProperty(id)),
});
prop!(QoS, |v, w| w.push(*v as u8), |r, _id| QoS::from_u8(r.u8()?)?);
prop!(
    Arc<str>,
    |v, w| put_str(w, v).unwrap(),
    |r, _id| Arc::from(r.string()?)
);
prop!(
    TopicName,
    |v, w| put_str(w, v).unwrap(),
    |r, _id| TopicName::try_from(r.string()?).map_err(|_| ErrorV5::InvalidResponseTopic)?
);
prop!(Bytes, |v, w| put_bytes(w, v).unwrap(), |r, _id| r.bytes()?);
prop!(
    VarByteInt,
    |v, w| put_varint(w, v.0 as usize).unwrap(),
    |r, _id| VarByteInt(r.varint()?)
);
impl Prop for Vec<VarByteInt> {
    fn put(&self, id: u8, w: &mut Vec<u8>) {
        for v in self {
            w.push(id);
            put_varint(w, v.0 as usize).unwrap();
        }
    }
    fn get(&mut self, _id: u8, r: &mut Reader<'_>) -> Result<(), ErrorV5> {
        self.push(VarByteInt(r.varint()?));
        Ok(())
    }
}
impl Prop for Vec<UserProperty> {
    fn put(&self, id: u8, w: &mut Vec<u8>) {
        for v in self {
            w.push(id);
            put_str(w, &v.name).unwrap();
            put_str(w, &v.value).unwrap();
        }
    }
    fn get(&mut self, _id: u8, r: &mut Reader<'_>) -> Result<(), ErrorV5> {
        self.push(UserProperty {
            name: Arc::from(r.string()?),
            value: Arc::from(r.string()?),
        });
        Ok(())
    }
}

macro_rules! properties {
    ($(#[$m:meta])* $name:ident [$pt:expr] { $($field:ident : $t:ty = $id:literal),* $(,)? }) => {
        $(#[$m])*
        #[derive(Debug, Clone, Default, PartialEq, Eq, Hash)]
        pub struct $name { $(pub $field: $t),* }
        impl $name {
            fn body(&self) -> Vec<u8> {
                let mut w = Vec::new();
                $( self.$field.put($id, &mut w); )*
                w
            }
            fn decode_props(r: &mut Reader<'_>) -> Result<Self, ErrorV5> {
                let len = r.varint()?;
                let mut pr = Reader(r.take(len as usize).map_err(|_| ErrorV5::InvalidPropertyLength(len))?);
                let mut out = $name::default();
                while !pr.is_empty() {
                    let id = pr.u8()?;
                    match id {
                        $( $id => out.$field.get(id, &mut pr)?, )*
                        _ => return Err(ErrorV5::InvalidProperty($pt, id)),
                    }
                }
                Ok(out)
            }
            pub fn is_empty(&self) -> bool {
                self.body().is_empty()
            }
        }
        impl Encodable for $name {
            fn encode<W: io::Write>(&self, w: &mut W) -> io::Result<()> {
                let body = self.body();
                put_varint(w, body.len())?;
                w.write_all(&body)
            }
            fn encode_len(&self) -> usize {
                let n = self.body().len();
                n + var_int_len(n).expect("properties too long")
            }
        }
    };
}

properties!(ConnectProperties [PacketType::Connect] {
    session_expiry_interval: Option<u32> = 17,
    receive_max: Option<u16> = 33,
    max_packet_size: Option<u32> = 39,
    topic_alias_max: Option<u16> = 34,
    request_response_info: Option<bool> = 25,
    request_problem_info: Option<bool> = 23,
    user_properties: Vec<UserProperty> = 38,
    auth_method: Option<Arc<str>> = 21,
    auth_data: Option<Bytes> = 22,
});
properties!(WillProperties [PacketType::Connect] {
    delay_interval: Option<u32> = 24,
    payload_is_utf8: Option<bool> = 1,
    message_expiry_interval: Option<u32> = 2,
    content_type: Option<Arc<str>> = 3,
    response_topic: Option<TopicName> = 8,
    correlation_data: Option<Bytes> = 9,
    user_properties: Vec<UserProperty> = 38,
});
properties!(ConnackProperties [PacketType::Connack] {
    session_expiry_interval: Option<u32> = 17,
    receive_max: Option<u16> = 33,
    max_qos: Option<QoS> = 36,
    retain_available: Option<bool> = 37,
    max_packet_size: Option<u32> = 39,
    assigned_client_id: Option<Arc<str>> = 18,
    topic_alias_max: Option<u16> = 34,
    reason_string: Option<Arc<str>> = 31,
    user_properties: Vec<UserProperty> = 38,
    wildcard_subscription_available: Option<bool> = 40,
    subscription_id_available: Option<bool> = 41,
    shared_subscription_available: Option<bool> = 42,
    server_keep_alive: Option<u16> = 19,
    response_info: Option<Arc<str>> = 26,
    server_reference: Option<Arc<str>> = 28,
    auth_method: Option<Arc<str>> = 21,
    auth_data: Option<Bytes> = 22,
});
properties!(DisconnectProperties [PacketType::Disconnect] {
    session_expiry_interval: Option<u32> = 17,
    reason_string: Option<Arc<str>> = 31,
    user_properties: Vec<UserProperty> = 38,
    server_reference: Option<Arc<str>> = 28,
});
properties!(AuthProperties [PacketType::Auth] {
    auth_method: Option<Arc<str>> = 21,
    auth_data: Option<Bytes> = 22,
    reason_string: Option<Arc<str>> = 31,
    user_properties: Vec<UserProperty> = 38,
});
properties!(PublishProperties [PacketType::Publish] {
    payload_is_utf8: Option<bool> = 1,
    message_expiry_interval: Option<u32> = 2,
    topic_alias: Option<u16> = 35,
    response_topic: Option<TopicName> = 8,
    correlation_data: Option<Bytes> = 9,
    user_properties: Vec<UserProperty> = 38,
    subscription_ids: Vec<VarByteInt> = 11,
    content_type: Option<Arc<str>> = 3,
});
properties!(SubscribeProperties [PacketType::Subscribe] {
    subscription_id: Option<VarByteInt> = 11,
    user_properties: Vec<UserProperty> = 38,
});
properties!(SubackProperties [PacketType::Suback] {
    reason_string: Option<Arc<str>> = 31,
    user_properties: Vec<UserProperty> = 38,
});
properties!(UnsubscribeProperties [PacketType::Unsubscribe] {
    user_properties: Vec<UserProperty> = 38,
});
properties!(UnsubackProperties [PacketType::Unsuback] {
    reason_string: Option<Arc<str>> = 31,
    user_properties: Vec<UserProperty> = 38,
});
properties!(PubackProperties [PacketType::Puback] {
    reason_string: Option<Arc<str>> = 31,
    user_properties: Vec<UserProperty> = 38,
});
properties!(PubrecProperties [PacketType::Pubrec] {
    reason_string: Option<Arc<str>> = 31,
    user_properties: Vec<UserProperty> = 38,
});
properties!(PubrelProperties [PacketType::Pubrel] {
    reason_string: Option<Arc<str>> = 31,
    user_properties: Vec<UserProperty> = 38,
});
properties!(PubcompProperties [PacketType::Pubcomp] {
    reason_string: Option<Arc<str>> = 31,
    user_properties: Vec<UserProperty> = 38,
});

// ------------------------------------------------------------- reason codes

macro_rules! codes {
    ($name:ident [$pt:expr] { $($v:ident = $n:literal),* $(,)? }) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
        #[repr(u8)]
        pub enum $name { $($v = $n),* }
        impl $name {
            pub fn from_u8(v: u8) -> Option<Self> {
                match v { $($n => Some($name::$v),)* _ => None }
            }
            #[allow(dead_code)]
            fn read(r: &mut Reader<'_>) -> Result<Self, ErrorV5> {
                let v = r.u8()?;
                $name::from_u8(v).ok_or(ErrorV5::InvalidReasonCode($pt, v))
            }
        }
    };
}
codes!(ConnectReasonCode [PacketType::Connack] {
    Success = 0x00, UnspecifiedError = 0x80, MalformedPacket = 0x81, ProtocolError = 0x82,
    ImplementationSpecificError = 0x83, UnsupportedProtocolVersion = 0x84,
    ClientIdentifierNotValid = 0x85, BadUserNameOrPassword = 0x86, NotAuthorized = 0x87,
    ServerUnavailable = 0x88, ServerBusy = 0x89, Banned = 0x8a, BadAuthMethod = 0x8c,
    TopicNameInvalid = 0x90, PacketTooLarge = 0x95, QuotaExceeded = 0x97,
    PayloadFormatInvalid = 0x99, RetainNotSupported = 0x9a, QoSNotSupported = 0x9b,
    UseAnotherServer = 0x9c, ServerMoved = 0x9d, ConnectionRateExceeded = 0x9f,
});
codes!(DisconnectReasonCode [PacketType::Disconnect] {
    NormalDisconnect = 0x00, DisconnectWithWillMessage = 0x04, UnspecifiedError = 0x80,
    MalformedPacket = 0x81, ProtocolError = 0x82, ImplementationSpecificError = 0x83,
    NotAuthorized = 0x87, ServerBusy = 0x89, ServerShuttingDown = 0x8b, KeepAliveTimeout = 0x8d,
    SessionTakenOver = 0x8e, TopicFilterInvalid = 0x8f, TopicNameInvalid = 0x90,
    ReceiveMaximumExceeded = 0x93, TopicAliasInvalid = 0x94, PacketTooLarge = 0x95,
    MessageRateTooHigh = 0x96, QuotaExceeded = 0x97, AdministrativeAction = 0x98,
    PayloadFormatInvalid = 0x99, RetainNotSupported = 0x9a, QoSNotSupported = 0x9b,
    UserAnotherServer = 0x9c, ServerMoved = 0x9d, SharedSubscriptionNotSupported = 0x9e,
    ConnectionRateExceeded = 0x9f, MaximumConnectTime = 0xa0,
    SubscriptionIdentifiersNotSupported = 0xa1, WildcardSubscriptionsNotSupported = 0xa2,
});
codes!(AuthReasonCode [PacketType::Auth] {
    Success = 0x00, ContinueAuthentication = 0x18, ReAuthentication = 0x19,
});
codes!(PubackReasonCode [PacketType::Puback] {
    Success = 0x00, NoMatchingSubscribers = 0x10, UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83, NotAuthorized = 0x87, TopicNameInvalid = 0x90,
    PacketIdentifierInUse = 0x91, QuotaExceeded = 0x97, PayloadFormatInvalid = 0x99,
});
codes!(PubrecReasonCode [PacketType::Pubrec] {
    Success = 0x00, NoMatchingSubscribers = 0x10, UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83, NotAuthorized = 0x87, TopicNameInvalid = 0x90,
    PacketIdentifierInUse = 0x91, QuotaExceeded = 0x97, PayloadFormatInvalid = 0x99,
});
codes!(PubrelReasonCode [PacketType::Pubrel] {
    Success = 0x00, PacketIdentifierNotFound = 0x92,
});
codes!(PubcompReasonCode [PacketType::Pubcomp] {
    Success = 0x00, PacketIdentifierNotFound = 0x92,
});
codes!(SubscribeReasonCode [PacketType::Suback] {
    GrantedQoS0 = 0x00, GrantedQoS1 = 0x01, GrantedQoS2 = 0x02, UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83, NotAuthorized = 0x87, TopicFilterInvalid = 0x8f,
    PacketIdentifierInUse = 0x91, QuotaExceeded = 0x97, SharedSubscriptionNotSupported = 0x9e,
    SubscriptionIdentifiersNotSupported = 0xa1, WildcardSubscriptionsNotSupported = 0xa2,
});
codes!(UnsubscribeReasonCode [PacketType::Unsuback] {
    Success = 0x00, NoSubscriptionExisted = 0x11, UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83, NotAuthorized = 0x87, TopicFilterInvalid = 0x8f,
    PacketIdentifierInUse = 0x91,
});

// ------------------------------------------------------------- header and packet

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Header {
    pub typ: PacketType,
    pub dup: bool,
    pub qos: QoS,
    pub retain: bool,
    pub remaining_len: u32,
    pub header_len: u32,
}
impl Header {
    pub fn new_with(hd: u8, remaining_len: u32, header_len: u32) -> Result<Header, ErrorV5> {
        let flags = hd & 0x0f;
        let (typ, ok) = match hd >> 4 {
            1 => (PacketType::Connect, flags == 0),
            2 => (PacketType::Connack, flags == 0),
            3 => (PacketType::Publish, true),
            4 => (PacketType::Puback, flags == 0),
            5 => (PacketType::Pubrec, flags == 0),
            6 => (PacketType::Pubrel, flags == 2),
            7 => (PacketType::Pubcomp, flags == 0),
            8 => (PacketType::Subscribe, flags == 2),
            9 => (PacketType::Suback, flags == 0),
            10 => (PacketType::Unsubscribe, flags == 2),
            11 => (PacketType::Unsuback, flags == 0),
            12 => (PacketType::Pingreq, flags == 0),
            13 => (PacketType::Pingresp, flags == 0),
            14 => (PacketType::Disconnect, flags == 0),
            15 => (PacketType::Auth, flags == 0),
            _ => return Err(Error::InvalidHeader.into()),
        };
        if !ok {
            return Err(Error::InvalidHeader.into());
        }
        let (dup, qos, retain) = if typ == PacketType::Publish {
            (
                flags & 8 != 0,
                QoS::from_u8((flags >> 1) & 3)?,
                flags & 1 != 0,
            )
        } else {
            (false, QoS::Level0, false)
        };
        Ok(Header {
            typ,
            dup,
            qos,
            retain,
            remaining_len,
            header_len,
        })
    }
    pub async fn decode_async<T: AsyncRead + Unpin>(reader: &mut T) -> Result<Self, ErrorV5> {
        let (hd, remaining_len, len) = decode_raw_header_async(reader).await?;
        Header::new_with(hd, remaining_len, len as u32)
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Packet {
    Connect(Connect),
    Connack(Connack),
    Publish(Publish),
    Puback(Puback),
    Pubrec(Pubrec),
    Pubrel(Pubrel),
    Pubcomp(Pubcomp),
    Subscribe(Subscribe),
    Suback(Suback),
    Unsubscribe(Unsubscribe),
    Unsuback(Unsuback),
    Pingreq,
    Pingresp,
    Disconnect(Disconnect),
    Auth(Auth),
}

impl PollHeader for Header {
    type Error = ErrorV5;
    type Packet = Packet;
    fn new_with_raw(hd: u8, remaining_len: u32) -> Result<Self, ErrorV5> {
        Header::new_with(hd, remaining_len, header_len(remaining_len as usize)? as u32)
    }
    fn build_empty_packet(&self) -> Option<Packet> {
        if self.remaining_len != 0 {
            return None;
        }
        match self.typ {
            PacketType::Pingreq => Some(Packet::Pingreq),
            PacketType::Pingresp => Some(Packet::Pingresp),
            PacketType::Disconnect => Some(
                Disconnect::new(DisconnectReasonCode::NormalDisconnect).into(),
            ),
            PacketType::Auth => Some(Auth::new_success().into()),
            _ => None,
        }
    }
    fn block_decode(self, reader: &mut &[u8]) -> Result<Packet, ErrorV5> {
        let mut r = Reader(reader);
        let packet = Packet::decode_body(self, &mut r)?;
        *reader = r.0;
        Ok(packet)
    }
    fn remaining_len(&self) -> usize {
        self.remaining_len as usize
    }
    fn is_eof_error(err: &ErrorV5) -> bool {
        err.is_eof()
    }
}

impl Packet {
    fn decode_body(h: Header, r: &mut Reader<'_>) -> Result<Packet, ErrorV5> {
        Ok(match h.typ {
            PacketType::Connect => {
                let protocol = Protocol::decode(r)?;
                Packet::Connect(Connect::decode_rest(r, protocol)?)
            }
            PacketType::Connack => {
                let flags = r.u8()?;
                if flags > 1 {
                    return Err(Error::InvalidConnackFlags(flags).into());
                }
                Packet::Connack(Connack {
                    session_present: flags == 1,
                    reason_code: ConnectReasonCode::read(r)?,
                    properties: ConnackProperties::decode_props(r)?,
                })
            }
            PacketType::Publish => {
                let topic_name = TopicName::try_from(r.string()?)?;
                let qos_pid = match h.qos {
                    QoS::Level0 => QosPid::Level0,
                    QoS::Level1 => QosPid::Level1(r.pid()?),
                    QoS::Level2 => QosPid::Level2(r.pid()?),
                };
                let properties = PublishProperties::decode_props(r)?;
                let payload = Bytes::copy_from_slice(r.0);
                r.0 = &[];
                if properties.payload_is_utf8 == Some(true)
                    && std::str::from_utf8(&payload).is_err()
                {
                    return Err(ErrorV5::InvalidPayloadFormat);
                }
                Packet::Publish(Publish {
                    dup: h.dup,
                    qos_pid,
                    retain: h.retain,
                    topic_name,
                    payload,
                    properties,
                })
            }
            PacketType::Puback => Packet::Puback(Puback::decode_ack(r)?),
            PacketType::Pubrec => Packet::Pubrec(Pubrec::decode_ack(r)?),
            PacketType::Pubrel => Packet::Pubrel(Pubrel::decode_ack(r)?),
            PacketType::Pubcomp => Packet::Pubcomp(Pubcomp::decode_ack(r)?),
            PacketType::Subscribe => {
                let pid = r.pid()?;
                let properties = SubscribeProperties::decode_props(r)?;
                let mut topics = Vec::new();
                while !r.is_empty() {
                    let f = TopicFilter::try_from(r.string()?)?;
                    topics.push((f, SubscriptionOptions::from_u8(r.u8()?)?));
                }
                if topics.is_empty() {
                    return Err(Error::EmptySubscription.into());
                }
                Packet::Subscribe(Subscribe {
                    pid,
                    properties,
                    topics,
                })
            }
            PacketType::Suback => {
                let pid = r.pid()?;
                let properties = SubackProperties::decode_props(r)?;
                let mut topics = Vec::new();
                while !r.is_empty() {
                    topics.push(SubscribeReasonCode::read(r)?);
                }
                Packet::Suback(Suback {
                    pid,
                    properties,
                    topics,
                })
            }
            PacketType::Unsubscribe => {
                let pid = r.pid()?;
                let properties = UnsubscribeProperties::decode_props(r)?;
                let mut topics = Vec::new();
                while !r.is_empty() {
                    topics.push(TopicFilter::try_from(r.string()?)?);
                }
                if topics.is_empty() {
                    return Err(Error::EmptySubscription.into());
                }
                Packet::Unsubscribe(Unsubscribe {
                    pid,
                    properties,
                    topics,
                })
            }
            PacketType::Unsuback => {
                let pid = r.pid()?;
                let properties = UnsubackProperties::decode_props(r)?;
                let mut topics = Vec::new();
                while !r.is_empty() {
                    topics.push(UnsubscribeReasonCode::read(r)?);
                }
                Packet::Unsuback(Unsuback {
                    pid,
                    properties,
                    topics,
                })
            }
            PacketType::Pingreq => Packet::Pingreq,
            PacketType::Pingresp => Packet::Pingresp,
            PacketType::Disconnect => {
                if r.is_empty() {
                    return Ok(Disconnect::new_normal().into());
                }
                let reason_code = DisconnectReasonCode::read(r)?;
                let properties = if r.is_empty() {
                    DisconnectProperties::default()
                } else {
                    DisconnectProperties::decode_props(r)?
                };
                Packet::Disconnect(Disconnect {
                    reason_code,
                    properties,
                })
            }
            PacketType::Auth => {
                if r.is_empty() {
                    return Ok(Auth::new_success().into());
                }
                let reason_code = AuthReasonCode::read(r)?;
                let properties = if r.is_empty() {
                    AuthProperties::default()
                } else {
                    AuthProperties::decode_props(r)?
                };
                Packet::Auth(Auth {
                    reason_code,
                    properties,
                })
            }
        })
    }
    pub async fn decode_async<T: AsyncRead + Unpin>(reader: &mut T) -> Result<Self, ErrorV5> {
        let h = Header::decode_async(reader).await?;
        let mut buf = vec![0u8; h.remaining_len as usize];
        reader.read_exact(&mut buf).await?;
        Packet::decode_body(h, &mut Reader(&buf))
    }
    pub fn decode(data: &[u8]) -> Result<Option<Packet>, ErrorV5> {
        let Some((hd, remaining, n)) = decode_raw_header(data)? else {
            return Ok(None);
        };
        let h = Header::new_with(hd, remaining, n as u32)?;
        if data.len() < n + remaining as usize {
            return Ok(None);
        }
        let mut r = Reader(&data[n..n + remaining as usize]);
        let packet = Packet::decode_body(h, &mut r)?;
        if !r.is_empty() {
            return Err(Error::InvalidRemainingLength.into());
        }
        Ok(Some(packet))
    }
    pub fn get_type(&self) -> PacketType {
        match self {
            Packet::Connect(_) => PacketType::Connect,
            Packet::Connack(_) => PacketType::Connack,
            Packet::Publish(_) => PacketType::Publish,
            Packet::Puback(_) => PacketType::Puback,
            Packet::Pubrec(_) => PacketType::Pubrec,
            Packet::Pubrel(_) => PacketType::Pubrel,
            Packet::Pubcomp(_) => PacketType::Pubcomp,
            Packet::Subscribe(_) => PacketType::Subscribe,
            Packet::Suback(_) => PacketType::Suback,
            Packet::Unsubscribe(_) => PacketType::Unsubscribe,
            Packet::Unsuback(_) => PacketType::Unsuback,
            Packet::Pingreq => PacketType::Pingreq,
            Packet::Pingresp => PacketType::Pingresp,
            Packet::Disconnect(_) => PacketType::Disconnect,
            Packet::Auth(_) => PacketType::Auth,
        }
    }
    pub fn encode(&self) -> Result<VarBytes, ErrorV5> {
        Ok(match self {
            Packet::Connect(p) => frame(0x10, p),
            Packet::Connack(p) => frame(0x20, p),
            Packet::Publish(p) => frame(
                0x30 | ((p.dup as u8) << 3) | ((p.qos_pid.qos() as u8) << 1) | p.retain as u8,
                p,
            ),
            Packet::Puback(p) => frame(0x40, p),
            Packet::Pubrec(p) => frame(0x50, p),
            Packet::Pubrel(p) => frame(0x62, p),
            Packet::Pubcomp(p) => frame(0x70, p),
            Packet::Subscribe(p) => frame(0x82, p),
            Packet::Suback(p) => frame(0x90, p),
            Packet::Unsubscribe(p) => frame(0xa2, p),
            Packet::Unsuback(p) => frame(0xb0, p),
            Packet::Pingreq => Ok(VarBytes::Fixed2([0xc0, 0])),
            Packet::Pingresp => Ok(VarBytes::Fixed2([0xd0, 0])),
            Packet::Disconnect(p) => frame(0xe0, p),
            Packet::Auth(p) => frame(0xf0, p),
        }?)
    }
    pub async fn encode_async<T: AsyncWrite + Unpin>(&self, writer: &mut T) -> Result<(), ErrorV5> {
        let data = self.encode()?;
        writer.write_all(data.as_ref()).await?;
        Ok(())
    }
    pub fn encode_len(&self) -> Result<usize, ErrorV5> {
        Ok(self.encode()?.as_ref().len())
    }
}

macro_rules! from_packet {
    ($($t:ident),*) => {$(
        impl From<$t> for Packet {
            fn from(p: $t) -> Packet { Packet::$t(p) }
        }
    )*};
}
from_packet!(
    Connect, Connack, Publish, Puback, Pubrec, Pubrel, Pubcomp, Subscribe, Suback, Unsubscribe,
    Unsuback, Disconnect, Auth
);

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct LastWill {
    pub qos: QoS,
    pub retain: bool,
    pub topic_name: TopicName,
    pub payload: Bytes,
    pub properties: WillProperties,
}
impl LastWill {
    pub fn new(qos: QoS, topic_name: TopicName, payload: Bytes) -> Self {
        LastWill {
            qos,
            retain: false,
            topic_name,
            payload,
            properties: WillProperties::default(),
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Connect {
    pub protocol: Protocol,
    pub clean_start: bool,
    pub keep_alive: u16,
    pub properties: ConnectProperties,
    pub client_id: Arc<str>,
    pub last_will: Option<LastWill>,
    pub username: Option<Arc<str>>,
    pub password: Option<Bytes>,
}
impl Connect {
    pub fn new(client_id: Arc<str>, keep_alive: u16) -> Self {
        Connect {
            protocol: Protocol::V500,
            clean_start: true,
            keep_alive,
            properties: ConnectProperties::default(),
            client_id,
            last_will: None,
            username: None,
            password: None,
        }
    }
    fn decode_rest(r: &mut Reader<'_>, protocol: Protocol) -> Result<Self, ErrorV5> {
        if protocol != Protocol::V500 {
            return Err(Error::UnexpectedProtocol(protocol).into());
        }
        let flags = r.u8()?;
        if flags & 1 != 0 {
            return Err(Error::InvalidConnectFlags(flags).into());
        }
        let keep_alive = r.u16()?;
        let properties = ConnectProperties::decode_props(r)?;
        let client_id = Arc::from(r.string()?);
        let last_will = if flags & 4 != 0 {
            let will_props = WillProperties::decode_props(r)?;
            let topic_name = TopicName::try_from(r.string()?)?;
            let payload = r.bytes()?;
            Some(LastWill {
                qos: QoS::from_u8((flags >> 3) & 3)?,
                retain: flags & 0x20 != 0,
                topic_name,
                payload,
                properties: will_props,
            })
        } else if flags & 0b111000 != 0 {
            return Err(Error::InvalidConnectFlags(flags).into());
        } else {
            None
        };
        let username = if flags & 0x80 != 0 {
            Some(Arc::from(r.string()?))
        } else {
            None
        };
        let password = if flags & 0x40 != 0 {
            Some(r.bytes()?)
        } else {
            None
        };
        Ok(Connect {
            protocol,
            clean_start: flags & 2 != 0,
            keep_alive,
            properties,
            client_id,
            last_will,
            username,
            password,
        })
    }
    pub async fn decode_stream_with_protocol<T: AsyncRead + Unpin>(
        reader: &mut T,
        header: Header,
        protocol: Protocol,
    ) -> Result<Self, ErrorV5> {
        let skip = protocol.encode_len();
        let len = (header.remaining_len as usize)
            .checked_sub(skip)
            .ok_or(Error::InvalidRemainingLength)?;
        let mut buf = Vec::new();
        (&mut *reader).take(len as u64).read_to_end(&mut buf).await?;
        if buf.len() < len {
            return Err(Error::IoError(IoErrorKind::UnexpectedEof).into());
        }
        let mut r = Reader(&buf);
        let packet = match Connect::decode_rest(&mut r, protocol) {
            Ok(p) => p,
            Err(e) if e.is_eof() => return Err(Error::InvalidRemainingLength.into()),
            Err(e) => return Err(e),
        };
        if !r.is_empty() {
            return Err(Error::InvalidRemainingLength.into());
        }
        Ok(packet)
    }
}
impl Encodable for Connect {
    fn encode<W: io::Write>(&self, w: &mut W) -> io::Result<()> {
        self.protocol.encode(w)?;
        let mut flags = 0u8;
        if self.clean_start {
            flags |= 2;
        }
        if self.username.is_some() {
            flags |= 0x80;
        }
        if self.password.is_some() {
            flags |= 0x40;
        }
        if let Some(will) = &self.last_will {
            flags |= 4 | ((will.qos as u8) << 3);
            if will.retain {
                flags |= 0x20;
            }
        }
        w.write_all(&[flags])?;
        w.write_all(&self.keep_alive.to_be_bytes())?;
        self.properties.encode(w)?;
        put_str(w, &self.client_id)?;
        if let Some(will) = &self.last_will {
            will.properties.encode(w)?;
            put_str(w, &will.topic_name)?;
            put_bytes(w, &will.payload)?;
        }
        if let Some(v) = &self.username {
            put_str(w, v)?;
        }
        if let Some(v) = &self.password {
            put_bytes(w, v)?;
        }
        Ok(())
    }
    fn encode_len(&self) -> usize {
        let mut n = Vec::new();
        self.encode(&mut n).expect("connect");
        n.len()
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Connack {
    pub session_present: bool,
    pub reason_code: ConnectReasonCode,
    pub properties: ConnackProperties,
}
impl Connack {
    pub fn new(session_present: bool, reason_code: ConnectReasonCode) -> Self {
        Connack {
            session_present,
            reason_code,
            properties: ConnackProperties::default(),
        }
    }
}
impl Encodable for Connack {
    fn encode<W: io::Write>(&self, w: &mut W) -> io::Result<()> {
        w.write_all(&[self.session_present as u8, self.reason_code as u8])?;
        self.properties.encode(w)
    }
    fn encode_len(&self) -> usize {
        2 + self.properties.encode_len()
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Disconnect {
    pub reason_code: DisconnectReasonCode,
    pub properties: DisconnectProperties,
}
impl Disconnect {
    pub fn new(reason_code: DisconnectReasonCode) -> Self {
        Disconnect {
            reason_code,
            properties: DisconnectProperties::default(),
        }
    }
    pub fn new_normal() -> Self {
        Self::new(DisconnectReasonCode::NormalDisconnect)
    }
}
impl Encodable for Disconnect {
    fn encode<W: io::Write>(&self, w: &mut W) -> io::Result<()> {
        if self.properties.is_empty() {
            if self.reason_code != DisconnectReasonCode::NormalDisconnect {
                w.write_all(&[self.reason_code as u8])?;
            }
            return Ok(());
        }
        w.write_all(&[self.reason_code as u8])?;
        self.properties.encode(w)
    }
    fn encode_len(&self) -> usize {
        if self.properties.is_empty() {
            (self.reason_code != DisconnectReasonCode::NormalDisconnect) as usize
        } else {
            1 + self.properties.encode_len()
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Auth {
    pub reason_code: AuthReasonCode,
    pub properties: AuthProperties,
}
impl Auth {
    pub fn new(reason_code: AuthReasonCode) -> Self {
        Auth {
            reason_code,
            properties: AuthProperties::default(),
        }
    }
    pub fn new_success() -> Self {
        Self::new(AuthReasonCode::Success)
    }
}
impl Encodable for Auth {
    fn encode<W: io::Write>(&self, w: &mut W) -> io::Result<()> {
        if self.properties.is_empty() && self.reason_code == AuthReasonCode::Success {
            return Ok(());
        }
        w.write_all(&[self.reason_code as u8])?;
        self.properties.encode(w)
    }
    fn encode_len(&self) -> usize {
        if self.properties.is_empty() && self.reason_code == AuthReasonCode::Success {
            0
        } else {
            1 + self.properties.encode_len()
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Publish {
    pub dup: bool,
    pub qos_pid: QosPid,
    pub retain: bool,
    pub topic_name: TopicName,
    pub payload: Bytes,
    pub properties: PublishProperties,
}
impl Publish {
    pub fn new(qos_pid: QosPid, topic_name: TopicName, payload: Bytes) -> Self {
        Publish {
            dup: false,
            qos_pid,
            retain: false,
            topic_name,
            payload,
            properties: PublishProperties::default(),
        }
    }
}
impl Encodable for Publish {
    fn encode<W: io::Write>(&self, w: &mut W) -> io::Result<()> {
        put_str(w, &self.topic_name)?;
        if let Some(pid) = self.qos_pid.pid() {
            w.write_all(&pid.value().to_be_bytes())?;
        }
        self.properties.encode(w)?;
        w.write_all(&self.payload)
    }
    fn encode_len(&self) -> usize {
        2 + self.topic_name.len()
            + self.qos_pid.pid().map_or(0, |_| 2)
            + self.properties.encode_len()
            + self.payload.len()
    }
}

macro_rules! acks {
    ($($name:ident $props:ident $code:ident),* $(,)?) => {$(
        #[derive(Debug, Clone, PartialEq, Eq, Hash)]
        pub struct $name {
            pub pid: Pid,
            pub reason_code: $code,
            pub properties: $props,
        }
        impl $name {
            pub fn new(pid: Pid, reason_code: $code) -> Self {
                $name { pid, reason_code, properties: $props::default() }
            }
            pub fn new_success(pid: Pid) -> Self {
                Self::new(pid, $code::Success)
            }
            fn decode_ack(r: &mut Reader<'_>) -> Result<Self, ErrorV5> {
                let pid = r.pid()?;
                if r.is_empty() {
                    return Ok(Self::new_success(pid));
                }
                let reason_code = $code::read(r)?;
                let properties = if r.is_empty() { $props::default() } else { $props::decode_props(r)? };
                Ok($name { pid, reason_code, properties })
            }
        }
        impl Encodable for $name {
            fn encode<W: io::Write>(&self, w: &mut W) -> io::Result<()> {
                w.write_all(&self.pid.value().to_be_bytes())?;
                if self.properties.is_empty() {
                    if self.reason_code != $code::Success {
                        w.write_all(&[self.reason_code as u8])?;
                    }
                    return Ok(());
                }
                w.write_all(&[self.reason_code as u8])?;
                self.properties.encode(w)
            }
            fn encode_len(&self) -> usize {
                if self.properties.is_empty() {
                    2 + (self.reason_code != $code::Success) as usize
                } else {
                    3 + self.properties.encode_len()
                }
            }
        }
    )*};
}
acks!(
    Puback PubackProperties PubackReasonCode,
    Pubrec PubrecProperties PubrecReasonCode,
    Pubrel PubrelProperties PubrelReasonCode,
    Pubcomp PubcompProperties PubcompReasonCode,
);

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum RetainHandling {
    SendAtSubscribe = 0,
    SendAtSubscribeIfNotExist = 1,
    DoNotSend = 2,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct SubscriptionOptions {
    pub max_qos: QoS,
    pub no_local: bool,
    pub retain_as_published: bool,
    pub retain_handling: RetainHandling,
}
impl SubscriptionOptions {
    pub fn new(max_qos: QoS) -> Self {
        SubscriptionOptions {
            max_qos,
            no_local: false,
            retain_as_published: true,
            retain_handling: RetainHandling::SendAtSubscribe,
        }
    }
    pub fn to_u8(&self) -> u8 {
        self.max_qos as u8
            | ((self.no_local as u8) << 2)
            | ((self.retain_as_published as u8) << 3)
            | ((self.retain_handling as u8) << 4)
    }
    fn from_u8(b: u8) -> Result<Self, ErrorV5> {
        if b & 0xc0 != 0 {
            return Err(ErrorV5::InvalidSubscriptionOption(b));
        }
        Ok(SubscriptionOptions {
            max_qos: QoS::from_u8(b & 3)?,
            no_local: b & 4 != 0,
            retain_as_published: b & 8 != 0,
            retain_handling: match (b >> 4) & 3 {
                0 => RetainHandling::SendAtSubscribe,
                1 => RetainHandling::SendAtSubscribeIfNotExist,
                2 => RetainHandling::DoNotSend,
                _ => return Err(ErrorV5::InvalidSubscriptionOption(b)),
            },
        })
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Subscribe {
    pub pid: Pid,
    pub properties: SubscribeProperties,
    pub topics: Vec<(TopicFilter, SubscriptionOptions)>,
}
impl Subscribe {
    pub fn new(pid: Pid, topics: Vec<(TopicFilter, SubscriptionOptions)>) -> Self {
        Subscribe {
            pid,
            properties: SubscribeProperties::default(),
            topics,
        }
    }
}
impl Encodable for Subscribe {
    fn encode<W: io::Write>(&self, w: &mut W) -> io::Result<()> {
        w.write_all(&self.pid.value().to_be_bytes())?;
        self.properties.encode(w)?;
        for (f, o) in &self.topics {
            put_str(w, f)?;
            w.write_all(&[o.to_u8()])?;
        }
        Ok(())
    }
    fn encode_len(&self) -> usize {
        2 + self.properties.encode_len()
            + self.topics.iter().map(|(f, _)| 3 + f.len()).sum::<usize>()
    }
}

macro_rules! sub_acks {
    ($($name:ident $props:ident $code:ident),* $(,)?) => {$(
        #[derive(Debug, Clone, PartialEq, Eq, Hash)]
        pub struct $name {
            pub pid: Pid,
            pub properties: $props,
            pub topics: Vec<$code>,
        }
        impl $name {
            pub fn new(pid: Pid, topics: Vec<$code>) -> Self {
                $name { pid, properties: $props::default(), topics }
            }
        }
        impl Encodable for $name {
            fn encode<W: io::Write>(&self, w: &mut W) -> io::Result<()> {
                w.write_all(&self.pid.value().to_be_bytes())?;
                self.properties.encode(w)?;
                for c in &self.topics {
                    w.write_all(&[*c as u8])?;
                }
                Ok(())
            }
            fn encode_len(&self) -> usize {
                2 + self.properties.encode_len() + self.topics.len()
            }
        }
    )*};
}
sub_acks!(
    Suback SubackProperties SubscribeReasonCode,
    Unsuback UnsubackProperties UnsubscribeReasonCode,
);

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Unsubscribe {
    pub pid: Pid,
    pub properties: UnsubscribeProperties,
    pub topics: Vec<TopicFilter>,
}
impl Unsubscribe {
    pub fn new(pid: Pid, topics: Vec<TopicFilter>) -> Self {
        Unsubscribe {
            pid,
            properties: UnsubscribeProperties::default(),
            topics,
        }
    }
}
impl Encodable for Unsubscribe {
    fn encode<W: io::Write>(&self, w: &mut W) -> io::Result<()> {
        w.write_all(&self.pid.value().to_be_bytes())?;
        self.properties.encode(w)?;
        for f in &self.topics {
            put_str(w, f)?;
        }
        Ok(())
    }
    fn encode_len(&self) -> usize {
        2 + self.properties.encode_len() + self.topics.iter().map(|f| 2 + f.len()).sum::<usize>()
    }
}
