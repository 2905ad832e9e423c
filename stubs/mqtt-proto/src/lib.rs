//! Offline model of mqtt-proto 0.4's public API, as far as akasa uses it (and a little beyond).
//! It exists so that akasa-core and akasa can be resolved and type-checked without network.
#![allow(clippy::all)]

use std::convert::TryFrom;
use std::fmt;
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::io;
use std::mem::MaybeUninit;
use std::ops::Deref;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

use tokio::io::{AsyncRead, AsyncReadExt, ReadBuf};

pub mod v3;
pub mod v5;

pub const LEVEL_SEP: char = '/';
pub const MATCH_ALL_CHAR: char = '#';
pub const MATCH_ONE_CHAR: char = '+';
pub const MATCH_ALL_STR: &str = "#";
pub const MATCH_ONE_STR: &str = "+";
pub const MATCH_DOLLAR_STR: &str = "$";
pub const SYS_PREFIX: &str = "$SYS/";
pub const SHARED_PREFIX: &str = "$share/";

// ---------------------------------------------------------------- errors

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum IoErrorKind {
    UnexpectedEof,
    TimedOut,
    InvalidData,
    BrokenPipe,
    ConnectionReset,
    WriteZero,
    Interrupted,
    Other,
}

impl From<io::ErrorKind> for IoErrorKind {
    fn from(kind: io::ErrorKind) -> Self {
        match kind {
            io::ErrorKind::UnexpectedEof => IoErrorKind::UnexpectedEof,
            io::ErrorKind::TimedOut => IoErrorKind::TimedOut,
            io::ErrorKind::InvalidData => IoErrorKind::InvalidData,
            io::ErrorKind::BrokenPipe => IoErrorKind::BrokenPipe,
            io::ErrorKind::ConnectionReset => IoErrorKind::ConnectionReset,
            io::ErrorKind::WriteZero => IoErrorKind::WriteZero,
            io::ErrorKind::Interrupted => IoErrorKind::Interrupted,
            _ => IoErrorKind::Other,
        }
    }
}
impl From<IoErrorKind> for io::ErrorKind {
    fn from(kind: IoErrorKind) -> Self {
        match kind {
            IoErrorKind::UnexpectedEof => io::ErrorKind::UnexpectedEof,
            IoErrorKind::TimedOut => io::ErrorKind::TimedOut,
            IoErrorKind::InvalidData => io::ErrorKind::InvalidData,
            IoErrorKind::BrokenPipe => io::ErrorKind::BrokenPipe,
            IoErrorKind::ConnectionReset => io::ErrorKind::ConnectionReset,
            IoErrorKind::WriteZero => io::ErrorKind::WriteZero,
            IoErrorKind::Interrupted => io::ErrorKind::Interrupted,
            IoErrorKind::Other => io::ErrorKind::Other,
        }
    }
}
impl fmt::Display for IoErrorKind {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}

#[derive(Debug, Clone, PartialEq, Eq, thiserror::Error)]
pub enum Error {
    #[error("invalid remaining length")]
    InvalidRemainingLength,
    #[error("empty subscription")]
    EmptySubscription,
    #[error("packet identifier is 0")]
    ZeroPid,
    #[error("invalid qos: {0}")]
    InvalidQos(u8),
    #[error("invalid connect flags: {0}")]
    InvalidConnectFlags(u8),
    #[error("invalid connack flags: {0}")]
    InvalidConnackFlags(u8),
    #[error("invalid connect return code: {0}")]
    InvalidConnectReturnCode(u8),
    #[error("invalid protocol: {0} {1}")]
    InvalidProtocol(String, u8),
    #[error("unexpected protocol: {0}")]
    UnexpectedProtocol(Protocol),
    #[error("invalid header")]
    InvalidHeader,
    #[error("invalid var byte int")]
    InvalidVarByteInt,
    #[error("invalid topic name: {0}")]
    InvalidTopicName(String),
    #[error("invalid topic filter: {0}")]
    InvalidTopicFilter(String),
    #[error("invalid string")]
    InvalidString,
    #[error("io error: {0}")]
    IoError(IoErrorKind),
}

impl Error {
    pub fn is_eof(&self) -> bool {
        matches!(self, Error::IoError(IoErrorKind::UnexpectedEof))
    }
}
impl From<io::Error> for Error {
    fn from(err: io::Error) -> Error {
        Error::IoError(err.kind().into())
    }
}
impl From<io::ErrorKind> for Error {
    fn from(kind: io::ErrorKind) -> Error {
        Error::IoError(kind.into())
    }
}
impl From<Error> for io::Error {
    fn from(err: Error) -> io::Error {
        match err {
            Error::IoError(kind) => io::Error::from(io::ErrorKind::from(kind)),
            _ => io::ErrorKind::InvalidData.into(),
        }
    }
}

// ---------------------------------------------------------------- scalars

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum QoS {
    Level0 = 0,
    Level1 = 1,
    Level2 = 2,
}
impl QoS {
    pub fn from_u8(byte: u8) -> Result<QoS, Error> {
        match byte {
            0 => Ok(QoS::Level0),
            1 => Ok(QoS::Level1),
            2 => Ok(QoS::Level2),
            b => Err(Error::InvalidQos(b)),
        }
    }
}
impl TryFrom<u8> for QoS {
    type Error = Error;
    fn try_from(v: u8) -> Result<QoS, Error> {
        QoS::from_u8(v)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Pid(u16);
impl Pid {
    pub fn value(self) -> u16 {
        self.0
    }
}
impl Default for Pid {
    fn default() -> Pid {
        Pid(1)
    }
}
impl TryFrom<u16> for Pid {
    type Error = Error;
    fn try_from(value: u16) -> Result<Self, Error> {
        if value == 0 {
            Err(Error::ZeroPid)
        } else {
            Ok(Pid(value))
        }
    }
}
impl std::ops::Add<u16> for Pid {
    type Output = Pid;
    fn add(self, u: u16) -> Pid {
        let n = match self.0.overflowing_add(u) {
            (n, false) => n,
            (n, true) => n + 1,
        };
        Pid(n)
    }
}
impl std::ops::AddAssign<u16> for Pid {
    fn add_assign(&mut self, other: u16) {
        *self = *self + other;
    }
}
impl std::ops::Sub<u16> for Pid {
    type Output = Pid;
    fn sub(self, u: u16) -> Pid {
        let n = match self.0.overflowing_sub(u) {
            (0, _) => u16::MAX,
            (n, false) => n,
            (n, true) => n - 1,
        };
        Pid(n)
    }
}
impl std::ops::SubAssign<u16> for Pid {
    fn sub_assign(&mut self, other: u16) {
        *self = *self - other;
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum QosPid {
    Level0,
    Level1(Pid),
    Level2(Pid),
}
impl QosPid {
    pub fn pid(self) -> Option<Pid> {
        match self {
            QosPid::Level0 => None,
            QosPid::Level1(p) | QosPid::Level2(p) => Some(p),
        }
    }
    pub fn qos(self) -> QoS {
        match self {
            QosPid::Level0 => QoS::Level0,
            QosPid::Level1(_) => QoS::Level1,
            QosPid::Level2(_) => QoS::Level2,
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum Protocol {
    V310 = 3,
    V311 = 4,
    V500 = 5,
}
impl Protocol {
    pub fn new(name: &str, level: u8) -> Result<Protocol, Error> {
        match (name, level) {
            ("MQIsdp", 3) => Ok(Protocol::V310),
            ("MQTT", 4) => Ok(Protocol::V311),
            ("MQTT", 5) => Ok(Protocol::V500),
            _ => Err(Error::InvalidProtocol(name.to_string(), level)),
        }
    }
    pub fn to_pair(self) -> (&'static str, u8) {
        match self {
            Protocol::V310 => ("MQIsdp", 3),
            Protocol::V311 => ("MQTT", 4),
            Protocol::V500 => ("MQTT", 5),
        }
    }
    pub async fn decode_async<T: AsyncRead + Unpin>(reader: &mut T) -> Result<Self, Error> {
        let len = reader.read_u16().await?;
        if len > 64 {
            return Err(Error::InvalidProtocol(String::new(), 0));
        }
        let mut buf = vec![0u8; len as usize];
        reader.read_exact(&mut buf).await?;
        let name = String::from_utf8(buf).map_err(|_| Error::InvalidString)?;
        let level = reader.read_u8().await?;
        Protocol::new(&name, level)
    }
    pub(crate) fn decode(r: &mut Reader<'_>) -> Result<Self, Error> {
        let name = r.string()?;
        let level = r.u8()?;
        Protocol::new(&name, level)
    }
}
impl Encodable for Protocol {
    fn encode<W: io::Write>(&self, w: &mut W) -> io::Result<()> {
        let (name, level) = self.to_pair();
        put_str(w, name)?;
        w.write_all(&[level])
    }
    fn encode_len(&self) -> usize {
        2 + self.to_pair().0.len() + 1
    }
}
impl fmt::Display for Protocol {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            Protocol::V310 => "v3.1",
            Protocol::V311 => "v3.1.1",
            Protocol::V500 => "v5.0",
        })
    }
}

// ---------------------------------------------------------------- topics

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct TopicName(Arc<str>);
impl TopicName {
    pub fn is_invalid(value: &str) -> bool {
        value.len() > u16::MAX as usize
            || value.contains(|c| c == MATCH_ONE_CHAR || c == MATCH_ALL_CHAR || c == '\0')
    }
    pub fn is_shared(&self) -> bool {
        self.0.starts_with(SHARED_PREFIX)
    }
    pub fn is_sys(&self) -> bool {
        self.0.starts_with(SYS_PREFIX)
    }
}
impl Deref for TopicName {
    type Target = str;
    fn deref(&self) -> &str {
        &self.0
    }
}
impl fmt::Display for TopicName {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl TryFrom<String> for TopicName {
    type Error = Error;
    fn try_from(v: String) -> Result<Self, Error> {
        if TopicName::is_invalid(&v) {
            Err(Error::InvalidTopicName(v))
        } else {
            Ok(TopicName(v.into()))
        }
    }
}
impl TryFrom<&str> for TopicName {
    type Error = Error;
    fn try_from(v: &str) -> Result<Self, Error> {
        TopicName::try_from(v.to_string())
    }
}
impl AsRef<str> for TopicName {
    fn as_ref(&self) -> &str {
        &self.0
    }
}

#[derive(Debug, Clone)]
pub struct TopicFilter {
    inner: Arc<str>,
    shared_filter_sep: u16,
}
impl TopicFilter {
    /// `Ok(sep)`: `sep` is the byte index of the `/` after the group name, 0 when not shared.
    fn check(value: &str) -> Option<u16> {
        if value.is_empty() || value.len() > u16::MAX as usize || value.contains('\0') {
            return None;
        }
        let (body, sep) = if value.starts_with(SHARED_PREFIX) {
            let rest = &value[SHARED_PREFIX.len()..];
            let idx = rest.find(LEVEL_SEP)?;
            let group = &rest[..idx];
            if group.is_empty() || group.contains([MATCH_ONE_CHAR, MATCH_ALL_CHAR]) {
                return None;
            }
            let body = &rest[idx + 1..];
            if body.is_empty() {
                return None;
            }
            (body, (SHARED_PREFIX.len() + idx) as u16)
        } else {
            (value, 0)
        };
        let count = body.split(LEVEL_SEP).count();
        for (i, level) in body.split(LEVEL_SEP).enumerate() {
            if level.contains(MATCH_ALL_CHAR) && (level != MATCH_ALL_STR || i + 1 != count) {
                return None;
            }
            if level.contains(MATCH_ONE_CHAR) && level != MATCH_ONE_STR {
                return None;
            }
        }
        Some(sep)
    }
    pub fn is_invalid(value: &str) -> (bool, u16) {
        match TopicFilter::check(value) {
            Some(sep) => (false, sep),
            None => (true, 0),
        }
    }
    pub fn is_shared(&self) -> bool {
        self.shared_filter_sep > 0
    }
    pub fn is_sys(&self) -> bool {
        self.inner.starts_with(SYS_PREFIX)
    }
    pub fn shared_group_name(&self) -> Option<&str> {
        self.shared_info().map(|v| v.0)
    }
    pub fn shared_filter(&self) -> Option<&str> {
        self.shared_info().map(|v| v.1)
    }
    pub fn shared_info(&self) -> Option<(&str, &str)> {
        if self.is_shared() {
            let sep = self.shared_filter_sep as usize;
            Some((&self.inner[SHARED_PREFIX.len()..sep], &self.inner[sep + 1..]))
        } else {
            None
        }
    }
}
impl Deref for TopicFilter {
    type Target = str;
    fn deref(&self) -> &str {
        &self.inner
    }
}
impl AsRef<str> for TopicFilter {
    fn as_ref(&self) -> &str {
        &self.inner
    }
}
impl PartialEq for TopicFilter {
    fn eq(&self, o: &Self) -> bool {
        self.inner == o.inner
    }
}
impl Eq for TopicFilter {}
impl PartialOrd for TopicFilter {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for TopicFilter {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.inner.cmp(&o.inner)
    }
}
impl Hash for TopicFilter {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.inner.hash(h)
    }
}
impl fmt::Display for TopicFilter {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.inner)
    }
}
impl TryFrom<String> for TopicFilter {
    type Error = Error;
    fn try_from(v: String) -> Result<Self, Error> {
        match TopicFilter::check(&v) {
            Some(sep) => Ok(TopicFilter {
                inner: v.into(),
                shared_filter_sep: sep,
            }),
            None => Err(Error::InvalidTopicFilter(v)),
        }
    }
}
impl TryFrom<&str> for TopicFilter {
    type Error = Error;
    fn try_from(v: &str) -> Result<Self, Error> {
        TopicFilter::try_from(v.to_string())
    }
}

// ---------------------------------------------------------------- encode / decode

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum VarBytes {
    Dynamic(Vec<u8>),
    Fixed2([u8; 2]),
    Fixed4([u8; 4]),
}
impl AsRef<[u8]> for VarBytes {
    fn as_ref(&self) -> &[u8] {
        match self {
            VarBytes::Dynamic(v) => v,
            VarBytes::Fixed2(v) => v,
            VarBytes::Fixed4(v) => v,
        }
    }
}
impl VarBytes {
    pub fn as_slice(&self) -> &[u8] {
        self.as_ref()
    }
}

pub trait Encodable {
    fn encode<W: io::Write>(&self, writer: &mut W) -> io::Result<()>;
    fn encode_len(&self) -> usize;
}

pub fn var_int_len(value: usize) -> Result<usize, Error> {
    Ok(match value {
        v if v < 128 => 1,
        v if v < 16384 => 2,
        v if v < 2097152 => 3,
        v if v < 268435456 => 4,
        _ => return Err(Error::InvalidVarByteInt),
    })
}
pub fn header_len(value: usize) -> Result<usize, Error> {
    Ok(var_int_len(value)? + 1)
}
pub fn total_len(remaining_len: usize) -> Result<usize, Error> {
    Ok(header_len(remaining_len)? + remaining_len)
}
pub fn remaining_len(total_len: usize) -> Result<usize, Error> {
    for n in 2..6usize {
        if total_len >= n && header_len(total_len - n)? == n {
            return Ok(total_len - n);
        }
    }
    Err(Error::InvalidVarByteInt)
}

pub(crate) fn put_varint<W: io::Write>(w: &mut W, mut v: usize) -> io::Result<()> {
    loop {
        let mut b = (v % 128) as u8;
        v /= 128;
        if v > 0 {
            b |= 128;
        }
        w.write_all(&[b])?;
        if v == 0 {
            return Ok(());
        }
    }
}
pub(crate) fn put_bytes<W: io::Write>(w: &mut W, v: &[u8]) -> io::Result<()> {
    w.write_all(&(v.len() as u16).to_be_bytes())?;
    w.write_all(v)
}
pub(crate) fn put_str<W: io::Write>(w: &mut W, v: &str) -> io::Result<()> {
    put_bytes(w, v.as_bytes())
}
pub(crate) fn frame<E: Encodable>(control: u8, body: &E) -> Result<VarBytes, Error> {
    let remaining = body.encode_len();
    let mut out = Vec::with_capacity(total_len(remaining)?);
    out.push(control);
    put_varint(&mut out, remaining)?;
    body.encode(&mut out)?;
    debug_assert_eq!(out.len(), total_len(remaining)?);
    Ok(VarBytes::Dynamic(out))
}

pub(crate) struct Reader<'a>(pub &'a [u8]);
impl<'a> Reader<'a> {
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], Error> {
        if self.0.len() < n {
            return Err(Error::IoError(IoErrorKind::UnexpectedEof));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn u8(&mut self) -> Result<u8, Error> {
        Ok(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> Result<u16, Error> {
        let b = self.take(2)?;
        Ok(u16::from_be_bytes([b[0], b[1]]))
    }
    pub fn u32(&mut self) -> Result<u32, Error> {
        let b = self.take(4)?;
        Ok(u32::from_be_bytes([b[0], b[1], b[2], b[3]]))
    }
    pub fn bytes(&mut self) -> Result<bytes::Bytes, Error> {
        let n = self.u16()? as usize;
        Ok(bytes::Bytes::copy_from_slice(self.take(n)?))
    }
    pub fn string(&mut self) -> Result<String, Error> {
        let n = self.u16()? as usize;
        String::from_utf8(self.take(n)?.to_vec()).map_err(|_| Error::InvalidString)
    }
    pub fn varint(&mut self) -> Result<u32, Error> {
        let mut v = 0u32;
        for i in 0..4 {
            let b = self.u8()?;
            v |= ((b & 0x7f) as u32) << (7 * i);
            if b & 0x80 == 0 {
                return Ok(v);
            }
        }
        Err(Error::InvalidVarByteInt)
    }
    pub fn pid(&mut self) -> Result<Pid, Error> {
        Pid::try_from(self.u16()?)
    }
}

/// Returns (packet type byte, remaining length, bytes read).
pub async fn decode_raw_header_async<T: AsyncRead + Unpin>(
    reader: &mut T,
) -> Result<(u8, u32, usize), Error> {
    let typ = reader.read_u8().await?;
    let mut v = 0u32;
    for i in 0..4 {
        let b = reader.read_u8().await?;
        v |= ((b & 0x7f) as u32) << (7 * i);
        if b & 0x80 == 0 {
            return Ok((typ, v, i + 2));
        }
    }
    Err(Error::InvalidVarByteInt)
}
pub fn decode_raw_header(data: &[u8]) -> Result<Option<(u8, u32, usize)>, Error> {
    if data.is_empty() {
        return Ok(None);
    }
    let mut v = 0u32;
    for i in 0..4 {
        let Some(b) = data.get(i + 1) else {
            return Ok(None);
        };
        v |= ((b & 0x7f) as u32) << (7 * i);
        if b & 0x80 == 0 {
            return Ok(Some((data[0], v, i + 2)));
        }
    }
    Err(Error::InvalidVarByteInt)
}

pub trait PollHeader {
    type Error;
    type Packet;
    fn new_with_raw(hd: u8, remaining_len: u32) -> Result<Self, Self::Error>
    where
        Self: Sized;
    fn build_empty_packet(&self) -> Option<Self::Packet>;
    fn block_decode(self, reader: &mut &[u8]) -> Result<Self::Packet, Self::Error>;
    fn remaining_len(&self) -> usize;
    fn is_eof_error(err: &Self::Error) -> bool;
}

#[derive(Debug)]
pub enum GenericPollPacketState<H> {
    Header {
        control_byte: Option<u8>,
        var_idx: u32,
        var_int: u32,
    },
    Body {
        header: H,
        idx: usize,
        total: usize,
        buf: Vec<MaybeUninit<u8>>,
    },
}
impl<H> Default for GenericPollPacketState<H> {
    fn default() -> Self {
        GenericPollPacketState::Header {
            control_byte: None,
            var_idx: 0,
            var_int: 0,
        }
    }
}

pub struct GenericPollPacket<'a, T, H> {
    state: &'a mut GenericPollPacketState<H>,
    reader: &'a mut T,
}
impl<'a, T, H> GenericPollPacket<'a, T, H> {
    pub fn new(state: &'a mut GenericPollPacketState<H>, reader: &'a mut T) -> Self {
        GenericPollPacket { state, reader }
    }
}

impl<T, H> Future for GenericPollPacket<'_, T, H>
where
    T: AsyncRead + Unpin,
    H: PollHeader + Copy + Unpin,
    H::Error: From<io::Error> + From<Error>,
{
    type Output = Result<(usize, Vec<MaybeUninit<u8>>, H::Packet), H::Error>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let this = self.get_mut();
        loop {
            match this.state {
                GenericPollPacketState::Header {
                    control_byte,
                    var_idx,
                    var_int,
                } => {
                    let mut b = [0u8; 1];
                    let mut rb = ReadBuf::new(&mut b);
                    match Pin::new(&mut *this.reader).poll_read(cx, &mut rb) {
                        Poll::Pending => return Poll::Pending,
                        Poll::Ready(Err(err)) => return Poll::Ready(Err(err.into())),
                        Poll::Ready(Ok(())) => {}
                    }
                    if rb.filled().is_empty() {
                        return Poll::Ready(Err(Error::IoError(IoErrorKind::UnexpectedEof).into()));
                    }
                    let byte = b[0];
                    let Some(control) = *control_byte else {
                        *control_byte = Some(byte);
                        continue;
                    };
                    *var_int |= ((byte & 0x7f) as u32) << (7 * *var_idx);
                    if byte & 0x80 != 0 {
                        if *var_idx >= 3 {
                            return Poll::Ready(Err(Error::InvalidVarByteInt.into()));
                        }
                        *var_idx += 1;
                        continue;
                    }
                    let head = *var_idx as usize + 2;
                    let header = H::new_with_raw(control, *var_int)?;
                    if let Some(packet) = header.build_empty_packet() {
                        return Poll::Ready(Ok((head, Vec::new(), packet)));
                    }
                    let len = header.remaining_len();
                    if len == 0 {
                        return Poll::Ready(Err(Error::InvalidRemainingLength.into()));
                    }
                    *this.state = GenericPollPacketState::Body {
                        header,
                        idx: 0,
                        total: head + len,
                        buf: vec![MaybeUninit::uninit(); len],
                    };
                }
                GenericPollPacketState::Body {
                    header,
                    idx,
                    total,
                    buf,
                } => {
                    while *idx < buf.len() {
                        let mut rb = ReadBuf::uninit(&mut buf[*idx..]);
                        match Pin::new(&mut *this.reader).poll_read(cx, &mut rb) {
                            Poll::Pending => return Poll::Pending,
                            Poll::Ready(Err(err)) => return Poll::Ready(Err(err.into())),
                            Poll::Ready(Ok(())) => {}
                        }
                        let n = rb.filled().len();
                        if n == 0 {
                            return Poll::Ready(Err(
                                Error::IoError(IoErrorKind::UnexpectedEof).into()
                            ));
                        }
                        *idx += n;
                    }
                    let raw: &[u8] =
                        unsafe { std::slice::from_raw_parts(buf.as_ptr() as *const u8, buf.len()) };
                    let mut r = raw;
                    let packet = match header.block_decode(&mut r) {
                        Ok(p) => p,
                        Err(err) => {
                            if H::is_eof_error(&err) {
                                return Poll::Ready(Err(Error::InvalidRemainingLength.into()));
                            }
                            return Poll::Ready(Err(err));
                        }
                    };
                    if !r.is_empty() {
                        return Poll::Ready(Err(Error::InvalidRemainingLength.into()));
                    }
                    let total = *total;
                    return Poll::Ready(Ok((total, std::mem::take(buf), packet)));
                }
            }
        }
    }
}
