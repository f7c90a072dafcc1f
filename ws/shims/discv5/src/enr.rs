//! Node records with the interface of the `enr` crate.
//!
//! Keys are a substitute for secp256k1: the public key is a hash of the secret, a signature is a
//! hash of public key and message. Records signed by real keys are accepted without a check.
use std::{
    collections::BTreeMap,
    fmt,
    hash::{Hash, Hasher},
    marker::PhantomData,
    net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6},
    str::FromStr,
};

use alloy_primitives::keccak256;
use alloy_rlp::{BufMut, Decodable, Encodable, Header};
use base64::{engine::general_purpose::URL_SAFE_NO_PAD, Engine};
pub use bytes::Bytes;
use serde::{Deserialize, Deserializer, Serialize, Serializer};

pub const MAX_ENR_SIZE: usize = 300;
const FAKE: u8 = 0x0f;

pub type RawNodeId = [u8; 32];
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct NodeId {
    raw: RawNodeId,
}
impl NodeId {
    pub const fn new(raw: &[u8; 32]) -> Self {
        Self { raw: *raw }
    }
    pub fn parse(s: &[u8]) -> Result<Self, &'static str> {
        Ok(Self { raw: s.try_into().map_err(|_| "Input too large")? })
    }
    pub fn random() -> Self {
        Self { raw: crate::seeded::bytes32() }
    }
    pub const fn raw(&self) -> RawNodeId {
        self.raw
    }
}
impl From<RawNodeId> for NodeId {
    fn from(raw: RawNodeId) -> Self {
        Self { raw }
    }
}
impl AsRef<[u8]> for NodeId {
    fn as_ref(&self) -> &[u8] {
        &self.raw
    }
}
impl PartialEq<RawNodeId> for NodeId {
    fn eq(&self, o: &RawNodeId) -> bool {
        self.raw == *o
    }
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
impl fmt::Display for NodeId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let h = hex(&self.raw);
        write!(f, "0x{}..{}", &h[..4], &h[60..])
    }
}
impl fmt::Debug for NodeId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "0x{}", hex(&self.raw))
    }
}
impl Serialize for NodeId {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("0x{}", hex(&self.raw)))
    }
}
impl<'de> Deserialize<'de> for NodeId {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let s = s.strip_prefix("0x").unwrap_or(&s);
        if s.len() != 64 || !s.bytes().all(|b| b.is_ascii_hexdigit()) {
            return Err(serde::de::Error::custom("invalid node id"));
        }
        let mut raw = [0; 32];
        for i in 0..32 {
            raw[i] = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap();
        }
        Ok(Self { raw })
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error {
    ExceedsMaxSize,
    SequenceNumberTooHigh,
    SigningError,
    UnsupportedIdentityScheme,
    InvalidRlpData(alloy_rlp::Error),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

pub trait EnrKey: Send + Sync + 'static {
    type PublicKey: Clone;
    fn public(&self) -> CombinedPublicKey;
}
#[derive(Clone)]
pub struct CombinedKey {
    secret: [u8; 32],
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CombinedPublicKey(Vec<u8>);
impl CombinedPublicKey {
    pub fn encode(&self) -> Vec<u8> {
        self.0.clone()
    }
}
#[derive(Debug, Clone)]
pub struct DecoderError(&'static str);
impl fmt::Display for DecoderError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for DecoderError {}
impl CombinedKey {
    pub fn generate_secp256k1() -> Self {
        Self { secret: crate::seeded::bytes32() }
    }
    pub fn secp256k1_from_bytes(bytes: &mut [u8]) -> Result<Self, DecoderError> {
        let secret: [u8; 32] = (&*bytes).try_into().map_err(|_| DecoderError("wrong length"))?;
        if secret == [0; 32] {
            return Err(DecoderError("zero key"));
        }
        bytes.fill(0);
        Ok(Self { secret })
    }
    pub fn public(&self) -> CombinedPublicKey {
        let mut v = vec![FAKE];
        v.extend_from_slice(keccak256(self.secret).as_slice());
        CombinedPublicKey(v)
    }
    pub fn encode(&self) -> Vec<u8> {
        self.secret.to_vec()
    }
}
impl EnrKey for CombinedKey {
    type PublicKey = CombinedPublicKey;
    fn public(&self) -> CombinedPublicKey {
        CombinedKey::public(self)
    }
}
fn sign(public: &[u8], msg: &[u8]) -> Vec<u8> {
    let a = keccak256([public, msg].concat());
    let b = keccak256(a);
    [a.0, b.0].concat()
}

pub struct Enr<K> {
    seq: u64,
    node_id: NodeId,
    content: BTreeMap<Vec<u8>, Bytes>,
    signature: Vec<u8>,
    _k: PhantomData<fn() -> K>,
}
impl<K> Clone for Enr<K> {
    fn clone(&self) -> Self {
        Self {
            seq: self.seq,
            node_id: self.node_id,
            content: self.content.clone(),
            signature: self.signature.clone(),
            _k: PhantomData,
        }
    }
}
impl<K> PartialEq for Enr<K> {
    fn eq(&self, o: &Self) -> bool {
        self.seq == o.seq && self.node_id == o.node_id && self.signature == o.signature
    }
}
impl<K> Eq for Enr<K> {}
impl<K> Hash for Enr<K> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.seq.hash(h);
        self.node_id.hash(h);
        self.content.hash(h);
    }
}
impl<K> From<Enr<K>> for NodeId {
    fn from(e: Enr<K>) -> Self {
        e.node_id
    }
}
impl<K> From<&Enr<K>> for NodeId {
    fn from(e: &Enr<K>) -> Self {
        e.node_id
    }
}
impl<K> fmt::Debug for Enr<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Enr")
            .field("seq", &self.seq)
            .field("NodeId", &self.node_id)
            .finish()
    }
}
impl<K> fmt::Display for Enr<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.to_base64())
    }
}
fn public_of(content: &BTreeMap<Vec<u8>, Bytes>) -> Option<Vec<u8>> {
    let raw = content.get(&b"secp256k1"[..])?;
    Vec::<u8>::from(Header::decode_bytes(&mut &raw[..], false).ok()?).into()
}
impl<K> Enr<K> {
    pub fn builder() -> Builder<K> {
        Builder {
            seq: 1,
            content: BTreeMap::new(),
            _k: PhantomData,
        }
    }
    pub const fn node_id(&self) -> NodeId {
        self.node_id
    }
    pub const fn seq(&self) -> u64 {
        self.seq
    }
    pub fn signature(&self) -> &[u8] {
        &self.signature
    }
    pub fn public_key(&self) -> CombinedPublicKey {
        CombinedPublicKey(public_of(&self.content).unwrap_or_default())
    }
    pub fn get_raw_rlp(&self, key: impl AsRef<[u8]>) -> Option<&[u8]> {
        self.content.get(key.as_ref()).map(|b| &b[..])
    }
    pub fn get_decodable<T: Decodable>(&self, key: impl AsRef<[u8]>) -> Option<Result<T, alloy_rlp::Error>> {
        self.get_raw_rlp(key).map(|mut b| T::decode(&mut b))
    }
    pub fn iter(&self) -> impl Iterator<Item = (&Vec<u8>, &[u8])> {
        self.content.iter().map(|(k, v)| (k, &v[..]))
    }
    pub fn ip4(&self) -> Option<Ipv4Addr> {
        let b: Bytes = self.get_decodable("ip")?.ok()?;
        <[u8; 4]>::try_from(&b[..]).ok().map(Ipv4Addr::from)
    }
    pub fn ip6(&self) -> Option<Ipv6Addr> {
        let b: Bytes = self.get_decodable("ip6")?.ok()?;
        <[u8; 16]>::try_from(&b[..]).ok().map(Ipv6Addr::from)
    }
    pub fn udp4(&self) -> Option<u16> {
        self.get_decodable("udp")?.ok()
    }
    pub fn udp6(&self) -> Option<u16> {
        self.get_decodable("udp6")?.ok()
    }
    pub fn tcp4(&self) -> Option<u16> {
        self.get_decodable("tcp")?.ok()
    }
    pub fn udp4_socket(&self) -> Option<SocketAddrV4> {
        Some(SocketAddrV4::new(self.ip4()?, self.udp4()?))
    }
    pub fn udp6_socket(&self) -> Option<SocketAddrV6> {
        Some(SocketAddrV6::new(self.ip6()?, self.udp6()?, 0, 0))
    }
    pub fn to_base64(&self) -> String {
        format!("enr:{}", URL_SAFE_NO_PAD.encode(alloy_rlp::encode(self)))
    }
    pub fn size(&self) -> usize {
        alloy_rlp::encode(self).len()
    }
    pub fn verify(&self) -> bool {
        match public_of(&self.content) {
            Some(p) if p.first() == Some(&FAKE) => sign(&p, &self.rlp_content()) == self.signature,
            Some(_) => true,
            None => false,
        }
    }
    fn rlp_content(&self) -> Vec<u8> {
        let mut p = vec![];
        self.seq.encode(&mut p);
        for (k, v) in &self.content {
            k.as_slice().encode(&mut p);
            p.extend_from_slice(v);
        }
        let mut out = vec![];
        Header { list: true, payload_length: p.len() }.encode(&mut out);
        out.extend(p);
        out
    }
}
impl<K: EnrKey> Enr<K> {
    pub fn empty(key: &K) -> Result<Self, Error> {
        Self::builder().build(key)
    }
    fn resign(&mut self, key: &K) -> Result<(), Error> {
        let p = key.public().0;
        let mut raw = vec![];
        p.as_slice().encode(&mut raw);
        self.content.insert(b"secp256k1".to_vec(), raw.into());
        self.signature = sign(&p, &self.rlp_content());
        self.node_id = NodeId::new(&keccak256(&p).0);
        Ok(())
    }
    fn modify(&mut self, key: &K, f: impl FnOnce(&mut BTreeMap<Vec<u8>, Bytes>)) -> Result<(), Error> {
        let old = self.clone();
        f(&mut self.content);
        self.seq = self.seq.checked_add(1).ok_or(Error::SequenceNumberTooHigh)?;
        self.resign(key)?;
        if self.size() > MAX_ENR_SIZE {
            *self = old;
            return Err(Error::ExceedsMaxSize);
        }
        Ok(())
    }
    pub fn insert<T: Encodable>(&mut self, k: impl AsRef<[u8]>, v: &T, key: &K) -> Result<Option<Bytes>, Error> {
        let old = self.content.get(k.as_ref()).cloned();
        let enc = alloy_rlp::encode(v);
        self.modify(key, |c| {
            c.insert(k.as_ref().to_vec(), enc.into());
        })?;
        Ok(old)
    }
    pub fn set_seq(&mut self, seq: u64, key: &K) -> Result<(), Error> {
        self.seq = seq;
        self.resign(key)
    }
    pub fn set_udp4(&mut self, port: u16, key: &K) -> Result<Option<u16>, Error> {
        let old = self.udp4();
        self.insert("udp", &port, key)?;
        Ok(old)
    }
    pub fn set_ip(&mut self, ip: IpAddr, key: &K) -> Result<Option<IpAddr>, Error> {
        let old = self.ip4().map(IpAddr::V4);
        match ip {
            IpAddr::V4(a) => self.insert("ip", &a.octets(), key)?,
            IpAddr::V6(a) => self.insert("ip6", &a.octets(), key)?,
        };
        Ok(old)
    }
    pub fn set_udp_socket(&mut self, s: SocketAddr, key: &K) -> Result<(), Error> {
        self.set_ip(s.ip(), key)?;
        match s {
            SocketAddr::V4(_) => self.insert("udp", &s.port(), key)?,
            SocketAddr::V6(_) => self.insert("udp6", &s.port(), key)?,
        };
        Ok(())
    }
}
pub struct Builder<K> {
    seq: u64,
    content: BTreeMap<Vec<u8>, Bytes>,
    _k: PhantomData<fn() -> K>,
}
impl<K> Builder<K> {
    pub fn seq(&mut self, seq: u64) -> &mut Self {
        self.seq = seq;
        self
    }
    pub fn add_value<T: Encodable>(&mut self, key: impl AsRef<[u8]>, value: &T) -> &mut Self {
        self.add_value_rlp(key, alloy_rlp::encode(value).into())
    }
    pub fn add_value_rlp(&mut self, key: impl AsRef<[u8]>, rlp: Bytes) -> &mut Self {
        self.content.insert(key.as_ref().to_vec(), rlp);
        self
    }
    pub fn ip(&mut self, ip: IpAddr) -> &mut Self {
        match ip {
            IpAddr::V4(a) => self.ip4(a),
            IpAddr::V6(a) => self.add_value("ip6", &a.octets()),
        }
    }
    pub fn ip4(&mut self, ip: Ipv4Addr) -> &mut Self {
        self.add_value("ip", &ip.octets())
    }
    pub fn udp4(&mut self, p: u16) -> &mut Self {
        self.add_value("udp", &p)
    }
    pub fn tcp4(&mut self, p: u16) -> &mut Self {
        self.add_value("tcp", &p)
    }
}
impl<K: EnrKey> Builder<K> {
    pub fn build(&mut self, key: &K) -> Result<Enr<K>, Error> {
        self.content.insert(b"id".to_vec(), alloy_rlp::encode(&b"v4"[..]).into());
        let mut e = Enr {
            seq: self.seq,
            node_id: NodeId::new(&[0; 32]),
            content: self.content.clone(),
            signature: vec![],
            _k: PhantomData,
        };
        e.resign(key)?;
        if e.size() > MAX_ENR_SIZE {
            return Err(Error::ExceedsMaxSize);
        }
        Ok(e)
    }
}
impl<K> Encodable for Enr<K> {
    fn encode(&self, out: &mut dyn BufMut) {
        let mut p = vec![];
        self.signature.as_slice().encode(&mut p);
        self.seq.encode(&mut p);
        for (k, v) in &self.content {
            k.as_slice().encode(&mut p);
            p.extend_from_slice(v);
        }
        Header { list: true, payload_length: p.len() }.encode(out);
        out.put_slice(&p);
    }
    fn length(&self) -> usize {
        let mut v = vec![];
        self.encode(&mut v);
        v.len()
    }
}
impl<K> Decodable for Enr<K> {
    fn decode(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
        if buf.len() > MAX_ENR_SIZE {
            return Err(alloy_rlp::Error::Custom("enr exceeds max size"));
        }
        let payload = &mut Header::decode_bytes(buf, true)?;
        let signature = Header::decode_bytes(payload, false)?.to_vec();
        let seq = u64::decode(payload)?;
        let mut content = BTreeMap::new();
        let mut prev: Option<Vec<u8>> = None;
        while !payload.is_empty() {
            let key = Header::decode_bytes(payload, false)?.to_vec();
            if prev.as_ref().is_some_and(|p| p >= &key) {
                return Err(alloy_rlp::Error::Custom("Unsorted keys"));
            }
            let before = *payload;
            let h = Header::decode(payload)?;
            if payload.len() < h.payload_length {
                return Err(alloy_rlp::Error::InputTooShort);
            }
            *payload = &payload[h.payload_length..];
            let raw = &before[..before.len() - payload.len()];
            content.insert(key.clone(), Bytes::copy_from_slice(raw));
            prev = Some(key);
        }
        match content.get(&b"id"[..]) {
            Some(v) if v[..] == alloy_rlp::encode(&b"v4"[..])[..] => {}
            _ => return Err(alloy_rlp::Error::Custom("Unsupported identity scheme")),
        }
        let public = public_of(&content).ok_or(alloy_rlp::Error::Custom("Unknown signature"))?;
        let e = Enr {
            seq,
            node_id: NodeId::new(&keccak256(&public).0),
            content,
            signature,
            _k: PhantomData,
        };
        if !e.verify() {
            return Err(alloy_rlp::Error::Custom("Invalid Signature"));
        }
        Ok(e)
    }
}
impl<K> FromStr for Enr<K> {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        let s = s.strip_prefix("enr:").unwrap_or(s);
        let b = URL_SAFE_NO_PAD.decode(s).map_err(|e| format!("Invalid base64 encoding: {e:?}"))?;
        let mut b = &b[..];
        let e = Self::decode(&mut b).map_err(|e| format!("Invalid ENR: {e:?}"))?;
        if !b.is_empty() {
            return Err("trailing data".into());
        }
        Ok(e)
    }
}
impl<K> Serialize for Enr<K> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.to_base64())
    }
}
impl<'de, K> Deserialize<'de> for Enr<K> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Self::from_str(&String::deserialize(d)?).map_err(serde::de::Error::custom)
    }
}
