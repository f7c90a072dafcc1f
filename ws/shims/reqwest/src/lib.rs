//! HTTP requests answered by a function of the check, with the interface of the `reqwest` crate.
use std::{
    fmt,
    sync::{Arc, RwLock},
};

pub use url::Url;
pub type Answer = Arc<dyn Fn(&str, &str, &[u8]) -> Option<(u16, Vec<u8>)> + Send + Sync>;
/// A request as the provider sees it.
pub struct Asked<'a> {
    pub method: &'a str,
    pub url: &'a str,
    pub body: &'a [u8],
    pub headers: &'a header::HeaderMap,
}
/// What a provider sends back.
#[derive(Clone, Debug, Default)]
pub struct Told {
    pub status: u16,
    pub body: Vec<u8>,
    pub headers: Vec<(&'static str, String)>,
    /// How long the answer takes.
    pub after: std::time::Duration,
}
pub type Provider = Arc<dyn Fn(Asked<'_>) -> Option<Told> + Send + Sync>;
static ANSWER: RwLock<Option<Provider>> = RwLock::new(None);
/// Sets what answers requests: method, address and body to status and body, or `None` for a
/// failed connection.
pub fn answered_by(a: Option<Answer>) {
    provided_by(a.map(|a| -> Provider {
        Arc::new(move |r: Asked<'_>| {
            a(r.method, r.url, r.body).map(|(status, body)| Told { status, body, ..Default::default() })
        })
    }));
}
/// Sets what answers requests, with headers; `None` is a failed connection.
pub fn provided_by(a: Option<Provider>) {
    *ANSWER.write().unwrap() = a;
}
#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct StatusCode(u16);
impl StatusCode {
    pub const OK: Self = Self(200);
    pub fn as_u16(&self) -> u16 {
        self.0
    }
    pub fn is_success(&self) -> bool {
        (200..300).contains(&self.0)
    }
}
impl fmt::Display for StatusCode {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
pub trait IntoUrl {
    fn text(&self) -> String;
    fn as_str(&self) -> &str;
}
impl IntoUrl for &str {
    fn as_str(&self) -> &str {
        self
    }
    fn text(&self) -> String {
        self.to_string()
    }
}
impl IntoUrl for String {
    fn as_str(&self) -> &str {
        self.as_str()
    }
    fn text(&self) -> String {
        self.clone()
    }
}
impl IntoUrl for &String {
    fn as_str(&self) -> &str {
        String::as_str(self)
    }
    fn text(&self) -> String {
        self.to_string()
    }
}
impl IntoUrl for Url {
    fn as_str(&self) -> &str {
        Url::as_str(self)
    }
    fn text(&self) -> String {
        self.to_string()
    }
}
#[derive(Clone, Debug, Default)]
pub struct Client {
    headers: header::HeaderMap,
    timeout: Option<std::time::Duration>,
}
pub mod header {
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct HeaderName(&'static str);
    impl HeaderName {
        pub const fn from_static(s: &'static str) -> Self {
            Self(s)
        }
        pub fn as_str(&self) -> &str {
            self.0
        }
    }
    impl AsRef<str> for HeaderName {
        fn as_ref(&self) -> &str {
            self.0
        }
    }
    impl std::fmt::Display for HeaderName {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(self.0)
        }
    }
    /// Names a header.
    pub trait Named {
        fn named(&self) -> String;
    }
    impl Named for &str {
        fn named(&self) -> String {
            self.to_ascii_lowercase()
        }
    }
    impl Named for HeaderName {
        fn named(&self) -> String {
            self.0.to_ascii_lowercase()
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct HeaderValue(String);
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct InvalidHeaderValue;
    impl std::fmt::Display for InvalidHeaderValue {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("failed to parse header value")
        }
    }
    impl std::error::Error for InvalidHeaderValue {}
    pub type ToStrError = InvalidHeaderValue;
    impl HeaderValue {
        pub fn from_static(s: &'static str) -> Self {
            Self(s.into())
        }
        pub fn from_str(s: &str) -> Result<Self, InvalidHeaderValue> {
            match s.bytes().all(|b| b == 9 || (b >= 32 && b != 127)) {
                true => Ok(Self(s.into())),
                false => Err(InvalidHeaderValue),
            }
        }
        pub fn to_str(&self) -> Result<&str, ToStrError> {
            match self.0.bytes().all(|b| b == 9 || (32..127).contains(&b)) {
                true => Ok(&self.0),
                false => Err(InvalidHeaderValue),
            }
        }
    }
    #[derive(Clone, Debug, Default)]
    pub struct HeaderMap(Vec<(String, HeaderValue)>);
    impl HeaderMap {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn insert(&mut self, n: impl Named, v: HeaderValue) -> Option<HeaderValue> {
            let n = n.named();
            let old = self.0.iter().position(|h| h.0 == n).map(|i| self.0.remove(i).1);
            self.0.push((n, v));
            old
        }
        pub fn get(&self, n: impl Named) -> Option<&HeaderValue> {
            let n = n.named();
            self.0.iter().find(|h| h.0 == n).map(|h| &h.1)
        }
        /// Puts the others over these.
        pub fn overlay(&mut self, o: &HeaderMap) {
            for (n, v) in &o.0 {
                self.insert(n.as_str(), v.clone());
            }
        }
    }
    impl FromIterator<(HeaderName, HeaderValue)> for HeaderMap {
        fn from_iter<T: IntoIterator<Item = (HeaderName, HeaderValue)>>(i: T) -> Self {
            let mut m = Self::new();
            for (n, v) in i {
                m.insert(n, v);
            }
            m
        }
    }
    pub const CONTENT_TYPE: HeaderName = HeaderName("content-type");
    pub const AUTHORIZATION: HeaderName = HeaderName("authorization");
    pub const ACCEPT: HeaderName = HeaderName("accept");
}
#[derive(Default)]
pub struct ClientBuilder(Client);
impl ClientBuilder {
    pub fn default_headers(mut self, h: header::HeaderMap) -> Self {
        self.0.headers.overlay(&h);
        self
    }
    pub fn timeout(mut self, t: std::time::Duration) -> Self {
        self.0.timeout = Some(t);
        self
    }
    pub fn build(self) -> Result<Client> {
        Ok(self.0)
    }
}
impl Client {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn builder() -> ClientBuilder {
        ClientBuilder::default()
    }
    fn request(&self, method: &'static str, u: impl IntoUrl) -> RequestBuilder {
        RequestBuilder {
            client: self.clone(),
            query: vec![],
            request: Request { method, url: u.text(), body: vec![], headers: Default::default(), timeout: None },
        }
    }
    pub fn get(&self, u: impl IntoUrl) -> RequestBuilder {
        self.request("GET", u)
    }
    pub fn post(&self, u: impl IntoUrl) -> RequestBuilder {
        self.request("POST", u)
    }
    pub async fn execute(&self, r: Request) -> Result<Response> {
        let u = Url::parse(&r.url).map_err(|e| Error(e.to_string()))?;
        let mut headers = self.headers.clone();
        headers.overlay(&r.headers);
        let a = ANSWER.read().unwrap().clone();
        let t = a.and_then(|a| a(Asked { method: r.method, url: u.as_str(), body: &r.body, headers: &headers }));
        let Some(t) = t else {
            return Err(Error("connection failed".into()));
        };
        if !t.after.is_zero() {
            let limit = r.timeout.or(self.timeout);
            match limit {
                Some(l) if l <= t.after => {
                    tokio::time::sleep(l).await;
                    return Err(Error("timed out".into()));
                }
                _ => tokio::time::sleep(t.after).await,
            }
        }
        let mut headers = header::HeaderMap::new();
        for (n, v) in t.headers {
            headers.insert(n, header::HeaderValue::from_str(&v).unwrap());
        }
        Ok(Response { status: StatusCode(t.status), body: t.body, headers })
    }
}
#[derive(Clone, Debug)]
pub struct Request {
    method: &'static str,
    url: String,
    body: Vec<u8>,
    headers: header::HeaderMap,
    timeout: Option<std::time::Duration>,
}
pub struct RequestBuilder {
    client: Client,
    query: Vec<(String, String)>,
    request: Request,
}
impl RequestBuilder {
    pub fn query<T: serde::Serialize + ?Sized>(mut self, q: &T) -> Self {
        if let Ok(serde_json::Value::Array(a)) = serde_json::to_value(q) {
            for p in a {
                let t = |v: &serde_json::Value| v.as_str().map(Into::into).unwrap_or_else(|| v.to_string());
                self.query.push((t(&p[0]), t(&p[1])));
            }
        }
        self
    }
    pub fn json<T: serde::Serialize + ?Sized>(mut self, t: &T) -> Self {
        self.request.body = serde_json::to_vec(t).unwrap();
        if self.request.headers.get(header::CONTENT_TYPE).is_none() {
            self.request.headers.insert(header::CONTENT_TYPE, header::HeaderValue::from_static("application/json"));
        }
        self
    }
    pub fn body(mut self, b: impl Into<Vec<u8>>) -> Self {
        self.request.body = b.into();
        self
    }
    pub fn header(mut self, n: impl ToString, v: impl ToString) -> Self {
        if let Ok(v) = header::HeaderValue::from_str(&v.to_string()) {
            self.request.headers.insert(n.to_string().as_str(), v);
        }
        self
    }
    pub fn headers(mut self, h: header::HeaderMap) -> Self {
        self.request.headers.overlay(&h);
        self
    }
    pub fn timeout(mut self, t: std::time::Duration) -> Self {
        self.request.timeout = Some(t);
        self
    }
    pub fn build(mut self) -> Result<Request> {
        let mut u = Url::parse(&self.request.url).map_err(|e| Error(e.to_string()))?;
        if !self.query.is_empty() {
            u.query_pairs_mut().extend_pairs(&self.query);
        }
        self.request.url = u.to_string();
        Ok(self.request)
    }
    pub async fn send(self) -> Result<Response> {
        let c = self.client.clone();
        c.execute(self.build()?).await
    }
}
#[derive(Debug)]
pub struct Response {
    status: StatusCode,
    body: Vec<u8>,
    headers: header::HeaderMap,
}
impl Response {
    pub fn headers(&self) -> &header::HeaderMap {
        &self.headers
    }
    pub fn status(&self) -> StatusCode {
        self.status
    }
    pub fn error_for_status(self) -> Result<Self> {
        if self.status.0 >= 400 {
            return Err(Error(format!("status {}", self.status.0)));
        }
        Ok(self)
    }
    pub fn content_length(&self) -> Option<u64> {
        Some(self.body.len() as u64)
    }
    /// The body in pieces.
    pub fn bytes_stream(self) -> impl futures_util::Stream<Item = Result<bytes::Bytes>> {
        futures_util::stream::iter(
            self.body.chunks(1000).map(|c| Ok(bytes::Bytes::copy_from_slice(c))).collect::<Vec<_>>(),
        )
    }
    pub async fn text(self) -> Result<String> {
        Ok(String::from_utf8_lossy(&self.bytes().await?).into_owned())
    }
    /// A status of zero stands for an answer that breaks off.
    pub async fn bytes(self) -> Result<bytes::Bytes> {
        if self.status.0 == 0 {
            return Err(Error("the answer broke off".into()));
        }
        Ok(self.body.into())
    }
    pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> {
        serde_json::from_slice(&self.bytes().await?).map_err(|e| Error(e.to_string()))
    }
}
pub async fn get(u: impl IntoUrl) -> Result<Response> {
    Client::new().get(u).send().await
}
