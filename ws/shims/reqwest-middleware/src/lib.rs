//! A client that repeats requests, with the interface of the `reqwest-middleware` crate.
use std::{fmt, time::Duration};

use reqwest::{header::HeaderMap, Client, IntoUrl, Request, Response};

#[derive(Debug)]
pub enum Error {
    Middleware(anyhow::Error),
    Reqwest(reqwest::Error),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Self::Middleware(e) => write!(f, "Middleware error: {e}"),
            Self::Reqwest(e) => write!(f, "Request error: {e}"),
        }
    }
}
impl std::error::Error for Error {}
impl From<anyhow::Error> for Error {
    fn from(e: anyhow::Error) -> Self {
        Self::Middleware(e)
    }
}
impl From<reqwest::Error> for Error {
    fn from(e: reqwest::Error) -> Self {
        Self::Reqwest(e)
    }
}
pub type Result<T> = std::result::Result<T, Error>;
/// What a client does with a request that met passing trouble.
pub trait Middleware {
    /// How long to wait before each further try.
    fn pauses(&self) -> Vec<Duration>;
}
pub struct ClientBuilder {
    client: Client,
    pauses: Vec<Duration>,
}
impl ClientBuilder {
    pub fn new(client: Client) -> Self {
        Self { client, pauses: vec![] }
    }
    pub fn with(mut self, m: impl Middleware) -> Self {
        self.pauses = m.pauses();
        self
    }
    pub fn build(self) -> ClientWithMiddleware {
        ClientWithMiddleware { client: self.client, pauses: self.pauses }
    }
}
#[derive(Clone, Debug, Default)]
pub struct ClientWithMiddleware {
    client: Client,
    pauses: Vec<Duration>,
}
impl ClientWithMiddleware {
    pub fn get(&self, u: impl IntoUrl) -> RequestBuilder {
        RequestBuilder { client: self.clone(), inner: self.client.get(u) }
    }
    pub fn post(&self, u: impl IntoUrl) -> RequestBuilder {
        RequestBuilder { client: self.clone(), inner: self.client.post(u) }
    }
    pub async fn execute(&self, r: Request) -> Result<Response> {
        let mut pauses = self.pauses.iter();
        loop {
            let got = self.client.execute(r.clone()).await;
            // failed connections, server errors, time-outs and rate limits pass
            let passing = match &got {
                Ok(a) => matches!(a.status().as_u16(), 500..=599 | 408 | 429),
                Err(_) => true,
            };
            match pauses.next() {
                Some(p) if passing => tokio::time::sleep(*p).await,
                _ => return Ok(got?),
            }
        }
    }
}
pub struct RequestBuilder {
    client: ClientWithMiddleware,
    inner: reqwest::RequestBuilder,
}
impl RequestBuilder {
    pub fn timeout(mut self, t: Duration) -> Self {
        self.inner = self.inner.timeout(t);
        self
    }
    pub fn headers(mut self, h: HeaderMap) -> Self {
        self.inner = self.inner.headers(h);
        self
    }
    pub fn header(mut self, n: impl ToString, v: impl ToString) -> Self {
        self.inner = self.inner.header(n, v);
        self
    }
    pub fn query<T: serde::Serialize + ?Sized>(mut self, q: &T) -> Self {
        self.inner = self.inner.query(q);
        self
    }
    pub fn body(mut self, b: impl Into<Vec<u8>>) -> Self {
        self.inner = self.inner.body(b);
        self
    }
    pub fn json<T: serde::Serialize + ?Sized>(mut self, t: &T) -> Self {
        self.inner = self.inner.json(t);
        self
    }
    pub fn build(self) -> reqwest::Result<Request> {
        self.inner.build()
    }
    pub async fn send(self) -> Result<Response> {
        let r = self.inner.build()?;
        self.client.execute(r).await
    }
}
