//! Streams of server events fed by the check, with the interface of the `eventsource-client` crate.
use std::{
    fmt,
    pin::Pin,
    sync::{Mutex, RwLock},
};

use futures_util::Stream;
use tokio::sync::mpsc;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Event {
    pub event_type: String,
    pub data: String,
    pub id: Option<String>,
    pub retry: Option<u64>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Response {
    pub status: u16,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ConnectionDetails {
    pub response: Response,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SSE {
    Connected(ConnectionDetails),
    Event(Event),
    Comment(String),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Error {
    StreamClosed,
    TimedOut,
    Eof,
    InvalidParameter(String),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub type BoxStream<T> = Pin<Box<dyn Stream<Item = T> + Send + Sync>>;

pub type Told = Result<SSE>;
static OPENED: Mutex<Vec<Opened>> = Mutex::new(vec![]);
static LISTEN: RwLock<bool> = RwLock::new(false);
/// A stream some client opened; what is sent down it is what that client sees.
pub struct Opened {
    pub url: String,
    pub headers: Vec<(String, String)>,
    pub send: mpsc::UnboundedSender<Told>,
}
/// Starts or stops handing opened streams to `opened`; unheard streams stay silent.
pub fn listen(on: bool) {
    *LISTEN.write().unwrap() = on;
    OPENED.lock().unwrap().clear();
}
/// The streams opened since the last call.
pub fn opened() -> Vec<Opened> {
    std::mem::take(&mut OPENED.lock().unwrap())
}

pub trait Client: Send + Sync {
    fn stream(&self) -> BoxStream<Result<SSE>>;
}
pub struct ClientBuilder {
    url: String,
    headers: Vec<(String, String)>,
}
struct Source(ClientBuilder);
impl ClientBuilder {
    pub fn for_url(u: &str) -> Result<Self> {
        if !(u.starts_with("http://") || u.starts_with("https://")) {
            return Err(Error::InvalidParameter(u.into()));
        }
        Ok(Self { url: u.into(), headers: vec![] })
    }
    pub fn header(mut self, n: &str, v: &str) -> Result<Self> {
        self.headers.push((n.into(), v.into()));
        Ok(self)
    }
    pub fn build(self) -> impl Client {
        Source(self)
    }
}
impl Client for Source {
    fn stream(&self) -> BoxStream<Result<SSE>> {
        let (send, mut get) = mpsc::unbounded_channel();
        if *LISTEN.read().unwrap() {
            OPENED.lock().unwrap().push(Opened {
                url: self.0.url.clone(),
                headers: self.0.headers.clone(),
                send,
            });
            Box::pin(futures_util::stream::poll_fn(move |cx| get.poll_recv(cx)))
        } else {
            Box::pin(futures_util::stream::pending())
        }
    }
}
