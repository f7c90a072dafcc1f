//! JSON-RPC plumbing with the interface of the `jsonrpsee` crate. There is no transport: a server
//! is a table of methods that can be called in the same process, and a client is a handle to such
//! a table (or to any function that answers calls).
use std::{collections::BTreeMap, future::Future, pin::Pin, sync::Arc};

pub use async_trait::async_trait;
use serde_json::Value;

pub type BoxFuture<'a, T> = Pin<Box<dyn Future<Output = T> + Send + 'a>>;
pub type Handler =
    Arc<dyn Fn(Vec<Value>) -> BoxFuture<'static, Result<Value, types::ErrorObjectOwned>> + Send + Sync>;

pub mod proc_macros {
    pub use jsonrpsee_macros::rpc;
}
pub mod core {
    pub use async_trait::async_trait;
    pub use serde::{Deserialize, Serialize};

    pub type RpcResult<T> = Result<T, crate::types::ErrorObjectOwned>;
    pub use client::Error as ClientError;
    pub mod client {
        pub use crate::ClientT;
        #[derive(Debug, thiserror::Error)]
        pub enum Error {
            #[error("{0}")]
            Call(crate::types::ErrorObjectOwned),
            #[error("Request timeout")]
            RequestTimeout,
            #[error("Transport error: {0}")]
            Transport(String),
            #[error("Parse error: {0}")]
            ParseError(#[from] serde_json::Error),
            #[error("Custom error: {0}")]
            Custom(String),
        }
    }
}
pub trait ClientT: Send + Sync {
    fn call_value(
        &self,
        method: &'static str,
        params: Vec<Value>,
    ) -> BoxFuture<'_, Result<Value, core::client::Error>>;
}
pub mod types {
    use serde::{Deserialize, Serialize};
    use serde_json::Value;
    pub mod error {
        pub const CALL_EXECUTION_FAILED_CODE: i32 = -32000;
        pub const INVALID_PARAMS_CODE: i32 = -32602;
        pub const METHOD_NOT_FOUND_CODE: i32 = -32601;
        pub const INTERNAL_ERROR_CODE: i32 = -32603;
        pub use super::{ErrorObject, ErrorObjectOwned};
    }
    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct ErrorObjectOwned {
        code: i32,
        message: String,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        data: Option<Value>,
    }
    impl ErrorObjectOwned {
        pub fn owned<S: Serialize>(code: i32, message: impl Into<String>, data: Option<S>) -> Self {
            Self {
                code,
                message: message.into(),
                data: data.map(|d| serde_json::to_value(d).expect("serializable")),
            }
        }
        pub fn code(&self) -> i32 {
            self.code
        }
        pub fn message(&self) -> &str {
            &self.message
        }
        pub fn data(&self) -> Option<&Value> {
            self.data.as_ref()
        }
    }
    impl std::fmt::Display for ErrorObjectOwned {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for ErrorObjectOwned {}
    pub type ErrorObject<'a> = ErrorObjectOwned;
    impl ErrorObjectOwned {
        pub fn borrowed(code: i32, message: &str, data: Option<&Value>) -> Self {
            Self::owned(code, message, data)
        }
    }
}
/// Where servers are found: by address for network servers, by path for others.
pub mod served {
    use super::{server::ServerHandle, Methods};
    use std::{collections::BTreeMap, io, sync::{Arc, Mutex}};
    #[derive(Clone)]
    pub struct Site {
        pub kind: &'static str,
        pub origins: Vec<String>,
        pub methods: Option<Methods>,
    }
    static SITES: Mutex<BTreeMap<String, Site>> = Mutex::new(BTreeMap::new());
    /// A claimed place; it is given back when the last handle to it is gone or stopped.
    pub struct Place {
        name: String,
    }
    impl Drop for Place {
        fn drop(&mut self) {
            SITES.lock().unwrap().remove(&self.name);
        }
    }
    pub fn claim(name: &str, origins: Vec<String>) -> io::Result<Place> {
        let mut s = SITES.lock().unwrap();
        if s.contains_key(name) {
            return Err(io::ErrorKind::AddrInUse.into());
        }
        s.insert(name.to_string(), Site { kind: "", origins, methods: None });
        Ok(Place { name: name.to_string() })
    }
    impl Place {
        pub fn start(self, kind: &'static str, methods: Methods) -> ServerHandle {
            if let Some(s) = SITES.lock().unwrap().get_mut(&self.name) {
                s.kind = kind;
                s.methods = Some(methods);
            }
            ServerHandle::of(Arc::new(Mutex::new(Some(self))))
        }
    }
    pub fn at(name: &str) -> Option<Site> {
        SITES.lock().unwrap().get(name).cloned()
    }
    pub fn all() -> Vec<(String, Site)> {
        SITES.lock().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect()
    }
}
pub mod server {
    use crate::served::Place;
    use std::{io, marker::PhantomData, net::SocketAddr, sync::{Arc, Mutex}};
    use tower::layer::util::{Described, Identity};
    /// A server that does not listen: its methods can be found at its address with `served::at`.
    pub struct Server<H = Identity, R = Identity> {
        addr: SocketAddr,
        kind: &'static str,
        place: Place,
        p: PhantomData<(H, R)>,
    }
    pub struct ServerBuilder<H, R> {
        layer: H,
        kind: &'static str,
        p: PhantomData<R>,
    }
    impl Default for ServerBuilder<Identity, Identity> {
        fn default() -> Self {
            Self { layer: Identity, kind: "http+ws", p: PhantomData }
        }
    }
    impl Server<Identity, Identity> {
        pub fn builder() -> ServerBuilder<Identity, Identity> {
            ServerBuilder::default()
        }
    }
    impl<H, R> Server<H, R> {
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            Ok(self.addr)
        }
        pub fn start(self, methods: impl Into<crate::Methods>) -> ServerHandle {
            self.place.start(self.kind, methods.into())
        }
    }
    impl<H, R> ServerBuilder<H, R> {
        pub fn ws_only(mut self) -> Self {
            self.kind = "ws";
            self
        }
        pub fn http_only(mut self) -> Self {
            self.kind = "http";
            self
        }
        pub fn set_id_provider<I: IdProvider + 'static>(self, _: I) -> Self {
            self
        }
        pub fn set_http_middleware<L>(self, b: tower::ServiceBuilder<L>) -> ServerBuilder<L, R> {
            ServerBuilder { layer: b.into_layer(), kind: self.kind, p: PhantomData }
        }
    }
    impl<H: Described, R> ServerBuilder<H, R> {
        pub async fn build(self, a: impl std::net::ToSocketAddrs) -> io::Result<Server<H, R>> {
            let mut addr =
                a.to_socket_addrs()?.next().ok_or_else(|| io::Error::from(io::ErrorKind::InvalidInput))?;
            let origins = self.layer.described();
            if addr.port() == 0 {
                for port in 20000..=u16::MAX {
                    addr.set_port(port);
                    if let Ok(place) = crate::served::claim(&addr.to_string(), origins.clone()) {
                        return Ok(Server { addr, kind: self.kind, place, p: PhantomData });
                    }
                }
            }
            let place = crate::served::claim(&addr.to_string(), origins)?;
            Ok(Server { addr, kind: self.kind, place, p: PhantomData })
        }
    }
    #[derive(Clone)]
    pub struct ServerHandle(Arc<Mutex<Option<Place>>>);
    impl std::fmt::Debug for ServerHandle {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("ServerHandle")
        }
    }
    impl ServerHandle {
        #[doc(hidden)]
        pub fn of(p: Arc<Mutex<Option<Place>>>) -> Self {
            Self(p)
        }
        pub fn stop(&self) -> Result<(), AlreadyStoppedError> {
            self.0.lock().unwrap().take().map(drop).ok_or(AlreadyStoppedError)
        }
        pub async fn stopped(self) {}
    }
    #[derive(Debug, thiserror::Error)]
    #[error("Server is already stopped")]
    pub struct AlreadyStoppedError;
    pub trait IdProvider: Send + Sync + std::fmt::Debug {}
    pub use crate::{Methods, RpcModule};
}
pub mod http_client {
    use super::*;
    #[derive(Clone)]
    pub struct HttpClient {
        f: Arc<dyn Fn(&'static str, Vec<Value>) -> BoxFuture<'static, Result<Value, core::client::Error>> + Send + Sync>,
    }
    impl std::fmt::Debug for HttpClient {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("HttpClient")
        }
    }
    impl HttpClient {
        /// A client whose calls are answered by `f`.
        pub fn answered_by<F>(f: F) -> Self
        where
            F: Fn(&'static str, Vec<Value>) -> BoxFuture<'static, Result<Value, core::client::Error>>
                + Send
                + Sync
                + 'static,
        {
            Self { f: Arc::new(f) }
        }
    }
    impl ClientT for HttpClient {
        fn call_value(&self, method: &'static str, params: Vec<Value>) -> BoxFuture<'_, Result<Value, core::client::Error>> {
            (self.f)(method, params)
        }
    }
    #[derive(Default)]
    pub struct HttpClientBuilder {}
    impl HttpClientBuilder {
        pub fn new() -> Self {
            Self {}
        }
        pub fn request_timeout(self, _: std::time::Duration) -> Self {
            self
        }
        pub fn build(self, url: impl AsRef<str>) -> Result<HttpClient, core::client::Error> {
            Ok(client_of(url.as_ref(), "http"))
        }
    }
    pub(crate) fn client_of(url: &str, kind: &'static str) -> HttpClient {
        let place = url.split("://").last().unwrap_or_default().trim_end_matches('/').to_string();
        HttpClient::answered_by(move |m, p| {
            let site = served::at(&place).filter(|s| s.kind.contains(kind)).and_then(|s| s.methods);
            Box::pin(async move {
                match site {
                    Some(methods) => methods.call_value(m, p).await.map_err(core::client::Error::Call),
                    None => Err(core::client::Error::Transport("nobody there".into())),
                }
            })
        })
    }
}
pub mod ws_client {
    use super::*;
    pub type WsClient = http_client::HttpClient;
    #[derive(Default)]
    pub struct WsClientBuilder {}
    impl WsClientBuilder {
        pub fn new() -> Self {
            Self {}
        }
        pub fn request_timeout(self, _: std::time::Duration) -> Self {
            self
        }
        pub async fn build(self, url: impl AsRef<str>) -> Result<WsClient, core::client::Error> {
            Ok(http_client::client_of(url.as_ref(), "ws"))
        }
    }
}
#[derive(Clone, Default)]
pub struct Methods {
    table: BTreeMap<&'static str, Handler>,
}
#[derive(Debug, thiserror::Error)]
#[error("Method {0} was already registered")]
pub struct RegisterMethodError(String);
impl Methods {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn method_names(&self) -> impl Iterator<Item = &'static str> + '_ {
        self.table.keys().copied()
    }
    pub fn merge(&mut self, other: impl Into<Methods>) -> Result<(), RegisterMethodError> {
        let other = other.into();
        for k in other.table.keys() {
            if self.table.contains_key(k) {
                return Err(RegisterMethodError(k.to_string()));
            }
        }
        self.table.extend(other.table);
        Ok(())
    }
    pub fn call_value(&self, method: &str, params: Vec<Value>) -> BoxFuture<'static, Result<Value, types::ErrorObjectOwned>> {
        match self.table.get(method) {
            Some(h) => h(params),
            None => Box::pin(async { Err(types::ErrorObjectOwned::owned::<()>(-32601, "Method not found", None)) }),
        }
    }
}
pub struct RpcModule<C> {
    ctx: Arc<C>,
    methods: Methods,
}
impl std::fmt::Debug for Methods {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_list().entries(self.table.keys()).finish()
    }
}
impl<C> std::fmt::Debug for RpcModule<C> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.methods.fmt(f)
    }
}
impl<C> Clone for RpcModule<C> {
    fn clone(&self) -> Self {
        Self { ctx: self.ctx.clone(), methods: self.methods.clone() }
    }
}
impl<C> From<RpcModule<C>> for Methods {
    fn from(m: RpcModule<C>) -> Methods {
        m.methods
    }
}
impl<C> std::ops::Deref for RpcModule<C> {
    type Target = Methods;
    fn deref(&self) -> &Methods {
        &self.methods
    }
}
impl<C> std::ops::DerefMut for RpcModule<C> {
    fn deref_mut(&mut self) -> &mut Methods {
        &mut self.methods
    }
}
impl<C: Send + Sync + 'static> RpcModule<C> {
    pub fn new(ctx: C) -> Self {
        Self { ctx: Arc::new(ctx), methods: Methods::default() }
    }
    #[doc(hidden)]
    pub fn add<F>(&mut self, name: &'static str, f: F)
    where
        F: Fn(Arc<C>, Vec<Value>) -> BoxFuture<'static, Result<Value, types::ErrorObjectOwned>> + Send + Sync + 'static,
    {
        let ctx = self.ctx.clone();
        self.methods.table.insert(name, Arc::new(move |p| f(ctx.clone(), p)));
    }
}
#[doc(hidden)]
pub mod private {
    pub use async_trait::async_trait;
    pub use serde_json::Value;
    use super::types::ErrorObjectOwned;
    pub fn param<T: serde::de::DeserializeOwned>(p: &[Value], i: usize) -> Result<T, ErrorObjectOwned> {
        let v = p.get(i).cloned().unwrap_or(Value::Null);
        serde_json::from_value(v)
            .map_err(|e| ErrorObjectOwned::owned(-32602, "Invalid params", Some(e.to_string())))
    }
    pub fn value<T: serde::Serialize>(t: &T) -> Value {
        serde_json::to_value(t).expect("serializable")
    }
    pub fn parse<T: serde::de::DeserializeOwned>(v: Value) -> Result<T, super::core::client::Error> {
        Ok(serde_json::from_value(v)?)
    }
}
