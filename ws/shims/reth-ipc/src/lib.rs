//! Serving a table of methods at a file path: the table is put where `jsonrpsee::served` finds it.
pub mod server {
    use jsonrpsee::server::{IdProvider, ServerHandle};
    use std::marker::PhantomData;
    use tower::layer::util::Identity;
    #[derive(Debug, thiserror::Error)]
    #[error("failed to listen on ipc endpoint `{endpoint}`: {source}")]
    pub struct IpcServerStartError {
        endpoint: String,
        #[source]
        source: std::io::Error,
    }
    pub struct Builder<H, R>(PhantomData<(H, R)>);
    impl Default for Builder<Identity, Identity> {
        fn default() -> Self {
            Self(PhantomData)
        }
    }
    impl<H, R> Builder<H, R> {
        pub fn set_id_provider<I: IdProvider + 'static>(self, _: I) -> Self {
            self
        }
        pub fn build(self, endpoint: impl Into<String>) -> IpcServer<H, R> {
            IpcServer { endpoint: endpoint.into(), p: PhantomData }
        }
    }
    pub struct IpcServer<H = Identity, R = Identity> {
        endpoint: String,
        p: PhantomData<(H, R)>,
    }
    impl<H, R> IpcServer<H, R> {
        pub fn endpoint(&self) -> String {
            self.endpoint.clone()
        }
        pub async fn start(
            self,
            methods: impl Into<jsonrpsee::Methods>,
        ) -> Result<ServerHandle, IpcServerStartError> {
            let place = jsonrpsee::served::claim(&format!("ipc:{}", self.endpoint), vec![])
                .map_err(|source| IpcServerStartError { endpoint: self.endpoint, source })?;
            Ok(place.start("ipc", methods.into()))
        }
    }
}
