//! Stand-in: there is nothing to configure, the bucket is in memory.
pub mod retry {
    #[derive(Clone, Debug, Default)]
    pub struct RetryConfig;
    impl RetryConfig {
        pub fn standard() -> Self {
            Self
        }
        pub fn adaptive() -> Self {
            Self
        }
        pub fn disabled() -> Self {
            Self
        }
        pub fn with_max_attempts(self, _: u32) -> Self {
            self
        }
    }
}
#[derive(Clone, Debug, Default)]
pub struct SdkConfig;
#[derive(Clone, Debug, Default)]
pub struct ConfigLoader;
impl ConfigLoader {
    pub fn retry_config(self, _: retry::RetryConfig) -> Self {
        self
    }
    pub async fn load(self) -> SdkConfig {
        SdkConfig
    }
}
pub fn from_env() -> ConfigLoader {
    ConfigLoader
}
pub fn load_from_env() -> impl std::future::Future<Output = SdkConfig> {
    ConfigLoader.load()
}
