//! The cross-origin part of the `tower-http` crate: it keeps what it was given.
pub mod cors {
    use http::{HeaderValue, Method};
    #[derive(Clone, Copy, Debug)]
    pub struct Any;
    #[derive(Clone, Debug, Default)]
    pub struct AllowOrigin(Vec<String>);
    impl AllowOrigin {
        pub fn any() -> Self {
            Self(vec!["*".into()])
        }
        pub fn list<I: IntoIterator<Item = HeaderValue>>(i: I) -> Self {
            Self(i.into_iter().map(|v| String::from_utf8_lossy(v.as_bytes()).into_owned()).collect())
        }
    }
    impl From<Any> for AllowOrigin {
        fn from(_: Any) -> Self {
            Self::any()
        }
    }
    #[derive(Clone, Debug, Default)]
    pub struct AllowHeaders;
    impl From<Any> for AllowHeaders {
        fn from(_: Any) -> Self {
            Self
        }
    }
    #[derive(Clone, Debug, Default)]
    pub struct AllowMethods(Vec<Method>);
    impl<const N: usize> From<[Method; N]> for AllowMethods {
        fn from(m: [Method; N]) -> Self {
            Self(m.to_vec())
        }
    }
    impl From<Vec<Method>> for AllowMethods {
        fn from(m: Vec<Method>) -> Self {
            Self(m)
        }
    }
    #[derive(Clone, Debug, Default)]
    pub struct CorsLayer {
        methods: AllowMethods,
        origin: AllowOrigin,
    }
    impl CorsLayer {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn allow_methods(mut self, m: impl Into<AllowMethods>) -> Self {
            self.methods = m.into();
            self
        }
        pub fn allow_origin(mut self, o: impl Into<AllowOrigin>) -> Self {
            self.origin = o.into();
            self
        }
        pub fn allow_headers(self, _: impl Into<AllowHeaders>) -> Self {
            self
        }
    }
    impl tower::layer::util::Described for CorsLayer {
        fn described(&self) -> Vec<String> {
            let mut v: Vec<String> = self.origin.0.iter().map(|o| format!("origin {o}")).collect();
            v.extend(self.methods.0.iter().map(|m| format!("method {m}")));
            v
        }
    }
}
