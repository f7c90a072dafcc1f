//! Layered configuration, with the interface of the `figment` crate. Files are not read.
use std::fmt;

use serde_json::{Map, Value as Json};
pub mod value {
    #[derive(Clone, Debug, serde::Serialize)]
    #[serde(transparent)]
    pub struct Value(pub serde_json::Value);
    impl<T: Into<serde_json::Value>> From<T> for Value {
        fn from(t: T) -> Self {
            Self(t.into())
        }
    }
    pub use super::*;
}
pub mod error {
    #[derive(Debug)]
    pub enum Kind {
        Message(String),
        MissingField(std::borrow::Cow<'static, str>),
    }
}
#[derive(Debug)]
pub struct Error {
    pub kind: error::Kind,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.kind)
    }
}
impl std::error::Error for Error {}
pub trait Provider {
    fn data(&self) -> Vec<(String, Json)>;
}
pub mod providers {
    use super::*;
    pub struct Serialized<T> {
        value: T,
        profile: String,
    }
    impl<T> Serialized<T> {
        pub fn from(value: T, profile: impl ToString) -> Self {
            Self { value, profile: profile.to_string() }
        }
    }
    impl<T: serde::Serialize> Provider for Serialized<T> {
        fn data(&self) -> Vec<(String, Json)> {
            vec![(self.profile.clone(), serde_json::to_value(&self.value).unwrap())]
        }
    }
    pub trait Format {
        fn file(p: impl AsRef<std::path::Path>) -> Data;
    }
    pub struct Toml;
    pub struct Data;
    impl Format for Toml {
        fn file(_: impl AsRef<std::path::Path>) -> Data {
            Data
        }
    }
    impl Data {
        pub fn nested(self) -> Self {
            self
        }
    }
    impl Provider for Data {
        fn data(&self) -> Vec<(String, Json)> {
            vec![]
        }
    }
}
#[derive(Default)]
pub struct Figment {
    layers: Vec<(String, Json)>,
    profile: String,
}
fn merge(a: &mut Json, b: Json) {
    match (a, b) {
        (Json::Object(a), Json::Object(b)) => {
            for (k, v) in b {
                merge(a.entry(k).or_insert(Json::Null), v);
            }
        }
        (a, b) => *a = b,
    }
}
impl Figment {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn merge<P: Provider>(mut self, p: P) -> Self {
        self.layers.extend(p.data());
        self
    }
    pub fn select(mut self, p: impl ToString) -> Self {
        self.profile = p.to_string();
        self
    }
    pub fn extract<T: serde::de::DeserializeOwned>(&self) -> Result<T, Error> {
        let mut all = Json::Object(Map::new());
        for (p, v) in &self.layers {
            if *p == self.profile {
                merge(&mut all, v.clone());
            }
        }
        serde_json::from_value(all).map_err(|e| {
            let m = e.to_string();
            let kind = match m.strip_prefix("missing field `") {
                Some(f) => error::Kind::MissingField(f.trim_end_matches('`').to_string().into()),
                None => error::Kind::Message(m),
            };
            Error { kind }
        })
    }
}
