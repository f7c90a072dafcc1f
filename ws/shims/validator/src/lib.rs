//! The small part of the `validator` crate used for request validation.
use std::{borrow::Cow, collections::HashMap, fmt};

pub use validator_derive::Validate;

#[derive(Debug, PartialEq, Clone, serde::Serialize)]
pub struct ValidationError {
    pub code: Cow<'static, str>,
    pub message: Option<Cow<'static, str>>,
    pub params: HashMap<Cow<'static, str>, serde_json::Value>,
}
impl ValidationError {
    pub fn new(code: &'static str) -> Self {
        Self {
            code: Cow::from(code),
            message: None,
            params: HashMap::new(),
        }
    }
}
impl fmt::Display for ValidationError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Validation error: {}", self.code)
    }
}
impl std::error::Error for ValidationError {}
#[derive(Debug, Default, Clone, PartialEq)]
pub struct ValidationErrors(pub HashMap<Cow<'static, str>, Vec<ValidationError>>);
impl ValidationErrors {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn add(&mut self, field: &'static str, e: ValidationError) {
        self.0.entry(Cow::from(field)).or_default().push(e);
    }
    pub fn has_error(result: &Result<(), ValidationErrors>, field: &'static str) -> bool {
        result.as_ref().is_err_and(|e| e.0.contains_key(field))
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}
impl fmt::Display for ValidationErrors {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl std::error::Error for ValidationErrors {}
pub trait Validate {
    fn validate(&self) -> Result<(), ValidationErrors>;
}
