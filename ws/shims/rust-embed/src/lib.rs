//! Files of a folder as data, with the interface of the `rust-embed` crate. Read when asked for.
use std::borrow::Cow;

pub use rust_embed_derive::RustEmbed;
pub struct EmbeddedFile {
    pub data: Cow<'static, [u8]>,
}
pub fn load(folder: &str, prefix: &str, path: &str) -> Option<EmbeddedFile> {
    let rest = path.strip_prefix(prefix)?;
    let data = std::fs::read(std::path::Path::new(folder).join(rest)).ok()?;
    Some(EmbeddedFile { data: Cow::Owned(data) })
}
