//! Default data folder, with the interface of the `directories` crate.
use std::path::{Path, PathBuf};
pub struct ProjectDirs(PathBuf);
impl ProjectDirs {
    pub fn from(_q: &str, _o: &str, app: &str) -> Option<Self> {
        let base = match std::env::var_os("XDG_DATA_HOME") {
            Some(x) if Path::new(&x).is_absolute() => PathBuf::from(x),
            _ => PathBuf::from(std::env::var_os("HOME").filter(|h| !h.is_empty())?).join(".local/share"),
        };
        Some(Self(base.join(app.to_lowercase().replace(' ', ""))))
    }
    pub fn data_local_dir(&self) -> &Path {
        &self.0
    }
}
