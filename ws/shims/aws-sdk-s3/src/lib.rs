//! Stand-in for the client of a bucket: one store in memory, as strict as the real one about the
//! parts of an upload, that can be told to fail.
use std::{
    collections::BTreeMap,
    sync::{Mutex, MutexGuard},
};

#[derive(Debug)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

/// Everything kept, by bucket and name.
#[derive(Default)]
pub struct Store {
    pub objects: BTreeMap<(String, String), Vec<u8>>,
    /// uploads begun and not completed
    pub begun: BTreeMap<String, (String, String, BTreeMap<i32, (String, Vec<u8>)>)>,
    /// names given at once in a listing
    pub page: usize,
    /// a full page is always followed by another one, if need be by an empty one
    pub loose: bool,
    /// the request, counted over all kinds, that fails
    pub fail_at: Option<u64>,
    pub requests: u64,
    pub number: u64,
    /// what was asked for, in order
    pub log: Vec<String>,
}
static STORE: Mutex<Option<Store>> = Mutex::new(None);
pub struct Held(MutexGuard<'static, Option<Store>>);
impl std::ops::Deref for Held {
    type Target = Store;
    fn deref(&self) -> &Store {
        self.0.as_ref().expect("set")
    }
}
impl std::ops::DerefMut for Held {
    fn deref_mut(&mut self) -> &mut Store {
        self.0.as_mut().expect("set")
    }
}
pub fn store() -> Held {
    let mut g = STORE.lock().unwrap_or_else(|e| e.into_inner());
    g.get_or_insert_with(Store::default);
    Held(g)
}
fn begin(what: &str) -> Result<Held, Error> {
    let mut s = store();
    s.requests += 1;
    let n = s.requests;
    s.log.push(what.to_string());
    if s.fail_at == Some(n) {
        return Err(Error(format!("service error: {what}")));
    }
    Ok(s)
}
#[derive(Clone, Debug)]
pub struct Client;
impl Client {
    pub fn new(_: &aws_config::SdkConfig) -> Self {
        Client
    }
    pub fn create_multipart_upload(&self) -> Create {
        Create::default()
    }
    pub fn upload_part(&self) -> Part {
        Part::default()
    }
    pub fn complete_multipart_upload(&self) -> Complete {
        Complete::default()
    }
    pub fn abort_multipart_upload(&self) -> Abort {
        Abort::default()
    }
    pub fn list_objects_v2(&self) -> List {
        List::default()
    }
    pub fn put_object(&self) -> Put {
        Put::default()
    }
}
macro_rules! setters {
    ($t:ty: $($f:ident),*) => { impl $t { $(pub fn $f(mut self, v: impl Into<String>) -> Self { self.$f = v.into(); self })* } };
}
#[derive(Default)]
pub struct Create {
    bucket: String,
    key: String,
}
setters!(Create: bucket, key);
pub struct Created(String);
impl Created {
    pub fn upload_id(&self) -> Option<&str> {
        Some(&self.0)
    }
}
impl Create {
    pub async fn send(self) -> Result<Created, Error> {
        let mut s = begin("create")?;
        s.number += 1;
        let id = format!("upload-{}", s.number);
        s.begun.insert(id.clone(), (self.bucket, self.key, BTreeMap::new()));
        Ok(Created(id))
    }
}
#[derive(Default)]
pub struct Part {
    bucket: String,
    key: String,
    upload_id: String,
    part_number: i32,
    body: primitives::ByteStream,
}
setters!(Part: bucket, key, upload_id);
pub struct Parted(String);
impl Parted {
    pub fn e_tag(&self) -> Option<&str> {
        Some(&self.0)
    }
}
impl Part {
    pub fn part_number(mut self, n: i32) -> Self {
        self.part_number = n;
        self
    }
    pub fn body(mut self, b: primitives::ByteStream) -> Self {
        self.body = b;
        self
    }
    pub async fn send(self) -> Result<Parted, Error> {
        let mut s = begin("part")?;
        if !(1..=10_000).contains(&self.part_number) {
            return Err(Error("InvalidArgument: part number".into()));
        }
        s.number += 1;
        let tag = format!("\"tag-{}\"", s.number);
        let Some((b, k, parts)) = s.begun.get_mut(&self.upload_id) else { return Err(Error("NoSuchUpload".into())) };
        if (&*b, &*k) != (&self.bucket, &self.key) {
            return Err(Error("NoSuchUpload".into()));
        }
        parts.insert(self.part_number, (tag.clone(), self.body.0));
        Ok(Parted(tag))
    }
}
#[derive(Default)]
pub struct Complete {
    bucket: String,
    key: String,
    upload_id: String,
    parts: Vec<types::CompletedPart>,
}
setters!(Complete: bucket, key, upload_id);
impl Complete {
    pub fn multipart_upload(mut self, u: types::CompletedMultipartUpload) -> Self {
        self.parts = u.0;
        self
    }
    pub async fn send(self) -> Result<(), Error> {
        let mut s = begin("complete")?;
        let Some((b, k, parts)) = s.begun.get(&self.upload_id) else { return Err(Error("NoSuchUpload".into())) };
        if (b, k) != (&self.bucket, &self.key) {
            return Err(Error("NoSuchUpload".into()));
        }
        if self.parts.is_empty() {
            return Err(Error("MalformedXML".into()));
        }
        let mut all = vec![];
        let mut last = 0;
        for p in &self.parts {
            if p.number <= last {
                return Err(Error("InvalidPartOrder".into()));
            }
            last = p.number;
            match parts.get(&p.number) {
                Some((tag, body)) if *tag == p.tag => all.extend_from_slice(body),
                _ => return Err(Error("InvalidPart".into())),
            }
        }
        s.begun.remove(&self.upload_id);
        s.objects.insert((self.bucket, self.key), all);
        Ok(())
    }
}
#[derive(Default)]
pub struct Abort {
    bucket: String,
    key: String,
    upload_id: String,
}
setters!(Abort: bucket, key, upload_id);
impl Abort {
    pub async fn send(self) -> Result<(), Error> {
        begin("abort")?.begun.remove(&self.upload_id);
        Ok(())
    }
}
#[derive(Default)]
pub struct Put {
    bucket: String,
    key: String,
    body: primitives::ByteStream,
}
setters!(Put: bucket, key);
impl Put {
    pub fn body(mut self, b: primitives::ByteStream) -> Self {
        self.body = b;
        self
    }
    pub async fn send(self) -> Result<(), Error> {
        begin("put")?.objects.insert((self.bucket, self.key), self.body.0);
        Ok(())
    }
}
#[derive(Default)]
pub struct List {
    bucket: String,
    token: Option<String>,
}
setters!(List: bucket);
pub struct Listed {
    contents: Vec<types::Object>,
    next: Option<String>,
}
impl List {
    pub fn set_continuation_token(mut self, t: Option<String>) -> Self {
        self.token = t;
        self
    }
    pub fn continuation_token(self, t: impl Into<String>) -> Self {
        self.set_continuation_token(Some(t.into()))
    }
    pub async fn send(self) -> Result<Listed, Error> {
        let s = begin("list")?;
        let from = self.token.as_deref().map(|t| t.trim_start_matches("after:").to_string());
        let names: Vec<String> = s.objects.keys().filter(|(b, _)| *b == self.bucket).map(|(_, k)| k.clone()).filter(|k| from.as_ref().is_none_or(|f| k > f)).collect();
        let page = if s.page == 0 { 1000 } else { s.page };
        let here: Vec<String> = names.iter().take(page).cloned().collect();
        let next = (names.len() > here.len() || (s.loose && here.len() == page)).then(|| format!("after:{}", here[here.len() - 1]));
        Ok(Listed { contents: here.into_iter().map(types::Object).collect(), next })
    }
}
impl Listed {
    pub fn contents(&self) -> &[types::Object] {
        &self.contents
    }
    pub fn is_truncated(&self) -> Option<bool> {
        Some(self.next.is_some())
    }
    pub fn next_continuation_token(&self) -> Option<&str> {
        self.next.as_deref()
    }
}
pub mod primitives {
    #[derive(Default)]
    pub struct ByteStream(pub(crate) Vec<u8>);
    impl From<Vec<u8>> for ByteStream {
        fn from(v: Vec<u8>) -> Self {
            ByteStream(v)
        }
    }
}
pub mod types {
    #[derive(Clone, Debug)]
    pub struct Object(pub(crate) String);
    impl Object {
        pub fn key(&self) -> Option<&str> {
            Some(&self.0)
        }
    }
    #[derive(Clone, Debug, Default)]
    pub struct CompletedPart {
        pub(crate) tag: String,
        pub(crate) number: i32,
    }
    impl CompletedPart {
        pub fn builder() -> Self {
            Self::default()
        }
        pub fn e_tag(mut self, t: impl Into<String>) -> Self {
            self.tag = t.into();
            self
        }
        pub fn part_number(mut self, n: i32) -> Self {
            self.number = n;
            self
        }
        pub fn build(self) -> Self {
            self
        }
    }
    #[derive(Clone, Debug, Default)]
    pub struct CompletedMultipartUpload(pub(crate) Vec<CompletedPart>);
    impl CompletedMultipartUpload {
        pub fn builder() -> Self {
            Self::default()
        }
        pub fn set_parts(mut self, p: Option<Vec<CompletedPart>>) -> Self {
            self.0 = p.unwrap_or_default();
            self
        }
        pub fn parts(mut self, p: CompletedPart) -> Self {
            self.0.push(p);
            self
        }
        pub fn build(self) -> Self {
            self
        }
    }
}
