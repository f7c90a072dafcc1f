//! Links of a page, with the interface of the `scraper` crate. Knows `a[href*='text']` only.
pub struct Html(Vec<Element>);
pub struct Selector(String);
pub struct Element(String);
impl Html {
    pub fn parse_document(s: &str) -> Self {
        let mut out = vec![];
        let mut rest = s;
        while let Some(i) = rest.find("<a ") {
            rest = &rest[i + 3..];
            let end = rest.find('>').unwrap_or(rest.len());
            let tag = &rest[..end];
            if let Some(h) = tag.find("href=") {
                let v = &tag[h + 5..];
                let q = v.chars().next().unwrap_or(' ');
                let v = if q == '"' || q == '\'' {
                    v[1..].split(q).next().unwrap_or("")
                } else {
                    v.split_whitespace().next().unwrap_or("")
                };
                out.push(Element(v.to_string()));
            }
        }
        Html(out)
    }
    pub fn select<'a>(&'a self, s: &'a Selector) -> impl Iterator<Item = &'a Element> {
        self.0.iter().filter(|e| e.0.contains(&s.0))
    }
}
impl Selector {
    pub fn parse(s: &str) -> Result<Self, String> {
        s.strip_prefix("a[href*='")
            .and_then(|s| s.strip_suffix("']"))
            .map(|s| Self(s.to_string()))
            .ok_or_else(|| format!("selector {s} not supported"))
    }
}
impl Element {
    pub fn value(&self) -> &Self {
        self
    }
    pub fn attr(&self, n: &str) -> Option<&str> {
        (n == "href").then_some(&self.0)
    }
}
