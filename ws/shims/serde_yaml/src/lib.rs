//! Reads JSON and simple block YAML: nested mappings and sequences of plain or quoted scalars.
use std::{collections::BTreeMap, ops::Index};

use serde::{de::DeserializeOwned, Deserialize, Serialize};
pub use serde_json::{to_string, Error};
pub type Result<T> = std::result::Result<T, Error>;
pub type Mapping = BTreeMap<String, Value>;
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Value {
    Null,
    Bool(bool),
    Number(serde_json::Number),
    String(String),
    Sequence(Vec<Value>),
    Mapping(Mapping),
}
pub fn to_value<T: Serialize>(t: T) -> Result<Value> {
    serde_json::from_value(serde_json::to_value(t)?)
}
pub fn from_value<T: DeserializeOwned>(v: Value) -> Result<T> {
    serde_json::from_value(serde_json::to_value(v)?)
}
static NULL: Value = Value::Null;
impl Value {
    pub fn as_mapping(&self) -> Option<&Mapping> {
        match self {
            Self::Mapping(m) => Some(m),
            _ => None,
        }
    }
    pub fn as_sequence(&self) -> Option<&Vec<Value>> {
        match self {
            Self::Sequence(m) => Some(m),
            _ => None,
        }
    }
    pub fn as_str(&self) -> Option<&str> {
        match self {
            Self::String(m) => Some(m),
            _ => None,
        }
    }
    pub fn as_u64(&self) -> Option<u64> {
        match self {
            Self::Number(m) => m.as_u64(),
            _ => None,
        }
    }
    pub fn as_i64(&self) -> Option<i64> {
        match self {
            Self::Number(m) => m.as_i64(),
            _ => None,
        }
    }
    pub fn get(&self, k: impl AsRef<str>) -> Option<&Value> {
        self.as_mapping()?.get(k.as_ref())
    }
    pub fn is_null(&self) -> bool {
        matches!(self, Self::Null)
    }
}
impl Index<&str> for Value {
    type Output = Value;
    fn index(&self, k: &str) -> &Value {
        self.get(k).unwrap_or(&NULL)
    }
}
impl Index<usize> for Value {
    type Output = Value;
    fn index(&self, k: usize) -> &Value {
        self.as_sequence().and_then(|s| s.get(k)).unwrap_or(&NULL)
    }
}
impl<'de> serde::Deserializer<'de> for &Value {
    type Error = Error;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        serde_json::to_value(self)?.deserialize_any(v)
    }
    fn deserialize_option<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        serde_json::to_value(self)?.deserialize_option(v)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf unit unit_struct newtype_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}

impl Eq for Value {}

pub fn from_str<T: DeserializeOwned>(s: &str) -> Result<T> {
    match serde_json::from_str(s) {
        Ok(t) => Ok(t),
        Err(e) => match block::parse(s) {
            Some(v) => serde_json::from_value(v),
            None => Err(e),
        },
    }
}
pub fn from_slice<T: DeserializeOwned>(s: &[u8]) -> Result<T> {
    from_str(&String::from_utf8_lossy(s))
}
pub fn from_reader<R: std::io::Read, T: DeserializeOwned>(mut r: R) -> Result<T> {
    let mut s = String::new();
    let _ = r.read_to_string(&mut s);
    from_str(&s)
}
mod block {
    use serde_json::{Map, Value};
    type Line<'a> = (usize, &'a str);
    pub fn parse(s: &str) -> Option<Value> {
        let lines: Vec<Line<'_>> = s
            .lines()
            .map(|l| (l.len() - l.trim_start().len(), l.trim()))
            .filter(|(_, l)| !l.is_empty() && !l.starts_with('#') && *l != "---")
            .collect();
        let mut pos = 0;
        let v = node(&lines, &mut pos, lines.first()?.0)?;
        (pos == lines.len()).then_some(v)
    }
    fn scalar(t: &str) -> Value {
        if t.len() >= 2 && t.starts_with('\'') && t.ends_with('\'') {
            return Value::String(t[1..t.len() - 1].replace("''", "'"));
        }
        if t == "~" || t == "null" {
            return Value::Null;
        }
        match serde_json::from_str::<Value>(t) {
            Ok(v) => v,
            Err(_) => Value::String(t.to_string()),
        }
    }
    fn split(t: &str) -> Option<(String, &str)> {
        let (k, rest) = match t.find(": ") {
            Some(i) => (&t[..i], t[i + 2..].trim()),
            None => (t.strip_suffix(':')?, ""),
        };
        Some((k.trim_matches(|c| c == '"' || c == '\'').to_string(), rest))
    }
    fn node(l: &[Line<'_>], pos: &mut usize, indent: usize) -> Option<Value> {
        if l.get(*pos)?.1.starts_with("- ") || l[*pos].1 == "-" {
            let mut out = vec![];
            while *pos < l.len() && l[*pos].0 == indent && (l[*pos].1.starts_with("- ") || l[*pos].1 == "-") {
                let rest = l[*pos].1[1..].trim_start();
                if rest.is_empty() {
                    *pos += 1;
                    out.push(node(l, pos, l.get(*pos)?.0)?);
                } else if split(rest).is_some() && !rest.starts_with(['"', '\'', '{', '[']) {
                    // a mapping whose first entry shares the line with the dash
                    let inner = indent + (l[*pos].1.len() - rest.len());
                    let mut copy = vec![(inner, rest)];
                    let mut end = *pos + 1;
                    while end < l.len() && l[end].0 >= inner {
                        copy.push(l[end]);
                        end += 1;
                    }
                    let mut p = 0;
                    out.push(node(&copy, &mut p, inner)?);
                    if p != copy.len() {
                        return None;
                    }
                    *pos = end;
                } else {
                    out.push(scalar(rest));
                    *pos += 1;
                }
            }
            return Some(Value::Array(out));
        }
        let mut out = Map::new();
        while *pos < l.len() && l[*pos].0 == indent {
            let (k, rest) = split(l[*pos].1)?;
            *pos += 1;
            let v = if !rest.is_empty() {
                scalar(rest)
            } else if *pos < l.len() && (l[*pos].0 > indent || (l[*pos].0 == indent && l[*pos].1.starts_with("- "))) {
                node(l, pos, l[*pos].0)?
            } else {
                Value::Null
            };
            out.insert(k, v);
        }
        Some(Value::Object(out))
    }
}
