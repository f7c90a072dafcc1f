//! Lenient number reading with the interface of the `serde-this-or-that` crate.
use serde::{
    de::{Error, Visitor},
    Deserializer,
};
struct V;
impl<'de> Visitor<'de> for V {
    type Value = u64;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("an unsigned integer or a string")
    }
    fn visit_u64<E: Error>(self, v: u64) -> Result<u64, E> {
        Ok(v)
    }
    fn visit_i64<E: Error>(self, v: i64) -> Result<u64, E> {
        u64::try_from(v).map_err(|_| E::custom("negative number"))
    }
    fn visit_f64<E: Error>(self, v: f64) -> Result<u64, E> {
        Ok(v.round() as u64)
    }
    fn visit_bool<E: Error>(self, v: bool) -> Result<u64, E> {
        Ok(v as u64)
    }
    fn visit_str<E: Error>(self, v: &str) -> Result<u64, E> {
        if v.is_empty() {
            return Ok(0);
        }
        v.parse::<u64>().map_err(|_| E::custom(format!("not a number: {v}")))
    }
    fn visit_none<E: Error>(self) -> Result<u64, E> {
        Ok(0)
    }
    fn visit_unit<E: Error>(self) -> Result<u64, E> {
        Ok(0)
    }
}
pub fn as_u64<'de, D: Deserializer<'de>>(d: D) -> Result<u64, D::Error> {
    d.deserialize_any(V)
}
