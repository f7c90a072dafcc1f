//! Serde helpers with the interface of the `ethereum_serde_utils` crate.
pub mod hex {
    use std::fmt;

    use serde::de::{self, Visitor};

    pub fn encode<T: AsRef<[u8]>>(data: T) -> String {
        format!("0x{}", ::hex::encode(data))
    }
    pub fn decode(s: &str) -> Result<Vec<u8>, String> {
        match s.strip_prefix("0x") {
            Some(rest) => ::hex::decode(rest).map_err(|e| format!("invalid hex ({e:?})")),
            None => Err("hex must have 0x prefix".to_string()),
        }
    }
    pub struct PrefixedHexVisitor;
    impl Visitor<'_> for PrefixedHexVisitor {
        type Value = Vec<u8>;
        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("a hex string with 0x prefix")
        }
        fn visit_str<E: de::Error>(self, v: &str) -> Result<Vec<u8>, E> {
            decode(v).map_err(de::Error::custom)
        }
    }
    pub struct HexVisitor;
    impl Visitor<'_> for HexVisitor {
        type Value = Vec<u8>;
        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("a hex string (irrelevant of prefix)")
        }
        fn visit_str<E: de::Error>(self, v: &str) -> Result<Vec<u8>, E> {
            ::hex::decode(v.trim_start_matches("0x"))
                .map_err(|e| de::Error::custom(format!("invalid hex ({e:?})")))
        }
    }
}

pub mod hex_vec {
    use serde::{Deserializer, Serializer};
    pub fn serialize<S: Serializer>(bytes: &[u8], s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&super::hex::encode(bytes))
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        d.deserialize_str(super::hex::PrefixedHexVisitor)
    }
}

macro_rules! quoted {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use serde::{de, Deserializer, Serializer};
            pub fn serialize<S: Serializer>(v: &$t, s: S) -> Result<S::Ok, S::Error> {
                s.serialize_str(&v.to_string())
            }
            pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<$t, D::Error> {
                struct V;
                impl de::Visitor<'_> for V {
                    type Value = $t;
                    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                        f.write_str("a quoted or unquoted integer")
                    }
                    fn visit_str<E: de::Error>(self, s: &str) -> Result<$t, E> {
                        s.parse().map_err(de::Error::custom)
                    }
                    fn visit_u64<E: de::Error>(self, v: u64) -> Result<$t, E> {
                        <$t>::try_from(v).map_err(de::Error::custom)
                    }
                }
                d.deserialize_any(V)
            }
            /// A number that reads and writes as a quoted integer.
            #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
            pub struct Quoted {
                pub value: $t,
            }
            impl serde::Serialize for Quoted {
                fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                    serialize(&self.value, s)
                }
            }
            impl<'de> serde::Deserialize<'de> for Quoted {
                fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                    deserialize(d).map(|value| Self { value })
                }
            }
        }
    };
}
quoted!(quoted_u8, u8);
quoted!(quoted_u32, u32);
quoted!(quoted_u64, u64);
quoted!(quoted_i64, i64);

macro_rules! quoted_vec {
    ($m:ident, $q:ident, $t:ty) => {
        pub mod $m {
            use serde::{ser::SerializeSeq, Deserialize, Deserializer, Serializer};

            use super::$q::Quoted;
            pub fn serialize<T, S>(value: &[T], s: S) -> Result<S::Ok, S::Error>
            where
                T: Copy + Into<$t>,
                S: Serializer,
            {
                let mut seq = s.serialize_seq(Some(value.len()))?;
                for v in value {
                    seq.serialize_element(&Quoted { value: (*v).into() })?;
                }
                seq.end()
            }
            pub fn deserialize<'de, T, D>(d: D) -> Result<T, D::Error>
            where
                D: Deserializer<'de>,
                T: TryFrom<Vec<$t>>,
                T::Error: std::fmt::Debug,
            {
                let v = Vec::<Quoted>::deserialize(d)?;
                T::try_from(v.into_iter().map(|q| q.value).collect())
                    .map_err(|e| serde::de::Error::custom(format!("{e:?}")))
            }
        }
    };
}
quoted_vec!(quoted_u64_vec, quoted_u64, u64);
quoted_vec!(quoted_u8_vec, quoted_u8, u8);

pub mod u256_hex_be {
    use alloy_primitives::U256;
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(n: &U256, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{n:#x}"))
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<U256, D::Error> {
        let t = String::deserialize(d)?;
        U256::from_str_radix(t.trim_start_matches("0x"), 16).map_err(serde::de::Error::custom)
    }
}
pub mod quoted_u256 {
    use alloy_primitives::U256;
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(n: &U256, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&n.to_string())
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<U256, D::Error> {
        let t = String::deserialize(d)?;
        U256::from_str_radix(&t, 10).map_err(serde::de::Error::custom)
    }
}
pub mod bytes_4_hex {
    use serde::{Deserializer, Serializer};
    pub fn serialize<S: Serializer>(bytes: &[u8; 4], s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&super::hex::encode(bytes))
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<[u8; 4], D::Error> {
        let v = d.deserialize_str(super::hex::PrefixedHexVisitor)?;
        v.try_into().map_err(|_| serde::de::Error::custom("expected 4 bytes"))
    }
}
