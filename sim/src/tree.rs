//! A self-describing storage format unlike JSON: integers come in whatever width and
//! sign fit, strings borrowed, owned or transient, structures as maps (by name or by
//! number, in any order) or as sequences of known or unknown length, readable or not.
use crate::rng::hash2;
use serde::de::value::{Error, StrDeserializer, U32Deserializer};
use serde::de::{DeserializeOwned, DeserializeSeed, Deserializer, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use serde_json::Value;
use std::cell::Cell;

struct Style {
    h: Cell<u64>,
    human: bool,
    /// lengths are known
    sized: bool,
    /// pairs of registers may be written in their other forms
    forms: bool,
}
impl Style {
    fn draw(&self, n: u64) -> u64 {
        self.h.set(hash2(self.h.get(), n));
        (self.h.get() >> 13) % n
    }
}

/// Load what JSON text says, in a way that `seed` decides.
pub fn load<T: DeserializeOwned>(json: &[u8], seed: u64) -> Result<T, String> {
    let v: Value = serde_json::from_slice(json).map_err(|e| e.to_string())?;
    let human = seed & 1 == 0;
    let st = Style { h: Cell::new(seed), human, sized: seed & 2 == 0, forms: seed & 4 == 0 };
    T::deserialize(De { v: &v, st: &st }).map_err(|e| e.to_string())
}

#[derive(Clone, Copy)]
struct De<'de> {
    v: &'de Value,
    st: &'de Style,
}

struct Items<'de> {
    v: std::vec::IntoIter<&'de Value>,
    st: &'de Style,
}
impl<'de> SeqAccess<'de> for Items<'de> {
    type Error = Error;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Error> {
        match self.v.next() {
            Some(v) => s.deserialize(De { v, st: self.st }).map(Some),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        if self.st.sized {
            Some(self.v.len())
        } else {
            None
        }
    }
}

enum Key<'de> {
    Name(&'de str),
    Number(u64),
}
struct KeyDe<'de>(Key<'de>, &'de Style);
impl<'de> Deserializer<'de> for KeyDe<'de> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            Key::Number(n) => v.visit_u64(n),
            Key::Name(s) => match self.1.draw(5) {
                0 => v.visit_borrowed_str(s),
                1 => v.visit_string(s.to_string()),
                2 => v.visit_bytes(s.as_bytes()),
                _ => v.visit_str(s),
            },
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

struct Fields<'de> {
    v: std::vec::IntoIter<(Key<'de>, &'de Value)>,
    next: Option<&'de Value>,
    st: &'de Style,
}
impl<'de> MapAccess<'de> for Fields<'de> {
    type Error = Error;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Error> {
        match self.v.next() {
            Some((k, v)) => {
                self.next = Some(v);
                s.deserialize(KeyDe(k, self.st)).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value, Error> {
        s.deserialize(De { v: self.next.take().expect("key first"), st: self.st })
    }
    fn size_hint(&self) -> Option<usize> {
        if self.st.sized {
            Some(self.v.len())
        } else {
            None
        }
    }
}

impl<'de> De<'de> {
    fn int<V: Visitor<'de>>(&self, n: i64, v: V) -> Result<V::Value, Error> {
        // the same 16 bits with a sign
        let n = if self.st.forms && (0x8000..0x10000).contains(&n) && self.st.draw(3) == 0 { n - 0x10000 } else { n };
        // from the narrowest that fits, as most formats do, or any wider one
        for k in self.st.draw(8)..17 {
            match k & 7 {
                0 if i8::try_from(n).is_ok() => return v.visit_i8(n as i8),
                1 if u8::try_from(n).is_ok() => return v.visit_u8(n as u8),
                2 if i16::try_from(n).is_ok() => return v.visit_i16(n as i16),
                3 if u16::try_from(n).is_ok() => return v.visit_u16(n as u16),
                4 if i32::try_from(n).is_ok() => return v.visit_i32(n as i32),
                5 if u32::try_from(n).is_ok() => return v.visit_u32(n as u32),
                6 if u64::try_from(n).is_ok() => return v.visit_u64(n as u64),
                7 => return v.visit_i64(n),
                _ => {}
            }
        }
        v.visit_i64(n)
    }
}

impl<'de> Deserializer<'de> for De<'de> {
    type Error = Error;
    fn is_human_readable(&self) -> bool {
        self.st.human
    }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.v {
            Value::Null => v.visit_unit(),
            Value::Bool(b) => v.visit_bool(*b),
            Value::Number(n) => match (n.as_i64(), n.as_u64()) {
                (Some(n), _) => self.int(n, v),
                (_, Some(n)) => v.visit_u64(n),
                _ => v.visit_f64(n.as_f64().unwrap_or(0.0)),
            },
            Value::String(s) => match self.st.draw(3) {
                0 => v.visit_borrowed_str(s),
                1 => v.visit_string(s.clone()),
                _ => v.visit_str(s),
            },
            Value::Array(a) => v.visit_seq(Items { v: a.iter().collect::<Vec<_>>().into_iter(), st: self.st }),
            Value::Object(_) => self.deserialize_struct("", &[], v),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.v {
            Value::Null if self.st.draw(2) == 0 => v.visit_unit(),
            Value::Null => v.visit_none(),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, variants: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        let Value::String(s) = self.v else { return self.deserialize_any(v) };
        match variants.iter().position(|x| x == s) {
            Some(n) if self.st.draw(2) == 0 => {
                let d: U32Deserializer<Error> = (n as u32).into_deserializer();
                v.visit_enum(d)
            }
            _ => {
                fn as_enum<'x, A: EnumAccess<'x, Error = Error>, V: Visitor<'x>>(a: A, v: V) -> Result<V::Value, Error> {
                    v.visit_enum(a)
                }
                let d: StrDeserializer<Error> = s.as_str().into_deserializer();
                as_enum(d, v)
            }
        }
    }
    fn deserialize_struct<V: Visitor<'de>>(self, name: &'static str, fields: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        let Value::Object(o) = self.v else { return self.deserialize_any(v) };
        let st = self.st;
        let nm = |k: &str| fields.iter().position(|f| f == &k);
        let mut items: Vec<(&str, &Value)> = o.iter().map(|(k, v)| (k.as_str(), v)).collect();
        let cpu = name == "Z80";
        let known = items.iter().all(|(k, _)| nm(k).is_some());
        let whole = if cpu { known && items.len() == fields.len() } else { items.len() > 1 };
        if !fields.is_empty() && whole && st.draw(3) == 0 {
            if known {
                items.sort_by_key(|(k, _)| nm(k));
            }
            // the form without a type is as old as the NMOS variant
            if cpu && st.sized && o["type"] == "NMOS" && st.draw(2) == 0 {
                items.remove(0);
            }
            let a: Vec<&Value> = items.into_iter().map(|x| x.1).collect();
            return v.visit_seq(Items { v: a.into_iter(), st });
        }
        for i in (1..items.len()).rev() {
            items.swap(i, st.draw(i as u64 + 1) as usize);
        }
        let numbers = cpu && known && st.draw(3) == 0;
        let a: Vec<_> = items.into_iter().map(|(k, v)| (if numbers { Key::Number(nm(k).expect("field") as u64) } else { Key::Name(k) }, v)).collect();
        v.visit_map(Fields { v: a.into_iter(), next: None, st })
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit
        unit_struct seq tuple tuple_struct map identifier ignored_any
    }
}
