//! Receivers of printed and serialized forms that refuse once, at a chosen step, and accept
//! everything afterwards: a form that is cut short must not be reported as complete.
use std::fmt::{self, Display, Write};

use serde::ser::{Impossible, Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeTuple, Serializer};

use crate::{
    ck, ckeq,
    rng::Rng,
    util::{clip, Ctx, R},
};

struct Flaky {
    at: usize,
    seen: usize,
    before: String,
}
impl Write for Flaky {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let i = self.seen;
        self.seen += 1;
        if i == self.at {
            return Err(fmt::Error);
        }
        if i < self.at {
            self.before.push_str(s);
        }
        Ok(())
    }
}

/// The writer refuses at up to `tries` places.
pub fn refuse(cx: &mut Ctx, rng: &mut Rng, tries: usize, what: &str, print: &dyn Fn(&mut dyn Write) -> fmt::Result) -> R {
    let mut w = Flaky { at: usize::MAX, seen: 0, before: String::new() };
    ck!(cx, print(&mut w).is_ok(), "{} fails although nothing refused", what);
    let (n, all) = (w.seen, w.before);
    for t in 0..tries.min(n) {
        let at = if tries >= n { t } else { rng.below(n) };
        let mut w = Flaky { at, seen: 0, before: String::new() };
        let r = print(&mut w);
        if w.seen <= at {
            cx.count("refusals not reached");
            continue;
        }
        ck!(cx, r.is_err(), "{}: write {} of {} was refused, and success is reported", what, at, n);
        ck!(
            cx,
            all.starts_with(&w.before),
            "{}: {:?} was written before write {} was refused, which does not begin {:?}",
            what,
            clip(&w.before, 80),
            at,
            clip(&all, 80)
        );
        cx.count("refused writes");
    }
    Ok(())
}

#[derive(Debug)]
pub struct Refused;
impl Display for Refused {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("refused")
    }
}
impl std::error::Error for Refused {}
impl serde::ser::Error for Refused {
    fn custom<D: Display>(_: D) -> Refused {
        Refused
    }
}

/// Counts the steps of a serialization and the announced lengths; `wrong` is the first
/// announcement that was not kept.
struct Steps {
    at: usize,
    seen: usize,
    wrong: Option<String>,
}
impl Steps {
    fn step(&mut self) -> Result<(), Refused> {
        let i = self.seen;
        self.seen += 1;
        match i == self.at {
            true => Err(Refused),
            false => Ok(()),
        }
    }
}
struct Items<'a> {
    to: &'a mut Steps,
    announced: Option<usize>,
    n: usize,
    what: &'static str,
}
impl Items<'_> {
    fn finish(self) -> Result<(), Refused> {
        if let Some(want) = self.announced {
            if want != self.n && self.to.wrong.is_none() {
                self.to.wrong = Some(format!("a {} of announced length {} has {} elements", self.what, want, self.n));
            }
        }
        self.to.step()
    }
}
impl<'a> SerializeSeq for Items<'a> {
    type Ok = ();
    type Error = Refused;
    fn serialize_element<V: Serialize + ?Sized>(&mut self, v: &V) -> Result<(), Refused> {
        self.to.step()?;
        self.n += 1;
        v.serialize(&mut *self.to)
    }
    fn end(self) -> Result<(), Refused> {
        self.finish()
    }
}
impl<'a> SerializeTuple for Items<'a> {
    type Ok = ();
    type Error = Refused;
    fn serialize_element<V: Serialize + ?Sized>(&mut self, v: &V) -> Result<(), Refused> {
        SerializeSeq::serialize_element(self, v)
    }
    fn end(self) -> Result<(), Refused> {
        self.finish()
    }
}
impl<'a> SerializeMap for Items<'a> {
    type Ok = ();
    type Error = Refused;
    fn serialize_key<V: Serialize + ?Sized>(&mut self, v: &V) -> Result<(), Refused> {
        self.to.step()?;
        self.n += 1;
        v.serialize(&mut *self.to)
    }
    fn serialize_value<V: Serialize + ?Sized>(&mut self, v: &V) -> Result<(), Refused> {
        self.to.step()?;
        v.serialize(&mut *self.to)
    }
    fn end(self) -> Result<(), Refused> {
        self.finish()
    }
}
impl<'a> SerializeStruct for Items<'a> {
    type Ok = ();
    type Error = Refused;
    fn serialize_field<V: Serialize + ?Sized>(&mut self, _: &'static str, v: &V) -> Result<(), Refused> {
        self.to.step()?;
        self.n += 1;
        v.serialize(&mut *self.to)
    }
    fn end(self) -> Result<(), Refused> {
        self.finish()
    }
}
macro_rules! scalars {
    ($($f:ident $t:ty),*) => { $(fn $f(self, _: $t) -> Result<(), Refused> { self.step() })* };
}
impl<'a> Serializer for &'a mut Steps {
    type Ok = ();
    type Error = Refused;
    type SerializeSeq = Items<'a>;
    type SerializeTuple = Items<'a>;
    type SerializeMap = Items<'a>;
    type SerializeStruct = Items<'a>;
    type SerializeTupleStruct = Impossible<(), Refused>;
    type SerializeTupleVariant = Impossible<(), Refused>;
    type SerializeStructVariant = Impossible<(), Refused>;
    scalars!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64,
        serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64,
        serialize_char char, serialize_str &str, serialize_bytes &[u8], serialize_unit_struct &'static str);
    fn collect_str<V: Display + ?Sized>(self, v: &V) -> Result<(), Refused> {
        let _ = v.to_string();
        self.step()
    }
    fn serialize_none(self) -> Result<(), Refused> {
        self.step()
    }
    fn serialize_some<V: Serialize + ?Sized>(self, v: &V) -> Result<(), Refused> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), Refused> {
        self.step()
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), Refused> {
        self.step()
    }
    fn serialize_newtype_struct<V: Serialize + ?Sized>(self, _: &'static str, v: &V) -> Result<(), Refused> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<V: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, v: &V) -> Result<(), Refused> {
        v.serialize(self)
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Items<'a>, Refused> {
        self.step()?;
        Ok(Items { to: self, announced: len, n: 0, what: "sequence" })
    }
    fn serialize_tuple(self, len: usize) -> Result<Items<'a>, Refused> {
        self.step()?;
        Ok(Items { to: self, announced: Some(len), n: 0, what: "tuple" })
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Refused> {
        Err(Refused)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Refused> {
        Err(Refused)
    }
    fn serialize_map(self, len: Option<usize>) -> Result<Items<'a>, Refused> {
        self.step()?;
        Ok(Items { to: self, announced: len, n: 0, what: "map" })
    }
    fn serialize_struct(self, _: &'static str, len: usize) -> Result<Items<'a>, Refused> {
        self.step()?;
        Ok(Items { to: self, announced: Some(len), n: 0, what: "struct" })
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Refused> {
        Err(Refused)
    }
}

/// The serializer refuses at up to `tries` steps, and announced lengths are kept.
pub fn refuse_ser<V: Serialize>(cx: &mut Ctx, rng: &mut Rng, tries: usize, what: &str, v: &V) -> R {
    let mut s = Steps { at: usize::MAX, seen: 0, wrong: None };
    ck!(cx, v.serialize(&mut s).is_ok(), "serialization of {} fails although nothing refused", what);
    ckeq!(cx, s.wrong, None, "announced lengths in the serialization of {}", what);
    let n = s.seen;
    for t in 0..tries.min(n) {
        let at = if tries >= n { t } else { rng.below(n) };
        let mut s = Steps { at, seen: 0, wrong: None };
        let r = v.serialize(&mut s);
        if s.seen > at {
            ck!(cx, r.is_err(), "serialization of {}: step {} of {} was refused, and success is reported", what, at, n);
            cx.count("refused steps");
        }
    }
    Ok(())
}
