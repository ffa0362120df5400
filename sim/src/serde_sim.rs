//! Simulated sinks and sources, and the formats that run over them (real serde_json, and a small tagged binary format).

use crate::alloc::OutLib;
use crate::world::{self, Cb, Rng, cb};
use serde::de::{self, DeserializeOwned, DeserializeSeed, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Impossible, SerializeMap, SerializeSeq};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;
use std::io::{self, ErrorKind, Read, Write};
use std::marker::PhantomData;

// ---------------------------------------------------------------- sinks

/// What a sink does once it has accepted `fail_at` bytes.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SinkFault {
    Error,
    Full,
    Zero,
    Panic,
}

#[derive(Default)]
pub struct SimWriter {
    pub buf: Vec<u8>,
    pub rng: Option<Rng>,
    pub fail_at: Option<(usize, u8)>,
    pub failed: bool,
    pub after_fail: u64,
    pub interrupts: u64,
    pub short: u64,
    pub calls: u64,
}

impl Write for SimWriter {
    fn write(&mut self, data: &[u8]) -> io::Result<usize> {
        let _g = OutLib::enter();
        self.calls += 1;
        if self.failed {
            self.after_fail += 1;
        }
        if data.is_empty() {
            return Ok(0);
        }
        let mut n = data.len();
        if let Some(r) = &mut self.rng {
            match r.below(8) {
                0 => {
                    self.interrupts += 1;
                    return Err(ErrorKind::Interrupted.into());
                }
                1 | 2 => {
                    let m = 1 + r.below(n as u64) as usize;
                    if m < n {
                        self.short += 1;
                    }
                    n = m;
                }
                _ => {}
            }
        }
        if let Some((at, kind)) = self.fail_at {
            let room = at.saturating_sub(self.buf.len());
            if room == 0 {
                self.failed = true;
                world::mark_fired(Cb::Sink);
                return match kind % 4 {
                    0 => Err(io::Error::other("simulated I/O error")),
                    1 => Err(ErrorKind::StorageFull.into()),
                    2 => Ok(0),
                    _ => std::panic::panic_any(world::SimPanic::Fault(Cb::Sink as usize)),
                };
            }
            n = n.min(room);
        }
        self.buf.extend_from_slice(&data[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A formatting sink that refuses after some number of accepted bytes.
#[derive(Default)]
pub struct FmtSink {
    pub text: String,
    pub fail_at: Option<usize>,
    pub failed: bool,
    pub after_fail: u64,
}
impl fmt::Write for FmtSink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let _g = OutLib::enter();
        if self.failed {
            self.after_fail += 1;
            return Err(fmt::Error);
        }
        if let Some(at) = self.fail_at {
            if self.text.len() + s.len() > at {
                self.failed = true;
                world::mark_fired(Cb::Sink);
                return Err(fmt::Error);
            }
        }
        self.text.push_str(s);
        Ok(())
    }
}

pub struct SerTo<'a> {
    /// 0: JSON, 1: indented JSON, 2: binary
    pub fmt: u8,
    pub w: &'a mut SimWriter,
}

pub fn ser_any<T: Serialize + ?Sized>(t: &T, to: &mut SerTo<'_>) -> Result<(), String> {
    match to.fmt % 3 {
        0 => serde_json::to_writer(&mut *to.w, t).map_err(|e| e.to_string()),
        1 => serde_json::to_writer_pretty(&mut *to.w, t).map_err(|e| e.to_string()),
        _ => t.serialize(&mut Bin(to.w)).map_err(|e| e.0),
    }
}

// ---------------------------------------------------------------- sources

#[derive(Default)]
pub struct SimReader {
    pub data: Vec<u8>,
    pub pos: usize,
    pub rng: Option<Rng>,
    pub fail_at: Option<(usize, u8)>,
    pub failed: bool,
    pub interrupts: u64,
    pub short: u64,
}

impl Read for SimReader {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        let _g = OutLib::enter();
        if out.is_empty() {
            return Ok(0);
        }
        let mut n = out.len().min(self.data.len() - self.pos);
        if let Some(r) = &mut self.rng {
            match r.below(8) {
                0 => {
                    self.interrupts += 1;
                    return Err(ErrorKind::Interrupted.into());
                }
                1..=3 if n > 1 => {
                    n = 1 + r.below(n as u64) as usize;
                    self.short += 1;
                }
                _ => {}
            }
        }
        if let Some((at, kind)) = self.fail_at {
            let room = at.saturating_sub(self.pos);
            if room == 0 {
                self.failed = true;
                world::mark_fired(Cb::Sink);
                return match kind % 3 {
                    0 => Err(io::Error::other("simulated I/O error")),
                    1 => Err(ErrorKind::ConnectionReset.into()),
                    _ => Ok(0),
                };
            }
            n = n.min(room);
        }
        out[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub struct DeFrom<'a> {
    /// 0: JSON reader, 1: JSON slice, 2: JSON text, 3: binary reader
    pub fmt: u8,
    pub r: &'a mut SimReader,
}

pub fn de_any<T: DeserializeOwned>(f: &mut DeFrom<'_>) -> Result<T, String> {
    match f.fmt % 4 {
        0 => serde_json::from_reader(&mut *f.r).map_err(|e| e.to_string()),
        1 => serde_json::from_slice(&f.r.data).map_err(|e| e.to_string()),
        2 => match std::str::from_utf8(&f.r.data) {
            Ok(s) => serde_json::from_str(s).map_err(|e| e.to_string()),
            Err(_) => Err("not UTF-8".into()),
        },
        _ => {
            let v = T::deserialize(&mut BinDe(f.r)).map_err(|e| e.0)?;
            match read_byte(f.r) {
                Err(_) => Ok(v),
                Ok(_) => Err("trailing data".into()),
            }
        }
    }
}

// ---------------------------------------------------------------- binary format, writing

#[derive(Debug)]
pub struct BinErr(pub String);
impl fmt::Display for BinErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for BinErr {}
impl ser::Error for BinErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Self(m.to_string())
    }
}
impl de::Error for BinErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Self(m.to_string())
    }
}
fn io_err(e: &io::Error) -> BinErr {
    BinErr(e.to_string())
}

struct Bin<'a>(&'a mut SimWriter);
impl Bin<'_> {
    fn put(&mut self, b: &[u8]) -> Result<(), BinErr> {
        self.0.write_all(b).map_err(|e| io_err(&e))
    }
    fn tagged(&mut self, t: u8, v: u64) -> Result<(), BinErr> {
        let mut b = [t; 9];
        b[1..].copy_from_slice(&v.to_le_bytes());
        self.put(&b)
    }
}
macro_rules! no {
    ($($f:ident($($t:ty),*) -> $r:ty;)+) => {$(fn $f(self $(, _: $t)*) -> Result<$r, BinErr> { Err(BinErr(concat!("unsupported: ", stringify!($f)).into())) })+};
}
impl<'b> Serializer for &mut Bin<'b> {
    type Ok = ();
    type Error = BinErr;
    type SerializeSeq = Self;
    type SerializeTuple = Impossible<(), BinErr>;
    type SerializeTupleStruct = Impossible<(), BinErr>;
    type SerializeTupleVariant = Impossible<(), BinErr>;
    type SerializeMap = Self;
    type SerializeStruct = Impossible<(), BinErr>;
    type SerializeStructVariant = Impossible<(), BinErr>;
    fn serialize_u64(self, v: u64) -> Result<(), BinErr> {
        self.tagged(b'U', v)
    }
    fn serialize_u8(self, v: u8) -> Result<(), BinErr> {
        self.tagged(b'U', v.into())
    }
    fn serialize_u16(self, v: u16) -> Result<(), BinErr> {
        self.tagged(b'U', v.into())
    }
    fn serialize_u32(self, v: u32) -> Result<(), BinErr> {
        self.tagged(b'U', v.into())
    }
    fn serialize_i64(self, v: i64) -> Result<(), BinErr> {
        self.tagged(b'I', v as u64)
    }
    fn serialize_i8(self, v: i8) -> Result<(), BinErr> {
        self.tagged(b'I', i64::from(v) as u64)
    }
    fn serialize_i16(self, v: i16) -> Result<(), BinErr> {
        self.tagged(b'I', i64::from(v) as u64)
    }
    fn serialize_i32(self, v: i32) -> Result<(), BinErr> {
        self.tagged(b'I', i64::from(v) as u64)
    }
    fn serialize_str(self, v: &str) -> Result<(), BinErr> {
        self.tagged(b'S', v.len() as u64)?;
        self.put(v.as_bytes())
    }
    fn serialize_map(self, len: Option<usize>) -> Result<Self, BinErr> {
        self.tagged(b'M', len.map_or(u64::MAX, |l| l as u64))?;
        Ok(self)
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Self, BinErr> {
        self.tagged(b'Q', len.map_or(u64::MAX, |l| l as u64))?;
        Ok(self)
    }
    no! {
        serialize_bool(bool) -> ();
        serialize_f32(f32) -> ();
        serialize_f64(f64) -> ();
        serialize_char(char) -> ();
        serialize_bytes(&[u8]) -> ();
        serialize_none() -> ();
        serialize_unit() -> ();
        serialize_unit_struct(&'static str) -> ();
        serialize_unit_variant(&'static str, u32, &'static str) -> ();
        serialize_tuple(usize) -> Impossible<(), BinErr>;
        serialize_tuple_struct(&'static str, usize) -> Impossible<(), BinErr>;
        serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Impossible<(), BinErr>;
        serialize_struct(&'static str, usize) -> Impossible<(), BinErr>;
        serialize_struct_variant(&'static str, u32, &'static str, usize) -> Impossible<(), BinErr>;
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<(), BinErr> {
        v.serialize(self)
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<(), BinErr> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), BinErr> {
        Err(BinErr("unsupported".into()))
    }
}
impl SerializeMap for &mut Bin<'_> {
    type Ok = ();
    type Error = BinErr;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), BinErr> {
        self.put(b"E")?;
        k.serialize(&mut **self)
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), BinErr> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), BinErr> {
        self.put(b"Z")
    }
}
impl SerializeSeq for &mut Bin<'_> {
    type Ok = ();
    type Error = BinErr;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), BinErr> {
        self.put(b"E")?;
        k.serialize(&mut **self)
    }
    fn end(self) -> Result<(), BinErr> {
        self.put(b"Z")
    }
}

// ---------------------------------------------------------------- binary format, reading

struct BinDe<'a>(&'a mut SimReader);

fn fill(r: &mut SimReader, out: &mut [u8]) -> Result<(), BinErr> {
    let mut at = 0;
    while at < out.len() {
        match r.read(&mut out[at..]) {
            Ok(0) => return Err(BinErr("unexpected end of data".into())),
            Ok(n) => at += n,
            Err(e) if e.kind() == ErrorKind::Interrupted => {}
            Err(e) => return Err(io_err(&e)),
        }
    }
    Ok(())
}
fn read_byte(r: &mut SimReader) -> Result<u8, BinErr> {
    let mut b = [0];
    fill(r, &mut b)?;
    Ok(b[0])
}
fn read_u64(r: &mut SimReader) -> Result<u64, BinErr> {
    let mut b = [0; 8];
    fill(r, &mut b)?;
    Ok(u64::from_le_bytes(b))
}

impl<'de> Deserializer<'de> for &mut BinDe<'_> {
    type Error = BinErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, BinErr> {
        match read_byte(self.0)? {
            b'U' => v.visit_u64(read_u64(self.0)?),
            b'I' => v.visit_i64(read_u64(self.0)? as i64),
            b'S' => {
                let n = read_u64(self.0)? as usize;
                if n > 1 << 20 {
                    return Err(BinErr("string too long".into()));
                }
                let mut b = vec![0; n];
                fill(self.0, &mut b)?;
                match String::from_utf8(b) {
                    Ok(s) => v.visit_string(s),
                    Err(_) => Err(BinErr("not UTF-8".into())),
                }
            }
            t @ (b'M' | b'Q') => {
                let h = read_u64(self.0)?;
                let mut a = Access { r: self.0, hint: if h == u64::MAX { None } else { Some(h as usize) }, done: false };
                // like most binary formats, this one relies on the visitor to pass on the errors it was told
                if t == b'M' { v.visit_map(&mut a) } else { v.visit_seq(&mut a) }
            }
            t => Err(BinErr(format!("unknown tag {t}"))),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
struct Access<'a> {
    r: &'a mut SimReader,
    hint: Option<usize>,
    done: bool,
}
impl Access<'_> {
    fn more(&mut self) -> Result<bool, BinErr> {
        if self.done {
            return Ok(false);
        }
        match read_byte(self.r)? {
            b'E' => {
                if let Some(h) = &mut self.hint {
                    *h = h.saturating_sub(1);
                }
                Ok(true)
            }
            b'Z' => {
                self.done = true;
                Ok(false)
            }
            t => Err(BinErr(format!("unknown tag {t}"))),
        }
    }
}
impl<'de> MapAccess<'de> for &mut Access<'_> {
    type Error = BinErr;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, k: K) -> Result<Option<K::Value>, BinErr> {
        if self.more()? { k.deserialize(&mut BinDe(self.r)).map(Some) } else { Ok(None) }
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, v: V) -> Result<V::Value, BinErr> {
        v.deserialize(&mut BinDe(self.r))
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}
impl<'de> SeqAccess<'de> for &mut Access<'_> {
    type Error = BinErr;
    fn next_element_seed<K: DeserializeSeed<'de>>(&mut self, k: K) -> Result<Option<K::Value>, BinErr> {
        if self.more()? { k.deserialize(&mut BinDe(self.r)).map(Some) } else { Ok(None) }
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}

// ---------------------------------------------------------------- independent views of a document

#[derive(Clone, Debug, PartialEq)]
pub enum Elem {
    U(u64),
    I(i64),
    S(String),
}
impl<'de> Deserialize<'de> for Elem {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl Visitor<'_> for V {
            type Value = Elem;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("an element")
            }
            fn visit_u64<E>(self, v: u64) -> Result<Elem, E> {
                Ok(Elem::U(v))
            }
            fn visit_i64<E>(self, v: i64) -> Result<Elem, E> {
                Ok(Elem::I(v))
            }
            fn visit_str<E>(self, v: &str) -> Result<Elem, E> {
                Ok(Elem::S(v.to_string()))
            }
        }
        d.deserialize_any(V)
    }
}

/// A document as written: the declared size and the elements in order.
#[derive(Debug)]
pub struct Doc {
    pub is_map: bool,
    pub declared: Option<u64>,
    pub items: Vec<(Elem, Option<Elem>)>,
}

pub fn parse_doc(fmt: u8, data: &[u8], is_map: bool) -> Result<Doc, String> {
    let mut r = SimReader { data: data.to_vec(), ..SimReader::default() };
    let mut f = DeFrom { fmt: if fmt % 3 == 2 { 3 } else { 0 }, r: &mut r };
    let items = if is_map {
        de_any::<RefMap<Elem, Elem>>(&mut f)?.0.into_iter().map(|(k, v)| (k, Some(v))).collect()
    } else {
        de_any::<RefSeq<Elem>>(&mut f)?.0.into_iter().map(|k| (k, None)).collect()
    };
    let declared = if fmt % 3 == 2 {
        let mut b = [0; 8];
        b.copy_from_slice(&data[1..9]);
        Some(u64::from_le_bytes(b))
    } else {
        None
    };
    Ok(Doc { is_map, declared, items })
}

/// The plainest reading of a map document: all entries in order.
pub struct RefMap<K, V>(pub Vec<(K, V)>);
impl<'de, K: Deserialize<'de>, V: Deserialize<'de>> Deserialize<'de> for RefMap<K, V> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Vis<K, V>(PhantomData<(K, V)>);
        impl<'de, K: Deserialize<'de>, V: Deserialize<'de>> Visitor<'de> for Vis<K, V> {
            type Value = RefMap<K, V>;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("a map")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
                let mut v = Vec::new();
                while let Some(e) = a.next_entry()? {
                    v.push(e);
                }
                Ok(RefMap(v))
            }
        }
        d.deserialize_map(Vis(PhantomData))
    }
}
/// The plainest reading of a set document.
pub struct RefSeq<K>(pub Vec<K>);
impl<'de, K: Deserialize<'de>> Deserialize<'de> for RefSeq<K> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Vis<K>(PhantomData<K>);
        impl<'de, K: Deserialize<'de>> Visitor<'de> for Vis<K> {
            type Value = RefSeq<K>;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("a sequence")
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
                let mut v = Vec::new();
                while let Some(e) = a.next_element()? {
                    v.push(e);
                }
                Ok(RefSeq(v))
            }
        }
        d.deserialize_seq(Vis(PhantomData))
    }
}

/// Writes a document the way a foreign program would: any order, repeats, any size announcement.
pub fn write_doc(fmt: u8, is_map: bool, announce: u64, items: &[(Elem, Option<Elem>)], rng: &mut Rng) -> Vec<u8> {
    cb(Cb::Sink);
    let mut out = Vec::new();
    if fmt % 4 == 3 {
        out.push(if is_map { b'M' } else { b'Q' });
        out.extend_from_slice(&announce.to_le_bytes());
        for (k, v) in items {
            out.push(b'E');
            for e in [Some(k), v.as_ref()].into_iter().flatten() {
                match e {
                    Elem::U(n) => {
                        out.push(b'U');
                        out.extend_from_slice(&n.to_le_bytes());
                    }
                    Elem::I(n) => {
                        out.push(b'I');
                        out.extend_from_slice(&n.to_le_bytes());
                    }
                    Elem::S(s) => {
                        out.push(b'S');
                        out.extend_from_slice(&(s.len() as u64).to_le_bytes());
                        out.extend_from_slice(s.as_bytes());
                    }
                }
            }
        }
        out.push(b'Z');
    } else {
        let spaced = rng.chance(1, 3);
        out.push(if is_map { b'{' } else { b'[' });
        for (i, (k, v)) in items.iter().enumerate() {
            if i > 0 {
                out.push(b',');
            }
            if spaced && rng.chance(1, 2) {
                out.extend_from_slice(b" \n");
            }
            match k {
                Elem::S(s) => out.extend_from_slice(json_string(s, rng).as_bytes()),
                Elem::U(n) if is_map => out.extend_from_slice(format!("\"{n}\"").as_bytes()),
                Elem::I(n) if is_map => out.extend_from_slice(format!("\"{n}\"").as_bytes()),
                Elem::U(n) => out.extend_from_slice(n.to_string().as_bytes()),
                Elem::I(n) => out.extend_from_slice(n.to_string().as_bytes()),
            }
            if let Some(Elem::U(n)) = v {
                out.push(b':');
                if spaced {
                    out.push(b' ');
                }
                out.extend_from_slice(n.to_string().as_bytes());
            }
        }
        out.push(if is_map { b'}' } else { b']' });
    }
    out
}

fn json_string(s: &str, rng: &mut Rng) -> String {
    if rng.chance(1, 3) {
        // escape everything the hard way
        let mut o = String::from("\"");
        for u in s.encode_utf16() {
            o.push_str(&format!("\\u{u:04x}"));
        }
        o.push('"');
        o
    } else {
        serde_json::to_string(s).unwrap()
    }
}
