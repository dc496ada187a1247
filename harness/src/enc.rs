//! Independent model and encoder of binlog events, written from the MySQL/MariaDB formats, and the
//! comparison of decoded events with the model.
use crate::engine::*;
use crate::{ensure, fail, same};
use mysql_cdc::errors::Error;
use mysql_cdc::events::binlog_event::BinlogEvent;
use mysql_cdc::events::event_header::EventHeader;
use mysql_cdc::events::event_parser::EventParser;
use mysql_cdc::events::row_events::mysql_value::MySqlValue;
use mysql_cdc::events::row_events::row_data::RowData;
use mysql_cdc::metadata::default_charset::DefaultCharset;
use std::sync::Arc;

#[derive(Default, Clone)]
pub struct W(pub Vec<u8>);
impl W {
    pub fn new() -> W {
        W(Vec::new())
    }
    pub fn le(&mut self, n: usize, v: u64) -> &mut W {
        self.0.extend_from_slice(&v.to_le_bytes()[..n]);
        self
    }
    pub fn be(&mut self, n: usize, v: u64) -> &mut W {
        self.0.extend_from_slice(&v.to_be_bytes()[8 - n..]);
        self
    }
    pub fn u8(&mut self, v: u8) -> &mut W {
        self.0.push(v);
        self
    }
    pub fn u16(&mut self, v: u16) -> &mut W {
        self.le(2, v as u64)
    }
    pub fn u32(&mut self, v: u32) -> &mut W {
        self.le(4, v as u64)
    }
    pub fn u64(&mut self, v: u64) -> &mut W {
        self.le(8, v)
    }
    pub fn b(&mut self, v: &[u8]) -> &mut W {
        self.0.extend_from_slice(v);
        self
    }
    pub fn lenenc(&mut self, v: u64) -> &mut W {
        if v < 251 {
            self.u8(v as u8)
        } else if v < 1 << 16 {
            self.u8(0xfc).le(2, v)
        } else if v < 1 << 24 {
            self.u8(0xfd).le(3, v)
        } else {
            self.u8(0xfe).le(8, v)
        }
    }
    pub fn lenstr(&mut self, s: &[u8]) -> &mut W {
        self.lenenc(s.len() as u64).b(s)
    }
    pub fn bits_lsb(&mut self, v: &[bool], pad: bool) -> &mut W {
        for c in v.chunks(8) {
            let mut x = 0u8;
            for i in 0..8 {
                if c.get(i).copied().unwrap_or(pad) {
                    x |= 1 << i;
                }
            }
            self.u8(x);
        }
        self
    }
    pub fn bits_msb(&mut self, v: &[bool], pad: bool) -> &mut W {
        for c in v.chunks(8) {
            let mut x = 0u8;
            for i in 0..8 {
                if c.get(i).copied().unwrap_or(pad) {
                    x |= 0x80 >> i;
                }
            }
            self.u8(x);
        }
        self
    }
}

pub fn crc32(parts: &[&[u8]]) -> u32 {
    static mut T: [u32; 256] = [0; 256];
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        for i in 0..256u32 {
            let mut c = i;
            for _ in 0..8 {
                c = if c & 1 != 0 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 };
            }
            unsafe { T[i as usize] = c };
        }
    });
    let mut c = !0u32;
    for p in parts {
        for &b in *p {
            c = unsafe { T[((c ^ b as u32) & 0xff) as usize] } ^ (c >> 8);
        }
    }
    !c
}

#[derive(Clone, Debug, Default)]
pub struct Hdr {
    pub ts: u32,
    pub server_id: u32,
    pub log_pos: u32,
    pub flags: u16,
}
impl Hdr {
    pub fn gen(s: &mut Src) -> Hdr {
        Hdr {
            ts: s.uint(32) as u32,
            server_id: s.uint(32) as u32,
            log_pos: s.uint(32) as u32,
            flags: s.uint(16) as u16,
        }
    }
}

pub fn wire(typ: u8, h: &Hdr, payload: &[u8], crc: bool) -> Vec<u8> {
    let mut w = W::new();
    let len = 19 + payload.len() + if crc { 4 } else { 0 };
    w.u32(h.ts).u8(typ).u32(h.server_id).u32(len as u32).u32(h.log_pos).u16(h.flags);
    w.b(payload);
    if crc {
        let c = crc32(&[&w.0]);
        w.u32(c);
    }
    w.0
}

pub fn cmp_header(got: &EventHeader, typ: u8, h: &Hdr, len: usize) -> Res {
    same!(got.timestamp, h.ts, "header timestamp");
    same!(got.event_type, typ, "header event type");
    same!(got.server_id, h.server_id, "header server id");
    same!(got.event_length as usize, len, "header event length");
    same!(got.next_event_position, h.log_pos, "header next position");
    same!(got.event_flags, h.flags, "header flags");
    Ok(())
}

// ------------------------------------------------------------------------------------- columns

#[derive(Clone, Debug, PartialEq)]
pub enum Col {
    Tiny,
    Short,
    Int24,
    Long,
    LongLong,
    Float,
    Double,
    Decimal(u8, u8),
    Bit(u8),
    Enum(u8),
    Set(u8),
    Year,
    Date,
    Time,
    DateTime,
    Timestamp,
    Time2(u8),
    DateTime2(u8),
    Timestamp2(u8),
    Char(u16),
    VarChar(u16),
    VarString(u16),
    Blob(u8, u8),
    Json(u8),
    Geometry(u8),
}

#[derive(Clone, Copy, PartialEq)]
pub enum Family {
    Any,
    Numeric,
    Decimal,
    Temporal,
    Text,
    Small,
}

fn gen_maxlen(s: &mut Src, max: u64) -> u16 {
    // declared byte lengths, with the prefix and bit-packing boundaries
    let edges = [1u64, 2, 10, 40, 200, 254, 255, 256, 257, 300, 511, 512, 513, 767, 768, 769, 1019, 1020, 1021, 4000, 16383, 32767, 32768, 65534, 65535];
    let v = if s.chance(1, 2) { *s.pick(&edges) } else { s.range(1, max) };
    v.min(max) as u16
}

impl Col {
    pub fn gen(s: &mut Src, fam: Family) -> Col {
        let fam = if fam == Family::Any {
            [Family::Numeric, Family::Decimal, Family::Temporal, Family::Text][s.weighted(&[6, 2, 4, 4])]
        } else {
            fam
        };
        match fam {
            Family::Numeric => match s.below(11) {
                0 => Col::Long,
                1 => Col::Tiny,
                2 => Col::Short,
                3 => Col::Int24,
                4 => Col::LongLong,
                5 => Col::Float,
                6 => Col::Double,
                7 => Col::Year,
                8 => Col::Bit(1 + s.draw(63) as u8),
                9 => Col::Enum(1 + s.draw(1) as u8),
                _ => Col::Set(*s.pick(&[1, 2, 3, 4, 8])),
            },
            Family::Decimal => {
                let p = 1 + s.edge(64) as u8;
                let sc = s.edge(p.min(30) as u64) as u8;
                Col::Decimal(p, sc)
            }
            Family::Temporal => match s.below(7) {
                0 => Col::Date,
                1 => Col::Time,
                2 => Col::DateTime,
                3 => Col::Timestamp,
                4 => Col::Time2(s.draw(6) as u8),
                5 => Col::DateTime2(s.draw(6) as u8),
                _ => Col::Timestamp2(s.draw(6) as u8),
            },
            Family::Text => match s.weighted(&[5, 5, 1, 5, 2, 1]) {
                0 => Col::VarChar(gen_maxlen(s, 65535)),
                1 => Col::Char(gen_maxlen(s, 1020)),
                2 => Col::VarString(gen_maxlen(s, 65535)),
                3 => {
                    let code = [252u8, 249, 250, 251][s.weighted(&[8, 1, 1, 1])];
                    Col::Blob(code, 1 + s.draw(3) as u8)
                }
                4 => Col::Json(1 + s.draw_with(3, |r| if r.below(4) > 0 { 3 } else { r.below(4) }) as u8),
                _ => Col::Geometry(1 + s.draw_with(3, |r| if r.below(4) > 0 { 3 } else { r.below(4) }) as u8),
            },
            _ => match s.below(5) {
                0 => Col::Tiny,
                1 => Col::Long,
                2 => Col::VarChar(20),
                3 => Col::Blob(252, 1),
                _ => Col::Short,
            },
        }
    }
    /// Type code in the table map event
    pub fn code(&self) -> u8 {
        match self {
            Col::Tiny => 1,
            Col::Short => 2,
            Col::Long => 3,
            Col::Float => 4,
            Col::Double => 5,
            Col::Timestamp => 7,
            Col::LongLong => 8,
            Col::Int24 => 9,
            Col::Date => 10,
            Col::Time => 11,
            Col::DateTime => 12,
            Col::Year => 13,
            Col::VarChar(_) => 15,
            Col::Bit(_) => 16,
            Col::Timestamp2(_) => 17,
            Col::DateTime2(_) => 18,
            Col::Time2(_) => 19,
            Col::Json(_) => 245,
            Col::Decimal(..) => 246,
            Col::Blob(c, _) => *c,
            Col::VarString(_) => 253,
            Col::Enum(_) | Col::Set(_) | Col::Char(_) => 254,
            Col::Geometry(_) => 255,
        }
    }
    pub fn meta(&self) -> Vec<u8> {
        match self {
            Col::Float => vec![4],
            Col::Double => vec![8],
            Col::Decimal(p, s) => vec![*p, *s],
            Col::Bit(n) => vec![n % 8, n / 8],
            Col::Enum(w) => vec![247, *w],
            Col::Set(w) => vec![248, *w],
            Col::Char(n) => vec![254 ^ ((n & 0x300) >> 4) as u8, (n & 0xff) as u8],
            Col::VarChar(n) | Col::VarString(n) => n.to_le_bytes().to_vec(),
            Col::Time2(f) | Col::DateTime2(f) | Col::Timestamp2(f) => vec![*f],
            Col::Blob(_, w) | Col::Json(w) | Col::Geometry(w) => vec![*w],
            _ => vec![],
        }
    }
    /// The same metadata as the number the library documents
    pub fn meta_u16(&self) -> u16 {
        let m = self.meta();
        match self {
            Col::Enum(_) | Col::Set(_) | Col::Char(_) => (m[0] as u16) << 8 | m[1] as u16,
            _ => match m.len() {
                0 => 0,
                1 => m[0] as u16,
                _ => (m[1] as u16) << 8 | m[0] as u16,
            },
        }
    }
    /// Has a bit in the signedness metadata
    pub fn numeric(&self) -> bool {
        matches!(
            self,
            Col::Tiny | Col::Short | Col::Int24 | Col::Long | Col::LongLong | Col::Float | Col::Double | Col::Decimal(..)
        )
    }
}

// --------------------------------------------------------------------------------------- cells

#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    Tiny(u8),
    Small(u16),
    Medium(u32),
    Int(u32),
    Big(u64),
    F32(u32),
    F64(u64),
    Dec(String),
    Str(Vec<u8>),
    Bits(Vec<bool>),
    Enum(u32),
    Set(u64),
    Blob(Vec<u8>),
    Year(u16),
    Date(u16, u8, u8),
    Time(i16, u8, u8, u32),
    DateTime(u16, u8, u8, u8, u8, u8, u32),
    Ts(u64),
    /// Not representable: the event must be reported as an error
    Err,
}

#[derive(Clone, Debug)]
pub struct Cell {
    pub bytes: Vec<u8>,
    pub want: Want,
    pub special: bool,
}

#[derive(Clone, Copy)]
pub struct ValOpt {
    /// Also values that have to be rejected
    pub bad: bool,
    /// Long strings and blobs
    pub big: bool,
}

fn dec_bytes(n: usize) -> usize {
    [0, 1, 1, 2, 2, 3, 3, 4, 4, 4][n]
}

/// Digits (integer part of p-s digits and fraction of s digits) to the storage format.
pub fn decimal_bin(p: usize, sc: usize, neg: bool, digits: &[u8]) -> Vec<u8> {
    let ip = p - sc;
    let num = |d: &[u8]| d.iter().fold(0u64, |a, &x| a * 10 + x as u64);
    let mut w = W::new();
    let lead = ip % 9;
    w.be(dec_bytes(lead), num(&digits[..lead]));
    for c in digits[lead..ip].chunks(9) {
        w.be(4, num(c));
    }
    for c in digits[ip..].chunks(9) {
        w.be(dec_bytes(c.len()), num(c));
    }
    let mut v = w.0;
    if neg {
        v.iter_mut().for_each(|b| *b = !*b);
    }
    v[0] ^= 0x80;
    v
}

/// Bits of a finite number: no server stores infinities or NaN.
fn gen_float(s: &mut Src, bits: u32, mantissa: u32) -> u64 {
    let sign = 1u64 << (bits - 1);
    let v = match s.weighted(&[3, 1, 1]) {
        0 => s.uint(bits),
        // zeros, powers of two, the smallest and largest numbers of either sign
        1 => {
            let e = s.draw((1 << (bits - 1 - mantissa)) - 2);
            e << mantissa
        }
        _ => s.edge((1 << mantissa) - 1),
    };
    let v = if s.chance(1, 4) { v | sign } else { v };
    let exp = (sign - 1) & !((1 << mantissa) - 1);
    if v & exp == exp { v & !(1 << mantissa) } else { v }
}

fn gen_digits(s: &mut Src, n: usize) -> Vec<u8> {
    // group-wise: zero, nines, small, any
    let mut v = Vec::with_capacity(n);
    while v.len() < n {
        let k = (1 + s.draw_with(17, |r| [8, 8, 9, 17, r.below(18)][r.below(5) as usize]) as usize).min(n - v.len());
        match s.weighted(&[3, 1, 2, 4]) {
            0 => v.extend(std::iter::repeat(0).take(k)),
            1 => v.extend(std::iter::repeat(9).take(k)),
            2 => {
                v.extend(std::iter::repeat(0).take(k - 1));
                v.push(s.draw(9) as u8);
            }
            _ => {
                let mut x = s.draw(u64::MAX);
                for _ in 0..k {
                    v.push((x % 10) as u8);
                    x /= 10;
                }
            }
        }
    }
    v
}

fn frac_bytes(fsp: u8) -> usize {
    (fsp as usize + 1) / 2
}
fn gen_micros(s: &mut Src, fsp: u8) -> u64 {
    let steps = 10u64.pow(fsp as u32);
    s.edge(steps - 1) * 10u64.pow(6 - fsp as u32)
}
fn put_frac(w: &mut W, fsp: u8, micros: u64) {
    let n = frac_bytes(fsp);
    if n > 0 {
        w.be(n, micros / 100u64.pow(3 - n as u32));
    }
}

fn gen_len(s: &mut Src, max: u64, o: ValOpt) -> usize {
    let cap = if o.big { max } else { max.min(40) };
    s.draw_with(cap, |r| {
        if !o.big {
            return r.below(cap.min(12) + 1);
        }
        match r.below(10) {
            0 => cap - r.below(2).min(cap),
            1 => 250 + r.below(8),
            2 => 65530 + r.below(12),
            3 => r.below(cap + 1),
            4 => 500 + r.below(800),
            _ => r.below(cap.min(30) + 1),
        }
    }) as usize
}

impl Cell {
    pub fn gen(s: &mut Src, col: &Col, o: ValOpt) -> Cell {
        let mut w = W::new();
        let mut special = false;
        let want = match col {
            Col::Tiny => {
                let v = s.uint(8);
                w.le(1, v);
                special = v > 0x7f;
                Want::Tiny(v as u8)
            }
            Col::Short => {
                let v = s.uint(16);
                w.le(2, v);
                special = v > 0xff;
                Want::Small(v as u16)
            }
            Col::Int24 => {
                let v = s.uint(24);
                w.le(3, v);
                special = v > 0xffff;
                Want::Medium(v as u32)
            }
            Col::Long => {
                let v = s.uint(32);
                w.le(4, v);
                special = v > 0xffffff;
                Want::Int(v as u32)
            }
            Col::LongLong => {
                let v = s.uint(64);
                w.le(8, v);
                special = v > 0xffff_ffff;
                Want::Big(v)
            }
            Col::Float => {
                let v = gen_float(s, 32, 23) as u32;
                w.le(4, v as u64);
                special = v != 0;
                Want::F32(v)
            }
            Col::Double => {
                let v = gen_float(s, 64, 52);
                w.le(8, v);
                special = v != 0;
                Want::F64(v)
            }
            Col::Decimal(p, sc) => {
                let (p, sc) = (*p as usize, *sc as usize);
                let d = gen_digits(s, p);
                let neg = s.flip() && d.iter().any(|&x| x != 0);
                w.b(&decimal_bin(p, sc, neg, &d));
                let mut t = String::new();
                if neg {
                    t.push('-');
                }
                let ip: Vec<u8> = d[..p - sc].iter().copied().skip_while(|&x| x == 0).collect();
                if ip.is_empty() {
                    t.push('0');
                }
                t.extend(ip.iter().map(|x| (b'0' + x) as char));
                if sc > 0 {
                    t.push('.');
                    t.extend(d[p - sc..].iter().map(|x| (b'0' + x) as char));
                }
                special = p > 9 || neg;
                Want::Dec(t)
            }
            Col::Bit(n) => {
                let v = s.uint(*n as u32);
                w.be((*n as usize + 7) / 8, v);
                special = *n > 8;
                Want::Bits((0..*n).rev().map(|i| v >> i & 1 == 1).collect())
            }
            Col::Enum(k) => {
                let v = s.uint(*k as u32 * 8);
                w.le(*k as usize, v);
                special = v > 0xff;
                Want::Enum(v as u32)
            }
            Col::Set(k) => {
                let v = s.uint(*k as u32 * 8);
                w.le(*k as usize, v);
                special = v > 0xff;
                Want::Set(v)
            }
            Col::Year => {
                let v = s.uint(8);
                w.le(1, v);
                special = v == 0 || v > 127;
                Want::Year(if v == 0 { 0 } else { 1900 + v as u16 })
            }
            Col::Date => {
                let (y, m, d) = gen_date(s);
                w.le(3, (y as u64) << 9 | (m as u64) << 5 | d as u64);
                special = y > 2047 || m == 0;
                Want::Date(y, m, d)
            }
            Col::Time => {
                let (h, m, sec) = gen_hms(s, 838);
                let neg = o.bad && s.chance(1, 6) && (h, m, sec) != (0, 0, 0);
                let v = h as i64 * 10000 + m as i64 * 100 + sec as i64;
                let v = if neg { -v } else { v };
                w.le(3, (v as u64) & 0xffffff);
                special = neg || h > 99;
                if neg { Want::Err } else { Want::Time(h as i16, m, sec, 0) }
            }
            Col::DateTime => {
                let (y, mo, d) = gen_date(s);
                let (h, m, sec) = gen_hms(s, 23);
                let v = ((((y as u64 * 100 + mo as u64) * 100 + d as u64) * 100 + h as u64) * 100 + m as u64) * 100 + sec as u64;
                w.le(8, v);
                special = v > u32::MAX as u64;
                Want::DateTime(y, mo, d, h as u8, m, sec, 0)
            }
            Col::Timestamp => {
                let v = s.uint(32);
                w.le(4, v);
                special = v > 0x7fff_ffff;
                Want::Ts(v * 1000)
            }
            Col::Time2(f) => {
                let (h, m, sec) = gen_hms(s, 838);
                let us = gen_micros(s, *f);
                let neg = o.bad && s.chance(1, 6) && (h as u64 + m as u64 + sec as u64 + us) != 0;
                let hms = (h as i64) << 12 | (m as i64) << 6 | sec as i64;
                let nr = (hms << 24) + us as i64;
                let nr = if neg { -nr } else { nr };
                match f {
                    0 => {
                        w.be(3, (0x800000 + (nr >> 24)) as u64);
                    }
                    1 | 2 => {
                        w.be(3, (0x800000 + (nr >> 24)) as u64);
                        w.u8(((nr % (1 << 24)) / 10000) as u8);
                    }
                    3 | 4 => {
                        w.be(3, (0x800000 + (nr >> 24)) as u64);
                        w.be(2, ((nr % (1 << 24)) / 100) as u64 & 0xffff);
                    }
                    _ => {
                        w.be(6, (nr + 0x800000000000) as u64);
                    }
                }
                special = neg || us > 0;
                if neg { Want::Err } else { Want::Time(h as i16, m, sec, (us / 1000) as u32) }
            }
            Col::DateTime2(f) => {
                let (y, mo, d) = gen_date(s);
                let (h, m, sec) = gen_hms(s, 23);
                let us = gen_micros(s, *f);
                let ymd = (y as u64 * 13 + mo as u64) << 5 | d as u64;
                let v = ymd << 17 | (h as u64) << 12 | (m as u64) << 6 | sec as u64;
                w.be(5, v + 0x80_0000_0000);
                put_frac(&mut w, *f, us);
                special = us > 0 || y > 4095;
                Want::DateTime(y, mo, d, h as u8, m, sec, (us / 1000) as u32)
            }
            Col::Timestamp2(f) => {
                let v = s.uint(32);
                let us = gen_micros(s, *f);
                w.be(4, v);
                put_frac(&mut w, *f, us);
                special = us > 0 || v > 0x7fff_ffff;
                Want::Ts(v * 1000 + us / 1000)
            }
            Col::Char(max) | Col::VarChar(max) | Col::VarString(max) => {
                let n = gen_len(s, *max as u64, o);
                w.le(if *max > 255 { 2 } else { 1 }, n as u64);
                let (b, ok) = if o.bad && n > 0 && s.chance(1, 10) {
                    let mut b = s.bytes(n);
                    let i = s.below(n);
                    b[i] = 0x80 | b[i];
                    let ok = std::str::from_utf8(&b).is_ok();
                    (b, ok)
                } else {
                    (s.text(n).into_bytes(), true)
                };
                w.b(&b);
                special = n > 12 || !ok;
                if ok { Want::Str(b) } else { Want::Err }
            }
            Col::Blob(_, k) | Col::Json(k) | Col::Geometry(k) => {
                let max = match k {
                    1 => 255u64,
                    2 => 65535,
                    _ => 70_000,
                };
                let mut n = gen_len(s, max, o);
                if o.big && *k > 2 && s.chance(1, 40) {
                    n += 200_000;
                }
                w.le(*k as usize, n as u64);
                let b = s.bytes(n);
                w.b(&b);
                special = n > 12;
                Want::Blob(b)
            }
        };
        Cell { bytes: w.0, want, special }
    }
}

fn gen_date(s: &mut Src) -> (u16, u8, u8) {
    if s.chance(1, 10) {
        return (0, 0, 0);
    }
    (s.edge(9999) as u16, s.draw(12) as u8, s.draw(31) as u8)
}
fn gen_hms(s: &mut Src, hmax: u64) -> (u16, u8, u8) {
    (s.edge(hmax) as u16, s.edge(59) as u8, s.edge(59) as u8)
}

pub fn cmp_cell(got: &MySqlValue, want: &Want) -> bool {
    match (got, want) {
        (MySqlValue::TinyInt(a), Want::Tiny(b)) => a == b,
        (MySqlValue::SmallInt(a), Want::Small(b)) => a == b,
        (MySqlValue::MediumInt(a), Want::Medium(b)) => a == b,
        (MySqlValue::Int(a), Want::Int(b)) => a == b,
        (MySqlValue::BigInt(a), Want::Big(b)) => a == b,
        (MySqlValue::Float(a), Want::F32(b)) => a.to_bits() == *b,
        (MySqlValue::Double(a), Want::F64(b)) => a.to_bits() == *b,
        (MySqlValue::Decimal(a), Want::Dec(b)) => a == b,
        (MySqlValue::String(a), Want::Str(b)) => a.as_bytes() == &b[..],
        (MySqlValue::Bit(a), Want::Bits(b)) => a == b,
        (MySqlValue::Enum(a), Want::Enum(b)) => a == b,
        (MySqlValue::Set(a), Want::Set(b)) => a == b,
        (MySqlValue::Blob(a), Want::Blob(b)) => a == b,
        (MySqlValue::Year(a), Want::Year(b)) => a == b,
        (MySqlValue::Date(a), Want::Date(y, m, d)) => (a.year, a.month, a.day) == (*y, *m, *d),
        (MySqlValue::Time(a), Want::Time(h, m, s, ms)) => (a.hour, a.minute, a.second, a.millis) == (*h, *m, *s, *ms),
        (MySqlValue::DateTime(a), Want::DateTime(y, mo, d, h, m, s, ms)) => {
            (a.year, a.month, a.day, a.hour, a.minute, a.second, a.millis) == (*y, *mo, *d, *h, *m, *s, *ms)
        }
        (MySqlValue::Timestamp(a), Want::Ts(b)) => a == b,
        _ => false,
    }
}

// -------------------------------------------------------------------------------------- tables

#[derive(Clone, Debug, Default)]
pub struct Charset(pub u32, pub Vec<(u32, u32)>);

#[derive(Clone, Debug)]
pub enum Opt {
    Signedness(Vec<bool>),
    DefaultCharset(Charset),
    ColumnCharset(Vec<u32>),
    ColumnName(Vec<String>),
    SetStr(Vec<Vec<String>>),
    EnumStr(Vec<Vec<String>>),
    Geometry(Vec<u32>),
    Pk(Vec<u32>),
    PkPrefix(Vec<(u32, u32)>),
    EnumSetDefault(Charset),
    EnumSetColumn(Vec<u32>),
    Visibility(Vec<bool>),
}
impl Opt {
    fn code(&self) -> u8 {
        match self {
            Opt::Signedness(_) => 1,
            Opt::DefaultCharset(_) => 2,
            Opt::ColumnCharset(_) => 3,
            Opt::ColumnName(_) => 4,
            Opt::SetStr(_) => 5,
            Opt::EnumStr(_) => 6,
            Opt::Geometry(_) => 7,
            Opt::Pk(_) => 8,
            Opt::PkPrefix(_) => 9,
            Opt::EnumSetDefault(_) => 10,
            Opt::EnumSetColumn(_) => 11,
            Opt::Visibility(_) => 12,
        }
    }
    fn body(&self) -> Vec<u8> {
        let mut w = W::new();
        match self {
            Opt::Signedness(b) | Opt::Visibility(b) => {
                w.bits_msb(b, false);
            }
            Opt::DefaultCharset(c) | Opt::EnumSetDefault(c) => {
                w.lenenc(c.0 as u64);
                for (a, b) in &c.1 {
                    w.lenenc(*a as u64).lenenc(*b as u64);
                }
            }
            Opt::ColumnCharset(v) | Opt::Geometry(v) | Opt::Pk(v) | Opt::EnumSetColumn(v) => {
                for a in v {
                    w.lenenc(*a as u64);
                }
            }
            Opt::ColumnName(v) => {
                for a in v {
                    w.lenstr(a.as_bytes());
                }
            }
            Opt::SetStr(v) | Opt::EnumStr(v) => {
                for l in v {
                    w.lenenc(l.len() as u64);
                    for a in l {
                        w.lenstr(a.as_bytes());
                    }
                }
            }
            Opt::PkPrefix(v) => {
                for (a, b) in v {
                    w.lenenc(*a as u64).lenenc(*b as u64);
                }
            }
        }
        w.0
    }
}

#[derive(Clone, Debug)]
pub struct Table {
    pub id: u64,
    pub flags: u16,
    pub db: String,
    pub name: String,
    pub cols: Vec<Col>,
    pub nullable: Vec<bool>,
    pub opts: Vec<Opt>,
    pub pad: bool,
}

fn gen_list<T>(s: &mut Src, typical: u64, max: u64, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
    let n = s.len(typical, max);
    (0..n).map(|_| f(s)).collect()
}

impl Table {
    pub fn simple(id: u64, cols: Vec<Col>) -> Table {
        Table {
            id,
            flags: 1,
            db: "db".into(),
            name: "t".into(),
            nullable: vec![true; cols.len()],
            cols,
            opts: vec![],
            pad: false,
        }
    }
    pub fn gen_id(s: &mut Src) -> u64 {
        s.uint(48)
    }
    pub fn gen_opts(s: &mut Src, cols: &[Col]) -> Vec<Opt> {
        let mut v = vec![];
        let ccs = |s: &mut Src| s.edge(u32::MAX as u64) as u32;
        for k in 1..=12 {
            if !s.chance(2, 5) {
                continue;
            }
            let wide = s.chance(1, 25);
            let (t, m) = if wide { (300, 400) } else { (4, 9) };
            let small = |s: &mut Src| s.draw_with(u32::MAX as u64, |r| match r.below(4) {
                0 => 249 + r.below(6),
                1 => 65533 + r.below(6),
                2 => (1 << 24) - 2 + r.below(5),
                _ => r.below(300),
            }) as u32;
            let strs = |s: &mut Src, t: u64, m: u64| {
                gen_list(s, t, m, |s| {
                    let n = if s.chance(1, 30) { 240 + s.draw(40) as usize } else { s.len(6, 20) };
                    s.text(n)
                })
            };
            v.push(match k {
                1 => Opt::Signedness(cols.iter().filter(|c| c.numeric()).map(|_| s.flip()).collect()),
                2 => Opt::DefaultCharset(Charset(ccs(s), gen_list(s, t, m, |s| (small(s), ccs(s))))),
                3 => Opt::ColumnCharset(gen_list(s, t, m, ccs)),
                4 => Opt::ColumnName(
                    (0..cols.len())
                        .map(|_| {
                            let n = if s.chance(1, 30) { 192 + s.draw(63) as usize } else { 1 + s.len(5, 20) };
                            s.name(n)
                        })
                        .collect(),
                ),
                5 => Opt::SetStr(gen_list(s, 2, 4, |s| strs(s, t.min(4), m))),
                6 => Opt::EnumStr(gen_list(s, 2, 4, |s| strs(s, t, m))),
                7 => Opt::Geometry(gen_list(s, t, m, small)),
                8 => Opt::Pk(gen_list(s, t, m, small)),
                9 => Opt::PkPrefix(gen_list(s, t, m, |s| (small(s), small(s)))),
                10 => Opt::EnumSetDefault(Charset(ccs(s), gen_list(s, t, m, |s| (small(s), ccs(s))))),
                11 => Opt::EnumSetColumn(gen_list(s, t, m, ccs)),
                _ => Opt::Visibility(cols.iter().map(|_| s.flip()).collect()),
            });
        }
        s.shuffle(&mut v);
        v
    }
    pub fn gen(s: &mut Src, cols: Vec<Col>, with_opts: bool) -> Table {
        let id = Table::gen_id(s);
        let nl = |s: &mut Src| {
            let n = if s.chance(1, 20) { 200 + s.draw(55) as usize } else { s.len(8, 64) };
            s.name(n)
        };
        let db = nl(s);
        let name = nl(s);
        let nullable = cols.iter().map(|_| s.flip()).collect();
        let opts = if with_opts && s.chance(4, 5) { Table::gen_opts(s, &cols) } else { vec![] };
        Table { id, flags: s.uint(16) as u16, db, name, cols, nullable, opts, pad: s.flip() }
    }
    pub fn payload(&self) -> Vec<u8> {
        let mut w = W::new();
        w.le(6, self.id).u16(self.flags);
        w.u8(self.db.len() as u8).b(self.db.as_bytes()).u8(0);
        w.u8(self.name.len() as u8).b(self.name.as_bytes()).u8(0);
        w.lenenc(self.cols.len() as u64);
        for c in &self.cols {
            w.u8(c.code());
        }
        let meta: Vec<u8> = self.cols.iter().flat_map(|c| c.meta()).collect();
        w.lenstr(&meta);
        w.bits_lsb(&self.nullable, self.pad);
        for o in &self.opts {
            w.u8(o.code()).lenstr(&o.body());
        }
        w.0
    }
    pub fn cmp(&self, got: &BinlogEvent) -> Res {
        let g = match got {
            BinlogEvent::TableMapEvent(g) => g,
            x => fail!("expected a table map event, got {:?}", x),
        };
        same!(g.table_id, self.id, "table id");
        same!(g.database_name, self.db, "database name");
        same!(g.table_name, self.name, "table name");
        same!(g.column_types, self.cols.iter().map(|c| c.code()).collect::<Vec<_>>(), "column types");
        same!(g.column_metadata, self.cols.iter().map(|c| c.meta_u16()).collect::<Vec<_>>(), "column metadata");
        same!(g.null_bitmap, self.nullable, "nullability");
        let m = match (&g.table_metadata, self.opts.is_empty()) {
            (None, true) => return Ok(()),
            (None, false) => fail!("optional metadata is missing"),
            (Some(m), true) => {
                // nothing in the event, so nothing may be reported
                ensure!(
                    m.signedness.is_none()
                        && m.default_charset.is_none()
                        && m.column_charsets.is_none()
                        && m.column_names.is_none()
                        && m.set_string_values.is_none()
                        && m.enum_string_values.is_none()
                        && m.geometry_types.is_none()
                        && m.simple_primary_keys.is_none()
                        && m.primary_keys_with_prefix.is_none()
                        && m.enum_and_set_default_charset.is_none()
                        && m.enum_and_set_column_charsets.is_none()
                        && m.column_visibility.is_none(),
                    "metadata reported but not present: {:?}",
                    m
                );
                return Ok(());
            }
            (Some(m), false) => m,
        };
        let dc = |c: &Option<DefaultCharset>| {
            c.as_ref().map(|c| (c.default_charset_collation, c.charset_collations.clone()))
        };
        macro_rules! field {
            ($pat:path, $got:expr, $name:expr, $conv:expr) => {
                let want = self.opts.iter().find_map(|o| if let $pat(v) = o { Some($conv(v)) } else { None });
                same!($got, want, $name);
            };
        }
        let pair = |c: &Charset| (c.0, c.1.clone());
        field!(Opt::Signedness, m.signedness, "signedness", Clone::clone);
        field!(Opt::DefaultCharset, dc(&m.default_charset), "default charset", pair);
        field!(Opt::ColumnCharset, m.column_charsets, "column charsets", Clone::clone);
        field!(Opt::ColumnName, m.column_names, "column names", Clone::clone);
        field!(Opt::SetStr, m.set_string_values, "set values", Clone::clone);
        field!(Opt::EnumStr, m.enum_string_values, "enum values", Clone::clone);
        field!(Opt::Geometry, m.geometry_types, "geometry types", Clone::clone);
        field!(Opt::Pk, m.simple_primary_keys, "primary keys", Clone::clone);
        field!(Opt::PkPrefix, m.primary_keys_with_prefix, "prefixed primary keys", Clone::clone);
        field!(Opt::EnumSetDefault, dc(&m.enum_and_set_default_charset), "enum/set default charset", pair);
        field!(Opt::EnumSetColumn, m.enum_and_set_column_charsets, "enum/set charsets", Clone::clone);
        field!(Opt::Visibility, m.column_visibility, "visibility", Clone::clone);
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------- rows

pub type Image = Vec<Option<Cell>>;

#[derive(Clone, Debug)]
pub struct Rows {
    /// 0 insert, 1 update, 2 delete
    pub kind: u8,
    pub v2: bool,
    pub table: Arc<Table>,
    pub flags: u16,
    pub extra: Vec<u8>,
    pub before: Vec<bool>,
    pub after: Vec<bool>,
    pub rows: Vec<(Image, Option<Image>)>,
    pub pad: bool,
}

#[derive(Clone, Copy)]
pub struct RowOpt {
    pub val: ValOpt,
    pub max_rows: u64,
    /// of 16: how often a column is left out of the image when images are partial
    pub subset: bool,
    pub nulls: bool,
    pub extra: bool,
}

pub fn gen_subset(s: &mut Src, n: usize, subset: bool) -> Vec<bool> {
    let style = if subset { s.weighted(&[3, 2, 2, 1]) } else { 0 };
    let mut v: Vec<bool> = match style {
        0 => vec![true; n],
        1 => (0..n).map(|_| !s.flip()).collect(),
        2 => (0..n).map(|_| !s.chance(7, 8)).collect(),
        _ => {
            let a = s.below(n);
            let b = a + s.below(n - a);
            (0..n).map(|i| i >= a && i <= b).collect()
        }
    };
    if !v.iter().any(|&x| x) {
        let i = s.below(n);
        v[i] = true;
    }
    v
}

impl Rows {
    pub fn gen(s: &mut Src, table: &Arc<Table>, o: RowOpt) -> Rows {
        let kind = s.below(3) as u8;
        let v2 = s.flip();
        let n = table.cols.len();
        let before = gen_subset(s, n, o.subset);
        let after = if kind == 1 { gen_subset(s, n, o.subset) } else { before.clone() };
        let extra = if v2 && o.extra && s.chance(1, 2) {
            let k = if s.chance(1, 12) { s.len(300, 2000) } else { s.len(10, 60) };
            s.bytes(k)
        } else {
            vec![]
        };
        let mut rows = vec![];
        let null_p = if o.nulls { *s.pick(&[0u64, 2, 8, 14]) } else { 0 };
        let image = |s: &mut Src, p: &[bool]| -> Image {
            (0..n)
                .map(|i| {
                    if !p[i] || (null_p > 0 && s.chance(null_p, 16)) {
                        None
                    } else {
                        Some(Cell::gen(s, &table.cols[i], o.val))
                    }
                })
                .collect()
        };
        while (rows.len() as u64) < o.max_rows && (rows.is_empty() && s.chance(15, 16) || s.more(10)) {
            let a = image(s, &before);
            let b = if kind == 1 { Some(image(s, &after)) } else { None };
            rows.push((a, b));
        }
        Rows { kind, v2, table: table.clone(), flags: s.uint(16) as u16, extra, before, after, rows, pad: s.flip() }
    }
    pub fn code(&self) -> u8 {
        if self.v2 { 30 + self.kind } else { 23 + self.kind }
    }
    fn put_image(&self, w: &mut W, img: &Image, present: &[bool]) {
        let nulls: Vec<bool> = (0..img.len()).filter(|&i| present[i]).map(|i| img[i].is_none()).collect();
        w.bits_lsb(&nulls, self.pad);
        for c in img.iter().flatten() {
            w.b(&c.bytes);
        }
    }
    pub fn payload(&self) -> Vec<u8> {
        let mut w = W::new();
        w.le(6, self.table.id).u16(self.flags);
        if self.v2 {
            w.u16(self.extra.len() as u16 + 2).b(&self.extra);
        }
        w.lenenc(self.table.cols.len() as u64);
        w.bits_lsb(&self.before, self.pad);
        if self.kind == 1 {
            w.bits_lsb(&self.after, self.pad);
        }
        for (a, b) in &self.rows {
            self.put_image(&mut w, a, &self.before);
            if let Some(b) = b {
                self.put_image(&mut w, b, &self.after);
            }
        }
        w.0
    }
    pub fn expect_err(&self) -> bool {
        self.rows
            .iter()
            .flat_map(|(a, b)| a.iter().chain(b.iter().flatten()))
            .flatten()
            .any(|c| c.want == Want::Err)
    }
    pub fn cells(&self) -> impl Iterator<Item = &Cell> {
        self.rows.iter().flat_map(|(a, b)| a.iter().chain(b.iter().flatten())).flatten()
    }
    fn cmp_image(&self, got: &RowData, want: &Image, r: usize, what: &str) -> Res {
        same!(got.cells.len(), want.len(), "row {} {}: number of cells", r, what);
        for (i, (g, w)) in got.cells.iter().zip(want).enumerate() {
            match (g, w) {
                (None, None) => {}
                (Some(g), Some(w)) if cmp_cell(g, &w.want) => {}
                _ => fail!(
                    "row {} {} column {} {:?}: got {}, expected {}",
                    r,
                    what,
                    i,
                    self.table.cols[i],
                    clip(&format!("{:?}", g), 300),
                    clip(&format!("{:?}", w.as_ref().map(|c| &c.want)), 300)
                ),
            }
        }
        Ok(())
    }
    pub fn cmp(&self, got: &BinlogEvent) -> Res {
        let n = self.table.cols.len();
        match (self.kind, got) {
            (1, BinlogEvent::UpdateRowsEvent(g)) => {
                same!(g.table_id, self.table.id, "rows table id");
                same!(g.flags, self.flags, "rows flags");
                same!(g.columns_number, n, "rows columns number");
                same!(g.columns_before_update, self.before, "columns before update");
                same!(g.columns_after_update, self.after, "columns after update");
                same!(g.rows.len(), self.rows.len(), "number of rows");
                for (r, (g, w)) in g.rows.iter().zip(&self.rows).enumerate() {
                    self.cmp_image(&g.before_update, &w.0, r, "before")?;
                    self.cmp_image(&g.after_update, w.1.as_ref().unwrap(), r, "after")?;
                }
                Ok(())
            }
            (0, BinlogEvent::WriteRowsEvent(g)) => {
                self.cmp_single(g.table_id, g.flags, g.columns_number, &g.columns_present, &g.rows)
            }
            (2, BinlogEvent::DeleteRowsEvent(g)) => {
                self.cmp_single(g.table_id, g.flags, g.columns_number, &g.columns_present, &g.rows)
            }
            (k, x) => fail!("expected rows event of kind {}, got {}", k, clip(&format!("{:?}", x), 300)),
        }
    }
    fn cmp_single(&self, id: u64, flags: u16, n: usize, present: &Vec<bool>, rows: &[RowData]) -> Res {
        same!(id, self.table.id, "rows table id");
        same!(flags, self.flags, "rows flags");
        same!(n, self.table.cols.len(), "rows columns number");
        same!(*present, self.before, "columns present");
        same!(rows.len(), self.rows.len(), "number of rows");
        for (r, (g, w)) in rows.iter().zip(&self.rows).enumerate() {
            self.cmp_image(g, &w.0, r, "row")?;
        }
        Ok(())
    }
}

// -------------------------------------------------------------------------------------- events

pub type Sid = [u8; 16];
pub fn uuid_text(b: &Sid) -> String {
    let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
    format!("{}-{}-{}-{}-{}", &h[..8], &h[8..12], &h[12..16], &h[16..20], &h[20..])
}

#[derive(Clone, Debug)]
pub enum Ev {
    Fde { ver: u16, server: String, n: u8, alg: Option<u8>, fill: Vec<u8>, created: u32 },
    Table(Arc<Table>),
    Rows(Arc<Rows>),
    Query { thread: u32, dur: u32, err: u16, status: Vec<u8>, db: String, sql: String },
    Rotate { pos: u64, name: String },
    Xid(u64),
    IntVar(u8, u64),
    UserVar { name: String, value: Option<(u8, u32, String, Option<u8>)> },
    RowsQuery(String),
    Annotate(String),
    Heartbeat(String),
    MyGtid { flags: u8, sid: Sid, gno: u64, tail: Vec<u8> },
    PrevGtids(Vec<(Sid, Vec<(u64, u64)>)>),
    MaGtid { seq: u64, domain: u32, flags: u8, tail: Vec<u8> },
    GtidList { flags: u8, list: Vec<(u32, u32, u64)> },
    Unknown(u8, Vec<u8>),
}

pub const DECODED: [u8; 20] = [2, 4, 5, 14, 15, 16, 19, 23, 24, 25, 27, 29, 30, 31, 32, 33, 35, 160, 162, 163];

pub const GNO_MAX: u64 = i64::MAX as u64 - 1;

pub fn gen_sid(s: &mut Src) -> Sid {
    let mut a = [0u8; 16];
    let style = s.weighted(&[3, 3, 1]);
    match style {
        0 => {
            // near-equal ids
            a = *b"\x24\xbc\x78\x50\x2c\x16\x11\xe6\xa0\x73\x02\x42\xac\x11\x00\x00";
            a[15] = s.draw(3) as u8;
        }
        1 => a.copy_from_slice(&s.bytes(16)),
        _ => a = [s.edge(255) as u8; 16],
    }
    a
}

fn step(s: &mut Src) -> u64 {
    if s.chance(1, 3) {
        s.edge(1 << 40)
    } else {
        s.draw(3)
    }
}

/// Canonical intervals [a, b], disjoint and non-adjacent
pub fn gen_intervals(s: &mut Src, max_n: usize) -> Vec<(u64, u64)> {
    let mut v = vec![];
    let mut at = 1u64;
    loop {
        let a = at + step(s);
        let b = a + step(s);
        v.push((a, b));
        at = b + 2;
        if v.len() >= max_n || !s.more(8) {
            break;
        }
    }
    if s.chance(1, 12) {
        let l = v.last_mut().unwrap();
        l.1 = GNO_MAX;
    }
    v
}

pub fn gen_gtids(s: &mut Src, max_src: usize, max_iv: usize) -> Vec<(Sid, Vec<(u64, u64)>)> {
    let mut m = std::collections::BTreeMap::new();
    while m.len() < max_src && s.more(11) {
        let sid = gen_sid(s);
        let iv = gen_intervals(s, max_iv);
        m.insert(sid, iv);
    }
    m.into_iter().collect()
}

impl Ev {
    pub fn fde(alg: Option<u8>) -> Ev {
        Ev::Fde { ver: 4, server: "8.0.30".into(), n: 41, alg, fill: vec![], created: 0 }
    }
    pub fn query(sql: &str) -> Ev {
        Ev::Query { thread: 1, dur: 0, err: 0, status: vec![], db: "db".into(), sql: sql.into() }
    }
    pub fn gen_fde(s: &mut Src, alg: Option<u8>) -> Ev {
        let n = s.draw_with(1, |r| r.below(2));
        let n = if n == 0 { *s.pick(&[41u8, 27, 35, 38, 42, 163, 164, 171, 174, 175, 176]) } else { s.range(27, 190) as u8 };
        let k = s.len(12, 50);
        let server = s.name(k);
        let fill = s.bytes(n as usize);
        Ev::Fde { ver: if s.chance(1, 4) { s.uint(16) as u16 } else { 4 }, server, n, alg, fill, created: s.uint(32) as u32 }
    }
    /// Any self-contained event (no FDE, table map or rows)
    pub fn gen_plain(s: &mut Src, long: bool) -> Ev {
        let l = |s: &mut Src, t: u64, m: u64| if long && s.chance(1, 10) { s.len(m, m) } else { s.len(t, t * 2) };
        match s.below(14) {
            0 => Ev::Xid(s.uint(64)),
            1 => {
                let n = l(s, 20, 5000);
                let sql = s.text(n);
                let n = if s.chance(1, 12) { s.len(255, 255) } else { s.len(8, 64) };
                let db = s.name(n);
                let n = if s.chance(1, 12) { s.len(1000, 65535) } else { s.len(20, 60) };
                Ev::Query {
                    thread: s.uint(32) as u32,
                    dur: s.uint(32) as u32,
                    err: s.uint(16) as u16,
                    status: s.bytes(n),
                    db,
                    sql,
                }
            }
            2 => {
                let n = s.len(18, 255);
                Ev::Rotate { pos: s.uint(64), name: s.name(n) }
            }
            3 => Ev::IntVar(s.uint(8) as u8, s.uint(64)),
            4 => {
                let n = s.len(8, 255);
                let name = s.name(n);
                let value = if s.chance(4, 5) {
                    let n = l(s, 12, 3000);
                    let flags = if s.flip() { Some(s.uint(8) as u8) } else { None };
                    Some((s.draw(4) as u8, s.uint(32) as u32, s.text(n), flags))
                } else {
                    None
                };
                Ev::UserVar { name, value }
            }
            5 => {
                let n = l(s, 30, 5000);
                Ev::RowsQuery(s.text(n))
            }
            6 => {
                let n = l(s, 30, 5000);
                Ev::Annotate(s.text(n))
            }
            7 => {
                let n = s.len(18, 255);
                Ev::Heartbeat(s.name(n))
            }
            8 => {
                let t = *s.pick(&[0usize, 17, 24, 31, 42, 50]);
                Ev::MyGtid { flags: s.uint(8) as u8, sid: gen_sid(s), gno: 1 + s.edge(GNO_MAX - 1), tail: s.bytes(t) }
            }
            9 => Ev::PrevGtids(gen_gtids(s, if long { 40 } else { 6 }, 8)),
            10 => {
                let t = *s.pick(&[6usize, 8, 0, 14, 30]);
                Ev::MaGtid { seq: s.uint(64), domain: s.uint(32) as u32, flags: s.uint(8) as u8, tail: s.bytes(t) }
            }
            11 => {
                let mut list = vec![];
                while list.len() < 300 && s.more(if long { 14 } else { 11 }) {
                    list.push((s.uint(32) as u32, s.uint(32) as u32, s.uint(64)));
                }
                Ev::GtidList { flags: s.draw(15) as u8, list }
            }
            _ => {
                let t = loop_unknown(s);
                let n = s.len(20, 200);
                Ev::Unknown(t, s.bytes(n))
            }
        }
    }
    pub fn code(&self) -> u8 {
        match self {
            Ev::Fde { .. } => 15,
            Ev::Table(_) => 19,
            Ev::Rows(r) => r.code(),
            Ev::Query { .. } => 2,
            Ev::Rotate { .. } => 4,
            Ev::Xid(_) => 16,
            Ev::IntVar(..) => 5,
            Ev::UserVar { .. } => 14,
            Ev::RowsQuery(_) => 29,
            Ev::Annotate(_) => 160,
            Ev::Heartbeat(_) => 27,
            Ev::MyGtid { .. } => 33,
            Ev::PrevGtids(_) => 35,
            Ev::MaGtid { .. } => 162,
            Ev::GtidList { .. } => 163,
            Ev::Unknown(t, _) => *t,
        }
    }
    pub fn payload(&self) -> Vec<u8> {
        let mut w = W::new();
        match self {
            Ev::Fde { ver, server, n, alg, fill, created } => {
                let mut sv = server.as_bytes().to_vec();
                sv.resize(50, 0);
                w.u16(*ver).b(&sv).u32(*created).u8(19);
                let mut f = fill.clone();
                f.resize(*n as usize, 0);
                f[14] = 57u8.wrapping_add(*n);
                w.b(&f);
                if let Some(a) = alg {
                    w.u8(*a);
                }
            }
            Ev::Table(t) => return t.payload(),
            Ev::Rows(r) => return r.payload(),
            Ev::Query { thread, dur, err, status, db, sql } => {
                w.u32(*thread).u32(*dur).u8(db.len() as u8).u16(*err).u16(status.len() as u16);
                w.b(status).b(db.as_bytes()).u8(0).b(sql.as_bytes());
            }
            Ev::Rotate { pos, name } => {
                w.u64(*pos).b(name.as_bytes());
            }
            Ev::Xid(x) => {
                w.u64(*x);
            }
            Ev::IntVar(t, v) => {
                w.u8(*t).u64(*v);
            }
            Ev::UserVar { name, value } => {
                w.u32(name.len() as u32).b(name.as_bytes());
                match value {
                    None => {
                        w.u8(1);
                    }
                    Some((t, c, v, f)) => {
                        w.u8(0).u8(*t).u32(*c).u32(v.len() as u32).b(v.as_bytes());
                        if let Some(f) = f {
                            w.u8(*f);
                        }
                    }
                }
            }
            Ev::RowsQuery(q) => {
                w.u8(q.len().min(255) as u8).b(q.as_bytes());
            }
            Ev::Annotate(q) => {
                w.b(q.as_bytes());
            }
            Ev::Heartbeat(n) => {
                w.b(n.as_bytes());
            }
            Ev::MyGtid { flags, sid, gno, tail } => {
                w.u8(*flags).b(sid).u64(*gno).b(tail);
            }
            Ev::PrevGtids(v) => {
                w.u64(v.len() as u64);
                for (sid, iv) in v {
                    w.b(sid).u64(iv.len() as u64);
                    for (a, b) in iv {
                        w.u64(*a).u64(*b + 1);
                    }
                }
            }
            Ev::MaGtid { seq, domain, flags, tail } => {
                w.u64(*seq).u32(*domain).u8(*flags).b(tail);
            }
            Ev::GtidList { flags, list } => {
                w.u32(list.len() as u32 | (*flags as u32) << 28);
                for (d, s, q) in list {
                    w.u32(*d).u32(*s).u64(*q);
                }
            }
            Ev::Unknown(_, b) => {
                w.b(b);
            }
        }
        w.0
    }
    /// Whole event. A checksum-aware format description event always ends with a checksum.
    pub fn wire(&self, h: &Hdr, crc: bool) -> Vec<u8> {
        let crc = match self {
            Ev::Fde { alg: Some(_), .. } => true,
            _ => crc,
        };
        wire(self.code(), h, &self.payload(), crc)
    }
    pub fn expect_err(&self) -> bool {
        match self {
            Ev::Fde { alg: Some(a), .. } => *a > 1,
            Ev::Rows(r) => r.expect_err(),
            _ => false,
        }
    }
    pub fn cmp(&self, h: &Hdr, got: &BinlogEvent) -> Res {
        match (self, got) {
            (Ev::Fde { ver, server, alg, .. }, BinlogEvent::FormatDescriptionEvent(g)) => {
                same!(g.binlog_version, *ver, "binlog version");
                same!(g.server_version, *server, "server version");
                same!(g.checksum_type as u8, alg.unwrap_or(0), "checksum type");
            }
            (Ev::Table(t), g) => return t.cmp(g),
            (Ev::Rows(r), g) => return r.cmp(g),
            (Ev::Query { thread, dur, err, status, db, sql }, BinlogEvent::QueryEvent(g)) => {
                same!(g.thread_id, *thread, "query thread id");
                same!(g.duration, *dur, "query duration");
                same!(g.error_code, *err, "query error code");
                same!(g.status_variables, *status, "query status variables");
                same!(g.database_name, *db, "query database");
                same!(g.sql_statement, *sql, "query statement");
            }
            (Ev::Rotate { pos, name }, BinlogEvent::RotateEvent(g)) => {
                same!(g.binlog_position, *pos, "rotate position");
                same!(g.binlog_filename, *name, "rotate file name");
            }
            (Ev::Xid(x), BinlogEvent::XidEvent(g)) => same!(g.xid, *x, "xid"),
            (Ev::IntVar(t, v), BinlogEvent::IntVarEvent(g)) => {
                same!(g.intvar_type, *t, "intvar type");
                same!(g.value, *v, "intvar value");
            }
            (Ev::UserVar { name, value }, BinlogEvent::UserVarEvent(g)) => {
                same!(g.name, *name, "user variable name");
                let got = g.value.as_ref().map(|v| (v.var_type, v.collation, v.value.clone(), v.flags));
                let want = value.as_ref().map(|(t, c, v, f)| (*t, *c, v.clone(), f.unwrap_or(0)));
                same!(got, want, "user variable value");
            }
            (Ev::RowsQuery(q), BinlogEvent::RowsQueryEvent(g)) | (Ev::Annotate(q), BinlogEvent::RowsQueryEvent(g)) => {
                same!(g.query, *q, "rows query")
            }
            (Ev::Heartbeat(n), BinlogEvent::HeartbeatEvent(g)) => same!(g.binlog_filename, *n, "heartbeat file name"),
            (Ev::MyGtid { flags, sid, gno, .. }, BinlogEvent::MySqlGtidEvent(g)) => {
                same!(g.flags, *flags, "gtid flags");
                same!(g.gtid.source_id.data, *sid, "gtid source");
                same!(g.gtid.transaction_id, *gno, "gtid number");
                same!(g.gtid.to_string(), format!("{}:{}", uuid_text(sid), gno), "gtid text");
            }
            (Ev::PrevGtids(v), BinlogEvent::MySqlPrevGtidsEvent(g)) => {
                same!(g.gtid_set.uuid_sets.len(), v.len(), "previous gtids sources");
                for (sid, iv) in v {
                    let k = uuid_text(sid);
                    let u = match g.gtid_set.uuid_sets.get(&k) {
                        Some(u) => u,
                        None => fail!("previous gtids: no {}", k),
                    };
                    same!(u.source_id.data, *sid, "previous gtids source");
                    let got: Vec<_> = u.intervals.iter().map(|i| (i.start, i.end)).collect();
                    same!(got, *iv, "previous gtids intervals of {}", k);
                }
            }
            (Ev::MaGtid { seq, domain, flags, .. }, BinlogEvent::MariaDbGtidEvent(g)) => {
                same!(
                    (g.gtid.domain_id, g.gtid.server_id, g.gtid.sequence, g.flags),
                    (*domain, h.server_id, *seq, *flags),
                    "mariadb gtid"
                );
            }
            (Ev::GtidList { list, .. }, BinlogEvent::MariaDbGtidListEvent(g)) => {
                let got: Vec<_> = g.gtid_list.gtids.iter().map(|g| (g.domain_id, g.server_id, g.sequence)).collect();
                same!(got, *list, "gtid list");
            }
            (Ev::Unknown(..), BinlogEvent::UnknownEvent) => {}
            (w, g) => fail!("expected {}, got {}", w.describe(), clip(&format!("{:?}", g), 300)),
        }
        Ok(())
    }
    pub fn describe(&self) -> String {
        match self {
            Ev::Table(t) => clip(&format!("Table(id {:#x} {}.{} {:?} opts {:?})", t.id, t.db, t.name, t.cols, t.opts), 500),
            Ev::Rows(r) => clip(
                &format!(
                    "Rows(kind {} v{} table {:#x} flags {:#x} extra {} present {:?}/{:?} rows {:?})",
                    r.kind,
                    1 + r.v2 as u8,
                    r.table.id,
                    r.flags,
                    r.extra.len(),
                    r.before.iter().map(|&b| b as u8).collect::<Vec<_>>(),
                    r.after.iter().map(|&b| b as u8).collect::<Vec<_>>(),
                    r.rows
                        .iter()
                        .map(|(a, b)| (
                            a.iter().map(|c| c.as_ref().map(|c| &c.want)).collect::<Vec<_>>(),
                            b.as_ref().map(|b| b.iter().map(|c| c.as_ref().map(|c| &c.want)).collect::<Vec<_>>())
                        ))
                        .collect::<Vec<_>>()
                ),
                700,
            ),
            e => clip(&format!("{:?}", e), 400),
        }
    }
}

pub fn loop_unknown(s: &mut Src) -> u8 {
    let unknown: Vec<u8> = (0..=255u8).filter(|c| !DECODED.contains(c)).collect();
    *s.pick(&unknown)
}

// ------------------------------------------------------------------------------------- feeding

/// Feeds one whole event to a parser the way the readers do.
pub fn feed(p: &mut EventParser, wire: &[u8]) -> Result<(EventHeader, BinlogEvent), Error> {
    sut(|| {
        let h = EventHeader::parse(wire)?;
        let e = p.parse_event(&h, &wire[19..])?;
        Ok((h, e))
    })
}

/// Feeds an event and compares the result with the model.
pub fn feed_cmp(p: &mut EventParser, ev: &Ev, h: &Hdr, crc: bool) -> Res {
    let w = ev.wire(h, crc);
    let r = feed(p, &w);
    check_item(ev, h, w.len(), r.map_err(|e| format!("{:?}", e)))
}

pub fn check_item(ev: &Ev, h: &Hdr, len: usize, r: Result<(EventHeader, BinlogEvent), String>) -> Res {
    match (r, ev.expect_err()) {
        (Ok((gh, g)), false) => {
            cmp_header(&gh, ev.code(), h, len)?;
            ev.cmp(h, &g).map_err(|f| Fail::new(format!("{} in {}", f.msg, ev.describe())))
        }
        (Ok((_, g)), true) => {
            fail!("an unrepresentable value must be an error, got {} for {}", clip(&format!("{:?}", g), 400), ev.describe())
        }
        (Err(_), true) => Ok(()),
        (Err(e), false) => fail!("error {} for {}", clip(&e, 300), ev.describe()),
    }
}
