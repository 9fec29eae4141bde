//! Search for inputs on which a property fails: `vx-harness PROP --seed N --secs S --out FILE --replays DIR [--bin CLI]`
//! or `vx-harness --replay FILE [--bin CLI]`.
mod gen;
mod mem;
mod reference;
use gen::Rng;
use mem::{Fault, Mem};
use reference as rf;
use reference::{LzOpt, LzwOpt};
use retrocompressor::{direct_ports::lzhuf, lzss_huff, lzw, td0, BitOrder};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Case {
    prop: String,
    /// function: lzw.c lzw.x lzss.c lzss.x port.e port.d td.c td.x
    f: String,
    data: Vec<u8>,
    junk: Vec<u8>,
    old: Vec<u8>,
    out_off: u64,
    lz: LzOpt,
    header: bool,
    lzw: LzwOpt,
    max: u64,
    n: Vec<i64>,
    s: String,
}

fn hex(d: &[u8]) -> String {
    d.iter().map(|b| format!("{:02x}", b)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

impl Case {
    fn new(prop: &str, f: &str, data: Vec<u8>) -> Self {
        Case {
            prop: prop.into(),
            f: f.into(),
            data,
            junk: vec![],
            old: vec![],
            out_off: 0,
            lz: rf::STD,
            header: true,
            lzw: LzwOpt { width: 12, msb: false, chunk: 4096, clear: Some(256), stop: Some(257), hbits: 0, hdiv: 1 },
            max: 1 << 40,
            n: vec![],
            s: String::new(),
        }
    }
    fn to_json(&self) -> Value {
        json!({"property": self.prop, "function": self.f, "data": hex(&self.data), "in_offset_bytes": hex(&self.junk), "target_old_contents": hex(&self.old),
            "out_offset": self.out_off, "header": self.header, "max_file_size": self.max, "n": self.n, "s": self.s,
            "lzss": {"window": self.lz.window, "lookahead": self.lz.look, "threshold": self.lz.thr, "precursor": self.lz.pre},
            "lzw": {"width": self.lzw.width, "msb": self.lzw.msb, "chunk": self.lzw.chunk, "clear": self.lzw.clear, "stop": self.lzw.stop, "header_bits": self.lzw.hbits, "header_divisor": self.lzw.hdiv}})
    }
    fn from_json(v: &Value) -> Self {
        let u = |v: &Value| v.as_u64().unwrap() as usize;
        Case {
            prop: v["property"].as_str().unwrap().into(),
            f: v["function"].as_str().unwrap().into(),
            data: unhex(v["data"].as_str().unwrap()),
            junk: unhex(v["in_offset_bytes"].as_str().unwrap()),
            old: unhex(v["target_old_contents"].as_str().unwrap()),
            out_off: v["out_offset"].as_u64().unwrap(),
            header: v["header"].as_bool().unwrap(),
            max: v["max_file_size"].as_u64().unwrap(),
            n: v["n"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect(),
            s: v["s"].as_str().unwrap().into(),
            lz: LzOpt { window: u(&v["lzss"]["window"]), look: u(&v["lzss"]["lookahead"]), thr: u(&v["lzss"]["threshold"]), pre: u(&v["lzss"]["precursor"]) as u8 },
            lzw: LzwOpt {
                width: u(&v["lzw"]["width"]),
                msb: v["lzw"]["msb"].as_bool().unwrap(),
                chunk: u(&v["lzw"]["chunk"]),
                clear: v["lzw"]["clear"].as_u64().map(|x| x as usize),
                stop: v["lzw"]["stop"].as_u64().map(|x| x as usize),
                hbits: u(&v["lzw"]["header_bits"]),
                hdiv: u(&v["lzw"]["header_divisor"]),
            },
        }
    }
    fn lzss_opt(&self) -> lzss_huff::Options {
        lzss_huff::Options {
            header: self.header,
            in_offset: self.junk.len() as u64,
            out_offset: self.out_off,
            window_size: self.lz.window,
            threshold: self.lz.thr,
            lookahead: self.lz.look,
            precursor: self.lz.pre,
            max_file_size: self.max,
        }
    }
    fn lzw_opt(&self) -> lzw::Options {
        lzw::Options {
            header_bits: self.lzw.hbits,
            header_divisor: self.lzw.hdiv,
            in_offset: self.junk.len() as u64,
            out_offset: self.out_off,
            chunk_size: self.lzw.chunk,
            min_symbol: 0,
            max_symbol: 255,
            clear_code: self.lzw.clear,
            stop_code: self.lzw.stop,
            min_code_width: self.lzw.width,
            max_code_width: self.lzw.width,
            ord: if self.lzw.msb { BitOrder::Msb0 } else { BitOrder::Lsb0 },
            max_file_size: self.max,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok(u64, u64),
    Lib(&'static str),
    Io(String),
    Other(String),
    Panic(String),
}
impl Res {
    fn ok(&self) -> bool {
        matches!(self, Res::Ok(..))
    }
}

fn classify<T>(r: std::thread::Result<Result<T, Box<dyn std::error::Error>>>, ok: impl FnOnce(T) -> Res) -> Res {
    match r {
        Ok(Ok(v)) => ok(v),
        Ok(Err(e)) => {
            if let Some(l) = e.downcast_ref::<retrocompressor::Error>() {
                Res::Lib(match l {
                    retrocompressor::Error::FileFormatMismatch => "FileFormatMismatch",
                    retrocompressor::Error::FileTooLarge => "FileTooLarge",
                    retrocompressor::Error::BadChecksum => "BadChecksum",
                })
            } else if let Some(x) = e.downcast_ref::<std::io::Error>() {
                Res::Io(format!("{:?}", x.kind()))
            } else {
                Res::Other(e.to_string())
            }
        }
        Err(p) => Res::Panic(p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
    }
}
fn call_streams(c: &Case, f: &str, mut i: Mem, mut o: Mem) -> (Res, Mem, Mem) {
    let r = catch_unwind(AssertUnwindSafe(|| match f {
        "lzw.c" => lzw::compress(&mut i, &mut o, &c.lzw_opt()),
        "lzw.x" => lzw::expand(&mut i, &mut o, &c.lzw_opt()),
        "lzss.c" => lzss_huff::compress(&mut i, &mut o, &c.lzss_opt()),
        "lzss.x" => lzss_huff::expand(&mut i, &mut o, &c.lzss_opt()),
        "port.e" => lzhuf::encode(&mut i, &mut o),
        "port.d" => lzhuf::decode(&mut i, &mut o),
        "td.c" => td0::compress(&mut i, &mut o),
        "td.x" => td0::expand(&mut i, &mut o),
        _ => panic!("unknown function"),
    }));
    (classify(r, |(a, b)| Res::Ok(a, b)), i, o)
}
/// the same call through the slice function; `read` is what the stream function reports as the input size
fn call_slice(c: &Case, f: &str, d: &[u8], read: u64) -> (Res, Vec<u8>) {
    let r = catch_unwind(AssertUnwindSafe(|| match f {
        "lzw.c" => lzw::compress_slice(d, &c.lzw_opt()),
        "lzw.x" => lzw::expand_slice(d, &c.lzw_opt()),
        "lzss.c" => lzss_huff::compress_slice(d, &c.lzss_opt()),
        "lzss.x" => lzss_huff::expand_slice(d, &c.lzss_opt()),
        "port.e" => lzhuf::encode_slice(d),
        "port.d" => lzhuf::decode_slice(d),
        "td.c" => td0::compress_slice(d),
        "td.x" => td0::expand_slice(d),
        _ => panic!("unknown function"),
    }));
    let mut out = vec![];
    let res = classify(r, |v| {
        out = v;
        Res::Ok(read, out.len() as u64)
    });
    (res, out)
}
fn offsets_apply(f: &str) -> bool {
    f.starts_with("lzw") || f.starts_with("lzss")
}
/// run on `data` behind the junk, into a target with the old contents
fn call(c: &Case, f: &str, data: &[u8]) -> (Res, Vec<u8>) {
    let mut d = if offsets_apply(f) { c.junk.clone() } else { vec![] };
    d.extend_from_slice(data);
    // into an empty target at offset 0 the slice functions answer the same question: they give the answer in a part of those cases
    let whole = c.old.is_empty() && (c.out_off == 0 || !offsets_apply(f));
    let by_slice = whole && d.iter().fold(d.len(), |h, b| h.wrapping_mul(31).wrapping_add(*b as usize)) % 3 == 0;
    let copy = if by_slice { d.clone() } else { vec![] };
    let mut i = Mem::new(d, 0);
    let mut o = Mem::new(c.old.clone(), 0);
    if offsets_apply(f) {
        i.pos = c.n.first().copied().unwrap_or(0).unsigned_abs() % 7;
        o.pos = c.n.first().copied().unwrap_or(0).unsigned_abs() % 5;
    }
    let (r, _, o) = call_streams(c, f, i, o);
    if by_slice && !matches!(r, Res::Panic(_)) && !matches!(r, Res::Ok(_, b) if b as usize != o.data.len()) {
        let read = if let Res::Ok(a, _) = r { a } else { 0 };
        let (r2, o2) = call_slice(c, f, &copy, read);
        if r2 != r || r2.ok() {
            return (r2, o2);
        }
    }
    (r, o.data)
}
/// result bytes
fn produced(c: &Case, f: &str, data: &[u8]) -> Result<Vec<u8>, String> {
    let (r, o) = call(c, f, data);
    let off = if offsets_apply(f) { c.out_off as usize } else { 0 };
    match r {
        Res::Ok(_, b) => {
            if b > 0 && o.len() < off + b as usize {
                return Err(format!("{} reports {} bytes but only {} are there", f, b, o.len() as i64 - off as i64));
            }
            Ok(if b == 0 { vec![] } else { o[off..off + b as usize].to_vec() })
        }
        e => Err(format!("{} on {} bytes: {:?}", f, data.len(), e)),
    }
}
fn diff(a: &[u8], b: &[u8]) -> String {
    let k = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("lengths {} and {}, first difference at {}", a.len(), b.len(), k)
}
fn lz_limit(c: &Case, s: &[u8]) -> Option<(u64, usize)> {
    if c.header {
        if s.len() < 4 {
            return None;
        }
        Some((u32::from_le_bytes([s[0], s[1], s[2], s[3]]) as u64, 4))
    } else {
        Some((u32::MAX as u64, 0))
    }
}

macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } } }

// ---------------------------------------------------------------- the properties

fn check(c: &Case, bin: &str) -> Result<(), String> {
    match c.prop.as_str() {
        "C01" => {
            let s = produced(c, "lzw.c", &c.data)?;
            let x = produced(c, "lzw.x", &s)?;
            ensure!(x == c.data, "expand(compress(x)) != x: {}", diff(&c.data, &x));
            Ok(())
        }
        "C02" => {
            let s = produced(c, "lzss.c", &c.data)?;
            let x = produced(c, "lzss.x", &s)?;
            ensure!(x == c.data, "expand(compress(x)) != x: {}", diff(&c.data, &x));
            Ok(())
        }
        "C03" => {
            let s = produced(c, "port.e", &c.data)?;
            let x = produced(c, "port.d", &s)?;
            ensure!(x == c.data, "decode(encode(x)) != x: {}", diff(&c.data, &x));
            Ok(())
        }
        "C04" => {
            let s = produced(c, "port.e", &c.data)?;
            let x = produced(c, "lzss.x", &s)?;
            ensure!(x == c.data, "lzss_huff::expand(lzhuf::encode(x)) != x: {}", diff(&c.data, &x));
            let s = produced(c, "lzss.c", &c.data)?;
            let x = produced(c, "port.d", &s)?;
            ensure!(x == c.data, "lzhuf::decode(lzss_huff::compress(x)) != x: {}", diff(&c.data, &x));
            Ok(())
        }
        "C05" => {
            let s = produced(c, "lzss.c", &c.data)?;
            let x = produced(c, "lzss.x", &s)?;
            ensure!(x.len() >= c.data.len() && x[..c.data.len()] == c.data[..], "expand(compress(x)) does not start with x: {}", diff(&c.data, &x));
            ensure!(x.len() - c.data.len() <= 7, "{} additional bytes", x.len() - c.data.len());
            if c.data.is_empty() {
                ensure!(s.is_empty() && x.is_empty(), "empty input gives {} and then {} bytes", s.len(), x.len());
            }
            Ok(())
        }
        "C06" => check_td(c),
        "C07" => {
            let s = produced(c, "td.c", &c.data)?;
            let x = produced(c, "td.x", &s)?;
            ensure!(x.len() >= c.data.len() && x[..c.data.len()] == c.data[..], "td0 round trip differs: {}", diff(&c.data, &x));
            let lim = if c.data[4] < 20 { 0 } else { 7 };
            ensure!(x.len() - c.data.len() <= lim, "{} additional bytes, version {}", x.len() - c.data.len(), c.data[4]);
            Ok(())
        }
        "C08" => {
            let (r, _) = call(c, &c.f, &c.data);
            ensure!(!matches!(r, Res::Panic(_)), "{} panics: {:?}", c.f, r);
            Ok(())
        }
        "C09" => {
            let (r, _) = call(c, &c.f, &c.data);
            ensure!(r.ok(), "{} on {} bytes does not succeed: {:?}", c.f, c.data.len(), r);
            Ok(())
        }
        "C10" => check_sizes(c),
        "C11" => {
            // plain run
            let mut p = c.clone();
            p.junk = vec![];
            p.old = vec![];
            p.out_off = 0;
            let (r0, o0) = call(&p, &c.f, &c.data);
            let (r1, o1) = call(c, &c.f, &c.data);
            ensure!(r0 == r1, "result {:?} with offsets {}/{} and old contents, {:?} without", r1, c.junk.len(), c.out_off, r0);
            let off = if offsets_apply(&c.f) { c.out_off as usize } else { 0 };
            let keep = off.min(c.old.len());
            ensure!(o1.len() >= keep && o1[..keep] == c.old[..keep], "bytes before the output offset changed");
            if let Res::Ok(_, b) = r1 {
                let b = b as usize;
                ensure!(o0.len() == b, "plain run leaves {} bytes and reports {}", o0.len(), b);
                ensure!(b == 0 || o1.len() >= off + b && o1[off..off + b] == o0[..], "result depends on offsets or old contents: {}", diff(&o0, &o1[off.min(o1.len())..]));
            }
            Ok(())
        }
        "C15" => {
            let a = produced(c, "lzss.c", &c.data)?;
            let b = produced(c, "port.e", &c.data)?;
            if a == b {
                return Ok(());
            }
            let d = format!("the module's stream is not the port's for {} bytes: {}", c.data.len(), diff(&b, &a));
            ensure!(c.data.len() < 119, "{}", d);
            // the recorded finding: the first bytes behind the window read differently while they were not written yet
            let stream = |over| {
                let mut s = (c.data.len() as u32).to_le_bytes().to_vec();
                s.extend(rf::lz_encode(&rf::lzhuf_tokens(&c.data, over), &rf::STD).0);
                s
            };
            let (x, y) = (a == stream(0), b == stream(59));
            ensure!(x == y, "{}, and {} is not what it is for the window of {}", d, if x { "the port's" } else { "the module's" }, if x { "LZHUF.C" } else { "4096 positions" });
            Ok(())
        }
        "C12" => {
            if c.f == "lzw.c" {
                let s = produced(c, "lzw.c", &c.data)?;
                let e = rf::lzw_encode(&c.data, &c.lzw);
                ensure!(s == e, "output is not the reference LZW stream: {}", diff(&e, &s));
            } else {
                let (r, o) = call(c, "lzw.x", &c.data);
                let off = c.out_off as usize;
                match rf::lzw_decode(&c.data, &c.lzw) {
                    Some(e) => {
                        ensure!(matches!(r, Res::Ok(_, b) if b as usize == e.len()), "{:?}, but the stream denotes {} bytes", r, e.len());
                        ensure!(e.is_empty() || o.len() >= off + e.len() && o[off..off + e.len()] == e[..], "not the bytes the stream denotes: {}", diff(&e, &o[off.min(o.len())..]));
                    }
                    None => ensure!(r == Res::Lib("FileFormatMismatch"), "{:?} on a stream with an undefined code", r),
                }
            }
            Ok(())
        }
        "C13" => {
            if c.f == "port.d" {
                if c.data.len() < 4 {
                    return Ok(());
                }
                let lim = u32::from_le_bytes([c.data[0], c.data[1], c.data[2], c.data[3]]) as u64;
                let (e, _) = rf::lz_decode(&c.data[4..], &rf::STD, lim, true);
                let x = produced(c, "port.d", &c.data)?;
                ensure!(x == e, "lzhuf::decode gives other bytes than the format denotes: {}", diff(&e, &x));
            } else {
                let (lim, h) = match lz_limit(c, &c.data) {
                    Some(x) => x,
                    None => return Ok(()),
                };
                let (e, _) = rf::lz_decode(&c.data[h..], &c.lz, lim, false);
                let x = produced(c, "lzss.x", &c.data)?;
                ensure!(x == e, "lzss_huff::expand gives other bytes than the format denotes: {}", diff(&e, &x));
            }
            Ok(())
        }
        "C14" => check_fault(c),
        "C16" => check_cli(c, bin),
        p => panic!("unknown property {}", p),
    }
}

fn check_td(c: &Case) -> Result<(), String> {
    let d = &c.data;
    let (sig, new) = if c.f == "td.c" { (b"TD", b"td") } else { (b"td", b"TD") };
    let (r, o) = call(c, &c.f, d);
    let good = d.len() >= 12 && &d[..2] == sig && rf::crc16(&d[..10]).to_le_bytes() == d[10..12];
    if !good {
        ensure!(!r.ok() && !matches!(r, Res::Panic(_)), "invalid header, but {:?}", r);
        ensure!(o == c.old, "invalid header, but the target was written");
        return Ok(());
    }
    let x = &d[12..];
    let v1 = LzwOpt { width: 12, msb: false, chunk: 4096, clear: None, stop: None, hbits: 16, hdiv: 4 };
    let b = match r {
        Res::Ok(a, b) => {
            ensure!(a as usize == d.len(), "reports {} input bytes of {}", a, d.len());
            b as usize
        }
        r => {
            if c.f == "td.x" && d[4] < 20 && rf::lzw_decode(x, &v1).is_none() {
                return Ok(());
            }
            return Err(format!("valid header, but {:?}", r));
        }
    };
    let mut h = d[..12].to_vec();
    h[..2].copy_from_slice(new);
    let crc = rf::crc16(&h[..10]).to_le_bytes();
    h[10..].copy_from_slice(&crc);
    ensure!(o.len() >= 12 && o[..12] == h[..], "wrong new header {:02x?}, expected {:02x?}", &o[..12.min(o.len())], h);
    ensure!(b >= 12 && b <= o.len(), "reports {} bytes of {}", b, o.len());
    let y = &o[12..b];
    if d[4] < 20 {
        let e = if c.f == "td.c" { Some(rf::lzw_encode(x, &v1)) } else { rf::lzw_decode(x, &v1) };
        ensure!(e.as_deref() == Some(y), "version {}: body is not the LZW coding", d[4]);
    } else if c.f == "td.c" {
        let (e, _) = rf::lz_decode(y, &rf::STD, u32::MAX as u64, false);
        ensure!(e.len() >= x.len() && e[..x.len()] == *x && e.len() - x.len() <= 7, "version {}: body is not a headerless LZSS/Huffman coding", d[4]);
    } else {
        let (e, _) = rf::lz_decode(x, &rf::STD, u32::MAX as u64, false);
        ensure!(e == y, "version {}: body is not the LZSS/Huffman expansion: {}", d[4], diff(&e, y));
    }
    Ok(())
}

fn check_sizes(c: &Case) -> Result<(), String> {
    let (r, o) = call(c, &c.f, &c.data);
    let off = if offsets_apply(&c.f) { c.out_off as usize } else { 0 };
    let (len, max) = match c.f.as_str() {
        "td.c" | "td.x" => (c.data.len() as u64 - 12, 3_000_000),
        "port.e" | "port.d" => (c.data.len() as u64, u64::MAX),
        _ => (c.data.len() as u64, c.max),
    };
    if len > max {
        ensure!(r == Res::Lib("FileTooLarge"), "{} bytes with a maximum of {}: {:?}", len, max, r);
        let lim = if c.f.starts_with("td") { 12 } else { off };
        let keep = lim.min(c.old.len());
        ensure!(o.len() <= c.old.len().max(lim) && o[..keep.min(o.len())].len() == keep && (o.len() <= lim || o[lim..] == c.old[lim.min(c.old.len())..]), "too large, but something was written past the offset");
        return Ok(());
    }
    ensure!(r != Res::Lib("FileTooLarge"), "{} bytes with a maximum of {}: {:?}", len, max, r);
    if let Res::Ok(a, b) = r {
        let mut p = c.clone();
        p.old = vec![];
        let (r2, o2) = call(&p, &c.f, &c.data);
        ensure!(r2.ok(), "succeeds with old contents of the target, without: {:?}", r2);
        ensure!(b as usize == o2.len() - off.min(o2.len()), "reports {} bytes, {} were produced", b, o2.len() - off.min(o2.len()));
        ensure!(b == 0 || o.len() >= off + b as usize && o[off..off + b as usize] == o2[off.min(o2.len())..], "reported range does not hold the result");
        let want = if c.f == "port.d" {
            let lim = u32::from_le_bytes([c.data[0], c.data[1], c.data[2], c.data[3]]) as u64;
            let (_, bits) = rf::lz_decode(&c.data[4..], &rf::STD, lim, true);
            (4 + ((bits + 7) / 8).min(c.data.len() - 4)) as u64
        } else {
            c.data.len() as u64
        };
        ensure!(a == want, "reports {} input bytes instead of {}", a, want);
    } else {
        ensure!(c.f.ends_with('x') || c.f.ends_with('d'), "compressor fails: {:?}", r);
    }
    Ok(())
}

/// n = [side, kind, op, chunk]
fn check_fault(c: &Case) -> Result<(), String> {
    let mk = |fault: bool| {
        let mut d = if offsets_apply(&c.f) { c.junk.clone() } else { vec![] };
        d.extend_from_slice(&c.data);
        let mut i = Mem::new(d, 0);
        let mut o = Mem::new(c.old.clone(), 0);
        let ch = if c.n[3] > 0 { c.n[3] as usize } else { usize::MAX };
        i.chunk = ch;
        o.chunk = ch;
        if fault {
            let k = c.n[2] as usize;
            let f = match c.n[1] {
                0 => Fault::Once(k),
                1 => Fault::From(k),
                _ => Fault::Zero(k),
            };
            if c.n[0] == 0 {
                i.fault = f
            } else {
                o.fault = f
            }
        }
        (i, o)
    };
    let (i, o) = mk(true);
    let (r, i, o) = call_streams(c, &c.f, i, o);
    ensure!(!matches!(r, Res::Panic(_)), "{} panics when a stream operation fails: {:?}", c.f, r);
    if i.hits + o.hits > 0 {
        ensure!(!r.ok(), "{} reports success although operation {} of the {} failed", c.f, c.n[2], if c.n[0] == 0 { "input" } else { "output" });
    } else if r.ok() {
        let (i, mut o2) = mk(false);
        o2.chunk = usize::MAX;
        let (r2, _, o2) = call_streams(c, &c.f, i, o2);
        ensure!(r == r2 && o.data == o2.data, "{} reports success but the output lacks bytes: {}", c.f, diff(&o2.data, &o.data));
    }
    Ok(())
}

/// s = "compress|expand METHOD answer", n = [old file: 0 none, 1 there]
fn check_cli(c: &Case, bin: &str) -> Result<(), String> {
    use std::io::Write;
    static K: AtomicU64 = AtomicU64::new(0);
    let dir = std::env::temp_dir().join(format!("vx-cli-{}-{}", std::process::id(), K.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&dir).unwrap();
    let (inp, outp) = (dir.join("in.bin"), dir.join("out.bin"));
    std::fs::write(&inp, &c.data).unwrap();
    // 1, 2, 3: the output is the input (same path, hard link, symbolic link); 4: it cannot be read by who runs the command
    let mode = c.n.get(1).copied().unwrap_or(0);
    let outp = if mode == 1 { inp.clone() } else { outp };
    match mode {
        1 => {}
        2 => std::fs::hard_link(&inp, &outp).unwrap(),
        3 => std::os::unix::fs::symlink(&inp, &outp).unwrap(),
        _ if c.n[0] == 1 => std::fs::write(&outp, &c.old).unwrap(),
        _ => {}
    }
    let inplace = mode >= 1 && mode <= 3;
    let old = if inplace { &c.data } else { &c.old };
    let w: Vec<&str> = c.s.split(' ').collect();
    let mut cm = std::process::Command::new(bin);
    cm.args([w[0], "-m", w[1], "-i"])
        .arg(&inp)
        .arg("-o")
        .arg(&outp)
        .env_remove("RUST_LOG")
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null());
    let unreadable = mode == 4 && c.n[0] == 1;
    if unreadable {
        use std::os::unix::fs::PermissionsExt;
        use std::os::unix::process::CommandExt;
        std::fs::set_permissions(&dir, std::fs::Permissions::from_mode(0o755)).unwrap();
        std::fs::set_permissions(&inp, std::fs::Permissions::from_mode(0o644)).unwrap();
        std::fs::set_permissions(&outp, std::fs::Permissions::from_mode(0o222)).unwrap();
        cm.uid(65534).gid(65534);
    }
    let sp = cm.spawn();
    if unreadable && sp.is_err() {
        // not allowed to become somebody else here
        let _ = std::fs::remove_dir_all(&dir);
        return Ok(());
    }
    let mut ch = sp.expect("cannot run the command line tool");
    let mut si = ch.stdin.take().unwrap();
    let ans = w.get(2).copied().unwrap_or("");
    // `_` stands for a space and `|` for the end of a line
    let _ = si.write_all(if ans == "EOF" { String::new() } else { format!("{}\n", ans.replace('_', " ").replace('|', "\n")) }.as_bytes());
    drop(si);
    let t = Instant::now();
    let st = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break Some(s);
        }
        if t.elapsed() > Duration::from_secs(20) {
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(1));
    };
    let got = std::fs::read(&outp).ok();
    let inp_after = std::fs::read(&inp).ok();
    let _ = std::fs::remove_dir_all(&dir);
    let st = st.ok_or("the command does not stop")?;
    ensure!(inplace || inp_after.as_deref() == Some(&c.data[..]), "the input file was changed");
    let confirmed = ans == "y" || ans == "Y";
    if (c.n[0] == 1 || inplace) && !confirmed {
        ensure!(got.as_deref() == Some(&old[..]), "not confirmed, but the output file was changed");
        return Ok(());
    }
    let f = match (w[0], w[1]) {
        ("compress", "lzw") => "lzw.c",
        ("expand", "lzw") => "lzw.x",
        ("compress", "lzss_huff") => "lzss.c",
        ("expand", "lzss_huff") => "lzss.x",
        ("compress", "lzhuf-port") => "port.e",
        ("expand", "lzhuf-port") => "port.d",
        ("compress", "td0") => "td.c",
        ("expand", "td0") => "td.x",
        _ => panic!(),
    };
    let mut p = Case::new("", f, vec![]);
    p.max = lzw::STD_OPTIONS.max_file_size;
    let (r, o) = call(&p, f, &c.data);
    match r {
        Res::Ok(..) => {
            ensure!(st.success(), "the library succeeds, the command ends with {:?}", st);
            ensure!(got.as_deref() == Some(&o[..]), "output file differs from the library's result: {}", diff(&o, &got.unwrap_or_default()));
        }
        _ => ensure!(!st.success(), "the library fails with {:?}, the command reports success", r),
    }
    Ok(())
}

// ---------------------------------------------------------------- cases

fn lz_opt(r: &mut Rng) -> LzOpt {
    if r.one_in(3) {
        let mut o = rf::STD;
        if r.one_in(3) {
            o.pre = r.byte()
        }
        return o;
    }
    let look = match r.below(5) {
        0 => r.range(1, 5),
        1 => r.range(3, 20),
        2 => 60,
        3 => r.range(20, 130),
        _ => {
            let top = if r.one_in(12) { 1500 } else { 300 };
            r.range(1, top)
        }
    };
    let window = match r.below(6) {
        0 => 2 * look,
        1 => 2 * look + r.below(4),
        2 => 4096,
        3 => 1024.max(2 * look),
        _ => 2 * look + r.below(4097 - 2 * look),
    };
    let thr = match r.below(4) {
        0 => 0,
        1 => 2.min(look - 1),
        2 => (look - 1).min(255),
        _ => r.below(look).min(255),
    };
    LzOpt { window: window.min(4096), look, thr, pre: if r.one_in(2) { b' ' } else { r.byte() } }
}

fn lzw_opt(r: &mut Rng) -> LzwOpt {
    let width = if r.one_in(3) { 12 } else { r.range(9, 16) };
    let top = (1usize << width) - 1;
    let special = |r: &mut Rng| match r.below(4) {
        0 => 256,
        1 => 257,
        2 => r.range(256, top.min(300)),
        _ => r.range(256, top),
    };
    let a = special(r);
    let mut b = special(r);
    while b == a {
        b = special(r)
    }
    let mut chunk = match r.below(5) {
        0 => r.range(1, 4),
        1 => r.range(5, 64),
        2 => r.range(200, 1200),
        3 => 4096,
        _ => r.range(1, 9000),
    };
    let mut o = LzwOpt { width, msb: r.one_in(2), chunk, clear: Some(a), stop: Some(b), hbits: 0, hdiv: 1 };
    match r.below(6) {
        0 | 1 => {}
        2 => o.stop = None,
        3 => {
            // one chunk only
            o.clear = None;
            if r.one_in(2) {
                o.stop = None
            }
            o.chunk = 1 << 40;
        }
        4 => {
            // Teledisk
            o = LzwOpt { width: 12, msb: false, chunk: 4096, clear: None, stop: None, hbits: 16, hdiv: 4 };
        }
        _ => {
            // headers, byte aligned
            if r.one_in(2) {
                o.clear = None
            }
            if r.one_in(2) {
                o.stop = None
            }
            let extra = o.clear.is_some() as usize;
            chunk = chunk.min(2000);
            while ((chunk + extra) * width) % 8 != 0 {
                chunk += 1
            }
            o.chunk = chunk;
            o.hbits = if r.one_in(3) { 32 } else if r.one_in(2) { 24 } else { 16 };
            o.hdiv = match r.below(4) {
                0 => 1,
                1 => 2,
                2 => width,
                _ => r.range(1, width),
            };
            // room for the codes of a chunk and the stop code
            while (chunk + 2) * width / o.hdiv >= 1 << o.hbits {
                o.hbits += 8
            }
        }
    }
    o
}

/// one chunk, however long
fn lzw_one_chunk(r: &mut Rng) -> LzwOpt {
    let special = r.one_in(2);
    LzwOpt { width: r.range(12, 16), msb: r.one_in(2), chunk: 1 << 40, clear: special.then_some(256), stop: special.then_some(257), hbits: 0, hdiv: 1 }
}

/// a stream of LZW codes, mostly valid
fn lzw_stream(r: &mut Rng, o: &LzwOpt) -> Vec<u8> {
    let mut bits: Vec<bool> = vec![];
    let put = |bits: &mut Vec<bool>, v: usize, n: usize| {
        for i in 0..n {
            bits.push(if o.msb { (v >> (n - 1 - i)) & 1 == 1 } else { (v >> i) & 1 == 1 })
        }
    };
    let top = (1usize << o.width) - 1;
    for _ in 0..r.range(1, 4) {
        let m = if r.one_in(6) { 9000 } else { 300 };
        let n = r.range(0, m);
        if o.hbits > 0 {
            let v = n * o.width / o.hdiv;
            let v = if r.one_in(6) { r.next() as usize } else { v };
            put(&mut bits, v & ((1usize << o.hbits) - 1), o.hbits);
        }
        let mut next = 256;
        let skip = |c: &mut usize| {
            while Some(*c) == o.clear || Some(*c) == o.stop {
                *c += 1
            }
        };
        skip(&mut next);
        let mode = r.below(3);
        for k in 0..n {
            if k > 0 && next <= top {
                next += 1;
                skip(&mut next);
            }
            // codes known now: below `next` minus the one being defined
            let c = match (mode, r.below(5)) {
                (0, 0) | (1, 1) => {
                    // the code defined by this very step
                    let mut cand = 256;
                    skip(&mut cand);
                    for _ in 1..k {
                        cand += 1;
                        skip(&mut cand);
                    }
                    if k > 0 && cand <= top { cand } else { r.below(256) }
                }
                (_, 2) if next > 258 => r.range(0, (next - 2).min(top)),
                (2, 3) if r.one_in(30) => r.below(top + 1),
                _ => r.below(256),
            };
            let c = if (Some(c) == o.clear || Some(c) == o.stop) && !r.one_in(20) { r.below(256) } else { c };
            put(&mut bits, c, o.width);
        }
        if r.one_in(3) {
            if let Some(c) = o.clear {
                put(&mut bits, c, o.width)
            }
        }
    }
    if let (Some(s), true) = (o.stop, r.one_in(2)) {
        put(&mut bits, s, o.width)
    }
    if r.one_in(5) {
        let k = r.below(bits.len() + 1);
        bits.truncate(k);
    }
    rf::pack(&bits, o.msb)
}

fn lz_tokens(r: &mut Rng, o: &LzOpt, big: bool) -> Vec<rf::Tok> {
    let mut t = vec![];
    let n = if big { r.range(30000, 45000) } else { length_small(r) };
    let mut total = 0usize;
    let m = |r: &mut Rng| {
        let top = if r.one_in(3) { 4096.min(o.window) } else { 4096 };
        let back = r.range(1, top);
        let len = if r.one_in(2) { o.thr + 1 } else { r.range(o.thr + 1, o.look) };
        rf::Tok::Match { back, len }
    };
    match r.below(3) {
        0 => {
            // Fibonacci-like frequencies
            let base = 256 + o.look - o.thr;
            let (mut sub, mut a) = (base + r.below(30), base / 4 + r.below(20));
            let mut s = 0usize;
            while sub + a < 0x8000 && s < 40 {
                for _ in 1..a {
                    t.push(rf::Tok::Lit((s * 7) as u8))
                }
                let ns = sub + a;
                a = sub + 1;
                sub = ns;
                s += 1;
                if !big && t.len() > 6000 {
                    break;
                }
            }
            for i in 0..60 {
                t.push(rf::Tok::Lit(200u8.wrapping_add(i)))
            }
        }
        1 => {
            let k = r.range(1, 6);
            for _ in 0..n {
                if r.one_in(4) && total < 400_000 {
                    let x = m(r);
                    if let rf::Tok::Match { len, .. } = x {
                        total += len
                    }
                    t.push(x)
                } else {
                    t.push(rf::Tok::Lit(if r.one_in(50) { r.byte() } else { r.below(k) as u8 }))
                }
            }
        }
        _ => {
            for _ in 0..n {
                if r.one_in(2) && total < 400_000 {
                    let x = m(r);
                    if let rf::Tok::Match { len, .. } = x {
                        total += len
                    }
                    t.push(x)
                } else {
                    t.push(rf::Tok::Lit(r.byte()))
                }
            }
        }
    }
    t
}
fn length_small(r: &mut Rng) -> usize {
    match r.below(4) {
        0 => r.below(6),
        1 => r.below(60),
        2 => r.below(600),
        _ => r.below(4000),
    }
}

fn damage(r: &mut Rng, mut s: Vec<u8>, from: usize) -> Vec<u8> {
    if s.len() > from {
        match r.below(4) {
            0 => {
                for _ in 0..r.range(1, 5) {
                    let i = r.range(from, s.len() - 1);
                    s[i] ^= 1 << r.below(8);
                }
            }
            1 => {
                let k = r.range(from, s.len());
                s.truncate(k)
            }
            2 => {
                for _ in 0..r.range(1, 40) {
                    s.push(r.byte())
                }
            }
            _ => {}
        }
    }
    s
}
fn random_bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    let m = r.below(3);
    (0..n).map(|_| match m { 0 => r.byte(), 1 => if r.one_in(3) { 0 } else { r.byte() }, _ => if r.one_in(2) { 255 } else { r.byte() } }).collect()
}

fn td_image(r: &mut Rng, sig: &[u8; 2], body: Vec<u8>) -> Vec<u8> {
    let mut h: Vec<u8> = sig.to_vec();
    for _ in 2..10 {
        h.push(r.byte())
    }
    h[4] = match r.below(8) {
        0 => 19,
        1 => 20,
        2 => 21,
        3 => 10,
        4 => 15,
        5 => 0,
        6 => 255,
        _ => r.byte(),
    };
    let c = rf::crc16(&h[..10]).to_le_bytes();
    h.extend_from_slice(&c);
    h.extend(body);
    h
}
fn with_header(h: bool, n: usize, s: Vec<u8>) -> Vec<u8> {
    let mut v = if h { (n as u32).to_le_bytes().to_vec() } else { vec![] };
    v.extend(s);
    v
}

fn plain(r: &mut Rng, big: usize) -> Vec<u8> {
    let n = gen::length(r, big);
    gen::data(r, n)
}

/// a stream for one of the expanders
fn stream_for(r: &mut Rng, c: &mut Case, k: usize) {
    match c.f.as_str() {
        "lzw.x" => {
            c.lzw = lzw_opt(r);
            c.data = match r.below(4) {
                0 => {
                    let n = gen::length(r, 3000);
                    random_bytes(r, n)
                }
                1 => {
                    let d = plain(r, 40000);
                    let s = rf::lzw_encode(&d, &c.lzw);
                    damage(r, s, 0)
                }
                _ => {
                    let o = c.lzw.clone();
                    let s = lzw_stream(r, &o);
                    if r.one_in(4) { damage(r, s, 0) } else { s }
                }
            };
        }
        "lzss.x" | "port.d" => {
            if c.f == "lzss.x" {
                c.lz = lz_opt(r);
                c.header = r.one_in(2);
            }
            let h = c.header;
            let body = match r.below(4) {
                0 => {
                    let n = gen::length(r, 3000);
                    random_bytes(r, n)
                }
                1 => {
                    let n = gen::length(r, 600);
                    vec![if r.one_in(2) { 255 } else { 0 }; n]
                }
                _ => {
                    let o = c.lz.clone();
                    let t = lz_tokens(r, &o, k % 24 == 5);
                    let s = rf::lz_encode(&t, &o).0;
                    if r.one_in(3) { damage(r, s, 0) } else { s }
                }
            };
            let n = if r.one_in(2) { rf::lz_decode(&body, &c.lz, 1 << 20, false).0.len() } else if r.one_in(2) { r.below(3000) } else { r.below(100_000) };
            let n = if r.one_in(5) { n.saturating_sub(r.below(3)) } else if r.one_in(6) && c.f == "lzss.x" { u32::MAX as usize } else { n };
            c.data = with_header(h, n, body);
            if c.f == "lzss.x" && r.one_in(60) {
                let k = r.below(c.data.len().min(6) + 1);
                c.data.truncate(k);
            }
        }
        "td.x" => {
            let mut sub = Case::new("", "lzss.x", vec![]);
            sub.header = false;
            let n = gen::length(r, 2000);
            let body = match r.below(4) {
                0 => random_bytes(r, n),
                1 => {
                    let t = lz_tokens(r, &rf::STD, false);
                    rf::lz_encode(&t, &rf::STD).0
                }
                2 => {
                    let o = LzwOpt { width: 12, msb: false, chunk: 4096, clear: None, stop: None, hbits: 16, hdiv: 4 };
                    lzw_stream(r, &o)
                }
                _ => {
                    let d = plain(r, 30000);
                    let o = LzwOpt { width: 12, msb: false, chunk: 4096, clear: None, stop: None, hbits: 16, hdiv: 4 };
                    rf::lzw_encode(&d, &o)
                }
            };
            c.data = td_image(r, b"td", body);
        }
        _ => unreachable!(),
    }
}

fn compressor_input(r: &mut Rng, c: &mut Case, k: usize) {
    // now and then long enough to rebuild the Huffman tree
    let big = if k % 40 == 7 { 160_000 } else { 20_000 };
    c.data = if k % 40 == 7 { gen::data(r, big) } else if k % 48 == 11 { gen::paths(r) } else { plain(r, big) };
    match c.f.as_str() {
        "lzw.c" => {
            c.lzw = lzw_opt(r);
            if c.lzw.chunk < 8 {
                c.data.truncate(2000);
            }
        }
        "lzss.c" => c.lz = lz_opt(r),
        "td.c" => {
            let b = std::mem::take(&mut c.data);
            c.data = td_image(r, b"TD", b);
        }
        _ => {}
    }
}

fn deep_case(k: usize) -> Vec<u8> {
    // (computed once: generating these takes a second)
    static D: [std::sync::OnceLock<Vec<u8>>; 3] = [const { std::sync::OnceLock::new() }; 3];
    D[k % 3]
        .get_or_init(|| {
            let p = [(16usize, 80usize, 326usize), (24, 80, 335), (16, 64, 320)][k % 3];
            gen::deep(12345 + (k % 3) as u64, p.0, p.1, p.2)
        })
        .clone()
}

fn make(prop: &str, r: &mut Rng, k: usize) -> Case {
    let pick = |r: &mut Rng, v: &[&str]| v[r.below(v.len())].to_string();
    let deep = k % 4096 < 3;
    // LZW strings of more than a thousand bytes
    let long = k % 256 == 6;
    let mut c = Case::new(prop, "", vec![]);
    let target = |r: &mut Rng, c: &mut Case| {
        // offsets and old contents, sometimes
        if r.one_in(3) {
            let n = r.range(0, 30);
            c.junk = random_bytes(r, n);
            c.out_off = r.below(40) as u64;
        }
        if r.one_in(3) {
            let n = if r.one_in(2) { r.below(60) } else { r.below(60000) };
            c.old = random_bytes(r, n);
        }
        c.n = vec![r.below(35) as i64];
    };
    match prop {
        "C01" => {
            c.f = "lzw".into();
            c.lzw = lzw_opt(r);
            let big = if c.lzw.width > 13 && k % 8 == 0 { 300_000 } else if k % 10 == 3 { 100_000 } else { 20_000 };
            c.data = if k % 10 == 3 { gen::data(r, big) } else { plain(r, big) };
            if c.lzw.chunk < 8 {
                c.data.truncate(2000);
            }
            if long {
                c.lzw = lzw_one_chunk(r);
                c.data = gen::runs(r);
            }
        }
        "C02" | "C05" => {
            c.f = "lzss".into();
            c.header = prop == "C02";
            c.lz = lz_opt(r);
            compressor_input(r, &mut c, k);
            if deep {
                c.lz = rf::STD;
                c.data = deep_case(k);
            }
            if k % 64 == 5 {
                c.data.truncate(k / 64 % 130);
            }
        }
        "C03" | "C04" | "C15" => {
            c.f = "port".into();
            compressor_input(r, &mut c, k);
            if deep {
                c.data = deep_case(k)
            }
            if k % 64 == 5 {
                c.data.truncate(k / 64 % 130);
            }
            if prop == "C15" && k % 4 == 1 {
                let n = r.below(260);
                c.data = match r.below(4) {
                    0 => gen::data(r, n),
                    1 => (0..n).map(|_| [0u8, 32][r.below(2)]).collect(),
                    2 => {
                        // few different strings, cut and put together again
                        let w: Vec<Vec<u8>> = (0..r.range(1, 4)).map(|_| { let m = r.range(1, 9); (0..m).map(|_| [0u8, 32, 33, 65][r.below(4)]).collect() }).collect();
                        let mut d = vec![];
                        while d.len() < n {
                            d.extend_from_slice(&w[r.below(w.len())]);
                        }
                        d
                    }
                    _ => {
                        let mut d: Vec<u8> = vec![];
                        while d.len() < n {
                            let b = [0u8, 32, 32, r.byte()][r.below(4)];
                            let m = if r.one_in(3) { r.below(5) } else { r.below(70) };
                            d.extend(std::iter::repeat(b).take(m));
                        }
                        d
                    }
                };
            }
        }
        "C06" => {
            c.f = pick(r, &["td.c", "td.x"]);
            if c.f == "td.c" {
                let d = plain(r, 9000);
                c.data = td_image(r, b"TD", d);
            } else {
                stream_for(r, &mut c, 0);
            }
            match r.below(6) {
                0 => {
                    // damaged header
                    let i = r.below(12);
                    c.data[i] ^= 1 << r.below(8);
                }
                1 => {
                    let k = r.below(13);
                    c.data.truncate(k);
                }
                2 => {
                    c.data[..2].copy_from_slice([b"TD", b"td", b"Td", b"tD", b"DT", b"dt"][r.below(6)]);
                    if r.one_in(2) {
                        let x = rf::crc16(&c.data[..10]).to_le_bytes();
                        c.data[10..12].copy_from_slice(&x);
                    }
                }
                3 => {
                    if r.one_in(2) {
                        c.data.swap(10, 11)
                    } else {
                        let i = r.range(10, 11);
                        c.data[i] = r.byte()
                    }
                }
                _ => {}
            }
            if r.one_in(3) {
                let n = r.below(300);
                c.old = random_bytes(r, n)
            }
        }
        "C07" => {
            c.f = "td".into();
            let d = if deep { deep_case(k) } else if k % 40 == 7 { gen::data(r, 160_000) } else { plain(r, 30_000) };
            c.data = td_image(r, b"TD", d);
            if deep {
                c.data[4] = 21;
                let x = rf::crc16(&c.data[..10]).to_le_bytes();
                c.data[10..12].copy_from_slice(&x);
            }
        }
        "C08" => {
            c.f = pick(r, &["lzw.x", "lzss.x", "port.d", "td.x"]);
            stream_for(r, &mut c, k);
            if long && c.f == "lzw.x" {
                c.lzw = lzw_one_chunk(r);
                c.data = rf::lzw_encode(&gen::runs(r), &c.lzw);
            }
            if r.one_in(5) {
                let j = if c.f == "td.x" && r.one_in(2) { 12 } else { 0 };
                c.data = damage(r, c.data.clone(), j);
            }
            if c.f == "port.d" && c.data.len() >= 4 {
                c.data[3] = 0;
                c.data[2] &= 15;
            }
        }
        "C09" => {
            c.f = pick(r, &["lzw.c", "lzss.c", "port.e", "td.c"]);
            compressor_input(r, &mut c, k);
            c.header = r.one_in(2);
            if long && c.f == "lzw.c" {
                c.lzw = lzw_one_chunk(r);
                c.data = gen::runs(r);
            }
            if deep {
                c.f = pick(r, &["lzss.c", "port.e"]);
                c.lz = rf::STD;
                c.data = deep_case(k);
            }
            if r.one_in(2) && offsets_apply(&c.f) {
                c.max = c.data.len() as u64
            }
        }
        "C10" => {
            c.f = pick(r, &["lzw.c", "lzss.c", "port.e", "td.c", "lzw.x", "lzss.x", "port.d", "td.x"]);
            if c.f.ends_with('c') || c.f.ends_with('e') {
                c.header = r.one_in(2);
                compressor_input(r, &mut c, 0);
            } else {
                stream_for(r, &mut c, 0);
            }
            if c.f == "port.d" {
                if c.data.len() >= 4 {
                    c.data[3] = 0;
                    c.data[2] = 0;
                }
            }
            let j = target(r, &mut c);
            let _ = j;
            let l = c.data.len() as u64;
            c.max = match r.below(5) {
                0 => l.saturating_sub(1),
                1 => l,
                2 => l + 1,
                3 => l.saturating_sub(r.below(50) as u64),
                _ => 1 << 40,
            };
            // Teledisk limit
            if k % 512 == 9 || k % 512 == 10 {
                c.f = pick(r, &["td.c", "td.x"]);
                let over = k % 512 == 9;
                let n = 3_000_000 + if over { r.range(1, 2) } else { 0 };
                let mut b = vec![b' '; n];
                if c.f == "td.x" {
                    // chunks of 65532 * 4 bits, each a header and 21844 times the code 0
                    b = vec![0; n];
                    for i in (0..n - 1).step_by(32768) {
                        b[i] = 0xfc;
                        b[i + 1] = 0xff;
                    }
                }
                c.data = td_image(r, if c.f == "td.c" { b"TD" } else { b"td" }, b);
                c.data[4] = if over { 21 } else { 10 };
                let x = rf::crc16(&c.data[..10]).to_le_bytes();
                c.data[10..12].copy_from_slice(&x);
                c.old.truncate(8);
            }
        }
        "C11" => {
            c.f = pick(r, &["lzw.c", "lzw.x", "lzss.c", "lzss.x", "lzw.c", "lzss.c", "port.e", "port.d", "td.c", "td.x"]);
            if c.f.ends_with('c') || c.f.ends_with('e') {
                c.header = r.one_in(2);
                compressor_input(r, &mut c, k);
            } else {
                stream_for(r, &mut c, 0);
                if c.f == "port.d" && c.data.len() >= 4 {
                    c.data[3] = 0;
                    c.data[2] = 0;
                }
            }
            if offsets_apply(&c.f) {
                let n = if r.one_in(3) { 0 } else { r.range(1, 40) };
                c.junk = random_bytes(r, n);
                c.out_off = if r.one_in(3) { 0 } else { r.range(1, 60) as u64 };
            }
            let n = match r.below(5) {
                0 => 0,
                1 => r.below(80),
                2 => c.out_off as usize,
                3 => r.below(3000),
                _ => c.data.len() * 2 + 100,
            };
            c.old = random_bytes(r, n);
            c.n = vec![r.below(35) as i64];
        }
        "C12" => {
            c.f = pick(r, &["lzw.c", "lzw.x"]);
            if c.f == "lzw.c" {
                c.lzw = lzw_opt(r);
                let big = if c.lzw.width > 13 && k % 8 == 0 { 300_000 } else if k % 10 == 3 { 100_000 } else { 20_000 };
                c.data = if k % 10 == 3 { gen::data(r, big) } else { plain(r, big) };
                if c.lzw.chunk < 8 {
                    c.data.truncate(2000);
                }
                if long {
                    c.lzw = lzw_one_chunk(r);
                    c.data = gen::runs(r);
                }
            } else {
                stream_for(r, &mut c, k);
                if long {
                    c.lzw = lzw_one_chunk(r);
                    c.data = rf::lzw_encode(&gen::runs(r), &c.lzw);
                }
            }
        }
        "C13" => {
            c.f = pick(r, &["lzss.x", "port.d"]);
            stream_for(r, &mut c, k);
            if c.f == "port.d" && c.data.len() >= 4 {
                c.data[3] = 0;
                c.data[2] &= 15;
            }
        }
        "C14" => {
            c.f = pick(r, &["lzw.c", "lzss.c", "port.e", "td.c", "lzw.x", "lzss.x", "port.d", "td.x"]);
            if c.f.ends_with('c') || c.f.ends_with('e') {
                c.header = r.one_in(2);
                compressor_input(r, &mut c, 0);
                if !r.one_in(3) {
                    let cut = if c.f == "td.c" { 12 } else { 0 } + r.below(400);
                    c.data.truncate(cut);
                }
            } else {
                stream_for(r, &mut c, 0);
                if c.f == "port.d" && c.data.len() >= 4 {
                    c.data[3] = 0;
                    c.data[2] = 0;
                }
            }
            if r.one_in(3) && offsets_apply(&c.f) {
                let n = r.range(0, 30);
                c.junk = random_bytes(r, n);
                c.out_off = r.below(40) as u64;
            }
            // count the operations of a clean run
            let chunk = match r.below(5) {
                0 => 1,
                1 => r.range(2, 7),
                _ => 0,
            };
            let mut d = if offsets_apply(&c.f) { c.junk.clone() } else { vec![] };
            d.extend_from_slice(&c.data);
            let mut i = Mem::new(d, 0);
            let mut o = Mem::new(c.old.clone(), 0);
            if chunk > 0 {
                i.chunk = chunk;
                o.chunk = chunk;
            }
            let (_, i, o) = call_streams(&c, &c.f, i, o);
            let side = if r.one_in(3) { 0 } else { 1 };
            let n = if side == 0 { i.ops } else { o.ops };
            let op = match r.below(4) {
                0 => r.below(n.min(4) + 1),
                1 => n.saturating_sub(1 + r.below(4)),
                _ => r.below(n + 1),
            };
            c.n = vec![side, r.below(3) as i64, op as i64, chunk as i64];
        }
        "C16" => {
            let m = pick(r, &["lzw", "lzss_huff", "lzhuf-port", "td0"]);
            let dir = pick(r, &["compress", "expand"]);
            let mode = match r.below(8) {
                0 | 1 => 1 + r.below(3),
                2 => 4,
                _ => 0,
            };
            let d = if mode >= 1 && mode <= 3 && r.one_in(2) { let n = 9000 + r.below(30000); if r.one_in(2) { random_bytes(r, n) } else { let a = random_bytes(r, 300); (0..n).map(|i| a[(i * 7 + i / 11) % 300]).collect() } } else { plain(r, 4000) };
            c.data = d.clone();
            c.max = lzw::STD_OPTIONS.max_file_size;
            match (dir.as_str(), m.as_str()) {
                ("expand", "lzw") => c.data = produced(&c, "lzw.c", &d).unwrap_or_default(),
                ("expand", "lzss_huff") => c.data = produced(&c, "lzss.c", &d).unwrap_or_default(),
                ("expand", "lzhuf-port") => c.data = produced(&c, "port.e", &d).unwrap_or_default(),
                ("compress", _) if m == "td0" => c.data = td_image(r, b"TD", d),
                ("expand", _) if m == "td0" => {
                    let t = td_image(r, b"TD", d);
                    c.data = produced(&c, "td.c", &t).unwrap_or_default()
                }
                _ => {}
            }
            if r.one_in(12) {
                c.data = damage(r, c.data.clone(), 0);
                if m == "lzhuf-port" && dir == "expand" && c.data.len() >= 4 {
                    c.data[3] = 0;
                    c.data[2] = 0;
                }
            }
            c.n = vec![r.below(2) as i64, mode as i64];
            let n = match r.below(3) {
                0 => r.below(20),
                1 => r.below(3000),
                _ => 20000 + r.below(1000),
            };
            c.old = random_bytes(r, n);
            c.s = format!("{} {} {}", dir, m, pick(r, &["y", "y", "Y", "y", "y", "y", "n", "N", "q", "EOF", "no", "", "|y", "n|y", "ny", "nay", "never_y", "by", "yikes,_no", "You_must_not", "yn", "N_Y"]));
            c.f = c.s.clone();
        }
        _ => panic!("unknown property"),
    }
    if matches!(prop, "C01" | "C02" | "C05" | "C12") && r.one_in(6) {
        target(r, &mut c);
    }
    c
}

// ---------------------------------------------------------------- driver

fn guarded(c: &Case, bin: &str) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| check(c, bin))) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
    }
}

fn shrink(c: &Case, bin: &str, until: Instant) -> Case {
    let mut best = c.clone();
    let base = if c.prop == "C06" || c.prop == "C07" || c.f.starts_with("td") { 12 } else { 0 };
    for field in 0..3 {
        let mut size = match field {
            0 => best.data.len(),
            1 => best.old.len(),
            _ => best.junk.len(),
        } / 2;
        while size > 0 {
            let mut at = if field == 0 { base } else { 0 };
            loop {
                if Instant::now() > until {
                    return best;
                }
                let mut t = best.clone();
                let v = match field {
                    0 => &mut t.data,
                    1 => &mut t.old,
                    _ => &mut t.junk,
                };
                if at + size > v.len() {
                    break;
                }
                v.drain(at..at + size);
                if guarded(&t, bin).is_err() {
                    best = t
                } else {
                    at += size
                }
            }
            size /= 2;
        }
    }
    best
}

fn write_replay(dir: &str, c: &Case, msg: &str) -> String {
    let p = format!("{}/{}-{}.json", dir, c.prop, std::process::id());
    let mut v = c.to_json();
    v["what_fails"] = json!(msg);
    std::fs::create_dir_all(dir).unwrap();
    std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    p
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str, d: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone()).unwrap_or(d.to_string());
    std::panic::set_hook(Box::new(|_| {}));
    let bin = opt("--bin", "");
    if a[1] == "--replay" {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
        let c = Case::from_json(&v);
        match guarded(&c, &bin) {
            Ok(()) => println!("holds on this case"),
            Err(e) => {
                println!("FAILS: {}", e);
                std::process::exit(1)
            }
        }
        return;
    }
    let prop = a[1].clone();
    let seed: u64 = opt("--seed", "1").parse().unwrap();
    let secs: f64 = opt("--secs", "10").parse().unwrap();
    let _ = gen::HINTS.set(opt("--hints", "").split(',').filter_map(|x| x.parse().ok()).collect());
    let threads: usize = opt("--threads", "8").parse().unwrap();
    let replays = opt("--replays", "/tmp");
    let out = opt("--out", "/dev/stdout");
    let start = Instant::now();
    let stop = Arc::new(AtomicBool::new(false));
    let evals = Arc::new(AtomicU64::new(0));
    let nontriv = Arc::new(Mutex::new(std::collections::HashSet::<u64>::new()));
    let found: Arc<Mutex<Option<(Case, String)>>> = Arc::new(Mutex::new(None));
    let samples: Arc<Mutex<Vec<Value>>> = Arc::new(Mutex::new(vec![]));
    let slots: Arc<Vec<Mutex<Option<(Instant, Case)>>>> = Arc::new((0..threads).map(|_| Mutex::new(None)).collect());
    let hist: Arc<Mutex<std::collections::BTreeMap<String, u64>>> = Default::default();
    let verbose = a.iter().any(|x| x == "--verbose");
    let mut hs = vec![];
    for t in 0..threads {
        let (prop, bin, stop, evals, nontriv, found, samples, slots, hist) = (prop.clone(), bin.clone(), stop.clone(), evals.clone(), nontriv.clone(), found.clone(), samples.clone(), slots.clone(), hist.clone());
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let mut k = t;
            while !stop.load(Ordering::Relaxed) && start.elapsed().as_secs_f64() < secs {
                let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64));
                let c = make(&prop, &mut r, k);
                *slots[t].lock().unwrap() = Some((Instant::now(), c.clone()));
                let t0 = Instant::now();
                let res = guarded(&c, &bin);
                if verbose && t0.elapsed().as_secs_f64() > 0.3 {
                    eprintln!("case {} {} {} bytes {:?} {:?}: {:?}", k, c.f, c.data.len(), c.lz, c.lzw, t0.elapsed());
                }
                *slots[t].lock().unwrap() = None;
                evals.fetch_add(1, Ordering::Relaxed);
                *hist.lock().unwrap().entry(c.f.clone()).or_insert(0) += 1;
                if c.data.len() > 2 {
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    (format!("{:?}{:?}{:?}{:?}{}", c.lz, c.lzw, c.n, c.f, c.out_off), &c.data, &c.old).hash(&mut h);
                    nontriv.lock().unwrap().insert(h.finish());
                }
                if k < 4 * threads && k % 5 == 0 {
                    let mut v = c.to_json();
                    if c.data.len() > 64 {
                        v["data"] = json!(format!("{}... ({} bytes)", hex(&c.data[..64]), c.data.len()));
                    }
                    if c.old.len() > 64 {
                        v["target_old_contents"] = json!(format!("({} bytes)", c.old.len()));
                    }
                    samples.lock().unwrap().push(v);
                }
                if let Err(e) = res {
                    let mut f = found.lock().unwrap();
                    if f.is_none() {
                        *f = Some((c, e));
                    }
                    stop.store(true, Ordering::Relaxed);
                }
                k += threads;
            }
        }).unwrap());
    }
    let finish = |viol: Option<(String, String)>| {
        let v = json!({"evaluations": evals.load(Ordering::Relaxed), "distinct_nontrivial": nontriv.lock().unwrap().len(), "samples": samples.lock().unwrap().clone(),
            "by_function": hist.lock().unwrap().clone(), "secs": start.elapsed().as_secs_f64(),
            "violation": viol.map(|(p, m)| json!({"replay": p, "what": m}))});
        std::fs::write(&out, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    };
    // watchdog
    let limit = Duration::from_secs_f64(opt("--hang", "40").parse().unwrap());
    loop {
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
        for s in slots.iter() {
            let hung = match &*s.lock().unwrap() {
                Some((t, c)) if t.elapsed() > limit => Some(c.clone()),
                _ => None,
            };
            if let Some(c) = hung {
                let m = format!("no result after {} s", limit.as_secs());
                let p = write_replay(&replays, &c, &m);
                finish(Some((p, m)));
                std::process::exit(0);
            }
        }
    }
    let f = found.lock().unwrap().clone();
    match f {
        Some((c, e)) => {
            let p = write_replay(&replays, &c, &e);
            // shrink under a watchdog: the full case is already on disk
            let (done, p2, c2, bin2) = (Arc::new(AtomicBool::new(false)), replays.clone(), c.clone(), bin.clone());
            let d2 = done.clone();
            let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                let s = shrink(&c2, &bin2, Instant::now() + Duration::from_secs(6));
                if let Err(e) = guarded(&s, &bin2) {
                    write_replay(&p2, &s, &e);
                }
                d2.store(true, Ordering::SeqCst);
            }).unwrap();
            let t = Instant::now();
            while !done.load(Ordering::SeqCst) && t.elapsed() < Duration::from_secs(15) && !h.is_finished() {
                std::thread::sleep(Duration::from_millis(20));
            }
            finish(Some((p, e)));
        }
        None => finish(None),
    }
    std::process::exit(0);
}
