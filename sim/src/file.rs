//! C20: sound files on storage which may be cut, damaged, missing or failing, and buffers played and
//! saved. Files are written by this module byte by byte, so that their contents are known without
//! asking the code under test. They are kept in a scratch directory of the process. Reading goes
//! through a hook in `Buffer::from_sound_file` where reads are cut short, interrupted or fail; writing
//! fails when the size limit of the process is reached, as it would on a full disk.
use crate::alloc::{self, pause, sut};
use crate::rng::{Rng, hash};
use crate::trace::{Op, Outcome, Trace, Violation};
use knaster_core::{
    AudioCtx, Block, Float, ParameterValue, UGen, UGenFlags, VecBlock, log::ArLogSender,
    typenum::{U0, U1, U2, U3},
};
use knaster_core_dsp::dsp::buffer::{Buffer, SimSource};
use knaster_core_dsp::buffer::BufferReader;
use std::cell::RefCell;
use std::io::{Read, Seek, SeekFrom};
use std::ops::Range;
use std::sync::Arc;
use symphonia::core::io::MediaSource;

// ---- storage which can be read with faults

#[derive(Clone, Copy, Default)]
struct IoPlan {
    /// longest read, 0: no limit
    short: u64,
    /// reading the byte at this position fails
    eio: Option<u64>,
    eio_once: bool,
    /// every n-th read is interrupted
    eintr: u64,
    /// the file ends here although it was longer when it was opened
    eof: Option<u64>,
    noseek: bool,
    /// seeking fails
    seekerr: bool,
}
#[derive(Default)]
struct IoState {
    plan: IoPlan,
    reads: u64,
    bytes: u64,
    /// faults which were met
    eio: u64,
    eintr: u64,
    eof: u64,
    short: u64,
    seekerr: u64,
}
thread_local! {
    static IO: RefCell<IoState> = RefCell::new(IoState::default());
}
struct Src {
    f: std::fs::File,
    pos: u64,
    n: u64,
}
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        pause(|| {
            IO.with(|io| {
                let mut io = io.borrow_mut();
                io.reads += 1;
                self.n += 1;
                if io.reads > 1_000_000 {
                    panic!("a million reads");
                }
                let p = io.plan;
                if p.eintr != 0 && self.n % p.eintr == 0 {
                    io.eintr += 1;
                    return Err(std::io::ErrorKind::Interrupted.into());
                }
                let mut n = buf.len() as u64;
                if p.short != 0 {
                    let m = 1 + hash(&[self.n, self.pos]) % p.short;
                    if m < n {
                        n = m;
                        io.short += 1;
                    }
                }
                if let Some(e) = p.eof {
                    let l = e.saturating_sub(self.pos);
                    if l < n {
                        n = l;
                        io.eof += 1;
                    }
                }
                if let Some(e) = p.eio
                    && n > 0
                {
                    if self.pos == e {
                        io.eio += 1;
                        if p.eio_once {
                            io.plan.eio = None;
                        }
                        return Err(std::io::Error::from_raw_os_error(5));
                    }
                    if self.pos < e && self.pos + n > e {
                        n = e - self.pos;
                    }
                    // everything behind a bad sector is bad too
                    if self.pos > e && !p.eio_once {
                        io.eio += 1;
                        return Err(std::io::Error::from_raw_os_error(5));
                    }
                }
                let r = self.f.read(&mut buf[..n as usize])?;
                self.pos += r as u64;
                io.bytes += r as u64;
                Ok(r)
            })
        })
    }
}
impl Seek for Src {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        pause(|| {
            IO.with(|io| {
                let mut io = io.borrow_mut();
                if io.plan.seekerr {
                    io.seekerr += 1;
                    return Err(std::io::Error::from_raw_os_error(29));
                }
                self.pos = self.f.seek(to)?;
                Ok(self.pos)
            })
        })
    }
}
impl MediaSource for Src {
    fn is_seekable(&self) -> bool {
        !IO.with(|io| io.borrow().plan.noseek)
    }
    fn byte_len(&self) -> Option<u64> {
        if IO.with(|io| io.borrow().plan.noseek) { None } else { self.f.metadata().ok().map(|m| m.len()) }
    }
}
fn open(f: std::fs::File) -> SimSource {
    pause(|| SimSource(Box::new(Src { f, pos: 0, n: 0 })))
}
#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
unsafe extern "C" {
    fn getrlimit(r: i32, l: *mut RLimit) -> i32;
    fn setrlimit(r: i32, l: *const RLimit) -> i32;
    fn signal(s: i32, h: usize) -> usize;
}
/// Limit the size of files which are written
fn with_limit<T>(limit: Option<u64>, f: impl FnOnce() -> T) -> T {
    let Some(limit) = limit else { return f() };
    let mut l = RLimit { cur: 0, max: 0 };
    unsafe {
        signal(25, 1);
        assert_eq!(getrlimit(1, &mut l), 0);
        let m = RLimit { cur: limit.min(l.max), max: l.max };
        assert_eq!(setrlimit(1, &m), 0);
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    unsafe {
        assert_eq!(setrlimit(1, &l), 0);
    }
    match r {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e),
    }
}
fn scratch() -> std::path::PathBuf {
    let base = std::env::var("KNSIM_SCRATCH").map(std::path::PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    base.join(format!("knsim-file-{}", std::process::id()))
}

// ---- files

/// How the samples are stored
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fmt {
    U8,
    I16,
    I24,
    I32,
    F32,
    F64,
}
const FMTS: [Fmt; 6] = [Fmt::U8, Fmt::I16, Fmt::I24, Fmt::I32, Fmt::F32, Fmt::F64];
impl Fmt {
    fn bytes(self) -> usize {
        match self {
            Fmt::U8 => 1,
            Fmt::I16 => 2,
            Fmt::I24 => 3,
            Fmt::I32 | Fmt::F32 => 4,
            Fmt::F64 => 8,
        }
    }
    /// The value of a stored sample
    fn value(self, b: &[u8]) -> f64 {
        match self {
            Fmt::U8 => (b[0] as f64 - 128.0) / 128.0,
            Fmt::I16 => i16::from_le_bytes([b[0], b[1]]) as f64 / 32768.0,
            Fmt::I24 => (i32::from_le_bytes([0, b[0], b[1], b[2]]) >> 8) as f64 / 8388608.0,
            Fmt::I32 => i32::from_le_bytes([b[0], b[1], b[2], b[3]]) as f64 / 2147483648.0,
            Fmt::F32 => f32::from_le_bytes([b[0], b[1], b[2], b[3]]) as f64,
            Fmt::F64 => f64::from_le_bytes(b[..8].try_into().unwrap()),
        }
    }
    fn sample(self, r: &mut Rng, smooth: f64) -> Vec<u8> {
        let x = match r.below(12) {
            0 => i32::MAX,
            1 => i32::MIN,
            2 => 0,
            3 => 1,
            4 => -1,
            5..7 => r.u64() as i32,
            _ => (smooth * 2e9) as i32,
        };
        match self {
            Fmt::U8 => vec![(x >> 24) as u8 ^ 0x80],
            Fmt::I16 => ((x >> 16) as i16).to_le_bytes().to_vec(),
            Fmt::I24 => (x >> 8).to_le_bytes()[..3].to_vec(),
            Fmt::I32 => x.to_le_bytes().to_vec(),
            Fmt::F32 => (x as f32 / 2147483648.0).to_le_bytes().to_vec(),
            Fmt::F64 => (x as f64 / 2147483648.0).to_le_bytes().to_vec(),
        }
    }
}
/// A file and what is known about its contents
#[derive(Clone, Default)]
struct Image {
    bytes: Vec<u8>,
    rate: u32,
    ch: usize,
    /// where the samples of the track are, in order; PCM
    pcm: Vec<Range<usize>>,
    /// frames decoded from blocks which are protected by a checksum
    blocks: Vec<(Range<usize>, Vec<f64>)>,
    fmt: Option<Fmt>,
    /// bytes which are skipped whatever they contain
    skipped: Vec<Range<usize>>,
    /// samples before damage
    expect: Vec<f64>,
    /// the end of the audio
    end: usize,
    cut: Option<usize>,
    /// bytes which decide how the rest is read were damaged
    header: bool,
    /// something of the samples was damaged
    data: bool,
    junk: bool,
    /// mixes formats
    mixed: bool,
    /// a format which isn't promised to be supported, only the audio and what is skipped are damaged
    fragile: bool,
}
impl Image {
    fn values(&self) -> Vec<f64> {
        let f = self.fmt.unwrap();
        let mut v = vec![];
        let mut pend: Vec<u8> = vec![];
        for r in &self.pcm {
            let e = r.end.min(self.bytes.len());
            if r.start < e {
                pend.extend(&self.bytes[r.start..e]);
            }
            if e < r.end {
                break;
            }
        }
        let n = f.bytes() * self.ch;
        for fr in pend.chunks_exact(n) {
            for s in fr.chunks_exact(f.bytes()) {
                v.push(f.value(s));
            }
        }
        v
    }
}
fn le16(v: &mut Vec<u8>, x: u32) {
    v.extend((x as u16).to_le_bytes());
}
fn le32(v: &mut Vec<u8>, x: u32) {
    v.extend(x.to_le_bytes());
}
fn chunk(v: &mut Vec<u8>, id: &[u8; 4], data: &[u8]) -> Range<usize> {
    v.extend(id);
    le32(v, data.len() as u32);
    let s = v.len();
    v.extend(data);
    let r = s..v.len();
    if data.len() % 2 == 1 {
        v.push(0);
    }
    r
}
fn pcm(fmt: Fmt, ch: usize, frames: usize, seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let mut v = vec![];
    for i in 0..frames {
        for c in 0..ch {
            let s = ((i as f64) * (0.01 + 0.02 * c as f64)).sin();
            v.extend(fmt.sample(&mut r, s));
        }
    }
    v
}
fn wav(fmt: Fmt, ch: usize, rate: u32, frames: usize, seed: u64, extra: i64) -> Image {
    let data = pcm(fmt, ch, frames, seed);
    let mut im = Image { rate, ch, fmt: Some(fmt), ..Default::default() };
    let mut b = b"RIFF\0\0\0\0WAVE".to_vec();
    let ext = ch > 2 || extra & 8 != 0;
    let float = matches!(fmt, Fmt::F32 | Fmt::F64);
    let mut f = vec![];
    le16(&mut f, if ext { 0xFFFE } else if float { 3 } else { 1 });
    le16(&mut f, ch as u32);
    le32(&mut f, rate);
    le32(&mut f, rate.wrapping_mul((ch * fmt.bytes()) as u32));
    le16(&mut f, (ch * fmt.bytes()) as u32);
    le16(&mut f, fmt.bytes() as u32 * 8);
    if ext {
        le16(&mut f, 22);
        le16(&mut f, fmt.bytes() as u32 * 8);
        le32(&mut f, ((1u64 << ch) - 1) as u32);
        f.extend([if float { 3 } else { 1 }, 0, 0, 0, 0, 0, 0x10, 0, 0x80, 0, 0, 0xAA, 0, 0x38, 0x9B, 0x71]);
    } else if float && extra & 16 != 0 {
        le16(&mut f, 0);
    }
    if extra & 1 != 0 {
        // of an odd length
        let r = chunk(&mut b, b"junk", &[7; 13]);
        im.skipped.push(r);
    }
    chunk(&mut b, b"fmt ", &f);
    if extra & 2 != 0 {
        chunk(&mut b, b"fact", &(frames as u32).to_le_bytes());
    }
    if extra & 4 != 0 {
        let mut l = b"INFO".to_vec();
        let r = chunk(&mut l, b"INAM", b"a name\0\0");
        let at = chunk(&mut b, b"LIST", &l);
        im.skipped.push(at.start + r.start..at.start + r.end);
    }
    let r = chunk(&mut b, b"data", &data);
    im.end = r.end;
    im.pcm.push(r);
    if extra & 32 != 0 {
        let r = chunk(&mut b, b"note", &[9; 37]);
        im.skipped.push(r.start - 8..r.end);
    }
    let l = b.len() as u32 - 8;
    b[4..8].copy_from_slice(&l.to_le_bytes());
    im.bytes = b;
    im
}
struct Bits {
    v: Vec<u8>,
    acc: u64,
    n: u32,
}
impl Bits {
    fn put(&mut self, x: i64, n: u32) {
        for i in (0..n).rev() {
            self.acc = self.acc << 1 | (x >> i & 1) as u64;
            self.n += 1;
            if self.n == 8 {
                self.v.push(self.acc as u8);
                self.acc = 0;
                self.n = 0;
            }
        }
    }
    fn align(&mut self) {
        while self.n != 0 {
            self.put(0, 1);
        }
    }
}
fn crc8(b: &[u8]) -> u8 {
    b.iter().fold(0u8, |mut c, x| {
        c ^= x;
        for _ in 0..8 {
            c = if c & 0x80 != 0 { c << 1 ^ 7 } else { c << 1 };
        }
        c
    })
}
fn crc16(b: &[u8]) -> u16 {
    b.iter().fold(0u16, |mut c, x| {
        c ^= (*x as u16) << 8;
        for _ in 0..8 {
            c = if c & 0x8000 != 0 { c << 1 ^ 0x8005 } else { c << 1 };
        }
        c
    })
}
fn utf8(mut x: u64, v: &mut Bits) {
    if x < 0x80 {
        v.put(x as i64, 8);
        return;
    }
    let mut tail = vec![];
    let mut lead = 6;
    while x >= 1 << lead {
        tail.push(x & 0x3F | 0x80);
        x >>= 6;
        lead -= 1;
    }
    v.put(((0xFFu64 << (lead + 1)) & 0xFF | x) as i64, 8);
    for t in tail.iter().rev() {
        v.put(*t as i64, 8);
    }
}
/// FLAC with uncompressed and constant subframes. `sizes`: frames in each block.
fn flac(bits: u32, ch: usize, rate: u32, sizes: &[usize], variable: bool, seed: u64, extra: i64) -> Image {
    let mut r = Rng::new(seed);
    let mut im = Image { rate, ch, ..Default::default() };
    let total: usize = sizes.iter().sum();
    let max = sizes.iter().copied().max().unwrap_or(16).max(16);
    // the same size means that all blocks are numbered
    let (min, max) = if variable { (16, max.max(17)) } else { (max, max) };
    let mut b = Bits { v: b"fLaC".to_vec(), acc: 0, n: 0 };
    let more = extra & 1 != 0;
    b.put(if more { 0 } else { 0x80 }, 8);
    b.put(34, 24);
    b.put(min as i64, 16);
    b.put(max as i64, 16);
    b.put(0, 24);
    b.put(0, 24);
    b.put(rate as i64, 20);
    b.put(ch as i64 - 1, 3);
    b.put(bits as i64 - 1, 5);
    b.put(if extra & 2 != 0 { 0 } else { total as i64 }, 36);
    for _ in 0..4 {
        b.put(0, 32);
    }
    if more {
        // padding
        b.put(0x81, 8);
        b.put(21, 24);
        let s = b.v.len();
        for _ in 0..21 {
            b.put(0, 8);
        }
        im.skipped.push(s..b.v.len());
    }
    let mut pos = 0u64;
    for (k, &n) in sizes.iter().enumerate() {
        let start = b.v.len();
        let odd = extra & 4 != 0 && k == sizes.len() / 2;
        b.put(if variable { 0xFFF9 } else { 0xFFF8 }, 16);
        b.put(7, 4);
        // another sample rate in the middle of the file
        b.put(if odd { if rate == 8000 { 5 } else { 4 } } else { 0 }, 4);
        let fch = ch;
        b.put(fch as i64 - 1, 4);
        b.put(0, 4);
        utf8(if variable { pos } else { k as u64 }, &mut b);
        b.put(n as i64 - 1, 16);
        let c = crc8(&b.v[start..]);
        b.put(c as i64, 8);
        let scale = (1i64 << (bits - 1)) as f64;
        let mut vals = vec![0.0; n * fch];
        let wide = |r: &mut Rng| {
            let x = r.u64() as i64;
            match r.below(8) {
                0 => (1i64 << (bits - 1)) - 1,
                1 => -(1i64 << (bits - 1)),
                _ => x >> (64 - bits),
            }
        };
        for c in 0..fch {
            if r.chance(1, 6) {
                b.put(0, 8);
                let x = wide(&mut r);
                b.put(x, bits);
                for i in 0..n {
                    vals[i * fch + c] = x as f64 / scale;
                }
            } else {
                b.put(2, 8);
                for i in 0..n {
                    let x = wide(&mut r);
                    b.put(x, bits);
                    vals[i * fch + c] = x as f64 / scale;
                }
            }
        }
        b.align();
        let c = crc16(&b.v[start..]);
        b.put(c as i64, 16);
        im.mixed |= odd;
        im.blocks.push((start..b.v.len(), vals));
        pos += n as u64;
    }
    im.end = b.v.len();
    im.bytes = b.v;
    im
}
fn el(v: &mut Vec<u8>, id: &[u8], data: &[u8]) -> usize {
    v.extend(id);
    v.extend((0x0100_0000_0000_0000u64 | data.len() as u64).to_be_bytes());
    v.extend(data);
    v.len() - data.len()
}
/// Matroska with several tracks, whose packets are interleaved. The audio is the blocks of a FLAC file.
fn mkv(f: &Image, extra: i64) -> Image {
    let (rate, ch) = (f.rate, f.ch);
    let mut im = Image { rate, ch, fragile: true, ..Default::default() };
    let mut b = vec![];
    let mut h = vec![];
    el(&mut h, &[0x42, 0x86], &[1]);
    el(&mut h, &[0x42, 0xF7], &[1]);
    el(&mut h, &[0x42, 0xF2], &[4]);
    el(&mut h, &[0x42, 0xF3], &[8]);
    el(&mut h, &[0x42, 0x82], b"matroska");
    el(&mut h, &[0x42, 0x87], &[4]);
    el(&mut h, &[0x42, 0x85], &[2]);
    el(&mut b, &[0x1A, 0x45, 0xDF, 0xA3], &h);
    let mut seg = vec![];
    let mut info = vec![];
    el(&mut info, &[0x2A, 0xD7, 0xB1], &1_000_000u32.to_be_bytes());
    el(&mut seg, &[0x15, 0x49, 0xA9, 0x66], &info);
    let mut tracks = vec![];
    let track = |n: u8, kind: u8, codec: &[u8], private: &[u8], ch: usize, rate: f64| {
        let mut t = vec![];
        el(&mut t, &[0xD7], &[n]);
        el(&mut t, &[0x73, 0xC5], &[n]);
        el(&mut t, &[0x83], &[kind]);
        el(&mut t, &[0x86], codec);
        if !private.is_empty() {
            el(&mut t, &[0x63, 0xA2], private);
        }
        if kind == 2 {
            let mut a = vec![];
            el(&mut a, &[0xB5], &rate.to_be_bytes());
            el(&mut a, &[0x9F], &[ch as u8]);
            el(&mut t, &[0xE1], &a);
        }
        let mut o = vec![];
        el(&mut o, &[0xAE], &t);
        o
    };
    // a track which can't be decoded comes first
    if extra & 8 != 0 {
        tracks.extend(track(5, 1, b"V_UNCOMPRESSED", b"", 0, 0.0));
    }
    if extra & 16 != 0 {
        tracks.extend(track(6, 2, b"A_UNKNOWN", b"", 1, 48000.0));
    }
    let mut private = f.bytes[..42].to_vec();
    private[4] |= 0x80;
    tracks.extend(track(1, 2, b"A_FLAC", &private, ch, rate as f64));
    // another one which could be decoded
    if extra & 32 != 0 {
        tracks.extend(track(2, 2, b"A_FLAC", &private, ch, rate as f64));
    }
    el(&mut seg, &[0x16, 0x54, 0xAE, 0x6B], &tracks);
    let per = 1 + (extra as usize >> 4) % 4;
    let mut ranges = vec![];
    let mut skipped = vec![];
    let mut pos = 0usize;
    for group in f.blocks.chunks(per) {
        let mut cl = vec![];
        let ts = (pos as u64 * 1000 / rate as u64) as u32;
        el(&mut cl, &[0xE7], &ts.to_be_bytes());
        let mut cr = vec![];
        let mut cs = vec![];
        for (r, v) in group {
            let t = (pos as u64 * 1000 / rate as u64) as u32 - ts;
            let block = |track: u8, d: &[u8], cl: &mut Vec<u8>| {
                let mut s = vec![0x80 | track];
                s.extend((t as i16).to_be_bytes());
                s.push(0x80);
                s.extend(d);
                let p = el(cl, &[0xA3], &s);
                p + 4..p + 4 + d.len()
            };
            if extra & 8 != 0 {
                cs.push(block(5, &[1; 20], &mut cl));
            }
            if extra & 32 != 0 {
                let x = block(2, &f.bytes[f.blocks[f.blocks.len() / 2].0.clone()], &mut cl);
                cs.push(x);
            }
            cr.push(block(1, &f.bytes[r.clone()], &mut cl));
            if extra & 16 != 0 {
                cs.push(block(6, &[5; 9], &mut cl));
            }
            pos += v.len() / ch;
        }
        let p = el(&mut seg, &[0x1F, 0x43, 0xB6, 0x75], &cl);
        ranges.extend(cr.into_iter().map(|r| r.start + p..r.end + p));
        skipped.extend(cs.into_iter().map(|r| r.start + p..r.end + p));
    }
    let p = el(&mut b, &[0x18, 0x53, 0x80, 0x67], &seg);
    im.blocks = ranges.into_iter().map(|r| r.start + p..r.end + p).zip(f.blocks.iter().map(|b| b.1.clone())).collect();
    im.skipped = skipped.into_iter().map(|r| r.start + p..r.end + p).collect();
    im.end = im.blocks.last().map(|r| r.0.end).unwrap_or(b.len());
    im.mixed = f.mixed;
    im.bytes = b;
    im
}

// ---- runs

/// A buffer of the code under test and the samples it must contain
struct Cur<F: Float> {
    buf: Arc<Buffer<F>>,
    v: Vec<F>,
    ch: usize,
    rate: f64,
}
struct W<F: Float> {
    im: Option<Image>,
    path: std::path::PathBuf,
    cur: Option<Cur<F>>,
    o: Outcome,
    viol: Option<(&'static str, String)>,
    h: u64,
    f64: bool,
}
fn bits<F: Float>(x: F) -> u64 {
    let f = x.to_f64();
    if f.is_nan() { 1 } else { f.to_bits() }
}
/// `stored` was read as `got`
fn same<F: Float>(got: F, stored: f64) -> bool {
    let g = got.to_f64();
    if stored.is_nan() {
        return g.is_nan();
    }
    let e = stored as f32 as f64;
    g == e || (g - stored).abs() <= stored.abs() * 1e-7
}
impl<F: Float> W<F> {
    fn fail(&mut self, d: String) {
        let d = d.replace(&*self.path.parent().unwrap().to_string_lossy(), "");
        self.viol.get_or_insert(("file", d));
    }
    fn write_image(&mut self) {
        let b = &self.im.as_ref().unwrap().bytes;
        std::fs::write(&self.path, b).unwrap();
    }
    /// Everything which can be read from a buffer without knowing what is in it
    fn contents(&mut self, b: &Buffer<F>) -> Option<Vec<F>> {
        let n = b.num_frames();
        let ch = b.num_channels();
        if ch == 0 || n < 0.0 || n.fract() != 0.0 || !n.is_finite() {
            self.fail(format!("a buffer of {n} frames and {ch} channels"));
            return None;
        }
        let mut v = vec![];
        for i in 0..n as usize {
            v.extend_from_slice(b.get_interleaved(i));
        }
        Some(v)
    }
    fn load(&mut self, plan: IoPlan, what: i64) {
        IO.with(|io| *io.borrow_mut() = IoState { plan, ..Default::default() });
        let dir = self.path.parent().unwrap().to_path_buf();
        let path = match what {
            1 => dir.join("missing.wav"),
            2 => dir.clone(),
            3 => dir.join("missing").join("x.wav"),
            4 => std::path::PathBuf::new(),
            _ => self.path.clone(),
        };
        if what == 0 && self.im.is_none() {
            return;
        }
        let r = sut(|| Buffer::<F>::from_sound_file(path));
        let io = IO.with(|io| std::mem::take(&mut *io.borrow_mut()));
        let o = &mut self.o;
        o.evals += 1;
        o.faultn("read_error", io.eio);
        o.faultn("read_interrupted", io.eintr);
        o.faultn("read_short", io.short);
        o.faultn("file_shrinks", io.eof);
        o.faultn("seek_error", io.seekerr);
        o.frames += io.bytes;
        o.blocks += io.reads;
        self.h = hash(&[self.h, r.is_ok() as u64, what as u64]);
        if (1..=4).contains(&what) {
            self.o.fault("path");
            if r.is_ok() {
                self.fail(format!("loading something which isn't a file ({what}) succeeded"));
            }
            return;
        }
        let im = self.im.clone().unwrap();
        let intact = !im.header && !im.data && im.cut.is_none() && !im.junk;
        let failing = io.eio + io.seekerr > 0;
        let shrunk = if io.eof > 0 { plan.eof.map(|e| e as usize) } else { None };
        let b = match r {
            Ok(b) => b,
            Err(e) => {
                // errors can be shown
                let _ = format!("{e} {e:?}");
                // A file which isn't seekable may need more than that to be understood
                let empty = im.expect.is_empty();
                if intact && !failing && shrunk.is_none() && !im.mixed && !plan.noseek && !empty {
                    self.fail(format!("loading an intact file failed: {e}"));
                }
                return;
            }
        };
        let Some(v) = self.contents(&b) else { return };
        for x in &v {
            self.h = hash(&[self.h, bits(*x)]);
        }
        self.o.faultn("loaded_frames", v.len() as u64);
        let known = !im.header;
        if known {
            if b.num_channels() != im.ch || b.sample_rate() != im.rate as f64 {
                self.fail(format!("{} channels at {}, the file has {} at {}", b.num_channels(), b.sample_rate(), im.ch, im.rate));
                return;
            }
            let stop = shrunk.unwrap_or(usize::MAX).min(im.bytes.len());
            if im.blocks.is_empty() {
                let e = if im.fmt.is_some() {
                    let mut s = im.clone();
                    s.bytes.truncate(stop);
                    s.values()
                } else {
                    vec![]
                };
                let whole = im.values();
                self.o.evals += v.len() as u64;
                if v.len() > e.len() {
                    self.fail(format!("{} samples, the file contains {}", v.len(), e.len()));
                } else if let Some(i) = (0..v.len()).find(|&i| !same(v[i], e[i])) {
                    self.fail(format!("sample {i} is {}, the file contains {}", v[i].to_f64(), e[i]));
                } else if v.len() < whole.len() && im.cut.is_none() && shrunk.is_none() {
                    self.fail(format!("{} samples without an error, the file contains {}", v.len(), whole.len()));
                }
            } else {
                // blocks which are complete and intact, in order
                let mut at = 0;
                let mut skipped = 0;
                for (k, (r, e)) in im.blocks.iter().enumerate() {
                    let fits = v.len() - at >= e.len() && (0..e.len()).all(|i| same(v[at + i], e[i]));
                    let there = r.end <= stop;
                    let hurt = !there || im.bytes[r.clone()] != self_block(&im, k)[..];
                    // only (a part of) the checksum behind the samples is missing
                    let but_sum = !there && r.end - stop <= 2 && im.bytes[r.start..stop] == self_block(&im, k)[..stop - r.start];
                    if fits && !e.is_empty() && (but_sum || there && !hurt) {
                        at += e.len();
                        self.o.evals += 1;
                    } else {
                        skipped += 1;
                        if !hurt && intact && shrunk.is_none() && !im.mixed {
                            self.fail(format!("block {k} is missing or wrong ({} of {} samples)", v.len(), im.expect.len()));
                            return;
                        }
                    }
                }
                if at < v.len() {
                    if std::env::var("KNSIM_LOG").is_ok() {
                        for (k, (r, e)) in im.blocks.iter().enumerate() {
                            eprintln!("block {k} at {r:?} stop {stop} {e:?}");
                        }
                        eprintln!("{:?}", v[at..].iter().map(|x| (*x).to_f64()).collect::<Vec<f64>>());
                    }
                    self.fail(format!("{} samples which aren't in the file at {at} ({skipped} blocks skipped)", v.len() - at));
                } else if failing && skipped > 0 && intact && shrunk.is_none() && !im.mixed {
                    self.fail(format!("{skipped} blocks skipped after a read error"));
                }
            }
        }
        self.cur = Some(Cur { ch: b.num_channels(), rate: b.sample_rate(), v, buf: Arc::new(b) });
    }
    fn save(&mut self, limit: Option<u64>, how: i64) {
        let Some(c) = &self.cur else { return };
        let (buf, v, ch, rate) = (c.buf.clone(), c.v.clone(), c.ch, c.rate);
        let whole = v.len() % ch == 0;
        // which can be written in a wave file
        if ch > 64 || rate > 1e6 {
            return;
        }
        let dir = self.path.parent().unwrap().to_path_buf();
        let p = match how {
            1 => dir.join("missing").join("x.wav"),
            2 => dir.clone(),
            // over another file
            3 => {
                std::fs::write(dir.join("saved.wav"), vec![0x55u8; v.len() * 2 + 4000]).unwrap();
                dir.join("saved.wav")
            }
            _ => dir.join("saved.wav"),
        };
        let r = with_limit(limit, || sut(|| buf.save_to_disk(p.clone())));
        // the size of the header depends on the format
        let need = 44 + v.len() as u64 * 2;
        let fault = matches!(how, 1 | 2) || limit.is_some_and(|l| l < need);
        let enough = !matches!(how, 1 | 2) && limit.is_none_or(|l| l > need + 60);
        self.o.evals += 1;
        if limit.is_some_and(|l| l < need) {
            self.o.fault("disk_full");
        }
        if matches!(how, 1 | 2) {
            self.o.fault("path");
        }
        self.h = hash(&[self.h, r.is_ok() as u64]);
        match &r {
            Err(e) => {
                let _ = format!("{e} {e:?}");
                // the header has limits of its own
                if enough && whole {
                    self.fail(format!("saving failed: {e}"));
                    return;
                }
            }
            Ok(()) if fault => {
                self.fail(format!("saving {} samples reported success although only {limit:?} bytes could be written", v.len()));
                return;
            }
            _ => (),
        }
        if matches!(how, 1 | 2) {
            return;
        }
        IO.with(|io| *io.borrow_mut() = IoState::default());
        let b = sut(|| Buffer::<F>::from_sound_file(p));
        let ok = r.is_ok();
        match b {
            Ok(b) => {
                let Some(l) = self.contents(&b) else { return };
                if ok && (b.num_channels() != ch || b.sample_rate() != rate.trunc()) {
                    self.fail(format!("saved {ch} channels at {rate}, loaded {} at {}", b.num_channels(), b.sample_rate()));
                }
                if l.len() > v.len() || ok && whole && l.len() != v.len() {
                    self.fail(format!("saved {} samples, loaded {}", v.len(), l.len()));
                    return;
                }
                self.o.evals += l.len() as u64;
                for i in 0..l.len() {
                    let x = v[i].to_f64();
                    if x.is_nan() {
                        continue;
                    }
                    let d = (l[i].to_f64() - x.clamp(-1.0, 1.0)).abs();
                    if !(d <= 2.5 / 32768.0) {
                        self.fail(format!("sample {i} was saved as {x} and loaded as {}", l[i].to_f64()));
                        return;
                    }
                    self.h = hash(&[self.h, bits(l[i])]);
                }
            }
            Err(e) => {
                if ok && !v.is_empty() {
                    self.fail(format!("loading a file which was saved failed: {e}"));
                }
            }
        }
    }
    fn play(&mut self, a: &[i64]) {
        if self.cur.is_none() {
            return;
        }
        match a[0].rem_euclid(3) {
            0 => self.play_n::<U1>(a, 1),
            1 => self.play_n::<U2>(a, 2),
            _ => self.play_n::<U3>(a, 3),
        }
    }
    /// channels, rate (in eighths, or anything if exact is 0), looping, start (frames), length (frames, 0: all),
    /// frames to play, block size, exact, sample rate ratio, restart at
    fn play_n<N: knaster_core::Size + 'static>(&mut self, a: &[i64], n: usize)
    where
        BufferReader<F, N>: UGen<Sample = F, Inputs = U0, Outputs = N>,
    {
        let c = self.cur.as_ref().unwrap();
        let (buf, v, ch) = (c.buf.clone(), c.v.clone(), c.ch);
        let total = v.len() / ch;
        let exact = a[7] != 0;
        let sr = if exact || a[8] == 0 { c.rate.clamp(1.0, 4e9) as u32 } else { a[8].clamp(1, 1_000_000) as u32 };
        let rate = if exact { a[1] as f64 / 8.0 } else { a[1] as f64 * 1e-4 };
        let looping = a[2] != 0;
        let frames = a[5].clamp(1, 20000) as usize;
        let bs = a[6].clamp(1, 512) as usize;
        // exactly on a frame, or far from it, so that rounding of times does not matter
        let off = if seed_bit(a) { 1.0 / 16.0 } else { 0.0 };
        let start = if a[3] <= 0 { 0.0 } else { a[3] as f64 + off };
        let length = if a[4] <= 0 && start == 0.0 { total as f64 } else { (if a[4] <= 0 { total.max(1) as f64 } else { a[4] as f64 }) - off * 7.5 };
        let crate_ = c.rate;
        let flagged = a[9];
        let mut u: Box<dyn crate::ugens::Dyn<F>> = sut(|| {
            let mut u = BufferReader::<F, N>::new(buf, rate, looping);
            if a[3] > 0 {
                u = u.start_at(knaster_core::Seconds::from_secs_f64(start / crate_));
            }
            Box::new(u) as _
        });
        sut(|| u.init(sr, bs));
        let mut ctx = AudioCtx::new(sr, bs, ArLogSender::non_rt());
        let mut flags = UGenFlags::new();
        if a[4] > 0 || start != 0.0 {
            sut(|| u.apply(&mut ctx, 3, ParameterValue::Float(length / crate_)));
        }
        let base = crate_ / sr as f64;
        // with the start of rounded times the position may be off by a little
        let (mut lo, mut hi) = (0.0f64, 0.0f64);
        let mut finite = true;
        for x in &v {
            let x = (*x).to_f64();
            finite &= x.is_finite();
            lo = lo.min(x);
            hi = hi.max(x);
        }
        let slack = (hi - lo) * 1e-4 + 1e-30;
        // times are rounded
        let near = slack * 10.0 + (hi - lo) * crate_ * 1e-8;
        let mut pos = start;
        let mut done: Option<usize> = None;
        let end = start + length;
        let mut at = 0;
        let model = exact && base == 1.0 && finite && rate >= 0.0 && total > 0 && crate_ <= 1e6;
        while at < frames {
            let mut out = VecBlock::<F>::new(n, bs);
            for c in 0..n {
                out.channel_as_slice_mut(c).fill(F::new(77.0));
            }
            let mut meta = knaster_core::BlockMetadata::new(bs);
            meta.set_frame_clock(at as u64);
            ctx.block = meta;
            if flagged > 0 && at == (flagged as usize / bs) * bs && at > 0 {
                sut(|| u.apply(&mut ctx, 5, ParameterValue::Trigger));
                pos = start;
                done = None;
                self.o.fault("restart");
            }
            let inp = VecBlock::<F>::new(0, bs);
            sut(|| alloc::sut_audio(|| u.block(&mut ctx, &mut flags, &inp, &mut out)));
            for i in 0..bs {
                for c in 0..n {
                    let g = out.channel_as_slice(c)[i].to_f64();
                    self.h = hash(&[self.h, if g.is_nan() { 1 } else { g.to_bits() }]);
                    self.o.evals += 1;
                    if finite && !(g >= lo - slack && g <= hi + slack) {
                        self.fail(format!("playing frame {} channel {c}: {g}, the buffer is within {lo}..{hi}", at + i));
                        return;
                    }
                    if c >= ch && g != 0.0 {
                        self.fail(format!("playing frame {} of channel {c}, which the buffer doesn't have: {g}", at + i));
                        return;
                    }
                    if model && c < ch {
                        let e = if done.is_some() {
                            0.0
                        } else {
                            let f = pos as usize;
                            if f >= total {
                                0.0
                            } else {
                                let m = pos.fract();
                                let x = v[f * ch + c].to_f64();
                                let y = v[(f + 1) % total * ch + c].to_f64();
                                x * (1.0 - m) + y * m
                            }
                        };
                        if !((g - e).abs() <= near + 1e-6 * e.abs()) {
                            self.fail(format!("playing frame {} channel {c} at position {pos} of {total}: {g}, expected {e}", at + i));
                            return;
                        }
                    }
                }
                if done.is_none() {
                    pos += base * rate;
                    if pos >= end {
                        if looping {
                            pos = start;
                        } else {
                            done = Some(at + i);
                        }
                    }
                }
            }
            at += bs;
        }
        self.o.faultn("played_frames", at as u64);
        self.o.sim_ns += (at as f64 / sr as f64 * 1e9) as u64;
    }
    fn make(&mut self, kind: i64, frames: usize, ch: usize, rate: f64, seed: u64) {
        let mut r = Rng::new(seed);
        let n = frames * ch + if kind == 3 { r.below(ch as u64) as usize } else { 0 };
        let v: Vec<F> = (0..n)
            .map(|_| match r.below(16) {
                0 => F::new(1.0),
                1 => F::new(-1.0),
                2 => F::new(1.7),
                3 => F::new(-40.0),
                _ => F::new(r.unit() * 2.0 - 1.0),
            })
            .collect();
        let (buf, v, ch) = match kind {
            0 => (sut(|| Buffer::new(frames, ch, rate)), vec![F::ZERO; frames * ch], ch),
            1 => {
                let v = v[..frames].to_vec();
                (sut(|| Buffer::from_vec(v.clone(), rate)), v, 1)
            }
            _ => {
                let b = sut(|| Buffer::from_vec_interleaved(v.clone(), ch, rate));
                (b, v, ch)
            }
        };
        let Some(c) = self.contents(&buf) else { return };
        self.o.evals += 1;
        if c.len() != v.len() / ch * ch || c[..] != v[..c.len()] || buf.num_channels() != ch || buf.sample_rate() != rate {
            self.fail("a buffer does not contain what it was made of".into());
        }
        self.cur = Some(Cur { buf: Arc::new(buf), v, ch, rate });
    }
    /// Single values between frames, at any position inside and outside of the buffer
    fn read(&mut self, seed: u64) {
        let Some(c) = &self.cur else { return };
        let (b, ch) = (c.buf.clone(), c.ch);
        let frames = c.v.len() / ch.max(1);
        let mut r = Rng::new(seed);
        if b.length_seconds() != b.num_frames() / c.rate || b.num_frames() != frames as f64 || b.buf_rate_scale(48000) != c.rate / 48000.0 {
            self.fail(format!("{frames} frames at {} are {} s", c.rate, b.length_seconds()));
            return;
        }
        for _ in 0..24 {
            let most = if r.chance(1, 3) { 4 } else { frames as u64 + 3 };
            let i = match r.below(6) {
                0 => frames.saturating_sub(1) as u64,
                1 if r.chance(1, 8) => 1 << 40,
                _ => r.below(most),
            };
            // exact in f32
            let k = r.below(8);
            let channel = r.below(ch as u64 + 1) as usize;
            let p = i as f64 + k as f64 / 8.0;
            let at = |i: usize| c.v[i * ch + channel].to_f64();
            let (want, big) = if channel >= ch || i as usize >= frames {
                (vec![0.0], 0.0)
            } else {
                let i = i as usize;
                let (x, m) = (at(i), k as f64 / 8.0);
                // the frame after the last one is either the first one again or silence
                let next = if i + 1 < frames { vec![at(i + 1)] } else { vec![at(0), 0.0] };
                let big = next.iter().fold(x.abs(), |m, v| m.max(v.abs()));
                (next.iter().map(|y| x * (1.0 - m) + y * m).collect(), big)
            };
            let f32_index = i < 1 << 20;
            let got = [sut(|| b.get_linear_interp_f64(p, channel)), if f32_index { sut(|| b.get_linear_interp(F::new(p), channel)) } else { F::ZERO }];
            for (n, g) in got.iter().enumerate() {
                if n == 1 && !f32_index {
                    continue;
                }
                let g: f64 = (*g).to_f64();
                let ok = want.iter().any(|w| g == *w || (g - w).abs() <= big * 1e-6 || (g.is_nan() && w.is_nan()));
                self.o.evals += 1;
                if !ok {
                    self.viol.get_or_insert(("file", format!("position {p} of channel {channel} of {ch} in {frames} frames is {g} instead of {want:?} ({})", ["f64", "sample"][n])));
                    return;
                }
            }
        }
    }
    /// The highpass: silence stays silence, a constant fades away, every channel for itself
    fn dc(&mut self) {
        let Some(c) = &mut self.cur else { return };
        let Some(b) = Arc::get_mut(&mut c.buf) else { return };
        sut(|| b.remove_dc());
        let buf = c.buf.clone();
        let ch = c.ch;
        let before = c.v.clone();
        let Some(now) = self.contents(&buf) else { return };
        let tol = if self.f64 { 1e-11 } else { 1e-3 };
        for k in 0..ch {
            let (mut y, mut x1, mut big) = (0.0, 0.0, 0.0f64);
            for i in 0..now.len() / ch {
                let x = before[i * ch + k].to_f64();
                y = y * 0.999 + x - x1;
                x1 = x;
                big = big.max(x.abs());
                let g = now[i * ch + k].to_f64();
                self.o.evals += 1;
                if !((g - y).abs() <= tol * (1.0 + big) || !y.is_finite()) {
                    self.fail(format!("frame {i} of channel {k} of {ch} is {g} after removal of the constant part instead of {y}"));
                    return;
                }
            }
        }
        let c = self.cur.as_mut().unwrap();
        c.v[..now.len()].copy_from_slice(&now);
    }
    fn step(&mut self, o: &Op) {
        let a = |i| o.a(i);
        match o.name.as_str() {
            // ext kind fmt channels rate frames seed extra block
            "wav" | "flac" | "mkv" | "bytes" => {
                let ch = a(3).clamp(1, 8) as usize;
                let rate = a(4).clamp(1, 655349) as u32;
                let frames = a(5).clamp(0, 30000) as usize;
                let seed = a(6) as u64;
                let block = a(8).clamp(16, 8192) as usize;
                let mut sizes = vec![];
                let mut left = frames;
                let mut r = Rng::new(seed ^ 77);
                let variable = a(7) & 64 != 0;
                while left > 0 {
                    let n = if variable { (16 + r.below(block as u64) as usize).min(left) } else { block.min(left) };
                    // blocks have at least 16 frames
                    if n < 16 && o.name != "wav" {
                        break;
                    }
                    sizes.push(n);
                    left -= n;
                }
                let fmt = FMTS[a(2).rem_euclid(6) as usize];
                let mut im = match o.name.as_str() {
                    "wav" => wav(fmt, ch, rate, frames, seed, a(7)),
                    "flac" => flac([8, 16, 24][a(2).rem_euclid(3) as usize], ch, rate, &sizes, variable, seed, a(7)),
                    "mkv" => mkv(&flac([8, 16, 24][a(2).rem_euclid(3) as usize], ch, rate, &sizes, variable, seed, a(7)), a(7)),
                    _ => {
                        let mut b: Vec<u8> = (0..frames).map(|_| r.u64() as u8).collect();
                        // something which looks like the start of a file
                        let magic: [&[u8]; 8] =
                            [b"", b"RIFF", b"RIFF\xff\xff\xff\xffWAVEfmt ", b"fLaC", b"OggS\0\x02", b"ID3\x04\0\0\0\0\x0fv", b"\xff\xfb\x90\x64", b"RIFF\0\0\0\0WAVEdata\x10\0\0\0"];
                        let m = magic[a(2).rem_euclid(8) as usize];
                        b.splice(0..0, m.iter().copied());
                        Image { bytes: b, header: true, ch: 1, rate, ..Default::default() }
                    }
                };
                im.expect = if im.fmt.is_some() { im.values() } else { im.blocks.iter().flat_map(|b| b.1.clone()).collect() };
                ORIG.with(|x| *x.borrow_mut() = im.bytes.clone());
                let ext = match a(0) {
                    0 => ["wav", "flac", "mkv", "ogg"][match o.name.as_str() {
                        "wav" => 0,
                        "flac" => 1,
                        "mkv" => 2,
                        _ => 3,
                    }],
                    1 => "mp3",
                    2 => "wav",
                    3 => "txt",
                    _ => "",
                };
                let dir = self.path.parent().unwrap().to_path_buf();
                self.path = if ext.is_empty() { dir.join("sound") } else { dir.join(format!("sound.{ext}")) };
                self.im = Some(im);
                self.write_image();
            }
            // damage on the storage
            "flip" | "zero" | "cut" | "junk" => {
                let Some(mut im) = self.im.take() else { return };
                let len = im.bytes.len();
                if len > 0 {
                    let at = a(0).rem_euclid(len as i64) as usize;
                    let before = im.bytes.clone();
                    let r = match o.name.as_str() {
                        "flip" => {
                            im.bytes[at] ^= 1 << a(1).rem_euclid(8);
                            self.o.fault("bit_flip");
                            at..at + 1
                        }
                        "zero" => {
                            let e = (at + a(1).clamp(1, 5000) as usize).min(len);
                            im.bytes[at..e].fill(0);
                            self.o.fault("zeroed_sector");
                            at..e
                        }
                        "cut" => {
                            im.bytes.truncate(at);
                            self.o.fault("truncated");
                            im.cut = Some(im.cut.unwrap_or(usize::MAX).min(at));
                            0..0
                        }
                        _ => {
                            let mut r = Rng::new(a(1) as u64);
                            for _ in 0..a(2).clamp(1, 5000) {
                                im.bytes.push(r.u64() as u8);
                            }
                            self.o.fault("junk_appended");
                            im.junk = true;
                            0..0
                        }
                    };
                    if im.fragile && !(o.name == "cut" || o.name != "junk" && r.clone().all(|i| im.skipped.iter().any(|p| p.contains(&i)))) {
                        im.bytes = before;
                        self.im = Some(im);
                        return;
                    }
                    for i in r {
                        if im.pcm.iter().any(|p| p.contains(&i)) || im.blocks.iter().any(|b| b.0.contains(&i)) {
                            im.data = true;
                        } else if im.skipped.iter().any(|p| p.contains(&i)) {
                        } else {
                            im.header = true;
                        }
                    }
                    // junk behind the place where a file was cut takes the place of what is missing
                    if im.junk && im.cut.is_some() {
                        im.header = true;
                    }
                }
                self.im = Some(im);
                self.write_image();
            }
            // what short eio eio_once eintr eof noseek seekerr
            "load" => {
                let opt = |i: usize| if a(i) > 0 { Some(a(i) as u64 - 1) } else { None };
                let plan = IoPlan { short: a(1).max(0) as u64, eio: opt(2), eio_once: a(3) != 0, eintr: if a(4) > 0 { a(4) as u64 + 1 } else { 0 }, eof: opt(5), noseek: a(6) != 0, seekerr: a(7) != 0 };
                self.load(plan, a(0));
            }
            "make" => self.make(a(0).rem_euclid(4), a(1).clamp(0, 20000) as usize, a(2).clamp(1, 8) as usize, a(3).clamp(1, 400_000) as f64, a(4) as u64),
            "save" => self.save(if a(0) > 0 { Some(a(0) as u64 - 1) } else { None }, a(1)),
            "read" => self.read(a(0) as u64),
            "dc" => self.dc(),
            "play" => {
                let mut v = o.args.clone();
                v.resize(10, 0);
                self.play(&v);
            }
            _ => (),
        }
    }
}
thread_local! {
    static ORIG: RefCell<Vec<u8>> = const { RefCell::new(vec![]) };
}
/// The bytes of a block before damage
fn self_block(im: &Image, k: usize) -> Vec<u8> {
    ORIG.with(|o| o.borrow()[im.blocks[k].0.clone()].to_vec())
}
fn run_f<F: Float>(t: &Trace) -> Outcome {
    knaster_core_dsp::dsp::buffer::sim_set_sound_file_source(open);
    let dir = scratch();
    let _ = std::fs::create_dir_all(&dir);
    alloc::quarantine_start();
    let r = std::panic::catch_unwind(|| {
        let mut w = W::<F> { im: None, path: dir.join("sound"), cur: None, o: Outcome::default(), viol: None, h: 0, f64: std::mem::size_of::<F>() == 8 };
        for o in &t.steps {
            w.step(o);
            if std::env::var("KNSIM_TRACE").is_ok() {
                eprintln!("after {}", o.text());
            }
            if w.viol.is_some() {
                break;
            }
        }
        if let Some(v) = w.viol.take() {
            w.o.violation = Some(Violation { class: v.0, detail: v.1 });
        }
        w.o.hash = w.h;
        let _ = w.f64;
        std::mem::take(&mut w.o)
    });
    let c = alloc::quarantine_end();
    let _ = std::fs::remove_dir_all(&dir);
    let mut o = match r {
        Ok(o) => o,
        Err(_) => Outcome { violation: Some(Violation { class: "panic", detail: crate::panic_message() }), abandoned: true, ..Default::default() },
    };
    if o.violation.is_none() && c.0 + c.1 > 0 {
        o.violation = Some(Violation { class: "corrupt", detail: format!("{} writes beyond an allocation, {} writes to freed memory", c.0, c.1) });
    }
    if o.violation.is_none() && alloc::AUDIO_ALLOCS.load(std::sync::atomic::Ordering::Relaxed) > 0 {
        o.violation = Some(Violation { class: "file", detail: "playing a buffer allocates".into() });
    }
    let mut h = 0;
    for s in &t.steps {
        for b in s.text().bytes() {
            h = hash(&[h, b as u64]);
        }
    }
    o.inter = h;
    o.hash = hash(&[o.hash, h]);
    o.points = t.size() as u64;
    o
}
pub fn run(t: &Trace) -> Outcome {
    if t.get("f64", 0) != 0 { run_f::<f64>(t) } else { run_f::<f32>(t) }
}
pub fn generate(prop: &str, seed: u64) -> Trace {
    let mut r = Rng::new(hash(&[seed, 0xF11E]));
    let mut t = Trace { prop: prop.into(), engine: "file".into(), seed, ..Default::default() };
    t.set("f64", r.chance(1, 2) as i64);
    let play = |r: &mut Rng, frames: i64| {
        let exact = r.chance(2, 3) as i64;
        let rate = if exact != 0 { *r.pick(&[8, 8, 8, 4, 16, 1, 24, 7, 0]) } else { *r.pick(&[10000i64, 5000, 27183, 300, 100000, 0, 12345]) };
        let start = if r.chance(1, 2) { 0 } else { r.below(frames as u64 + 4) as i64 };
        let length = if r.chance(1, 2) { 0 } else { 1 + r.below(frames as u64 + 20) as i64 };
        let sr = if r.chance(1, 2) { 0 } else { *r.pick(&[8000, 44100, 48000, 22050, 1, 192000]) };
        let n = (frames + 50).min(400 + r.below(1000) as i64);
        let restart = if r.chance(1, 3) { r.below(n as u64) as i64 } else { 0 };
        let most = if r.chance(1, 3) { 4 } else { 100 };
        let bs = 1 + r.below(most) as i64;
        Op::new("play", &[r.below(3) as i64, rate, r.chance(1, 3) as i64, start, length, n, bs, exact, sr, restart])
    };
    for _ in 0..1 + r.below(3) {
        if r.chance(1, 5) {
            let frames = [0, 1, 2, 3, r.below(50), r.below(3000), r.below(10000)][r.below(7) as usize] as i64;
            let rate = *r.pick(&[8000, 44100, 48000, 1, 96000]);
            t.steps.push(Op::new("make", &[r.below(4) as i64, frames, 1 + r.below(8) as i64, rate, r.below(1 << 40) as i64]));
            let by_hand = |r: &mut Rng, t: &mut Trace| {
                if r.chance(1, 3) {
                    t.steps.push(Op::new("read", &[r.below(1 << 40) as i64]));
                }
                if r.chance(1, 6) {
                    t.steps.push(Op::new("dc", &[]));
                }
            };
            by_hand(&mut r, &mut t);
            for _ in 0..1 + r.below(3) {
                t.steps.push(play(&mut r, frames));
            }
            by_hand(&mut r, &mut t);
            for _ in 0..r.below(3) {
                let limit = match r.below(3) {
                    0 => 0,
                    1 => 1 + r.below(200) as i64,
                    _ => 1 + r.below(frames as u64 * 4 + 100) as i64,
                };
                t.steps.push(Op::new("save", &[limit, r.below(12) as i64]));
            }
            continue;
        }
        let kind = *r.pick(&["wav", "wav", "flac", "flac", "mkv", "bytes"]);
        let frames = match r.below(8) {
            0 => r.below(4),
            1 => r.below(12000),
            _ => 1 + r.below(1500),
        } as i64;
        let ch = if r.chance(1, 2) { 1 + r.below(2) } else { 1 + r.below(8) } as i64;
        let rate = *r.pick(&[8000, 44100, 48000, 96000, 11025, 1000, 192000]);
        let ext = if r.chance(3, 4) { 0 } else { r.below(5) as i64 };
        let block = *r.pick(&[16, 17, 192, 576, 1152, 4096]);
        let mut extra = r.below(256) as i64;
        if kind == "flac" && !r.chance(1, 8) {
            extra &= !4;
        }
        t.steps.push(Op::new(kind, &[ext, 0, r.below(30) as i64, ch, rate, frames, r.below(1 << 40) as i64, extra, block]));
        let load = |r: &mut Rng| {
            let mut a = [0i64; 8];
            if r.chance(1, 3) {
                let most = if r.chance(1, 2) { 5 } else { 3000 };
                a[1] = 1 + r.below(most) as i64;
            }
            let at = |r: &mut Rng| {
                let most = if r.chance(1, 2) { 200 } else { (frames * ch * 3) as u64 + 60 };
                1 + r.below(most) as i64
            };
            match r.below(10) {
                0 => {
                    a[2] = at(r);
                    a[3] = r.chance(1, 2) as i64;
                }
                1 => a[4] = 1 + r.below(6) as i64,
                2 => a[5] = at(r),
                3 => a[6] = 1,
                4 => a[7] = 1,
                _ => (),
            }
            Op::new("load", &a)
        };
        if r.chance(1, 12) {
            t.steps.push(Op::new("load", &[1 + r.below(4) as i64]));
        }
        if r.chance(2, 3) {
            let o = load(&mut r);
            t.steps.push(o);
        }
        // damage
        for _ in 0..r.below(4) {
            let size = (frames * ch * 3) as u64 + 100;
            let at = if r.chance(1, 3) { r.below(120) } else { r.below(size) } as i64;
            let o = match r.below(6) {
                0 | 1 => Op::new("cut", &[at]),
                2 | 3 => Op::new("flip", &[at, r.below(8) as i64]),
                4 => {
                    let most = if r.chance(1, 2) { 8 } else { 600 };
                    Op::new("zero", &[at, 1 + r.below(most) as i64])
                }
                _ => Op::new("junk", &[0, r.below(1 << 30) as i64, 1 + r.below(300) as i64]),
            };
            t.steps.push(o);
            if r.chance(3, 4) {
                let o = load(&mut r);
                t.steps.push(o);
            }
            if r.chance(1, 4) {
                t.steps.push(play(&mut r, frames));
            }
        }
        if r.chance(1, 2) {
            t.steps.push(Op::new("load", &[0]));
        }
        for _ in 0..r.below(3) {
            t.steps.push(play(&mut r, frames));
        }
        if r.chance(1, 4) {
            let limit = if r.chance(1, 2) { 0 } else { 1 + r.below((frames * ch * 3) as u64 + 100) as i64 };
            t.steps.push(Op::new("save", &[limit, r.below(12) as i64]));
        }
    }
    t
}

/// Anything that depends on the arguments
fn seed_bit(a: &[i64]) -> bool {
    hash(&[a[3] as u64, a[5] as u64]) & 1 == 1
}
