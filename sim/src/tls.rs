//! Model TLS 1.3 server, ClientHello parser, certificate builder and the network attacker.

use crate::crypto::*;
use crate::plan::*;
use crate::source::{expand, Rng};
use std::sync::OnceLock;

// ------------------------------------------------------------------ ClientHello

#[derive(Clone, Debug, Default)]
pub struct Ch {
    pub raw: Vec<u8>,
    pub random: Vec<u8>,
    pub sid: Vec<u8>,
    pub suites: Vec<u16>,
    pub comp: Vec<u8>,
    pub exts: Vec<(u16, Vec<u8>)>,
    pub sni: Option<Vec<u8>>,
    pub alpn: Option<Vec<Vec<u8>>>,
    pub groups: Vec<u16>,
    pub sig_algs: Vec<u16>,
    pub versions: Vec<u16>,
    pub shares: Vec<(u16, Vec<u8>)>,
}

pub struct Rd<'a>(pub &'a [u8]);
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    pub fn u8(&mut self) -> Option<usize> {
        self.take(1).map(|b| b[0] as usize)
    }
    pub fn u16(&mut self) -> Option<usize> {
        self.take(2).map(|b| (b[0] as usize) << 8 | b[1] as usize)
    }
    pub fn u24(&mut self) -> Option<usize> {
        self.take(3).map(|b| (b[0] as usize) << 16 | (b[1] as usize) << 8 | b[2] as usize)
    }
    pub fn vec8(&mut self) -> Option<&'a [u8]> {
        let n = self.u8()?;
        self.take(n)
    }
    pub fn vec16(&mut self) -> Option<&'a [u8]> {
        let n = self.u16()?;
        self.take(n)
    }
    pub fn vec24(&mut self) -> Option<&'a [u8]> {
        let n = self.u24()?;
        self.take(n)
    }
    pub fn end(&self) -> bool {
        self.0.is_empty()
    }
}

fn u16s(b: &[u8]) -> Result<Vec<u16>, String> {
    if b.is_empty() || b.len() % 2 != 0 {
        return Err(format!("list of 16-bit values has {} bytes", b.len()));
    }
    Ok(b.chunks(2).map(|c| (c[0] as u16) << 8 | c[1] as u16).collect())
}

/// Strict parse of a whole ClientHello handshake message (with header).
pub fn parse_ch(msg: &[u8]) -> Result<Ch, String> {
    let e = |s: &str| s.to_string();
    let mut r = Rd(msg);
    let ty = r.u8().ok_or(e("empty"))?;
    if ty != 1 {
        return Err(format!("message type {ty} instead of ClientHello"));
    }
    let body = r.vec24().ok_or(e("message length beyond the data"))?;
    if !r.end() {
        return Err(e("data after the ClientHello"));
    }
    let mut r = Rd(body);
    let mut ch = Ch { raw: msg.to_vec(), ..Ch::default() };
    let v = r.u16().ok_or(e("no legacy_version"))?;
    if v != 0x0303 {
        return Err(format!("legacy_version {v:04x}"));
    }
    ch.random = r.take(32).ok_or(e("no random"))?.to_vec();
    ch.sid = r.vec8().ok_or(e("bad session id"))?.to_vec();
    if ch.sid.len() > 32 {
        return Err(e("session id longer than 32"));
    }
    ch.suites = u16s(r.vec16().ok_or(e("bad cipher suites"))?).map_err(|x| format!("cipher_suites: {x}"))?;
    ch.comp = r.vec8().ok_or(e("bad compression methods"))?.to_vec();
    if ch.comp != [0] {
        return Err(format!("compression methods {:?}", ch.comp));
    }
    let exts = r.vec16().ok_or(e("extension block length does not match"))?;
    if !r.end() {
        return Err(e("data after the extensions"));
    }
    let mut r = Rd(exts);
    while !r.end() {
        let t = r.u16().ok_or(e("truncated extension type"))? as u16;
        let d = r.vec16().ok_or(format!("extension {t} runs past the block"))?;
        if ch.exts.iter().any(|x| x.0 == t) {
            return Err(format!("duplicate extension {t}"));
        }
        ch.exts.push((t, d.to_vec()));
    }
    for (t, d) in ch.exts.clone() {
        let bad = || format!("malformed extension {t}");
        let mut r = Rd(&d);
        match t {
            0 => {
                let l = r.vec16().ok_or(bad())?;
                if !r.end() {
                    return Err(bad());
                }
                let mut l = Rd(l);
                if l.u8().ok_or(bad())? != 0 {
                    return Err(bad());
                }
                let n = l.vec16().ok_or(bad())?;
                if !l.end() || n.is_empty() {
                    return Err(bad());
                }
                ch.sni = Some(n.to_vec());
            }
            10 | 13 => {
                let l = r.vec16().ok_or(bad())?;
                if !r.end() {
                    return Err(bad());
                }
                let l = u16s(l).map_err(|x| format!("{}: {x}", bad()))?;
                if t == 10 {
                    ch.groups = l
                } else {
                    ch.sig_algs = l
                }
            }
            43 => {
                let l = r.vec8().ok_or(bad())?;
                if !r.end() {
                    return Err(bad());
                }
                ch.versions = u16s(l).map_err(|x| format!("{}: {x}", bad()))?;
            }
            51 => {
                let l = r.vec16().ok_or(bad())?;
                if !r.end() {
                    return Err(bad());
                }
                let mut l = Rd(l);
                while !l.end() {
                    let g = l.u16().ok_or(bad())? as u16;
                    let k = l.vec16().ok_or(bad())?;
                    if k.is_empty() {
                        return Err(bad());
                    }
                    ch.shares.push((g, k.to_vec()));
                }
            }
            16 => {
                let l = r.vec16().ok_or(bad())?;
                if !r.end() || l.is_empty() {
                    return Err(bad());
                }
                let mut l = Rd(l);
                let mut v = vec![];
                while !l.end() {
                    let n = l.vec8().ok_or(bad())?;
                    if n.is_empty() {
                        return Err(bad());
                    }
                    v.push(n.to_vec());
                }
                ch.alpn = Some(v);
            }
            _ => {}
        }
    }
    Ok(ch)
}

// ------------------------------------------------------------------ points with known logarithm

pub const TABLE: usize = 4096;

pub struct Table {
    pub pts: Vec<(U256, U256)>,
    pub xzero: Vec<u32>,
    pub yzero: Vec<u32>,
    pub index: std::collections::BTreeMap<[u8; 32], u32>,
}

/// Multiples 1..=TABLE of the generator (index 0 is 1*G).
pub fn table() -> &'static Table {
    static T: OnceLock<Table> = OnceLock::new();
    T.get_or_init(|| {
        let pts = multiples(TABLE);
        let mut t = Table { xzero: vec![], yzero: vec![], index: Default::default(), pts };
        for (i, p) in t.pts.iter().enumerate() {
            let k = i as u32 + 1;
            if to_be(&p.0)[0] == 0 {
                t.xzero.push(k);
            }
            if to_be(&p.1)[0] == 0 {
                t.yzero.push(k);
            }
            t.index.insert(to_be(&p.0), k);
        }
        t
    })
}

pub fn small_pt(k: u32) -> (U256, U256) {
    table().pts[(k as usize - 1) % TABLE]
}

fn neg(p: &(U256, U256)) -> (U256, U256) {
    (p.0, subb(&P, &p.1).0)
}

// ------------------------------------------------------------------ DER

fn der(tag: u8, c: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    let n = c.len();
    if n < 128 {
        v.push(n as u8);
    } else if n < 256 {
        v.extend([0x81, n as u8]);
    } else if n < 65536 {
        v.extend([0x82, (n >> 8) as u8, n as u8]);
    } else {
        v.extend([0x83, (n >> 16) as u8, (n >> 8) as u8, n as u8]);
    }
    v.extend_from_slice(c);
    v
}

fn cat(xs: &[Vec<u8>]) -> Vec<u8> {
    xs.concat()
}

/// INTEGER of the given encoded length: 33 means a 32-byte value with the top bit set.
fn der_int(seed: u32, len: u8) -> Vec<u8> {
    let n = len.clamp(1, 33) as usize;
    let mut b = expand(seed, n.min(32));
    if n == 33 {
        b[0] = 0x80 | (b[0] % 0x7e);
        b.insert(0, 0);
    } else {
        b[0] = (b[0] & 0x7f).max(1);
    }
    der(2, &b)
}

const EC_SHA256: [u8; 8] = [0x2a, 0x86, 0x48, 0xce, 0x3d, 0x04, 0x03, 0x02];

/// A name; `odd` uses other string types and several attributes in one relative name.
fn rdn(seed: u32, n: usize, odd: bool) -> Vec<u8> {
    let attr = |i: usize| {
        let text: Vec<u8> =
            expand(seed.wrapping_add(i as u32), 3 + (seed as usize + i * 7) % 20).iter().map(|b| b'a' + b % 26).collect();
        let tag = if odd { [0x13, 0x0c, 0x16, 0x14, 0x1e, 0x1c][(seed as usize + i) % 6] } else { 0x0c };
        let text = match tag {
            0x1e => text.iter().flat_map(|b| [0, *b]).collect(),
            0x1c => text.iter().flat_map(|b| [0, 0, 0, *b]).collect(),
            _ => text,
        };
        der(0x30, &cat(&[der(6, &[0x55, 4, [3, 6, 10, 11][i % 4]]), der(tag, &text)]))
    };
    let one = |i: usize| {
        if odd {
            let mut set = [attr(i), attr(i + 1)];
            set.sort();
            der(0x31, &cat(&set))
        } else {
            der(0x31, &attr(i))
        }
    };
    der(0x30, &cat(&(0..n).map(one).collect::<Vec<_>>()))
}

/// INTEGER of a value in 1..n with unusual bits.
fn edge_int(seed: u32) -> Vec<u8> {
    let mut k = reduce(&edge_x(seed), &N);
    if is_zero(&k) {
        k = [1, 0, 0, 0];
    }
    let mut b: Vec<u8> = to_be(&k).into_iter().skip_while(|b| *b == 0).collect();
    if b[0] & 0x80 != 0 {
        b.insert(0, 0);
    }
    der(2, &b)
}

#[derive(Clone, Copy, Default)]
struct CertTweak {
    sig_alg: Option<u8>,
    version: Option<u8>,
    sig_shape: Option<u8>,
}

fn build_cert_filled(c: &CertSpec, filler: Option<usize>, tw: CertTweak) -> Vec<u8> {
    let f = c.flags;
    let sd = c.seed;
    let serial = if f & 8 != 0 { der_int(sd ^ 1, 20) } else { der_int(sd ^ 1, 1 + (sd % 9) as u8) };
    let sig_oid: Vec<u8> = match tw.sig_alg {
        None => der(0x30, &der(6, &EC_SHA256)),
        Some(0) => der(0x30, &cat(&[der(6, &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 11]), der(5, &[])])),
        Some(1) => der(0x30, &der(6, &[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 3])),
        Some(2) => der(0x30, &der(6, &[])),
        Some(_) => der(0x30, &[]),
    };
    let time = |s: u32, late: bool| {
        let d = format!("{:02}{:02}{:02}{:02}{:02}Z", 1 + s % 12, 1 + s % 28, s % 24, s % 60, s % 59);
        if f & 1 != 0 || (late && f & 0x100 != 0) {
            der(0x18, format!("{}{}", if late { 2050 + s % 40 } else { 2000 + s % 20 }, d).as_bytes())
        } else {
            der(0x17, format!("{:02}{}", if late { 30 + s % 15 } else { 10 + s % 10 }, d).as_bytes())
        }
    };
    let issuer = rdn(sd ^ 2, 1 + if f & 16 != 0 { 3 } else { 0 }, f & 0x400 != 0);
    let subject = if f & 64 != 0 { der(0x30, &[]) } else { rdn(sd ^ 3, 1 + (sd % 3) as usize, f & 0x400 != 0) };
    let spki = if f & 128 != 0 {
        der(
            0x30,
            &cat(&[
                der(0x30, &cat(&[der(6, &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1]), der(5, &[])])),
                der(3, &cat(&[vec![0], der(0x30, &cat(&[der_int(sd ^ 7, 33), der(2, &[1, 0, 1])]))])),
            ]),
        )
    } else if f & 0x200 != 0 {
        match sd % 3 {
            0 => der(0x30, &cat(&[der(0x30, &der(6, &[0x2b, 0x65, 0x70])), der(3, &cat(&[vec![0], expand(sd ^ 7, 32)]))])),
            n => der(
                0x30,
                &cat(&[
                    der(0x30, &cat(&[der(6, &[0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1]), der(6, &[0x2b, 0x81, 4, 0, 33 + n as u8])])),
                    der(3, &cat(&[vec![0, 4], expand(sd ^ 7, [96, 132][n as usize - 1])])),
                ]),
            ),
        }
    } else {
        let p = encode_pt(&small_pt(1 + sd % 4000));
        der(
            0x30,
            &cat(&[
                der(
                    0x30,
                    &cat(&[
                        der(6, &[0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1]),
                        der(6, &[0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7]),
                    ]),
                ),
                der(3, &cat(&[vec![0], p])),
            ]),
        )
    };
    let version = match tw.version {
        None => der(0xa0, &der(2, &[2])),
        Some(0) => vec![],
        Some(v) => der(0xa0, &der(2, &[v])),
    };
    let mut tbs = vec![
        version,
        serial,
        sig_oid.clone(),
        issuer,
        der(0x30, &cat(&[time(sd >> 3, false), time(sd >> 7, true)])),
        subject,
        spki,
    ];
    if f & 4 != 0 {
        tbs.push(der(0x81, &cat(&[vec![0], expand(sd ^ 9, 4)])));
    }
    let mut exts = vec![];
    if f & 2 == 0 {
        exts.push(der(0x30, &cat(&[der(6, &[0x55, 0x1d, 0x13]), der(1, &[0xff]), der(4, &der(0x30, &[]))])));
    }
    if let Some(n) = filler {
        exts.push(der(0x30, &cat(&[der(6, &[0x2b, 6, 1, 4, 1, 0x82, 0x37, 99]), der(4, &expand(sd ^ 11, n))])));
    }
    if !exts.is_empty() {
        tbs.push(der(0xa3, &der(0x30, &cat(&exts))));
    }
    let (r, s) = if f & 0x800 != 0 {
        (edge_int(sd ^ 4), edge_int(sd.rotate_left(7)))
    } else {
        (der_int(sd ^ 4, c.r_len), der_int(sd ^ 5, c.s_len))
    };
    let sig = match tw.sig_shape {
        None => der(3, &cat(&[vec![0], der(0x30, &cat(&[r, s]))])),
        Some(0) => der(3, &[]),
        Some(1) => der(3, &cat(&[vec![4], der(0x30, &cat(&[r, s]))])),
        Some(2) => der(3, &cat(&[vec![0], r, s])),
        Some(3) => der(3, &cat(&[vec![0], der(0x30, &r)])),
        Some(4) => der(3, &cat(&[vec![0], der(0x30, &cat(&[der(2, &[]), s]))])),
        Some(5) => der(3, &cat(&[vec![0], der(0x30, &cat(&[der(2, &[0x55; 40]), s]))])),
        Some(6) => der(3, &cat(&[vec![0], der(0x30, &cat(&[der(2, &[[0u8].to_vec(), vec![0xff; 32]].concat()), s]))])),
        Some(7) => der(4, &cat(&[vec![0], der(0x30, &cat(&[r, s]))])),
        Some(8) => der(3, &cat(&[vec![0], der(0x30, &cat(&[r.clone(), s, r])), vec![1, 2, 3]])),
        Some(9) => der(3, &cat(&[vec![0], der(0x30, &cat(&[der(2, &[[0u8, 0, 0, 0].to_vec(), vec![0x11; 32]].concat()), s]))])),
        Some(10) => der(3, &cat(&[vec![0], der(0x30, &cat(&[der(2, &[0x91; 32]), s]))])),
        Some(_) => der(3, &[0]),
    };
    der(0x30, &cat(&[der(0x30, &cat(&tbs)), sig_oid, sig]))
}

pub fn good_cert(c: &CertSpec) -> Vec<u8> {
    build_cert(c, CertTweak::default())
}

fn build_cert(c: &CertSpec, tw: CertTweak) -> Vec<u8> {
    let base = build_cert_filled(c, None, tw);
    if (c.size as usize) <= base.len() + 24 {
        return base;
    }
    let mut n = c.size as usize - base.len() - 20;
    let mut out = base;
    for _ in 0..6 {
        out = build_cert_filled(c, Some(n), tw);
        let d = c.size as i64 - out.len() as i64;
        if d == 0 {
            break;
        }
        n = (n as i64 + d).max(0) as usize;
    }
    out
}

// ------------------------------------------------------------------ server messages

pub fn hs(ty: u8, body: &[u8]) -> Vec<u8> {
    let n = body.len();
    let mut v = vec![ty, (n >> 16) as u8, (n >> 8) as u8, n as u8];
    v.extend_from_slice(body);
    v
}

fn set_hdr(m: &mut [u8], n: u32) {
    m[1] = (n >> 16) as u8;
    m[2] = (n >> 8) as u8;
    m[3] = n as u8;
}

fn put16(v: &mut Vec<u8>, n: usize) {
    v.extend([(n >> 8) as u8, n as u8]);
}

fn ext(t: u16, d: &[u8]) -> Vec<u8> {
    let mut v = vec![(t >> 8) as u8, t as u8];
    put16(&mut v, d.len());
    v.extend_from_slice(d);
    v
}

#[derive(Clone)]
pub struct Keys {
    pub client: Traffic,
    pub server: Traffic,
}

#[derive(Clone)]
pub struct Rec {
    pub bytes: Vec<u8>,
}

/// (server key share, x coordinate of the client's key share, shared secret)
pub type SharedX = (Vec<u8>, U256, [u8; 32]);

pub struct Out {
    pub recs: Vec<Rec>,
    pub sh_recs: usize,
    pub keys: Option<Keys>,
    /// key share encodings the model knows the logarithm of
    pub known: Vec<(Vec<u8>, U256)>,
    /// key share encodings whose shared secret with the client's key is known
    pub shared: Vec<SharedX>,
    /// certificates that are well-formed X.509 v3 ECDSA-SHA256
    pub good_certs: Vec<Vec<u8>>,
    pub fired: Vec<&'static str>,
    /// nothing illegal was built (before the attacker)
    pub legal: bool,
}

fn plain_rec(ty: u8, ver: u16, body: &[u8]) -> Vec<u8> {
    let mut v = vec![ty, (ver >> 8) as u8, ver as u8];
    put16(&mut v, body.len());
    v.extend_from_slice(body);
    v
}

fn split(msgs: &[Vec<u8>], f: &Frag) -> Vec<Vec<u8>> {
    const MAX: usize = 16384;
    let mut out = vec![];
    let all = msgs.concat();
    match f {
        Frag::Whole => out.extend(all.chunks(MAX).map(|c| c.to_vec())),
        Frag::PerMsg => {
            for m in msgs {
                out.extend(m.chunks(MAX).map(|c| c.to_vec()));
            }
        }
        Frag::Storm(n) => {
            let (a, b) = all.split_at((*n as usize).min(all.len()));
            out.extend(a.iter().map(|b| vec![*b]));
            out.extend(b.chunks(MAX).map(|c| c.to_vec()));
        }
        Frag::Fixed(n) => {
            let mut rest = &all[..];
            while !rest.is_empty() {
                let k = if out.len() < 600 { (*n as usize).max(1) } else { MAX };
                let (a, b) = rest.split_at(k.min(rest.len()));
                out.push(a.to_vec());
                rest = b;
            }
        }
        Frag::Cuts(cs) => {
            let mut rest = &all[..];
            let mut i = 0;
            while !rest.is_empty() {
                let k = cs.get(i).map(|c| (*c as usize).clamp(1, MAX)).unwrap_or(MAX);
                i += 1;
                let (a, b) = rest.split_at(k.min(rest.len()));
                out.push(a.to_vec());
                rest = b;
            }
        }
    }
    out
}

fn build_sh(pl: &ServerPlan, ch: &Ch, share: &(U256, U256), out: &mut Out) -> (Vec<u8>, u16) {
    let mut ver = 0x0303u16;
    let mut random = expand(pl.seed ^ 0x51, 32);
    if random[0] < 12 {
        // almost, but not, a HelloRetryRequest
        let at = random[1] as usize % 32;
        let bit = 1 << (random[2] % 8);
        random = HRR_RANDOM.to_vec();
        random[at] ^= bit;
    }
    let mut sid = ch.sid.clone();
    let mut sid_raw: Option<u8> = None;
    let mut suite = if pl.suite == 0 { ch.suites[0] } else { *ch.suites.last().unwrap() };
    let mut comp = 0u8;
    let mut group = 0x17u16;
    let mut point = encode_pt(share);
    let mut versions: Option<Vec<u8>> = Some(vec![3, 4]);
    let mut ks = true;
    let mut ks_len_delta = 0i32;
    let mut hrr_form = false;
    let mut extra: Vec<Vec<u8>> = vec![];
    let mut dup_v = false;
    let mut dup_ks: Option<bool> = None;
    let mut ext_len: Option<u8> = None;
    let mut block_len: Option<u8> = None;
    let mut no_block = None;
    let mut post: Vec<&ShMut> = vec![];
    for m in &pl.sh {
        out.legal = false;
        out.fired.push("sh_mut");
        match m {
            ShMut::Version(v) => ver = *v,
            ShMut::Random(k) => match k {
                0 => random = HRR_RANDOM.to_vec(),
                1 => random[24..].copy_from_slice(b"DOWNGRD\x01"),
                2 => random = vec![0; 32],
                // HelloRetryRequests as servers send them: another group, or only a cookie
                4 => {
                    random = HRR_RANDOM.to_vec();
                    hrr_form = true;
                    group = if pl.seed % 2 == 0 { 0x17 } else { 0x18 };
                }
                5 => {
                    random = HRR_RANDOM.to_vec();
                    ks = false;
                    let mut c = vec![0, 16];
                    c.extend(expand(pl.seed ^ 6, 16));
                    extra.push(ext(44, &c));
                }
                _ => random = vec![0xff; 32],
            },
            ShMut::Sid(n, real) => {
                if *real && *n <= 32 {
                    sid = expand(pl.seed ^ 0x77, *n as usize);
                } else {
                    sid_raw = Some(*n)
                }
            }
            // of the two suites the client knows, the one it did not offer
            ShMut::Suite(0x1301 | 0x1303) if ch.suites.len() == 1 => suite = ch.suites[0] ^ 2,
            ShMut::Suite(x) => suite = *x,
            ShMut::Compression(c) => comp = *c,
            ShMut::NoVersions => versions = None,
            ShMut::VersionVal(v) => versions = Some(v.to_be_bytes().to_vec()),
            ShMut::VersionLen(n) => versions = Some([3, 4, 3, 4][..*n as usize].to_vec()),
            ShMut::NoKeyShare => ks = false,
            ShMut::KsGroup(g) => group = *g,
            ShMut::KsForm(f) if !point.is_empty() => point[0] = *f,
            ShMut::KsForm(_) => {}
            ShMut::KsPoint(_) if point.len() != 65 => {}
            ShMut::KsPoint(k) => match k {
                0 => point[64] ^= 1,
                1 => point[1..].fill(0),
                2 => point[1..33].copy_from_slice(&to_be(&P)),
                3 => point[33..].copy_from_slice(&to_be(&P)),
                4 => point[1..].fill(0xff),
                5 => point[1..].rotate_left(32),
                6 => {
                    // x = 0 is on the curve, logarithm unknown
                    let mut e = vec![4u8; 1];
                    e.extend([0u8; 32]);
                    e.extend([
                        0x66, 0x48, 0x5c, 0x78, 0x0e, 0x2f, 0x83, 0xd7, 0x24, 0x33, 0xbd, 0x5d, 0x84, 0xa0, 0x6b, 0xb6,
                        0x54, 0x1c, 0x2a, 0xf3, 0x1d, 0xae, 0x87, 0x17, 0x28, 0xbf, 0x85, 0x6a, 0x17, 0x4f, 0x93, 0xf4,
                    ]);
                    point = e;
                }
                8 => {
                    // a point whose x coordinate is below 2^256 - p, written as x + p
                    let (x, y) = lift_x(&[pl.seed as u64 % 1000, 0, 0, 0], pl.seed >> 31 == 1);
                    point = vec![4];
                    point.extend(to_be(&addc(&x, &P).0));
                    point.extend(to_be(&y));
                }
                9 => {
                    // a point with y = 5, written as 5 + p
                    point = vec![4];
                    point.extend([
                        0xd7, 0x32, 0x5d, 0x76, 0x46, 0xcd, 0x60, 0xd8, 0x0a, 0x92, 0x73, 0x8c, 0xeb, 0x34, 0x5f, 0x84,
                        0x4c, 0xff, 0xaf, 0x35, 0x84, 0x10, 0x22, 0xca, 0xb1, 0x76, 0xf6, 0x92, 0xde, 0x8d, 0xe1, 0xd7,
                    ]);
                    point.extend(to_be(&addc(&[5, 0, 0, 0], &P).0));
                }
                _ => point[1] ^= 0x80,
            },
            ShMut::KsLenField(d) => ks_len_delta = *d as i32 - 100,
            ShMut::KsTrunc(n) => {
                let keep = point.len().saturating_sub(*n as usize);
                point.truncate(keep)
            }
            ShMut::KsExtra(n) => point.extend(expand(pl.seed ^ 3, *n as usize)),
            ShMut::KsHrrForm => hrr_form = true,
            ShMut::DupVersions => dup_v = true,
            ShMut::DupKeyShare(same) => dup_ks = Some(*same),
            ShMut::ExtraExt(t, n) => extra.push(ext(*t, &expand(pl.seed ^ 5, *n as usize))),
            ShMut::ExtLen(x) => ext_len = Some(*x),
            ShMut::ExtBlockLen(x) => block_len = Some(*x),
            ShMut::NoExtBlock(n) => no_block = Some(*n),
            m => post.push(m),
        }
    }
    let mut body = ver.to_be_bytes().to_vec();
    body.extend_from_slice(&random);
    body.push(sid_raw.unwrap_or(sid.len() as u8));
    if sid_raw.is_none() {
        body.extend_from_slice(&sid);
    }
    body.extend(suite.to_be_bytes());
    body.push(comp);
    let mut exts: Vec<Vec<u8>> = vec![];
    if let Some(v) = &versions {
        exts.push(ext(43, v));
        if dup_v {
            exts.push(ext(43, v));
        }
    }
    if ks {
        let mut d = group.to_be_bytes().to_vec();
        if !hrr_form {
            put16(&mut d, (point.len() as i32 + ks_len_delta).max(0) as usize);
            d.extend_from_slice(&point);
        }
        exts.push(ext(51, &d));
        match dup_ks {
            Some(true) => exts.push(ext(51, &d)),
            Some(false) => {
                let k = 7 + pl.seed % 900;
                let p2 = encode_pt(&small_pt(k));
                out.known.push((p2.clone(), [k as u64, 0, 0, 0]));
                let mut d = vec![0, 0x17];
                put16(&mut d, 65);
                d.extend(p2);
                exts.push(ext(51, &d));
            }
            None => {}
        }
    }
    exts.extend(extra);
    if !exts.is_empty() {
        let k = (pl.seed >> 7) as usize % exts.len();
        exts.rotate_left(k);
    }
    if pl.sh_order {
        exts.reverse();
    }
    if let (Some(x), false) = (ext_len, exts.is_empty()) {
        let i = x as usize % exts.len();
        let d = [1i32, -1, 2, -2, 4, -4, 100, 255][(x / 16) as usize % 8];
        let e = &mut exts[i];
        let n = (((e[2] as i32) << 8 | e[3] as i32) + d).max(0);
        e[2] = (n >> 8) as u8;
        e[3] = n as u8;
    }
    let block = exts.concat();
    if let Some(n) = no_block {
        body.extend(expand(pl.seed ^ 10, n as usize));
    } else {
        let mut n = block.len() as i32;
        if let Some(x) = block_len {
            n = (n + [1i32, -1, 2, -2, 4, -4, -50, 300][x as usize % 8]).max(0);
        }
        put16(&mut body, n as usize);
        body.extend_from_slice(&block);
    }
    let mut msg = hs(2, &body);
    for m in post {
        match m {
            ShMut::MsgTrunc(n) => {
                let k = msg.len().saturating_sub(*n as usize).max(4);
                msg.truncate(k);
                let l = msg.len() as u32 - 4;
                set_hdr(&mut msg, l);
            }
            ShMut::MsgExtend(n) => {
                msg.extend(expand(pl.seed ^ 8, *n as usize));
                let l = msg.len() as u32 - 4;
                set_hdr(&mut msg, l);
            }
            ShMut::Struct(how, i, n) => restructure(&mut msg, *how, *i, *n),
            ShMut::HdrLen(n) => set_hdr(&mut msg, *n),
            ShMut::MsgType(t) => msg[0] = *t,
            ShMut::Flip(b) => {
                let i = *b as usize / 8 % msg.len();
                msg[i] ^= 1 << (b % 8)
            }
            _ => {}
        }
    }
    (msg, suite)
}

/// A length field of a message: where it is, where its contents end, and the fields around it.
struct Field {
    off: usize,
    width: usize,
    end: usize,
    der: bool,
    outer: Vec<usize>,
}

/// Finds all length fields of a well-formed ServerHello, EncryptedExtensions or Certificate message.
fn fields(msg: &[u8]) -> Vec<Field> {
    struct W<'a> {
        b: &'a [u8],
        f: Vec<Field>,
        stack: Vec<usize>,
    }
    impl W<'_> {
        /// A vector at `o`, whose contents are walked by `inner`; returns its end.
        fn vec(&mut self, o: usize, width: usize, inner: &mut dyn FnMut(&mut Self, usize, usize)) -> Option<usize> {
            let n = self.b.get(o..o + width)?.iter().fold(0usize, |n, b| n << 8 | *b as usize);
            let end = o + width + n;
            if end > self.b.len() {
                return None;
            }
            self.f.push(Field { off: o, width, end, der: false, outer: self.stack.clone() });
            self.stack.push(self.f.len() - 1);
            inner(self, o + width, end);
            self.stack.pop();
            Some(end)
        }
        fn exts(&mut self, mut o: usize, end: usize) {
            while o + 4 <= end {
                let t = (self.b[o] as u16) << 8 | self.b[o + 1] as u16;
                let r = self.vec(o + 2, 2, &mut |w, o, end| match t {
                    51 if end - o >= 4 => drop(w.vec(o + 2, 2, &mut |_, _, _| ())),
                    10 if end - o >= 2 => drop(w.vec(o, 2, &mut |_, _, _| ())),
                    16 if end - o >= 2 => drop(w.vec(o, 2, &mut |w, mut o, end| {
                        while o < end {
                            match w.vec(o, 1, &mut |_, _, _| ()) {
                                Some(e) => o = e,
                                None => break,
                            }
                        }
                    })),
                    _ => {}
                });
                match r {
                    Some(e) => o = e,
                    None => break,
                }
            }
        }
        /// Walks the DER objects; returns whether they fill the range.
        fn der(&mut self, mut o: usize, end: usize, depth: usize) -> bool {
            while o < end {
                let Some(h) = self.b.get(o..(o + 6).min(end)).filter(|h| h.len() >= 2) else { return false };
                let (mut off, mut width, mut n) = (o + 1, 1, h[1] as usize);
                if n & 0x80 != 0 {
                    width = n & 0x7f;
                    off += 1;
                    if width == 0 || width > 4 || h.len() < 2 + width {
                        return false;
                    }
                    n = h[2..2 + width].iter().fold(0, |n, b| n << 8 | *b as usize);
                }
                let stop = off + width + n;
                if stop > end {
                    return false;
                }
                self.f.push(Field { off, width, end: stop, der: true, outer: self.stack.clone() });
                if depth < 12 {
                    self.stack.push(self.f.len() - 1);
                    let mark = self.f.len();
                    let inner = off + width;
                    let skip = (h[0] == 3) as usize;
                    if (h[0] & 0x20 != 0 || h[0] == 3 || h[0] == 4)
                        && inner + skip <= stop
                        && !self.der(inner + skip, stop, depth + 1)
                    {
                        self.f.truncate(mark);
                    }
                    self.stack.pop();
                }
                o = stop;
            }
            true
        }
    }
    let mut w = W { b: msg, f: vec![], stack: vec![] };
    w.vec(1, 3, &mut |w, o, end| match msg[0] {
        2 => {
            if let Some(e) = w.vec(o + 34, 1, &mut |_, _, _| ()) {
                w.vec(e + 3, 2, &mut |w, o, end| w.exts(o, end));
            }
        }
        8 => drop(w.vec(o, 2, &mut |w, o, end| w.exts(o, end))),
        11 => {
            if let Some(e) = w.vec(o, 1, &mut |_, _, _| ()) {
                w.vec(e, 3, &mut |w, mut o, end| {
                    while o < end {
                        let Some(e) = w.vec(o, 3, &mut |w, o, end| {
                            let mark = w.f.len();
                            if !w.der(o, end, 0) {
                                w.f.truncate(mark);
                            }
                        }) else {
                            break;
                        };
                        match w.vec(e, 2, &mut |w, o, end| w.exts(o, end)) {
                            Some(e) => o = e,
                            None => break,
                        }
                    }
                });
            }
        }
        _ => drop((o, end)),
    });
    w.f
}

/// Damages a message at one of its length fields.
fn restructure(msg: &mut Vec<u8>, how: u8, which: u16, n: u8) {
    let f = fields(msg);
    if f.len() < 2 {
        return;
    }
    // one in three is not inside a certificate
    let tls: Vec<usize> = (1..f.len()).filter(|&i| !f[i].der).collect();
    let i = match which % 3 {
        0 if !tls.is_empty() => tls[which as usize / 3 % tls.len()],
        _ => 1 + which as usize / 3 % (f.len() - 1),
    };
    let (off, width, end) = (f[i].off, f[i].width, f[i].end);
    let start = off + width;
    let max = if f[i].der && off > 0 && width == 1 && msg[off - 1] & 0x80 == 0 { 0x7f } else { (1usize << (8 * width)) - 1 };
    let get = |m: &[u8], f: &Field| m[f.off..f.off + f.width].iter().fold(0usize, |n, b| n << 8 | *b as usize);
    let put = |m: &mut [u8], f: &Field, v: usize| {
        for k in 0..f.width {
            m[f.off + f.width - 1 - k] = (v >> (8 * k)) as u8;
        }
    };
    let len = end - start;
    let amount = 1 + (n as usize >> 1) % if n & 1 == 0 { 4 } else { 128 };
    // (position, bytes removed, bytes added, whether the field itself is adjusted)
    let mut stub = None;
    let (at, del, add, own) = match how {
        // the last object of its parent, cut short or with a strange header
        7 | 8 => {
            let head = match f[i].der {
                true if msg[off - 1] & 0x80 != 0 && width == (msg[off - 1] & 0x7f) as usize => off - 2,
                true => off - 1,
                false => off,
            };
            let stop = f[i].outer.last().map_or(msg.len(), |&k| f[k].end).max(end).min(msg.len());
            let t = msg[head];
            let b: Vec<u8> = match n as usize % 24 {
                8 => vec![t, 0x80],
                9 => vec![t, 0x81],
                10 => vec![t, 0x82],
                11 => vec![t, 0x82, 1],
                12 => vec![t, 0x83, 0, 0],
                13 => vec![t, 0x84, 0, 0, 0],
                14 => vec![t, 0x84, 0xff, 0xff, 0xff, 0xff],
                15 => vec![t, 0x85, 0, 0, 0, 0, 0],
                16 => vec![t, 0xff],
                17 => vec![t, 0x7f],
                18 => vec![t, 0x81, 0xff],
                19 => vec![t, 0x84, 0, 0, 0, 1, 0],
                20 => vec![0x1f, 0x81, 0x01, 0],
                21 => vec![t, 0],
                22 => vec![t, 1, 0],
                23 => vec![t, 0x88, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xf8],
                k => msg[head..stop.min(head + k)].to_vec(),
            };
            let l = b.len();
            stub = Some(b);
            // either up to the end of the parent or only this object
            (head, if how == 7 { stop } else { end } - head, l, false)
        }
        0 | 1 => {
            let d = [
                1i64, -1, 1, -1, 1, -1, 2, -2, 2, -2, 3, -3, 4, -4, 5, -5, 16, -16, 64, 127, 128, -128, 255, 256, -256, 1 << 16, 1 << 20,
            ][n as usize % 27];
            let v = match n {
                250..=252 => 0,
                253..=255 => max as i64,
                _ => len as i64 + d,
            };
            put(msg, &f[i], v.max(0) as usize);
            return;
        }
        2 => (end, 0, amount, true),
        3 => (end - amount.min(len), amount.min(len), 0, true),
        4 => (start, len, 0, true),
        5 => (start, 0, amount, true),
        _ => (end, 0, amount, false),
    };
    let d = add as i64 - del as i64;
    let mut touched: Vec<usize> = f[i].outer.clone();
    if own {
        touched.push(i);
    }
    let fits = touched.iter().all(|&k| {
        let v = get(msg, &f[k]) as i64 + d;
        v >= 0 && v < 1 << (8 * f[k].width)
    });
    if fits {
        for &k in &touched {
            let v = (get(msg, &f[k]) as i64 + d) as usize;
            put(msg, &f[k], v);
        }
    }
    let new = stub.unwrap_or_else(|| expand(which as u32 ^ 0x5713, add));
    msg.splice(at..at + del, new);
    // the message itself keeps a correct header
    let l = msg.len() as u32 - 4;
    set_hdr(msg, l);
}

pub const HRR_RANDOM: [u8; 32] = [
    0xCF, 0x21, 0xAD, 0x74, 0xE5, 0x9A, 0x61, 0x11, 0xBE, 0x1D, 0x8C, 0x02, 0x1E, 0x65, 0xB8, 0x91, 0xC2, 0xA2, 0x11,
    0x16, 0x7A, 0xBB, 0x8C, 0x5E, 0x07, 0x9E, 0x09, 0xE2, 0xC8, 0xA8, 0x33, 0x9C,
];

fn alpn_ext(names: &[Vec<u8>]) -> Vec<u8> {
    let mut l = vec![];
    for n in names {
        l.push(n.len() as u8);
        l.extend_from_slice(n);
    }
    let mut d = vec![];
    put16(&mut d, l.len());
    d.extend(l);
    ext(16, &d)
}

fn build_ee(pl: &ServerPlan, ch: &Ch, out: &mut Out) -> Vec<u8> {
    let mut exts: Vec<Vec<u8>> = vec![];
    if pl.ee.sni_ack && ch.sni.is_some() {
        exts.push(ext(0, &[]));
    }
    match pl.ee.groups {
        0 => {}
        1 => exts.push(ext(10, &[0, 2, 0, 0x17])),
        2 => exts.push(ext(10, &[0, 6, 0, 0x1d, 0, 0x17, 0, 0x18])),
        _ => {
            // more groups than exist, up to what the length of the block can say
            let n = [100, 1000, 4000, 8190, 8200, 16000, 32000, 32400][(pl.seed >> 9) as usize % 8];
            let mut d = vec![];
            put16(&mut d, 2 * n);
            d.extend(expand(pl.seed ^ 0x71, 2 * n));
            exts.push(ext(10, &d));
        }
    }
    let mut chosen = None;
    if let (Some(i), Some(names)) = (pl.ee.alpn, &ch.alpn) {
        let n = names[i as usize % names.len()].clone();
        exts.push(alpn_ext(&[n.clone()]));
        chosen = Some(n);
        out.fired.push("alpn_selected");
    }
    let mut block_len: Option<u8> = None;
    let mut post = vec![];
    for m in &pl.ee.muts {
        out.legal = false;
        out.fired.push("ee_mut");
        match m {
            EeMut::Unknown(t, n) => exts.push(ext(*t, &expand(pl.seed ^ 21, *n as usize))),
            EeMut::AlpnUnoffered(k) => {
                let mut n = chosen.clone().unwrap_or(b"h2".to_vec());
                match k % 6 {
                    0 => n.push(b'x'),
                    1 if n.len() > 1 => {
                        n.pop();
                    }
                    2 => n[0] ^= 0x20,
                    3 => n = b"http/1.1".to_vec(),
                    4 => n = expand(pl.seed ^ 22, 255).iter().map(|b| (*b).max(1)).collect(),
                    _ => n[0] ^= 1,
                }
                n.truncate(255);
                exts.retain(|e| e[..2] != [0, 16]);
                exts.push(alpn_ext(&[n]));
            }
            EeMut::AlpnMalformed(k) => {
                let n = chosen.clone().unwrap_or(b"h2".to_vec());
                let l = n.len() as u8;
                let d: Vec<u8> = match k {
                    0 => vec![],
                    1 => vec![0],
                    2 => vec![0, 0],
                    3 => vec![0, 1, 0],
                    4 => [vec![0, l], n.clone()].concat(),
                    5 => [vec![0, l.wrapping_add(2), l], n.clone()].concat(),
                    6 => [vec![0, l.saturating_add(1), l.wrapping_add(1)], n.clone()].concat(),
                    7 => [vec![0, l.saturating_add(1), l.wrapping_sub(1)], n.clone()].concat(),
                    9 => [vec![0, l, l], n.clone()].concat(),
                    10 => [vec![0, l.saturating_add(1), l], n.clone(), vec![0x2d]].concat(),
                    11 => [vec![0, l.saturating_add(2), l], n.clone(), vec![0]].concat(),
                    12 => [vec![1, l.saturating_add(1), l], n.clone()].concat(),
                    13 => [vec![0, 0, l], n.clone()].concat(),
                    _ => {
                        let a = alpn_ext(&[n.clone(), b"zz".to_vec()]);
                        a[4..].to_vec()
                    }
                };
                exts.retain(|e| e[..2] != [0, 16]);
                exts.push(ext(16, &d));
            }
            EeMut::Dup(i) => {
                if exts.is_empty() {
                    exts.push(ext(10, &[0, 2, 0, 0x17]));
                }
                exts.push(exts[*i as usize % exts.len()].clone())
            }
            EeMut::Sni(k) => {
                // Unrequested if no name was sent, repeated if it was acknowledged already.
                exts.push(ext(0, &[0, 2, 0, 0][..*k as usize]))
            }
            EeMut::BlockLen(x) => block_len = Some(*x),
            EeMut::ExtLen(x) => {
                if !exts.is_empty() {
                    let i = *x as usize % exts.len();
                    let d = [1i32, -1, 2, -2, 4, -4, 100, 255][(x / 16) as usize % 8];
                    let e = &mut exts[i];
                    let n = (((e[2] as i32) << 8 | e[3] as i32) + d).max(0);
                    e[2] = (n >> 8) as u8;
                    e[3] = n as u8;
                }
            }
            m => post.push(m.clone()),
        }
    }
    if !exts.is_empty() {
        let k = pl.ee.order as usize % exts.len();
        exts.rotate_left(k);
        if pl.ee.order & 1 == 1 {
            exts.reverse();
        }
    }
    let block = exts.concat();
    let mut n = block.len() as i32;
    if let Some(x) = block_len {
        n = (n + [1i32, -1, 2, -2, 4, -4, -50, 300][x as usize % 8]).max(0);
    }
    let mut body = vec![];
    put16(&mut body, n as usize);
    body.extend(block);
    let mut msg = hs(8, &body);
    for m in post {
        match m {
            EeMut::Trunc(n) => {
                let k = msg.len().saturating_sub(n as usize).max(4);
                msg.truncate(k);
                let l = msg.len() as u32 - 4;
                set_hdr(&mut msg, l);
            }
            EeMut::Extend(n) => {
                msg.extend(expand(pl.seed ^ 23, n as usize));
                let l = msg.len() as u32 - 4;
                set_hdr(&mut msg, l);
            }
            EeMut::Struct(how, i, n) => restructure(&mut msg, how, i, n),
            EeMut::HdrLen(n) => set_hdr(&mut msg, n),
            EeMut::MsgType(t) => msg[0] = t,
            EeMut::Flip(b) => {
                let i = b as usize / 8 % msg.len();
                msg[i] ^= 1 << (b % 8)
            }
            _ => {}
        }
    }
    msg
}

fn cert_body(chain: &[Vec<u8>], exts: &[u8]) -> Vec<u8> {
    let mut list = vec![];
    for c in chain {
        let n = c.len();
        list.extend([(n >> 16) as u8, (n >> 8) as u8, n as u8]);
        list.extend_from_slice(c);
        put16(&mut list, exts.len());
        list.extend_from_slice(exts);
    }
    let n = list.len();
    let mut b = vec![0, (n >> 16) as u8, (n >> 8) as u8, n as u8];
    b.extend(list);
    b
}

fn build_certificate(pl: &ServerPlan, out: &mut Out) -> Vec<u8> {
    let mut specs = pl.cert.chain.clone();
    if specs.is_empty() {
        specs.push(CertSpec { seed: pl.seed, size: 0, r_len: 32, s_len: 32, flags: 0 });
    }
    let mut tw = CertTweak::default();
    for m in &pl.cert.muts {
        match m {
            CertMut::SigAlg(x) => tw.sig_alg = Some(*x),
            CertMut::VersionByte(v) => tw.version = Some(*v),
            CertMut::SigShape(x) => tw.sig_shape = Some(*x),
            _ => {}
        }
    }
    let tweaked = tw.sig_alg.is_some() || tw.version.is_some() || tw.sig_shape.is_some();
    let which = pl.seed as usize % specs.len();
    let mk = |specs: &[CertSpec]| -> Vec<Vec<u8>> {
        specs.iter().enumerate().map(|(i, c)| build_cert(c, if i == which { tw } else { CertTweak::default() })).collect()
    };
    let mut chain = mk(&specs);
    if pl.cert.body > 0 {
        // tune the first certificate so that the message body has exactly this length
        for _ in 0..4 {
            let have = cert_body(&chain, &[]).len() as i64;
            let d = pl.cert.body as i64 - have;
            if d == 0 {
                break;
            }
            let want = chain[0].len() as i64 + d;
            if want < 200 {
                break;
            }
            specs[0].size = want as u32;
            chain[0] = build_cert(&specs[0], if which == 0 { tw } else { CertTweak::default() });
        }
    }
    for (i, c) in chain.iter().enumerate() {
        if !(tweaked && i == which) {
            out.good_certs.push(c.clone());
        }
    }
    let mut entry_exts: Vec<u8> = vec![];
    let mut post = vec![];
    let mut list_delta = 0i64;
    let mut entry_delta: Option<i64> = None;
    for m in &pl.cert.muts {
        out.legal = false;
        out.fired.push("cert_mut");
        let d = |x: u8| [1i64, -1, 2, -2, 5, -5, 1000, 0xff0000][x as usize % 8];
        match m {
            CertMut::ListLen(x) => list_delta = d(*x),
            CertMut::EntryLen(x) => entry_delta = Some(d(*x)),
            CertMut::EmptyList => chain.clear(),
            CertMut::EmptyEntry => chain.push(vec![]),
            CertMut::DerFlip(b) => {
                if let Some(c) = chain.get_mut(which).filter(|c| !c.is_empty()) {
                    let i = *b as usize / 8 % c.len();
                    c[i] ^= 1 << (b % 8)
                }
            }
            CertMut::DerTrunc(n) => {
                if let Some(c) = chain.get_mut(which).filter(|c| !c.is_empty()) {
                    let k = c.len().saturating_sub(*n as usize);
                    c.truncate(k)
                }
            }
            CertMut::DerByte(i, v) => {
                if let Some(c) = chain.get_mut(which).filter(|c| !c.is_empty()) {
                    let i = *i as usize % c.len();
                    c[i] = *v
                }
            }
            CertMut::Garbage(n) => chain = vec![expand(pl.seed ^ 31, *n as usize)],
            CertMut::EntryExts(x) => entry_exts = ext(if x & 1 == 0 { 5 } else { 18 }, &expand(pl.seed, (*x / 2) as usize)),
            m => post.push(m.clone()),
        }
    }
    let mut body = cert_body(&chain, &entry_exts);
    let fix24 = |b: &mut [u8], d: i64| {
        let n = ((b[0] as i64) << 16 | (b[1] as i64) << 8 | b[2] as i64) + d;
        let n = n.clamp(0, 0xffffff);
        b[0] = (n >> 16) as u8;
        b[1] = (n >> 8) as u8;
        b[2] = n as u8;
    };
    if list_delta != 0 {
        fix24(&mut body[1..4], list_delta);
    }
    if let (Some(d), true) = (entry_delta, body.len() > 7) {
        fix24(&mut body[4..7], d);
    }
    for m in &post {
        if let (CertMut::ExtsLen(x), true) = (m, body.len() >= 9) {
            // the length of the extensions of the last entry
            let at = body.len() - entry_exts.len() - 2;
            let n = ((body[at] as i64) << 8 | body[at + 1] as i64) + [1i64, -1, 2, -2, 5, 255, 0xff00, 3][*x as usize % 8];
            let n = n.clamp(0, 0xffff);
            body[at] = (n >> 8) as u8;
            body[at + 1] = n as u8;
        }
        if let CertMut::Ctx(n) = m {
            let mut b = vec![*n];
            b.extend(expand(pl.seed ^ 33, *n as usize));
            b.extend_from_slice(&body[1..]);
            body = b;
        }
    }
    let mut msg = hs(11, &body);
    for m in post {
        match m {
            CertMut::Trunc(n) => {
                let k = msg.len().saturating_sub(n as usize).max(4);
                msg.truncate(k);
                let l = msg.len() as u32 - 4;
                set_hdr(&mut msg, l);
            }
            CertMut::Extend(n) => {
                msg.extend(expand(pl.seed ^ 34, n as usize));
                let l = msg.len() as u32 - 4;
                set_hdr(&mut msg, l);
            }
            CertMut::Struct(how, i, n) => restructure(&mut msg, how, i, n),
            CertMut::HdrLen(n) => set_hdr(&mut msg, n),
            CertMut::MsgType(t) => msg[0] = t,
            _ => {}
        }
    }
    msg
}

fn inj_legal(k: &InjKind, prot: bool) -> bool {
    matches!(k, InjKind::Ccs) && !prot
}

/// An injected record; protected ones use the server's keys.
pub fn inj_bytes(i: &Inj, seed: u32, keys: Option<&mut Traffic>) -> Vec<u8> {
    let body: (u8, Vec<u8>) = match &i.kind {
        InjKind::Ccs => (20, vec![1]),
        InjKind::CcsBad(x) => (
            20,
            match x % 6 {
                0 => vec![0],
                1 => vec![1, 1],
                2 => vec![2],
                3 => vec![1, 0],
                4 => vec![255],
                _ => vec![1; 40],
            },
        ),
        InjKind::Alert(c, l) => (21, vec![*l, *c]),
        InjKind::AlertBad(n) => (21, {
            let mut v = vec![2u8; *n as usize];
            if v.len() > 1 {
                v[1] = 40;
            }
            v
        }),
        InjKind::AppData(n) => (23, expand(seed, *n as usize)),
        InjKind::Unknown(t, n) => (*t, expand(seed, *n as usize)),
        InjKind::Empty(t) => (*t, vec![]),
        InjKind::Handshake(t, n) => (22, hs(*t, &expand(seed, *n as usize))),
        InjKind::AllZero(n) => {
            if let (true, Some(k)) = (i.prot, keys) {
                return k.seal_record(&vec![0; *n as usize]);
            }
            return plain_rec(22, 0x0303, &vec![0; *n as usize]);
        }
        InjKind::Short(n) => return plain_rec(23, 0x0303, &expand(seed, *n as usize)),
        InjKind::Oversize(n) => {
            let ty = match seed % 8 {
                0 => 20,
                1 => 21,
                2 => 22,
                3 => 23,
                _ if i.prot => 23,
                _ => 22,
            };
            return plain_rec(ty, 0x0303, &expand(seed, *n as usize));
        }
        InjKind::BigContent(n) => (22, expand(seed, *n as usize)),
    };
    match (i.prot, keys) {
        (true, Some(k)) => {
            let mut inner = body.1;
            inner.push(body.0);
            k.seal_record(&inner)
        }
        _ => plain_rec(body.0, 0x0303, &body.1),
    }
}

/// The client's ephemeral key, if it is one of its random draws.
fn client_key(cpt: &(U256, U256), draws: &[&[u8]]) -> Option<U256> {
    if let Some(c) = table().index.get(&to_be(&cpt.0)) {
        let d = [*c as u64, 0, 0, 0];
        return Some(if small_pt(*c) == *cpt { d } else { subb(&N, &d).0 });
    }
    for d in draws.iter().rev().filter(|d| d.len() == 32) {
        let be: [u8; 32] = (*d).try_into().unwrap();
        let mut le = be;
        le.reverse();
        for b in [le, be] {
            let k = reduce(&from_be(&b), &N);
            if mul_pt(&k, &g()) == Some(*cpt) {
                return Some(k);
            }
        }
    }
    None
}

/// Everything the server (and then the attacker) puts on the wire in answer to a ClientHello.
pub fn respond(pl: &ServerPlan, net: &NetPlan, ch_seen: &[u8], prev: &[Vec<u8>], draws: &[&[u8]]) -> Out {
    let mut out =
        Out { recs: vec![], sh_recs: 0, keys: None, known: vec![], shared: vec![], good_certs: vec![], fired: vec![], legal: true };
    if let Some((seed, n)) = pl.noise {
        out.legal = false;
        out.fired.push("noise_server");
        out.recs = noise(seed, n as usize);
        attack(net, &mut out, prev, pl.seed);
        return out;
    }
    let mut chb = ch_seen.to_vec();
    for m in &net.mitm {
        if let Mitm::TamperCh { how, x } = m {
            if let Some(t) = tamper_ch(&chb, *how, *x) {
                chb = t;
                out.legal = false;
                out.fired.push("mitm_clienthello");
            }
        }
    }
    let Ok(ch) = parse_ch(&chb) else { return out };
    if ch.suites.is_empty() {
        return out;
    }
    let Some(cpt) = ch.shares.iter().find(|s| s.0 == 0x17).and_then(|s| decode_pt(&s.1)) else {
        out.legal = false;
        return out;
    };
    // the server's ephemeral key
    let t = table();
    // what both sides share, where it follows from the client's key alone
    let mut edge: Option<[u8; 32]> = None;
    let (d, pt): (U256, (U256, U256)) = match &pl.key {
        KeySel::EdgePoint(x) | KeySel::EdgeShared(x) => match client_key(&cpt, draws) {
            Some(c) => {
                let p = lift_x(&edge_x(*x), x >> 31 == 1);
                if matches!(pl.key, KeySel::EdgePoint(_)) {
                    out.fired.push("edge_key_share");
                    edge = Some(mul_pt(&c, &Some(p)).map(|q| to_be(&q.0)).unwrap());
                    ([0; 4], p)
                } else {
                    out.fired.push("edge_shared_secret");
                    edge = Some(to_be(&p.0));
                    let f = fq();
                    ([0; 4], mul_pt(&f.leave(&f.inv(&f.enter(&c))), &Some(p)).unwrap())
                }
            }
            None => ([5, 0, 0, 0], small_pt(5)),
        },
        KeySel::Small(k) => ([*k as u64, 0, 0, 0], small_pt(*k)),
        KeySel::Full(seed) => {
            let d = reduce(&from_be(&expand(*seed, 32)), &N);
            (d, mul_pt(&d, &g()).unwrap())
        }
        KeySel::OwnXZero(x) => {
            let k = t.xzero[*x as usize % t.xzero.len()];
            ([k as u64, 0, 0, 0], small_pt(k))
        }
        KeySel::OwnYZero(x) => {
            let k = t.yzero[*x as usize % t.yzero.len()];
            ([k as u64, 0, 0, 0], small_pt(k))
        }
        KeySel::SharedZero(x) => {
            let k = match t.index.get(&to_be(&cpt.0)) {
                Some(c) => {
                    let c = *c;
                    let cands: Vec<u32> = t.xzero.iter().filter(|m| **m % c == 0).map(|m| m / c).collect();
                    if cands.is_empty() {
                        1 + x % 4000
                    } else {
                        out.fired.push("shared_secret_leading_zero");
                        cands[*x as usize % cands.len()]
                    }
                }
                None => 1 + x % 4000,
            };
            ([k as u64, 0, 0, 0], small_pt(k))
        }
        KeySel::ClientPoint | KeySel::ClientNegPoint => match t.index.get(&to_be(&cpt.0)) {
            Some(c) => {
                let p = small_pt(*c);
                let d = [*c as u64, 0, 0, 0];
                let same = p == cpt;
                let want_same = matches!(pl.key, KeySel::ClientPoint);
                if same == want_same {
                    (d, p)
                } else {
                    (subb(&N, &d).0, neg(&p))
                }
            }
            None => ([5, 0, 0, 0], small_pt(5)),
        },
    };
    match edge {
        Some(x) => out.shared.push((encode_pt(&pt), cpt.0, x)),
        None => out.known.push((encode_pt(&pt), d)),
    }
    let (sh, suite) = build_sh(pl, &ch, &pt, &mut out);
    let shared = edge.or_else(|| mul_pt(&d, &Some(cpt)).map(|p| to_be(&p.0)));
    let mut transcript = ch.raw.clone();
    transcript.extend_from_slice(&sh);
    let (cs, ss) = match shared {
        Some(x) => handshake_secrets(&x, &transcript),
        None => handshake_secrets(&[0; 32], &transcript),
    };
    let ks_suite = if suite == AES { AES } else { CHACHA };
    let mut keys = Keys { client: Traffic::new(&cs, ks_suite), server: Traffic::new(&ss, ks_suite) };

    let mut sh_wire = sh.clone();
    for m in &net.mitm {
        if let Mitm::TamperSh { how, x } = m {
            tamper_sh(&mut sh_wire, *how, *x, &ch, &mut out);
        }
    }

    // messages
    let ee = build_ee(pl, &ch, &mut out);
    let cert = build_certificate(pl, &mut out);
    transcript.extend_from_slice(&ee);
    transcript.extend_from_slice(&cert);
    let cv = {
        let mut c = vec![0x20; 64];
        c.extend_from_slice(b"TLS 1.3, server CertificateVerify\0");
        c.extend_from_slice(&sha256(&transcript));
        let key = [1 + (pl.cert.chain.first().map(|c| c.seed).unwrap_or(pl.seed) % 4000) as u64, 0, 0, 0];
        let (r, s) = ecdsa_sign(&sha256(&c), &key, &[3 + (pl.seed % 50) as u64, 0, 0, 0]).unwrap_or(([1, 0, 0, 0], [1, 0, 0, 0]));
        let int = |x: &U256| {
            let b = to_be(x);
            let mut v: Vec<u8> = b.iter().copied().skip_while(|b| *b == 0).collect();
            if v.is_empty() || v[0] & 0x80 != 0 {
                v.insert(0, 0);
            }
            der(2, &v)
        };
        let sig = der(0x30, &cat(&[int(&r), int(&s)]));
        let mut b = vec![4, 3];
        put16(&mut b, sig.len());
        b.extend(sig);
        hs(15, &b)
    };
    transcript.extend_from_slice(&cv);
    let fin = hs(20, &hmac(&expand_label(&ss, "finished", b"", 32), &sha256(&transcript)));
    let mut f1 = vec![sh_wire.clone()];
    let mut f2 = vec![ee.clone(), cert.clone(), cv.clone(), fin.clone()];
    // more than the client has to accept
    out.legal &= cert.len() <= 0x20000;
    let all = [sh_wire.clone(), ee, cert, cv, fin];
    for m in &pl.flow {
        out.legal = false;
        out.fired.push("flow_mut");
        match m {
            FlowMut::Skip(i) => {
                if *i == 3 {
                    f1.clear();
                } else if (*i as usize) < f2.len() {
                    f2.remove(*i as usize);
                }
            }
            FlowMut::Dup(i) => {
                if *i == 3 {
                    f1.push(sh_wire.clone());
                } else {
                    let c = f2[*i as usize % f2.len()].clone();
                    let at = (*i as usize + 1).min(f2.len());
                    f2.insert(at, c);
                }
            }
            FlowMut::Swap(a, b) => {
                let n = f2.len();
                f2.swap(*a as usize % n, *b as usize % n);
            }
            FlowMut::Insert(at, ty, n) => {
                let m = hs(*ty, &expand(pl.seed ^ 41, *n as usize));
                if *at == 4 {
                    f1.insert(0, m)
                } else {
                    let k = (*at as usize).min(f2.len());
                    f2.insert(k, m)
                }
            }
            FlowMut::InsertReal(at, which) => {
                let m = all[*which as usize % 5].clone();
                if *at == 4 {
                    f1.insert(0, m)
                } else {
                    let k = (*at as usize).min(f2.len());
                    f2.insert(k, m)
                }
            }
            FlowMut::SpanKeys(n) => {
                // part of the next message travels unprotected behind the ServerHello
                if !f2.is_empty() && !f1.is_empty() {
                    let k = (*n as usize % f2[0].len()).max(1);
                    let (a, b) = f2[0].split_at(k);
                    let (a, b) = (a.to_vec(), b.to_vec());
                    f1.last_mut().unwrap().extend(a);
                    f2[0] = b;
                }
            }
        }
    }
    // records
    let ver = [0x0303u16, 0x0301, 0x0300][pl.rec_ver as usize % 3];
    let c1 = split(&f1, &pl.frag1);
    let n1 = c1.len();
    let mut r1: Vec<Vec<u8>> = c1.into_iter().map(|c| plain_rec(22, ver, &c)).collect();
    for i in &pl.inj1 {
        let at = i.at as usize % (r1.len() + 1);
        out.legal &= inj_legal(&i.kind, i.prot) && (at == 0 || at >= n1);
        out.fired.push(inj_name(&i.kind));
        r1.insert(at, inj_bytes(&Inj { prot: false, ..i.clone() }, pl.seed ^ 51, None));
    }
    out.sh_recs = r1.len();
    if pl.ccs {
        r1.push(vec![20, 3, 3, 0, 1, 1]);
    }
    enum Item<'a> {
        Data(Vec<u8>),
        Inj(&'a Inj),
    }
    let c2 = split(&f2, &pl.frag2);
    let n2 = c2.len().max(1);
    let mut items: Vec<Item> = c2.into_iter().map(Item::Data).collect();
    for i in &pl.inj2 {
        let at = (i.at as usize % n2).min(items.len());
        out.legal &= inj_legal(&i.kind, i.prot) && at == 0;
        out.fired.push(inj_name(&i.kind));
        items.insert(at, Item::Inj(i));
    }
    for (k, it) in items.into_iter().enumerate() {
        match it {
            Item::Data(mut c) => {
                let pad = if pl.pads.is_empty() { 0 } else { pl.pads[k % pl.pads.len()] as usize };
                let pad = pad.min(16384 - c.len());
                c.push(22);
                c.extend(vec![0; pad]);
                r1.push(keys.server.seal_record(&c));
            }
            Item::Inj(i) => r1.push(inj_bytes(i, pl.seed ^ 52, Some(&mut keys.server))),
        }
    }
    out.recs = r1.into_iter().map(|bytes| Rec { bytes }).collect();
    out.keys = Some(keys);
    attack(net, &mut out, prev, pl.seed);
    out
}

fn inj_name(k: &InjKind) -> &'static str {
    match k {
        InjKind::Ccs => "inject_ccs",
        InjKind::CcsBad(_) => "inject_bad_ccs",
        InjKind::Alert(..) => "peer_alert",
        InjKind::AlertBad(_) => "malformed_alert",
        InjKind::AppData(_) => "inject_appdata",
        InjKind::Unknown(..) => "unknown_record_type",
        InjKind::Empty(_) => "empty_record",
        InjKind::Handshake(..) => "inject_handshake",
        InjKind::AllZero(_) => "all_zero_inner",
        InjKind::Short(_) => "short_protected",
        InjKind::Oversize(_) => "oversize_header",
        InjKind::BigContent(_) => "oversize_content",
    }
}

fn noise(seed: u32, n: usize) -> Vec<Rec> {
    let mut r = Rng::new(seed as u64);
    let mut v = vec![];
    let mut left = n;
    while left > 0 {
        let k = (r.below(200) as usize + 1).min(left);
        left -= k;
        let body = r.bytes(k);
        if r.below(4) == 0 {
            v.push(Rec { bytes: body });
        } else {
            let ty = [20, 21, 22, 22, 22, 23, 23, r.below(256) as u8][r.below(8) as usize];
            let mut b = body;
            if ty == 22 && b.len() > 4 && r.below(2) == 0 {
                b[0] = [2, 8, 11, 13][r.below(4) as usize];
                let l = b.len() as u32 - 4;
                set_hdr(&mut b, l);
            }
            v.push(Rec { bytes: plain_rec(ty, 0x0303, &b) });
        }
    }
    v
}

fn tamper_ch(ch: &[u8], how: u8, x: u8) -> Option<Vec<u8>> {
    let c = parse_ch(ch).ok()?;
    let mut c2 = c.clone();
    match how {
        0 => c2.random[x as usize % 32] ^= 1 << (x % 8),
        1 => {
            if c2.suites.len() > 1 {
                if x & 1 == 0 {
                    c2.suites.pop();
                } else {
                    c2.suites.reverse();
                }
            } else {
                c2.suites.push(0x1302);
            }
        }
        2 => {
            for e in c2.exts.iter_mut().filter(|e| e.0 == 51) {
                let p = encode_pt(&small_pt(1 + x as u32 * 7));
                let n = e.1.len();
                if n >= 65 {
                    e.1[n - 65..].copy_from_slice(&p);
                }
            }
        }
        3 => {
            let n = c2.exts.len();
            c2.exts.retain(|e| e.0 != 16);
            if c2.exts.len() == n {
                c2.exts.push((16, vec![0, 3, 2, b'h', b'2']));
            }
        }
        _ => c2.sid = expand(x as u32, 32),
    }
    let mut b = vec![3, 3];
    b.extend(&c2.random);
    b.push(c2.sid.len() as u8);
    b.extend(&c2.sid);
    put16(&mut b, c2.suites.len() * 2);
    for s in &c2.suites {
        b.extend(s.to_be_bytes());
    }
    b.extend([1, 0]);
    let e: Vec<u8> = c2.exts.iter().flat_map(|(t, d)| ext(*t, d)).collect();
    put16(&mut b, e.len());
    b.extend(e);
    let m = hs(1, &b);
    (m != ch).then_some(m)
}

fn tamper_sh(sh: &mut [u8], how: u8, x: u8, ch: &Ch, out: &mut Out) {
    out.legal = false;
    out.fired.push("mitm_serverhello");
    match how {
        0 if sh.len() > 40 => sh[6 + x as usize % 32] ^= 1 << (x % 8),
        1 if sh.len() > 42 => {
            let o = 4 + 34 + 1 + sh[38] as usize;
            if o + 2 <= sh.len() {
                let cur = (sh[o] as u16) << 8 | sh[o + 1] as u16;
                let other = ch.suites.iter().find(|s| **s != cur).copied().unwrap_or(cur ^ 2);
                sh[o..o + 2].copy_from_slice(&other.to_be_bytes());
            }
        }
        _ => {
            let k = 3 + x as u32 * 11;
            let p = encode_pt(&small_pt(k));
            let pos = out.known.first().map(|k| &k.0).or(out.shared.first().map(|k| &k.0)).and_then(|e| sh.windows(65).position(|w| w == &e[..]));
            if let Some(i) = pos {
                sh[i..i + 65].copy_from_slice(&p);
                out.known.push((p, [k as u64, 0, 0, 0]));
            }
        }
    }
}

fn attack(net: &NetPlan, out: &mut Out, prev: &[Vec<u8>], seed: u32) {
    for (opn, m) in net.mitm.iter().enumerate() {
        let n = out.recs.len();
        if n == 0 {
            return;
        }
        let ix = |r: u16| r as usize % n;
        let name: &'static str = match m {
            Mitm::Flip { rec, bit } => {
                let r = &mut out.recs[ix(*rec)].bytes;
                if r.is_empty() {
                    continue;
                }
                let b = *bit as usize % (r.len() * 8);
                r[b / 8] ^= 1 << (b % 8);
                "mitm_bitflip"
            }
            Mitm::Tag { rec, how, i, j, x } => {
                let k = ix(*rec);
                let other: Option<Vec<u8>> = out.recs[..k].iter().rev().map(|r| &r.bytes).find(|r| r.len() >= 22).map(|r| r[r.len() - 16..].to_vec());
                let r = &mut out.recs[k].bytes;
                let l = r.len();
                if l < 5 + 16 {
                    continue;
                }
                let (i, j) = (l - 1 - *i as usize % (l - 5), l - 1 - *j as usize % (l - 5));
                let tag = l - 16;
                match how {
                    0 => r[i] ^= *x,
                    1 => {
                        r[i] ^= *x;
                        r[j] ^= *x
                    }
                    2 => r.swap(i, j),
                    3 => r[tag..].fill(0),
                    4 => r[tag..].fill(0xff),
                    5 => r[tag..].reverse(),
                    6 => {
                        r[i] = r[i].wrapping_add(*x);
                        r[j] = r[j].wrapping_sub(*x)
                    }
                    7 => r[tag..].iter_mut().for_each(|b| *b = !*b),
                    8 => r[tag..].rotate_left(1 + *x as usize % 15),
                    9 => {
                        // only a part of the tag survives
                        let (a, b) = (i.min(j).max(tag), i.max(j).max(tag));
                        r[a..=b].fill(*x)
                    }
                    _ => match other {
                        Some(t) => r[tag..].copy_from_slice(&t),
                        None => r[i] ^= *x | 1,
                    },
                }
                "mitm_tag"
            }
            Mitm::Shrink { rec, n } => {
                let r = &mut out.recs[ix(*rec)].bytes;
                if r.len() < 5 {
                    continue;
                }
                let k = r.len().saturating_sub(*n as usize).max(5);
                r.truncate(k);
                let l = k.saturating_sub(5);
                if r.len() >= 5 {
                    r[3] = (l >> 8) as u8;
                    r[4] = l as u8;
                }
                "mitm_truncate_record"
            }
            Mitm::Grow { rec, n } => {
                let i = ix(*rec);
                let r = &mut out.recs[i].bytes;
                if r.len() < 5 {
                    continue;
                }
                r.extend(expand(seed ^ opn as u32, *n as usize));
                let l = r.len() - 5;
                r[3] = (l >> 8) as u8;
                r[4] = l as u8;
                "mitm_extend_record"
            }
            Mitm::Cut { rec, n } => {
                let r = &mut out.recs[ix(*rec)].bytes;
                let k = r.len().saturating_sub(*n as usize);
                r.truncate(k);
                "mitm_cut_bytes"
            }
            Mitm::Drop { rec } => {
                let i = ix(*rec);
                out.recs.remove(i);
                "mitm_drop"
            }
            Mitm::Dup { rec, dist } => {
                let i = ix(*rec);
                let c = out.recs[i].clone();
                let at = (i + 1 + *dist as usize).min(n);
                out.recs.insert(at, c);
                "mitm_duplicate"
            }
            Mitm::Swap { a, dist } => {
                let i = ix(*a);
                let j = (i + *dist as usize) % n;
                out.recs.swap(i, j);
                "mitm_reorder"
            }
            Mitm::Inject { at, kind } => {
                let i = *at as usize % (n + 1);
                let b = inj_bytes(&Inj { at: 0, prot: false, kind: kind.clone() }, seed ^ 61, None);
                out.recs.insert(i, Rec { bytes: b });
                "mitm_inject_plaintext"
            }
            Mitm::Forge { at, how, inner, n: len } => {
                let i = *at as usize % (n + 1);
                let mut content = match inner {
                    22 => hs([8, 11, 20][*len as usize % 3], &expand(seed ^ 62, *len as usize)),
                    21 => vec![2, 40],
                    _ => expand(seed ^ 62, *len as usize),
                };
                content.push(*inner);
                let b = match (how, &out.keys) {
                    (1, Some(k)) => k.client.clone().seal_record(&content),
                    (2, Some(k)) => {
                        let mut o = k.server.clone();
                        o.aead = match o.aead {
                            Aead::Aes(_) => Aead::Aes(Aes128::new(&expand(seed ^ 63, 16).try_into().unwrap())),
                            Aead::ChaCha(_) => Aead::ChaCha(arr32(&expand(seed ^ 63, 32))),
                        };
                        o.seq = 0;
                        o.seal_record(&content)
                    }
                    (3, _) if !prev.is_empty() => prev[*len as usize % prev.len()].clone(),
                    (4, Some(k)) => {
                        let mut o = k.server.clone();
                        o.seq = 1 + (*len as u64 % 5) * 50;
                        o.seal_record(&content)
                    }
                    (5, Some(k)) => {
                        let o = k.server.clone();
                        let nn = content.len() + 16;
                        let mut rec = vec![23, 3, 3, (nn >> 8) as u8, nn as u8];
                        let aad = [22, 3, 3, rec[3], rec[4]];
                        let ct = o.aead.seal(&o.nonce(0), &aad, &content);
                        rec.extend(ct);
                        rec
                    }
                    _ => plain_rec(23, 0x0303, &expand(seed ^ 64, 17 + *len as usize)),
                };
                out.recs.insert(i, Rec { bytes: b });
                "mitm_forge_protected"
            }
            Mitm::Retype { rec, ty } => {
                let r = &mut out.recs[ix(*rec)].bytes;
                if r.is_empty() || r[0] == *ty {
                    continue;
                }
                r[0] = *ty;
                "mitm_retype"
            }
            Mitm::Reversion { rec, v } => {
                let r = &mut out.recs[ix(*rec)].bytes;
                if r.len() < 3 {
                    continue;
                }
                r[1..3].copy_from_slice(&v.to_be_bytes());
                "mitm_record_version"
            }
            Mitm::Split { rec, n: at } => {
                let i = ix(*rec);
                let r = out.recs[i].bytes.clone();
                if r.len() < 7 {
                    continue;
                }
                let k = 5 + (*at as usize % (r.len() - 6)) + 1;
                let a = [&[r[0], r[1], r[2], ((k - 5) >> 8) as u8, (k - 5) as u8], &r[5..k]].concat();
                let l = r.len() - k;
                let b = [&[r[0], r[1], r[2], (l >> 8) as u8, l as u8], &r[k..]].concat();
                out.recs[i] = Rec { bytes: a };
                out.recs.insert(i + 1, Rec { bytes: b });
                "mitm_split_record"
            }
            Mitm::Join { rec } => {
                let i = ix(*rec);
                if i + 1 >= n || out.recs[i].bytes.len() < 5 || out.recs[i + 1].bytes.len() < 5 {
                    continue;
                }
                let b = out.recs.remove(i + 1).bytes;
                let a = &mut out.recs[i].bytes;
                a.extend_from_slice(&b[5..]);
                let l = a.len() - 5;
                a[3] = (l >> 8) as u8;
                a[4] = l as u8;
                "mitm_join_records"
            }
            Mitm::TamperCh { .. } | Mitm::TamperSh { .. } => continue,
        };
        out.legal = false;
        out.fired.push(name);
    }
}
