//! Independent cryptography for the reference models. Nothing here uses code under test.
//! Validated against `openssl`, Python's hashlib and RFC vectors by `tsim selftest` (see selftest.rs).

// ---------------------------------------------------------------- SHA-256

const K: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5,
    0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
    0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
    0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
    0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
    0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
    0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
    0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
];

pub fn sha256(msg: &[u8]) -> [u8; 32] {
    let mut h: [u32; 8] = [
        0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
    ];
    let full = msg.len() / 64;
    for i in 0..full {
        sha_block(&mut h, &msg[i * 64..i * 64 + 64]);
    }
    let rest = &msg[full * 64..];
    let mut tail = [0u8; 128];
    tail[..rest.len()].copy_from_slice(rest);
    tail[rest.len()] = 0x80;
    let n = if rest.len() < 56 { 64 } else { 128 };
    tail[n - 8..n].copy_from_slice(&((msg.len() as u64).wrapping_mul(8)).to_be_bytes());
    for c in tail[..n].chunks(64) {
        sha_block(&mut h, c);
    }
    let mut out = [0; 32];
    for i in 0..8 {
        out[i * 4..i * 4 + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}

fn sha_block(h: &mut [u32; 8], b: &[u8]) {
    let mut w = [0u32; 64];
    for i in 0..16 {
        w[i] = u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
    }
    for i in 16..64 {
        let a = w[i - 15];
        let e = w[i - 2];
        let s0 = a.rotate_right(7) ^ a.rotate_right(18) ^ (a >> 3);
        let s1 = e.rotate_right(17) ^ e.rotate_right(19) ^ (e >> 10);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let mut v = *h;
    for i in 0..64 {
        let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
        let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
        let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(maj);
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    for i in 0..8 {
        h[i] = h[i].wrapping_add(v[i]);
    }
}

pub fn hmac(key: &[u8], msg: &[u8]) -> [u8; 32] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(&sha256(key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut inner: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    inner.extend_from_slice(msg);
    let ih = sha256(&inner);
    let mut outer: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    outer.extend_from_slice(&ih);
    sha256(&outer)
}

pub fn hkdf_extract(salt: &[u8], ikm: &[u8]) -> [u8; 32] {
    hmac(salt, ikm)
}

pub fn hkdf_expand(prk: &[u8], info: &[u8], len: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut t: Vec<u8> = Vec::new();
    let mut i = 1u8;
    while out.len() < len {
        let mut m = t.clone();
        m.extend_from_slice(info);
        m.push(i);
        t = hmac(prk, &m).to_vec();
        out.extend_from_slice(&t);
        i += 1;
    }
    out.truncate(len);
    out
}

pub fn expand_label(secret: &[u8], label: &str, ctx: &[u8], len: usize) -> Vec<u8> {
    let mut info = vec![(len >> 8) as u8, len as u8, (6 + label.len()) as u8];
    info.extend_from_slice(b"tls13 ");
    info.extend_from_slice(label.as_bytes());
    info.push(ctx.len() as u8);
    info.extend_from_slice(ctx);
    hkdf_expand(secret, &info, len)
}

pub fn arr32(v: &[u8]) -> [u8; 32] {
    let mut a = [0; 32];
    a.copy_from_slice(v);
    a
}

// ---------------------------------------------------------------- AES-128-GCM

fn sbox() -> &'static [u8; 256] {
    use std::sync::OnceLock;
    static S: OnceLock<[u8; 256]> = OnceLock::new();
    S.get_or_init(|| {
        // Generated from the definition: multiplicative inverse in GF(2^8), then affine map.
        let mut s = [0u8; 256];
        let (mut p, mut q) = (1u8, 1u8);
        loop {
            p = p ^ (p << 1) ^ if p & 0x80 != 0 { 0x1b } else { 0 };
            q ^= q << 1;
            q ^= q << 2;
            q ^= q << 4;
            if q & 0x80 != 0 {
                q ^= 0x09;
            }
            s[p as usize] =
                q ^ q.rotate_left(1) ^ q.rotate_left(2) ^ q.rotate_left(3) ^ q.rotate_left(4) ^ 0x63;
            if p == 1 {
                break;
            }
        }
        s[0] = 0x63;
        s
    })
}

fn xt(b: u8) -> u8 {
    (b << 1) ^ if b & 0x80 != 0 { 0x1b } else { 0 }
}

#[derive(Clone)]
pub struct Aes128 {
    rk: [[u8; 16]; 11],
}

impl Aes128 {
    pub fn new(key: &[u8; 16]) -> Self {
        let s = sbox();
        let mut rk = [[0u8; 16]; 11];
        rk[0] = *key;
        let mut rc = 1u8;
        for i in 1..11 {
            let p = rk[i - 1];
            let t = [s[p[13] as usize] ^ rc, s[p[14] as usize], s[p[15] as usize], s[p[12] as usize]];
            rc = xt(rc);
            for j in 0..4 {
                rk[i][j] = p[j] ^ t[j];
            }
            for j in 4..16 {
                rk[i][j] = p[j] ^ rk[i][j - 4];
            }
        }
        Aes128 { rk }
    }
    pub fn enc(&self, b: &[u8; 16]) -> [u8; 16] {
        let s = sbox();
        let mut st = *b;
        for i in 0..16 {
            st[i] ^= self.rk[0][i];
        }
        for r in 1..11 {
            let mut t = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    t[c * 4 + row] = s[st[((c + row) % 4) * 4 + row] as usize];
                }
            }
            if r < 10 {
                for c in 0..4 {
                    let a = [t[c * 4], t[c * 4 + 1], t[c * 4 + 2], t[c * 4 + 3]];
                    let x = a[0] ^ a[1] ^ a[2] ^ a[3];
                    for k in 0..4 {
                        t[c * 4 + k] = a[k] ^ x ^ xt(a[k] ^ a[(k + 1) % 4]);
                    }
                }
            }
            for i in 0..16 {
                st[i] = t[i] ^ self.rk[r][i];
            }
        }
        st
    }
}

struct Ghash {
    // 4-bit table of multiples of H
    t: [u128; 16],
}

fn shr1(x: u128) -> u128 {
    let lsb = x & 1;
    (x >> 1) ^ if lsb == 1 { 0xe1u128 << 120 } else { 0 }
}

impl Ghash {
    fn new(h: u128) -> Self {
        // t[n] where the 4-bit n is read with its most significant bit as the x^0 coefficient
        let mut t = [0u128; 16];
        t[8] = h;
        t[4] = shr1(h);
        t[2] = shr1(t[4]);
        t[1] = shr1(t[2]);
        for i in 1..16usize {
            if !i.is_power_of_two() {
                let top = 1 << (usize::BITS - 1 - i.leading_zeros());
                t[i] = t[top] ^ t[i ^ top];
            }
        }
        Ghash { t }
    }
    fn mul(&self, x: u128) -> u128 {
        let mut z = 0u128;
        for i in 0..32 {
            // from the highest-degree nibble (least significant bits) down
            let n = ((x >> (4 * i)) & 15) as usize;
            if i > 0 {
                for _ in 0..4 {
                    z = shr1(z);
                }
            }
            z ^= self.t[n];
        }
        z
    }
}

fn pad16_blocks(g: &Ghash, mut y: u128, d: &[u8]) -> u128 {
    for c in d.chunks(16) {
        let mut b = [0u8; 16];
        b[..c.len()].copy_from_slice(c);
        y = g.mul(y ^ u128::from_be_bytes(b));
    }
    y
}

fn gcm_tag(aes: &Aes128, iv: &[u8; 12], aad: &[u8], ct: &[u8]) -> [u8; 16] {
    let h = u128::from_be_bytes(aes.enc(&[0; 16]));
    let g = Ghash::new(h);
    let mut y = pad16_blocks(&g, 0, aad);
    y = pad16_blocks(&g, y, ct);
    y = g.mul(y ^ (((aad.len() as u128) * 8) << 64 | (ct.len() as u128) * 8));
    let mut j0 = [0u8; 16];
    j0[..12].copy_from_slice(iv);
    j0[15] = 1;
    (y ^ u128::from_be_bytes(aes.enc(&j0))).to_be_bytes()
}

fn gcm_ctr(aes: &Aes128, iv: &[u8; 12], d: &mut [u8]) {
    let mut ctr = 2u32;
    for c in d.chunks_mut(16) {
        let mut b = [0u8; 16];
        b[..12].copy_from_slice(iv);
        b[12..].copy_from_slice(&ctr.to_be_bytes());
        let k = aes.enc(&b);
        for (x, y) in c.iter_mut().zip(k) {
            *x ^= y;
        }
        ctr = ctr.wrapping_add(1);
    }
}

// ---------------------------------------------------------------- ChaCha20-Poly1305

fn chacha_block(key: &[u8; 32], ctr: u32, iv: &[u8; 12]) -> [u8; 64] {
    let mut s = [0u32; 16];
    s[0] = 0x61707865;
    s[1] = 0x3320646e;
    s[2] = 0x79622d32;
    s[3] = 0x6b206574;
    for i in 0..8 {
        s[4 + i] = u32::from_le_bytes([key[4 * i], key[4 * i + 1], key[4 * i + 2], key[4 * i + 3]]);
    }
    s[12] = ctr;
    for i in 0..3 {
        s[13 + i] = u32::from_le_bytes([iv[4 * i], iv[4 * i + 1], iv[4 * i + 2], iv[4 * i + 3]]);
    }
    let mut w = s;
    fn qr(w: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
        w[a] = w[a].wrapping_add(w[b]);
        w[d] = (w[d] ^ w[a]).rotate_left(16);
        w[c] = w[c].wrapping_add(w[d]);
        w[b] = (w[b] ^ w[c]).rotate_left(12);
        w[a] = w[a].wrapping_add(w[b]);
        w[d] = (w[d] ^ w[a]).rotate_left(8);
        w[c] = w[c].wrapping_add(w[d]);
        w[b] = (w[b] ^ w[c]).rotate_left(7);
    }
    for _ in 0..10 {
        qr(&mut w, 0, 4, 8, 12);
        qr(&mut w, 1, 5, 9, 13);
        qr(&mut w, 2, 6, 10, 14);
        qr(&mut w, 3, 7, 11, 15);
        qr(&mut w, 0, 5, 10, 15);
        qr(&mut w, 1, 6, 11, 12);
        qr(&mut w, 2, 7, 8, 13);
        qr(&mut w, 3, 4, 9, 14);
    }
    let mut out = [0u8; 64];
    for i in 0..16 {
        out[4 * i..4 * i + 4].copy_from_slice(&w[i].wrapping_add(s[i]).to_le_bytes());
    }
    out
}

fn chacha_xor(key: &[u8; 32], iv: &[u8; 12], d: &mut [u8]) {
    for (i, c) in d.chunks_mut(64).enumerate() {
        let k = chacha_block(key, 1 + i as u32, iv);
        for (x, y) in c.iter_mut().zip(k) {
            *x ^= y;
        }
    }
}

/// Poly1305 with 44/44/42-bit limbs.
fn poly1305(key: &[u8; 32], msg: &[u8]) -> [u8; 16] {
    let r = u128::from_le_bytes(key[..16].try_into().unwrap()) & 0x0ffffffc0ffffffc0ffffffc0fffffff;
    let s = u128::from_le_bytes(key[16..].try_into().unwrap());
    const M44: u128 = (1 << 44) - 1;
    const M42: u128 = (1 << 42) - 1;
    let r0 = r & M44;
    let r1 = (r >> 44) & M44;
    let r2 = r >> 88;
    let (mut h0, mut h1, mut h2) = (0u128, 0u128, 0u128);
    for c in msg.chunks(16) {
        let mut b = [0u8; 16];
        b[..c.len()].copy_from_slice(c);
        let mut hi = 0u128;
        if c.len() < 16 {
            b[c.len()] = 1;
        } else {
            hi = 1;
        }
        let n = u128::from_le_bytes(b);
        h0 += n & M44;
        h1 += (n >> 44) & M44;
        h2 += (n >> 88) | (hi << 40);
        // 2^132 = 4 * 2^130 = 20 (mod p)
        let d0 = h0 * r0 + 20 * (h1 * r2 + h2 * r1);
        let d1 = h0 * r1 + h1 * r0 + 20 * (h2 * r2);
        let d2 = h0 * r2 + h1 * r1 + h2 * r0;
        h0 = d0 & M44;
        let d1 = d1 + (d0 >> 44);
        h1 = d1 & M44;
        let d2 = d2 + (d1 >> 44);
        h2 = d2 & M42;
        h0 += (d2 >> 42) * 5;
        h1 += h0 >> 44;
        h0 &= M44;
    }
    // full carry
    for _ in 0..3 {
        h1 += h0 >> 44;
        h0 &= M44;
        h2 += h1 >> 44;
        h1 &= M44;
        let c = h2 >> 42;
        h2 &= M42;
        h0 += c * 5;
    }
    h1 += h0 >> 44;
    h0 &= M44;
    // compare with p = 2^130 - 5
    let mut g0 = h0 + 5;
    let mut g1 = h1 + (g0 >> 44);
    g0 &= M44;
    let mut g2 = h2 + (g1 >> 44);
    g1 &= M44;
    if g2 >> 42 != 0 {
        g2 &= M42;
        h0 = g0;
        h1 = g1;
        h2 = g2;
    }
    let v = h0.wrapping_add(h1 << 44).wrapping_add(h2 << 88);
    v.wrapping_add(s).to_le_bytes()
}

fn chacha_tag(key: &[u8; 32], iv: &[u8; 12], aad: &[u8], ct: &[u8]) -> [u8; 16] {
    let k = chacha_block(key, 0, iv);
    let mut m = aad.to_vec();
    m.resize(m.len().div_ceil(16) * 16, 0);
    m.extend_from_slice(ct);
    m.resize(m.len().div_ceil(16) * 16, 0);
    m.extend_from_slice(&(aad.len() as u64).to_le_bytes());
    m.extend_from_slice(&(ct.len() as u64).to_le_bytes());
    poly1305(k[..32].try_into().unwrap(), &m)
}

// ---------------------------------------------------------------- AEAD interface

pub const AES: u16 = 0x1301;
pub const CHACHA: u16 = 0x1303;

#[derive(Clone)]
pub enum Aead {
    Aes(Aes128),
    ChaCha([u8; 32]),
}

impl Aead {
    pub fn seal(&self, iv: &[u8; 12], aad: &[u8], pt: &[u8]) -> Vec<u8> {
        let mut ct = pt.to_vec();
        let tag = match self {
            Aead::Aes(a) => {
                gcm_ctr(a, iv, &mut ct);
                gcm_tag(a, iv, aad, &ct)
            }
            Aead::ChaCha(k) => {
                chacha_xor(k, iv, &mut ct);
                chacha_tag(k, iv, aad, &ct)
            }
        };
        ct.extend_from_slice(&tag);
        ct
    }
    pub fn open(&self, iv: &[u8; 12], aad: &[u8], ct: &[u8]) -> Option<Vec<u8>> {
        if ct.len() < 16 {
            return None;
        }
        let (ct, tag) = ct.split_at(ct.len() - 16);
        let want = match self {
            Aead::Aes(a) => gcm_tag(a, iv, aad, ct),
            Aead::ChaCha(k) => chacha_tag(k, iv, aad, ct),
        };
        if want != tag {
            return None;
        }
        let mut pt = ct.to_vec();
        match self {
            Aead::Aes(a) => gcm_ctr(a, iv, &mut pt),
            Aead::ChaCha(k) => chacha_xor(k, iv, &mut pt),
        }
        Some(pt)
    }
}

/// One direction of traffic protection.
#[derive(Clone)]
pub struct Traffic {
    pub aead: Aead,
    pub iv: [u8; 12],
    pub seq: u64,
}

impl Traffic {
    pub fn new(secret: &[u8], suite: u16) -> Traffic {
        let iv: [u8; 12] = expand_label(secret, "iv", b"", 12).try_into().unwrap();
        let aead = match suite {
            AES => Aead::Aes(Aes128::new(&expand_label(secret, "key", b"", 16).try_into().unwrap())),
            _ => Aead::ChaCha(arr32(&expand_label(secret, "key", b"", 32))),
        };
        Traffic { aead, iv, seq: 0 }
    }
    pub fn nonce(&self, seq: u64) -> [u8; 12] {
        let mut n = self.iv;
        for (i, b) in seq.to_be_bytes().iter().enumerate() {
            n[4 + i] ^= b;
        }
        n
    }
    /// Builds a whole protected record; `inner` is content, type and padding.
    pub fn seal_record(&mut self, inner: &[u8]) -> Vec<u8> {
        let n = inner.len() + 16;
        let mut rec = vec![23, 3, 3, (n >> 8) as u8, n as u8];
        let ct = self.aead.seal(&self.nonce(self.seq), &rec, inner);
        self.seq += 1;
        rec.extend_from_slice(&ct);
        rec
    }
    /// Opens a whole record; the sequence number advances only on success.
    pub fn open_record(&mut self, rec: &[u8]) -> Option<Vec<u8>> {
        let pt = self.aead.open(&self.nonce(self.seq), &rec[..5], &rec[5..])?;
        self.seq += 1;
        Some(pt)
    }
}

/// Handshake traffic keys of a TLS 1.3 connection without PSK.
pub fn handshake_secrets(shared_x: &[u8], transcript: &[u8]) -> ([u8; 32], [u8; 32]) {
    let early = hkdf_extract(&[0; 32], &[0; 32]);
    let derived = expand_label(&early, "derived", &sha256(b""), 32);
    let hs = hkdf_extract(&derived, shared_x);
    let th = sha256(transcript);
    (
        arr32(&expand_label(&hs, "c hs traffic", &th, 32)),
        arr32(&expand_label(&hs, "s hs traffic", &th, 32)),
    )
}

// ---------------------------------------------------------------- P-256

pub type U256 = [u64; 4]; // little-endian limbs

pub const P: U256 = [0xffffffffffffffff, 0x00000000ffffffff, 0, 0xffffffff00000001];
pub const N: U256 = [0xf3b9cac2fc632551, 0xbce6faada7179e84, 0xffffffffffffffff, 0xffffffff00000000];
const GX: U256 = [0xf4a13945d898c296, 0x77037d812deb33a0, 0xf8bce6e563a440f2, 0x6b17d1f2e12c4247];
const GY: U256 = [0xcbb6406837bf51f5, 0x2bce33576b315ece, 0x8ee7eb4a7c0f9e16, 0x4fe342e2fe1a7f9b];
const B: U256 = [0x3bce3c3e27d2604b, 0x651d06b0cc53b0f6, 0xb3ebbd55769886bc, 0x5ac635d8aa3a93e7];

pub fn from_be(b: &[u8]) -> U256 {
    let mut r = [0u64; 4];
    for (i, x) in b.iter().rev().enumerate() {
        r[i / 8] |= (*x as u64) << (8 * (i % 8));
    }
    r
}
pub fn to_be(a: &U256) -> [u8; 32] {
    let mut o = [0; 32];
    for i in 0..32 {
        o[31 - i] = (a[i / 8] >> (8 * (i % 8))) as u8;
    }
    o
}
pub fn lt(a: &U256, b: &U256) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] < b[i];
        }
    }
    false
}
pub fn addc(a: &U256, b: &U256) -> (U256, bool) {
    let mut r = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
    }
    (r, c != 0)
}
pub fn subb(a: &U256, b: &U256) -> (U256, bool) {
    let mut r = [0; 4];
    let mut br = 0i128;
    for i in 0..4 {
        let d = a[i] as i128 - b[i] as i128 + br;
        r[i] = d as u64;
        br = d >> 64;
    }
    (r, br != 0)
}
pub fn is_zero(a: &U256) -> bool {
    *a == [0; 4]
}
pub fn reduce(a: &U256, m: &U256) -> U256 {
    let mut r = *a;
    while !lt(&r, m) {
        r = subb(&r, m).0;
    }
    r
}

/// Montgomery arithmetic modulo an odd 256-bit number.
#[derive(Clone, Copy)]
pub struct Mont {
    pub m: U256,
    n0: u64,
    r2: U256,
    pub one: U256,
}

impl Mont {
    pub fn new(m: U256) -> Mont {
        let mut inv = 1u64;
        for _ in 0..6 {
            inv = inv.wrapping_mul(2u64.wrapping_sub(m[0].wrapping_mul(inv)));
        }
        let mut z = Mont { m, n0: inv.wrapping_neg(), r2: [0; 4], one: [0; 4] };
        let mut r = [1, 0, 0, 0];
        for i in 0..512 {
            r = z.add(&r, &r);
            if i == 255 {
                z.one = r;
            }
        }
        z.r2 = r;
        z
    }
    pub fn add(&self, a: &U256, b: &U256) -> U256 {
        let (r, c) = addc(a, b);
        let (s, br) = subb(&r, &self.m);
        if c || !br {
            s
        } else {
            r
        }
    }
    pub fn sub(&self, a: &U256, b: &U256) -> U256 {
        let (r, br) = subb(a, b);
        if br {
            addc(&r, &self.m).0
        } else {
            r
        }
    }
    pub fn mul(&self, a: &U256, b: &U256) -> U256 {
        let mut t = [0u64; 6];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                c += t[j] as u128 + a[j] as u128 * b[i] as u128;
                t[j] = c as u64;
                c >>= 64;
            }
            c += t[4] as u128;
            t[4] = c as u64;
            t[5] = (c >> 64) as u64;
            let m = t[0].wrapping_mul(self.n0);
            let mut c = (t[0] as u128 + m as u128 * self.m[0] as u128) >> 64;
            for j in 1..4 {
                c += t[j] as u128 + m as u128 * self.m[j] as u128;
                t[j - 1] = c as u64;
                c >>= 64;
            }
            c += t[4] as u128;
            t[3] = c as u64;
            t[4] = t[5] + (c >> 64) as u64;
            t[5] = 0;
        }
        let r = [t[0], t[1], t[2], t[3]];
        let (s, br) = subb(&r, &self.m);
        if t[4] != 0 || !br {
            s
        } else {
            r
        }
    }
    pub fn enter(&self, a: &U256) -> U256 {
        self.mul(a, &self.r2)
    }
    pub fn leave(&self, a: &U256) -> U256 {
        self.mul(a, &[1, 0, 0, 0])
    }
    /// In the Montgomery domain.
    pub fn pow(&self, a: &U256, e: &U256) -> U256 {
        let mut r = self.one;
        for i in (0..256).rev() {
            r = self.mul(&r, &r);
            if e[i / 64] >> (i % 64) & 1 == 1 {
                r = self.mul(&r, a);
            }
        }
        r
    }
    pub fn inv(&self, a: &U256) -> U256 {
        self.pow(a, &subb(&self.m, &[2, 0, 0, 0]).0)
    }
}

pub fn fp() -> &'static Mont {
    static M: std::sync::OnceLock<Mont> = std::sync::OnceLock::new();
    M.get_or_init(|| Mont::new(P))
}
pub fn fq() -> &'static Mont {
    static M: std::sync::OnceLock<Mont> = std::sync::OnceLock::new();
    M.get_or_init(|| Mont::new(N))
}

/// An affine point; `None` is the point at infinity.
pub type Pt = Option<(U256, U256)>;

#[derive(Clone, Copy)]
struct Jac {
    x: U256,
    y: U256,
    z: U256, // zero: infinity
}

fn jdbl(a: &Jac) -> Jac {
    let f = fp();
    if is_zero(&a.z) || is_zero(&a.y) {
        return Jac { x: f.one, y: f.one, z: [0; 4] };
    }
    // dbl-2001-b for a = -3
    let delta = f.mul(&a.z, &a.z);
    let gamma = f.mul(&a.y, &a.y);
    let beta = f.mul(&a.x, &gamma);
    let t = f.mul(&f.sub(&a.x, &delta), &f.add(&a.x, &delta));
    let alpha = f.add(&f.add(&t, &t), &t);
    let b2 = f.add(&beta, &beta);
    let b4 = f.add(&b2, &b2);
    let b8 = f.add(&b4, &b4);
    let x = f.sub(&f.mul(&alpha, &alpha), &b8);
    let yz = f.add(&a.y, &a.z);
    let z = f.sub(&f.sub(&f.mul(&yz, &yz), &gamma), &delta);
    let g2 = f.mul(&gamma, &gamma);
    let g2_2 = f.add(&g2, &g2);
    let g2_4 = f.add(&g2_2, &g2_2);
    let g2_8 = f.add(&g2_4, &g2_4);
    let y = f.sub(&f.mul(&alpha, &f.sub(&b4, &x)), &g2_8);
    Jac { x, y, z }
}

fn jadd(a: &Jac, b: &Jac) -> Jac {
    let f = fp();
    if is_zero(&a.z) {
        return *b;
    }
    if is_zero(&b.z) {
        return *a;
    }
    let z1 = f.mul(&a.z, &a.z);
    let z2 = f.mul(&b.z, &b.z);
    let u1 = f.mul(&a.x, &z2);
    let u2 = f.mul(&b.x, &z1);
    let s1 = f.mul(&a.y, &f.mul(&b.z, &z2));
    let s2 = f.mul(&b.y, &f.mul(&a.z, &z1));
    if u1 == u2 {
        if s1 == s2 {
            return jdbl(a);
        }
        return Jac { x: f.one, y: f.one, z: [0; 4] };
    }
    let h = f.sub(&u2, &u1);
    let r = f.sub(&s2, &s1);
    let h2 = f.mul(&h, &h);
    let h3 = f.mul(&h2, &h);
    let v = f.mul(&u1, &h2);
    let x = f.sub(&f.sub(&f.mul(&r, &r), &h3), &f.add(&v, &v));
    let y = f.sub(&f.mul(&r, &f.sub(&v, &x)), &f.mul(&s1, &h3));
    let z = f.mul(&h, &f.mul(&a.z, &b.z));
    Jac { x, y, z }
}

fn to_jac(p: &Pt) -> Jac {
    let f = fp();
    match p {
        None => Jac { x: f.one, y: f.one, z: [0; 4] },
        Some((x, y)) => Jac { x: f.enter(x), y: f.enter(y), z: f.one },
    }
}

fn to_aff(j: &Jac) -> Pt {
    let f = fp();
    if is_zero(&j.z) {
        return None;
    }
    let zi = f.inv(&j.z);
    let z2 = f.mul(&zi, &zi);
    Some((f.leave(&f.mul(&j.x, &z2)), f.leave(&f.mul(&j.y, &f.mul(&z2, &zi)))))
}

pub fn g() -> Pt {
    Some((GX, GY))
}

pub fn on_curve(x: &U256, y: &U256) -> bool {
    if !lt(x, &P) || !lt(y, &P) {
        return false;
    }
    let f = fp();
    let (x, y) = (f.enter(x), f.enter(y));
    let x3 = f.mul(&f.mul(&x, &x), &x);
    let three_x = f.add(&f.add(&x, &x), &x);
    f.mul(&y, &y) == f.add(&f.sub(&x3, &three_x), &f.enter(&B))
}

/// The point of the smallest x coordinate not below `x` (cyclically) that is on the curve.
pub fn lift_x(x: &U256, odd: bool) -> (U256, U256) {
    let f = fp();
    // (p + 1) / 4
    let e = {
        let (q, _) = subb(&P, &[3, 0, 0, 0]);
        let mut r = [0u64; 4];
        for i in 0..4 {
            r[i] = q[i] >> 2 | if i < 3 { q[i + 1] << 62 } else { 0 };
        }
        let mut c = 1u128;
        for l in &mut r {
            c += *l as u128;
            *l = c as u64;
            c >>= 64;
        }
        r
    };
    let mut x = reduce(x, &P);
    loop {
        let m = f.enter(&x);
        let t = f.add(&f.sub(&f.mul(&f.mul(&m, &m), &m), &f.add(&f.add(&m, &m), &m)), &f.enter(&B));
        let y = f.leave(&f.pow(&t, &e));
        if on_curve(&x, &y) {
            return (x, if (y[0] & 1 == 1) == odd || is_zero(&y) { y } else { subb(&P, &y).0 });
        }
        let mut c = 1u128;
        for l in &mut x {
            c += *l as u128;
            *l = c as u64;
            c >>= 64;
        }
        x = reduce(&x, &P);
    }
}

/// Field elements that exercise carries: few bits, many bits, limb patterns, neighbours of p and n.
pub fn edge_x(seed: u32) -> U256 {
    let small = [(seed >> 24) as u64 % 5, 0, 0, 0];
    let b = (seed >> 8) as usize % 256;
    let limb = |sel: u32| -> u64 {
        match sel % 8 {
            0 => 0,
            1 | 2 => u64::MAX,
            3 => 1,
            4 => 1 << 63,
            5 => u64::MAX - 1,
            6 => 0xffff_ffff,
            _ => 0xffff_ffff_0000_0000,
        }
    };
    match seed % 8 {
        0 => small,
        1 => subb(&P, &[40 + small[0] * 64, 0, 0, 0]).0,
        2 => {
            let mut r = [0; 4];
            r[b / 64] = 1 << (b % 64);
            r
        }
        3 => {
            // 2^b - 1
            let mut r = [u64::MAX; 4];
            for i in b..256 {
                r[i / 64] &= !(1 << (i % 64));
            }
            r
        }
        4 => [N[0].wrapping_add(small[0]), N[1], N[2], N[3]],
        5 => subb(&N, &small).0,
        _ => [limb(seed >> 8), limb(seed >> 11), limb(seed >> 14), limb(seed >> 17)],
    }
}

pub fn mul_pt(k: &U256, p: &Pt) -> Pt {
    let j = to_jac(p);
    let mut r = to_jac(&None);
    let mut started = false;
    for i in (0..256).rev() {
        if started {
            r = jdbl(&r);
        }
        if k[i / 64] >> (i % 64) & 1 == 1 {
            r = jadd(&r, &j);
            started = true;
        }
    }
    to_aff(&r)
}

pub fn add_pt(a: &Pt, b: &Pt) -> Pt {
    to_aff(&jadd(&to_jac(a), &to_jac(b)))
}

/// Multiples 1..=n of G, with one inversion.
pub fn multiples(n: usize) -> Vec<(U256, U256)> {
    let f = fp();
    let gj = to_jac(&g());
    let mut js = vec![gj];
    for _ in 1..n {
        let l = *js.last().unwrap();
        js.push(jadd(&l, &gj));
    }
    let mut pre = vec![f.one];
    for j in &js {
        let l = *pre.last().unwrap();
        pre.push(f.mul(&l, &j.z));
    }
    let mut inv = f.inv(pre.last().unwrap());
    let mut out = vec![([0; 4], [0; 4]); n];
    for i in (0..n).rev() {
        let zi = f.mul(&inv, &pre[i]);
        inv = f.mul(&inv, &js[i].z);
        let z2 = f.mul(&zi, &zi);
        out[i] = (f.leave(&f.mul(&js[i].x, &z2)), f.leave(&f.mul(&js[i].y, &f.mul(&z2, &zi))));
    }
    out
}

pub fn encode_pt(p: &(U256, U256)) -> Vec<u8> {
    let mut v = vec![4];
    v.extend_from_slice(&to_be(&p.0));
    v.extend_from_slice(&to_be(&p.1));
    v
}

/// Uncompressed form of a point of the curve.
pub fn decode_pt(b: &[u8]) -> Option<(U256, U256)> {
    if b.len() != 65 || b[0] != 4 {
        return None;
    }
    let (x, y) = (from_be(&b[1..33]), from_be(&b[33..]));
    on_curve(&x, &y).then_some((x, y))
}

pub fn ecdsa_verify(hash: &[u8; 32], q: &Pt, r: &U256, s: &U256) -> bool {
    if is_zero(r) || is_zero(s) || !lt(r, &N) || !lt(s, &N) {
        return false;
    }
    let f = fq();
    let e = reduce(&from_be(hash), &N);
    let w = f.inv(&f.enter(s));
    let u1 = f.leave(&f.mul(&f.enter(&e), &w));
    let u2 = f.leave(&f.mul(&f.enter(r), &w));
    match add_pt(&mul_pt(&u1, &g()), &mul_pt(&u2, q)) {
        None => false,
        Some((x, _)) => reduce(&x, &N) == *r,
    }
}

pub fn ecdsa_sign(hash: &[u8; 32], d: &U256, k: &U256) -> Option<(U256, U256)> {
    let f = fq();
    let r = reduce(&mul_pt(k, &g())?.0, &N);
    let e = reduce(&from_be(hash), &N);
    let t = f.add(&f.enter(&e), &f.mul(&f.enter(&r), &f.enter(d)));
    let s = f.leave(&f.mul(&f.inv(&f.enter(k)), &t));
    (!is_zero(&r) && !is_zero(&s)).then_some((r, s))
}
