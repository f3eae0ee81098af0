//! Reference reading of a server byte stream: what a correct client may and must do with it.
//!
//! The reference never looks at how the client works. From the bytes the client has written (its
//! ClientHello) and the bytes on the wire to it, it derives the first point at which the client can no
//! longer go on (`hard`) with the errors RFC 8446 permits there, and any earlier points at which a
//! careful client may already refuse (`soft`).

use crate::crypto::*;
use crate::tls::*;

pub const CLOSE_NOTIFY: u8 = 0;
pub const UNEXPECTED: u8 = 10;
pub const BAD_MAC: u8 = 20;
pub const OVERFLOW: u8 = 22;
pub const HANDSHAKE_FAILURE: u8 = 40;
pub const BAD_CERT: u8 = 42;
pub const UNSUPPORTED_CERT: u8 = 43;
pub const CERT_REVOKED: u8 = 44;
pub const CERT_EXPIRED: u8 = 45;
pub const CERT_UNKNOWN: u8 = 46;
pub const ILLEGAL: u8 = 47;
pub const UNKNOWN_CA: u8 = 48;
pub const DECODE: u8 = 50;
pub const DECRYPT: u8 = 51;
pub const VERSION: u8 = 70;
pub const INTERNAL: u8 = 80;
pub const MISSING_EXT: u8 = 109;
pub const UNSUPPORTED_EXT: u8 = 110;
pub const NO_APP_PROTO: u8 = 120;

/// A set of alert codes.
#[derive(Clone, Copy, PartialEq, Eq, Default)]
pub struct Set(pub u128);
impl Set {
    pub const NONE: Set = Set(0);
    pub fn has(self, c: u8) -> bool {
        c < 128 && self.0 >> c & 1 == 1
    }
    pub fn or(self, o: Set) -> Set {
        Set(self.0 | o.0)
    }
    pub fn none(self) -> bool {
        self.0 == 0
    }
    pub fn list(self) -> Vec<u8> {
        (0..128).filter(|c| self.has(*c)).collect()
    }
}
pub fn set(cs: &[u8]) -> Set {
    Set(cs.iter().fold(0, |a, c| a | 1u128 << c))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Peer {
    No,
    Code(u8),
    Any,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Prot {
    Plain,
    Keys,
    Either,
}

#[derive(Clone)]
pub struct FailPt {
    /// the client may fail like this once it has taken this many bytes
    pub may: usize,
    /// the client has to have failed before waiting with this many bytes taken
    pub must: usize,
    pub local: Set,
    pub peer: Peer,
    pub prot: Prot,
    /// the EncryptedExtensions were accepted before
    pub after_ee: bool,
    pub cause: &'static str,
}

#[derive(Default)]
pub struct Analysis {
    pub hard: Option<FailPt>,
    pub soft: Vec<FailPt>,
    /// end of the record that completed the ServerHello
    pub keys_at: Option<usize>,
    /// keys of the client's own protected records, if the reference knows them
    pub client: Option<Traffic>,
    pub suite: u16,
    /// end of the record that completed the EncryptedExtensions
    pub ee_end: Option<usize>,
    pub alpn: Vec<u8>,
    /// records the client got through, and authentic protected ones among them
    pub records: usize,
    pub authentic: usize,
    pub messages: usize,
    /// largest message completed
    pub biggest: usize,
    pub ccs: usize,
    /// a human-readable account of the stream
    pub notes: Vec<String>,
}

pub const MAX_MSG: usize = 0x20000;

struct Msg {
    bytes: Vec<u8>,
    /// start of the record holding the first byte, end of that record
    start: usize,
    first_end: usize,
    typed: bool,
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum Stage {
    ServerHello,
    Ee,
    Cert,
}

pub fn analyze(stream: &[u8], ch: &Ch, known: &[(Vec<u8>, U256)], shared: &[crate::tls::SharedX], good_certs: &[Vec<u8>], notes: bool) -> Analysis {
    let mut a = Analysis::default();
    let mut stage = Stage::ServerHello;
    let mut read: Option<Traffic> = None; // None while protected means keys unknown
    let mut msg: Option<Msg> = None;
    let mut o = 0usize;
    macro_rules! note {
        ($($t:tt)*) => { if notes { a.notes.push(format!($($t)*)) } };
    }
    'records: loop {
        if stream.len() < o + 5 {
            if stream.len() > o {
                note!("@{o} {} bytes of a record header", stream.len() - o);
            }
            return a;
        }
        let ty = stream[o];
        let len = (stream[o + 3] as usize) << 8 | stream[o + 4] as usize;
        let end = o + 5 + len;
        let protected = stage != Stage::ServerHello;
        let prot = if protected { Prot::Keys } else { Prot::Plain };
        let mid = msg.is_some();
        macro_rules! hard {
            ($may:expr, $must:expr, $local:expr, $peer:expr, $cause:expr) => {{
                note!("   -> must fail: {}", $cause);
                a.hard = Some(FailPt { may: $may, must: $must, local: $local, peer: $peer, prot, after_ee: stage == Stage::Cert, cause: $cause });
                return a;
            }};
        }
        macro_rules! soft {
            ($may:expr, $local:expr, $peer:expr, $cause:expr) => {{
                note!("   -> may fail: {}", $cause);
                a.soft.push(FailPt { may: $may, must: usize::MAX, local: $local, peer: $peer, prot, after_ee: stage == Stage::Cert, cause: $cause });
            }};
        }
        note!(
            "@{o} record type {ty} length {len}{}{}",
            if protected { " (keys in place)" } else { "" },
            if end > stream.len() { " (incomplete)" } else { "" }
        );
        // sizes
        let limit = if ty == 23 { 16640 } else { 16384 };
        if len > limit {
            let l = match (protected, ty) {
                (false, 22) | (true, 23) => set(&[OVERFLOW]),
                (true, _) | (false, 23) => set(&[OVERFLOW, UNEXPECTED]),
                _ => set(&[OVERFLOW, UNEXPECTED, DECODE, ILLEGAL]),
            };
            hard!(o + 5, end.min(o + 5 + 16640), l, Peer::No, "record too long");
        }
        // plaintext record types that are wrong whatever they contain
        if ty == 20 {
            let body = &stream[o + 5..end.min(stream.len())];
            let ok = len == 1 && (body.is_empty() || body[0] == 1);
            if !ok {
                hard!(o + 5, end, set(&[UNEXPECTED, DECODE, ILLEGAL]), Peer::No, "malformed change_cipher_spec");
            }
            if mid {
                soft!(o + 1, set(&[UNEXPECTED, ILLEGAL]), Peer::No, "change_cipher_spec inside a message");
            }
            if end > stream.len() {
                return a;
            }
            a.records += 1;
            a.ccs += 1;
            o = end;
            continue 'records;
        }
        let mut content: Vec<u8>;
        let inner_ty;
        if !protected {
            match ty {
                21 => {
                    if len != 2 {
                        hard!(o + 5, end, set(&[DECODE, UNEXPECTED, ILLEGAL]), Peer::No, "alert of the wrong length");
                    }
                    let l = if mid { set(&[UNEXPECTED, ILLEGAL]) } else { Set::NONE };
                    if end > stream.len() {
                        if mid {
                            soft!(o + 1, l, Peer::No, "alert inside a message");
                        }
                        return a;
                    }
                    hard!(if mid { o + 1 } else { end }, end, l, known_code(stream[o + 6]), "peer alert");
                }
                22 => {}
                _ => hard!(o + 1, end, set(&[UNEXPECTED]), Peer::No, "record type not allowed before the keys"),
            }
            if len == 0 {
                soft!(o + 5, set(&[UNEXPECTED, DECODE, ILLEGAL]), Peer::No, "empty handshake record");
                a.records += 1;
                o = end;
                continue 'records;
            }
            // even a part of the record may be judged by a client that looks early
            content = stream[o + 5..end.min(stream.len())].to_vec();
            inner_ty = 22;
        } else {
            if ty != 23 {
                hard!(o + 1, end, set(&[UNEXPECTED]), Peer::No, "unprotected record after the keys");
            }
            if len < 17 {
                hard!(o + 5, end, set(&[DECODE, BAD_MAC, UNEXPECTED]), Peer::No, "protected record too short");
            }
            let long = len - 16 > 16385;
            let over = if long { set(&[OVERFLOW]) } else { Set::NONE };
            if end > stream.len() {
                if long {
                    soft!(o + 5, over, Peer::No, "inner plaintext too long");
                }
                return a;
            }
            let open = read.as_mut().and_then(|r| r.open_record(&stream[o..end]));
            let Some(mut inner) = open else {
                hard!(if long { o + 5 } else { end }, end, set(&[BAD_MAC]).or(over), Peer::No, "record is not authentic");
            };
            if long {
                soft!(o + 5, over, Peer::No, "inner plaintext too long");
            }
            while inner.last() == Some(&0) {
                inner.pop();
            }
            let Some(t) = inner.pop() else {
                hard!(end, end, set(&[UNEXPECTED]).or(over), Peer::No, "protected record without a type");
            };
            inner_ty = t;
            content = inner;
            if content.len() > 16384 {
                hard!(end, end, set(&[OVERFLOW]), Peer::No, "record content too long");
            }
            note!("   inner type {t}, {} bytes", content.len());
            a.authentic += 1;
            match t {
                21 => {
                    if content.len() != 2 {
                        hard!(end, end, set(&[DECODE, UNEXPECTED, ILLEGAL]), Peer::No, "alert of the wrong length");
                    }
                    let l = if mid { set(&[UNEXPECTED, ILLEGAL]) } else { Set::NONE };
                    hard!(end, end, l, known_code(content[1]), "peer alert");
                }
                22 => {}
                _ => hard!(end, end, set(&[UNEXPECTED]), Peer::No, "protected record of a type not allowed here"),
            }
            if content.is_empty() {
                hard!(end, end, set(&[UNEXPECTED]), Peer::No, "empty handshake record");
            }
        }
        debug_assert_eq!(inner_ty, 22);
        let complete = end <= stream.len();
        if complete {
            a.records += 1;
        }
        // the earliest point at which a client can know the content of this record
        let seen = if protected { end } else { o + 5 };
        // handshake bytes
        while !content.is_empty() {
            let m = msg.get_or_insert_with(|| Msg { bytes: vec![], start: o, first_end: end, typed: false });
            let first_seen = if protected { m.first_end } else { m.start + 5 };
            // header
            if m.bytes.len() < 4 {
                let k = (4 - m.bytes.len()).min(content.len());
                m.bytes.extend(content.drain(..k));
            }
            let want = match stage {
                Stage::ServerHello => 2,
                Stage::Ee => 8,
                Stage::Cert => 11,
            };
            let wrong = m.bytes[0] != want;
            if wrong && !m.typed {
                m.typed = true;
                soft!(first_seen, set(&[UNEXPECTED]), Peer::No, "message of an unexpected type");
            }
            if m.bytes.len() < 4 {
                break;
            }
            let n = (m.bytes[1] as usize) << 16 | (m.bytes[2] as usize) << 8 | m.bytes[3] as usize;
            if n > MAX_MSG {
                let l = set(&[DECODE, ILLEGAL, OVERFLOW, INTERNAL, HANDSHAKE_FAILURE, UNEXPECTED]);
                if complete {
                    hard!(seen, end, l, Peer::No, "message too long");
                }
                soft!(seen, l, Peer::No, "message too long");
                return a;
            }
            if n + 4 > MAX_MSG {
                soft!(seen, set(&[DECODE, ILLEGAL, OVERFLOW, INTERNAL, HANDSHAKE_FAILURE]), Peer::No, "message about too long");
            }
            let k = (n + 4 - m.bytes.len()).min(content.len());
            m.bytes.extend(content.drain(..k));
            if m.bytes.len() < n + 4 {
                break;
            }
            if !complete {
                // whether the message is already judged does not matter before the record is complete,
                // as it may or may not fail for the same reasons a complete one does; only the
                // ServerHello can travel in such records
                let (bad, may, _) = judge_sh(&m.bytes[4..], ch);
                if wrong {
                    return a;
                }
                if !bad.none() || !may.none() {
                    soft!(seen, bad.or(may), Peer::No, "ServerHello");
                }
                return a;
            }
            let m = msg.take().unwrap();
            if wrong {
                hard!(first_seen, end, set(&[UNEXPECTED]), Peer::No, "message of an unexpected type");
            }
            a.messages += 1;
            a.biggest = a.biggest.max(m.bytes.len());
            let body = &m.bytes[4..];
            match stage {
                Stage::ServerHello => {
                    let (bad, may, got) = judge_sh(body, ch);
                    note!("   ServerHello: {} bytes, refuse for {:?}", m.bytes.len(), bad.list());
                    let trailing = !content.is_empty();
                    let extra = if trailing { set(&[UNEXPECTED]) } else { Set::NONE };
                    if !bad.none() {
                        hard!(seen, end, bad.or(may).or(extra), Peer::No, "unacceptable ServerHello");
                    }
                    if !may.none() {
                        soft!(seen, may, Peer::No, "doubtful ServerHello");
                    }
                    let (suite, share) = got.expect("acceptable ServerHello without parameters");
                    a.suite = suite;
                    a.keys_at = Some(end);
                    let cpt = ch.shares.iter().find(|s| s.0 == 0x17).and_then(|s| decode_pt(&s.1));
                    let d = known.iter().find(|(e, _)| *e == share).map(|x| x.1);
                    let x = match (d, cpt) {
                        (Some(d), Some(cpt)) => Some(mul_pt(&d, &Some(cpt)).map(|p| to_be(&p.0)).unwrap_or([0; 32])),
                        (None, Some(cpt)) => shared.iter().find(|(e, c, _)| *e == share && *c == cpt.0).map(|x| x.2),
                        _ => None,
                    };
                    if let Some(x) = x {
                        let tr = [&ch.raw[..], &m.bytes[..]].concat();
                        let (cs, ss) = handshake_secrets(&x, &tr);
                        read = Some(Traffic::new(&ss, suite));
                        a.client = Some(Traffic::new(&cs, suite));
                    } else {
                        note!("   (the discrete logarithm of this key share is unknown)");
                    }
                    stage = Stage::Ee;
                    if trailing {
                        note!("   -> must fail: data behind the ServerHello");
                        a.hard = Some(FailPt {
                            may: seen,
                            must: end,
                            local: set(&[UNEXPECTED]),
                            peer: Peer::No,
                            prot: Prot::Either,
                            after_ee: false,
                            cause: "message across the key change",
                        });
                        return a;
                    }
                }
                Stage::Ee => {
                    let (bad, may, alpn) = judge_ee(body, ch);
                    note!("   EncryptedExtensions: {} bytes, refuse for {:?}", m.bytes.len(), bad.list());
                    if !bad.none() {
                        hard!(end, end, bad.or(may), Peer::No, "unacceptable EncryptedExtensions");
                    }
                    if !may.none() {
                        soft!(end, may, Peer::No, "doubtful EncryptedExtensions");
                    }
                    a.ee_end = Some(end);
                    a.alpn = alpn;
                    stage = Stage::Cert;
                }
                Stage::Cert => {
                    let (l, cause) = judge_cert(body, good_certs);
                    hard!(end, end, l, Peer::No, cause);
                }
            }
        }
        if !complete {
            return a;
        }
        o = end;
    }
}

pub const KNOWN_CODES: [u8; 27] = crate::plan::ALERT_CODES;

fn known_code(c: u8) -> Peer {
    if KNOWN_CODES.contains(&c) {
        Peer::Code(c)
    } else {
        Peer::Any
    }
}

/// (alerts for which it must be refused, alerts with which it may be refused, suite and key share)
pub fn judge_sh(b: &[u8], ch: &Ch) -> (Set, Set, Option<(u16, Vec<u8>)>) {
    let mut bad = Set::NONE;
    let mut may = Set::NONE;
    let mut got = (0u16, vec![]);
    macro_rules! bad {
        ($($c:expr),*) => { bad = bad.or(set(&[$($c),*])) };
    }
    macro_rules! need {
        ($e:expr) => {
            match $e {
                Some(x) => x,
                None => {
                    bad!(DECODE);
                    return (bad, may, None);
                }
            }
        };
    }
    let mut r = Rd(b);
    if need!(r.u16()) != 0x0303 {
        may = may.or(set(&[ILLEGAL, VERSION, DECODE]));
    }
    // A HelloRetryRequest is another message: the client offers nothing it could retry with.
    if need!(r.take(32)) == HRR_RANDOM {
        bad!(ILLEGAL, HANDSHAKE_FAILURE, UNEXPECTED, UNSUPPORTED_EXT);
    }
    let n = need!(r.u8());
    if n > 32 {
        bad!(ILLEGAL, DECODE);
    }
    let sid = need!(r.take(n));
    if sid != &ch.sid[..] {
        bad!(ILLEGAL);
    }
    got.0 = need!(r.u16()) as u16;
    if !ch.suites.contains(&got.0) {
        bad!(ILLEGAL);
    }
    if need!(r.u8()) != 0 {
        bad!(ILLEGAL, DECODE);
    }
    if r.end() {
        bad!(DECODE, VERSION, MISSING_EXT, ILLEGAL);
        return (bad, may, None);
    }
    // A block whose lengths are wrong is refused, but for which of its errors is up to the client.
    let n = need!(r.u16());
    let mut cut = n > r.0.len();
    if n != r.0.len() {
        bad!(DECODE);
    }
    let mut r = Rd(&r.0[..n.min(r.0.len())]);
    let mut versions = 0;
    let mut shares = 0;
    let mut others = vec![];
    while !r.end() {
        let (Some(t), Some(d)) = (r.u16(), r.vec16()) else {
            bad!(DECODE);
            cut = true;
            break;
        };
        match t as u16 {
            43 => {
                versions += 1;
                if d.len() != 2 {
                    bad!(DECODE);
                } else if d != [3, 4] {
                    bad!(ILLEGAL);
                }
            }
            51 => {
                shares += 1;
                let mut k = Rd(d);
                let (Some(g), Some(p)) = (k.u16(), k.vec16()) else {
                    bad!(DECODE, ILLEGAL);
                    continue;
                };
                if !k.end() {
                    bad!(DECODE, ILLEGAL);
                }
                if !ch.shares.iter().any(|s| s.0 as usize == g) {
                    bad!(ILLEGAL);
                } else if p.len() != 65 || p[0] != 4 {
                    bad!(ILLEGAL, DECODE);
                } else if decode_pt(p).is_none() {
                    bad!(ILLEGAL);
                }
                got.1 = p.to_vec();
            }
            t => {
                if ch.exts.iter().any(|e| e.0 == t) {
                    // offered, but not for a ServerHello
                    bad!(ILLEGAL);
                } else {
                    bad!(UNSUPPORTED_EXT);
                    // known, although not offered this time
                    if [0, 16].contains(&t) {
                        bad!(ILLEGAL);
                    }
                }
                others.push(t)
            }
        }
    }
    if versions > 1 || shares > 1 {
        bad!(ILLEGAL, DECODE, UNSUPPORTED_EXT);
    }
    if versions == 0 && !cut {
        bad!(VERSION, MISSING_EXT, ILLEGAL);
    }
    if shares == 0 && !cut {
        bad!(MISSING_EXT, ILLEGAL, HANDSHAKE_FAILURE);
    }
    let got = if bad.none() { Some(got) } else { None };
    (bad, may, got)
}

pub fn judge_ee(b: &[u8], ch: &Ch) -> (Set, Set, Vec<u8>) {
    let mut bad = Set::NONE;
    let mut may = Set::NONE;
    let mut alpn = vec![];
    macro_rules! bad {
        ($($c:expr),*) => { bad = bad.or(set(&[$($c),*])) };
    }
    let mut r = Rd(b);
    let Some(n) = r.u16() else {
        bad!(DECODE);
        return (bad, may, alpn);
    };
    // a block of the wrong length is refused, but for which of its errors is up to the client
    if n != r.0.len() {
        bad!(DECODE);
    }
    let mut r = Rd(&r.0[..n.min(r.0.len())]);
    let mut seen: Vec<usize> = vec![];
    while !r.end() {
        let (Some(t), Some(d)) = (r.u16(), r.vec16()) else {
            bad!(DECODE);
            break;
        };
        if seen.contains(&t) {
            bad!(ILLEGAL, DECODE, UNSUPPORTED_EXT);
        }
        seen.push(t);
        match t {
            0 => {
                if ch.sni.is_none() {
                    bad!(UNSUPPORTED_EXT);
                }
                if !d.is_empty() {
                    may = may.or(set(&[DECODE, ILLEGAL]));
                }
            }
            10 => {
                let mut k = Rd(d);
                let ok = k.vec16().is_some_and(|l| l.len() >= 2 && l.len() % 2 == 0) && k.end();
                if !ok {
                    may = may.or(set(&[DECODE, ILLEGAL]));
                }
            }
            16 => {
                let one = (|| {
                    let mut k = Rd(d);
                    let l = k.vec16()?;
                    let mut l2 = Rd(l);
                    let n = l2.vec8()?;
                    (k.end() && l2.end() && !n.is_empty()).then(|| n.to_vec())
                })();
                match (&ch.alpn, one) {
                    (None, one) => {
                        bad!(UNSUPPORTED_EXT);
                        if one.is_none() {
                            bad!(DECODE);
                        }
                    }
                    (Some(_), None) => bad!(DECODE, ILLEGAL),
                    (Some(l), Some(n)) => {
                        if !l.contains(&n) {
                            bad!(ILLEGAL, NO_APP_PROTO, UNSUPPORTED_EXT);
                        }
                        alpn = n;
                    }
                }
            }
            t => {
                if ch.exts.iter().any(|e| e.0 as usize == t) {
                    // offered, but not for EncryptedExtensions
                    bad!(ILLEGAL);
                } else {
                    bad!(UNSUPPORTED_EXT);
                }
            }
        }
    }
    (bad, may, alpn)
}

/// The alerts with which a Certificate message may be refused; this client never accepts one.
pub fn judge_cert(b: &[u8], good: &[Vec<u8>]) -> (Set, &'static str) {
    let bad_certs = set(&[BAD_CERT, UNSUPPORTED_CERT, CERT_UNKNOWN, DECODE, UNKNOWN_CA, CERT_EXPIRED, ILLEGAL]);
    let shape = set(&[DECODE, ILLEGAL]);
    let mut l = Set::NONE;
    let mut r = Rd(b);
    let Some(ctx) = r.vec8() else { return (shape, "malformed Certificate") };
    if !ctx.is_empty() {
        l = l.or(shape);
    }
    let Some(list) = r.vec24() else { return (shape, "malformed Certificate") };
    if !r.end() {
        // what is in the list may have been judged already
        return (shape.or(bad_certs), "malformed Certificate");
    }
    if list.is_empty() {
        return (shape, "empty certificate list");
    }
    let mut r = Rd(list);
    let mut all_good = true;
    let mut malformed = false;
    while !r.end() {
        let (Some(c), Some(e)) = (r.vec24(), r.vec16()) else {
            malformed = true;
            break;
        };
        if !good.iter().any(|g| g == c) {
            all_good = false;
        }
        if !e.is_empty() {
            l = l.or(set(&[UNSUPPORTED_EXT, ILLEGAL]));
            let mut k = Rd(e);
            while !k.end() {
                if k.u16().and_then(|_| k.vec16()).is_none() {
                    l = l.or(shape);
                    break;
                }
            }
        }
    }
    if malformed {
        return (if all_good { l.or(shape) } else { l.or(shape).or(bad_certs) }, "malformed Certificate");
    }
    if all_good {
        (l.or(set(&[CERT_UNKNOWN, UNKNOWN_CA])), "certificate that cannot be verified")
    } else {
        (l.or(bad_certs), "malformed or unsupported certificate")
    }
}
