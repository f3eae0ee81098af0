//! The oracle: compares every recorded history with the reference.

use crate::plan::Cfg;
use crate::refclient::*;
use crate::tls::{parse_ch, Ch};
use crate::world::*;

/// What the client put on the wire.
pub struct Wire {
    /// the whole ClientHello message, and where its last record ends
    pub ch: Option<Vec<u8>>,
    pub ch_end: usize,
    /// complete record behind the ClientHello
    pub tail: Option<Vec<u8>>,
    /// bytes of an unfinished record behind the ClientHello
    pub partial: Vec<u8>,
    pub errors: Vec<String>,
}

pub fn wire(out: &[u8]) -> Wire {
    let mut w = Wire { ch: None, ch_end: 0, tail: None, partial: vec![], errors: vec![] };
    let mut o = 0;
    let mut m: Vec<u8> = vec![];
    let mut want = usize::MAX;
    while o < out.len() && w.ch.is_none() {
        let h = &out[o..];
        if h[0] != 22 {
            w.errors.push(format!("record of type {} at byte {o} before the ClientHello is complete", h[0]));
            return w;
        }
        if h.len() > 1 && h[1] != 3 || h.len() > 2 && h[2] != 1 && h[2] != 3 {
            w.errors.push(format!("bad record version at byte {o}"));
            return w;
        }
        if h.len() < 5 {
            return w;
        }
        let n = (h[3] as usize) << 8 | h[4] as usize;
        if n == 0 || n > 16384 {
            w.errors.push(format!("handshake record of {n} bytes at byte {o}"));
            return w;
        }
        let have = n.min(h.len() - 5);
        m.extend_from_slice(&h[5..5 + have]);
        if !m.is_empty() && m[0] != 1 {
            w.errors.push(format!("handshake message of type {} instead of a ClientHello", m[0]));
            return w;
        }
        if m.len() >= 4 {
            want = 4 + ((m[1] as usize) << 16 | (m[2] as usize) << 8 | m[3] as usize);
        }
        if m.len() > want {
            w.errors.push("handshake data behind the ClientHello".into());
            return w;
        }
        if have < n {
            if want != usize::MAX && m.len() - have + n > want {
                w.errors.push("handshake data behind the ClientHello".into());
            }
            return w;
        }
        o += 5 + n;
        if m.len() == want {
            w.ch = Some(std::mem::take(&mut m));
            w.ch_end = o;
        }
    }
    if w.ch.is_none() || o == out.len() {
        return w;
    }
    let h = &out[o..];
    if h[0] != 21 && h[0] != 23 || h.len() > 1 && h[1] != 3 || h.len() > 2 && h[2] != 3 && h[2] != 1 {
        w.errors.push(format!("record of type {} behind the ClientHello", h[0]));
        return w;
    }
    if h.len() < 5 {
        w.partial = h.to_vec();
        return w;
    }
    let n = (h[3] as usize) << 8 | h[4] as usize;
    if h[0] == 21 && n != 2 || h[0] == 23 && n < 19 {
        w.errors.push(format!("record of type {} with {n} bytes behind the ClientHello", h[0]));
        return w;
    }
    if h.len() < 5 + n {
        w.partial = h.to_vec();
        return w;
    }
    w.tail = Some(h[..5 + n].to_vec());
    if h.len() > 5 + n {
        w.errors.push(format!("{} bytes behind the alert", h.len() - 5 - n));
    }
    w
}

/// A configuration that offers nothing a server could pick, or more than fits in a ClientHello.
pub fn unusable(c: &Cfg) -> bool {
    offers_nothing(c) || too_long(c)
}

fn offers_nothing(c: &Cfg) -> bool {
    c.suites & 3 == 0 || c.groups & 1 == 0 || c.sig_algs & 1 == 0
}

/// Do the extensions need more than the 16-bit length of their block can say?
pub fn too_long(c: &Cfg) -> bool {
    // groups, signature algorithms, versions, one key share of 65 bytes
    let fixed = 8 + 8 + 7 + (4 + 2 + 2 + 2 + 65);
    let sni = c.sni.as_ref().filter(|s| !s.is_empty()).map_or(0, |s| 4 + 2 + 1 + 2 + s.len());
    let alpn = c.alpn.as_ref().filter(|l| !l.is_empty()).map_or(0, |l| 4 + 2 + l.iter().map(|n| 1 + n.len()).sum::<usize>());
    fixed + sni + alpn > 0xffff
}

pub fn offer(ch: &Ch, c: &Cfg) -> Vec<String> {
    let mut e = vec![];
    let mut want: Vec<u16> = vec![];
    if c.suites & 1 != 0 {
        want.push(0x1303);
    }
    if c.suites & 2 != 0 {
        want.push(0x1301);
    }
    let sorted = |v: &[u16]| {
        let mut v = v.to_vec();
        v.sort();
        v
    };
    if sorted(&ch.suites) != sorted(&want) {
        e.push(format!("offers cipher suites {:04x?}, configured {:04x?}", ch.suites, want));
    }
    if ch.groups != [0x17] {
        e.push(format!("offers groups {:04x?}", ch.groups));
    }
    if ch.sig_algs != [0x0403] {
        e.push(format!("offers signature algorithms {:04x?}", ch.sig_algs));
    }
    if ch.versions != [0x0304] {
        e.push(format!("offers versions {:04x?}", ch.versions));
    }
    let sni = c.sni.clone().filter(|s| !s.is_empty());
    if ch.sni != sni {
        e.push(format!("server name {:?}, configured {:?}", short(&ch.sni), short(&sni)));
    }
    if ch.alpn != c.alpn {
        e.push("application protocols are not the configured ones".into());
    }
    let mut types: Vec<u16> = ch.exts.iter().map(|x| x.0).collect();
    types.sort();
    let mut wt = vec![10u16, 13, 43, 51];
    if sni.is_some() {
        wt.push(0);
    }
    if c.alpn.is_some() {
        wt.push(16);
    }
    wt.sort();
    if types != wt {
        e.push(format!("sends extensions {types:?}, expected {wt:?}"));
    }
    if ch.shares.len() != 1 || ch.shares[0].0 != 0x17 {
        e.push(format!("key shares for {:?}", ch.shares.iter().map(|s| s.0).collect::<Vec<_>>()));
    } else if crate::crypto::decode_pt(&ch.shares[0].1).is_none() {
        e.push("key share is not a point of the curve".into());
    }
    e
}

fn short(x: &Option<Vec<u8>>) -> Option<String> {
    x.as_ref().map(|s| if s.len() > 40 { format!("({} bytes)", s.len()) } else { String::from_utf8_lossy(s).into() })
}

pub struct Judged {
    pub a: Option<Analysis>,
    /// where the attempt ended: for coverage
    pub cause: &'static str,
}

fn is_zero_mod_n(d: &[u8]) -> bool {
    if d.len() < 32 {
        return false;
    }
    d.chunks_exact(32).any(|c| {
        let le: Vec<u8> = c.iter().rev().copied().collect();
        c.iter().all(|b| *b == 0) || c == N_BE || le == N_BE
    })
}

pub const MEM_LIMIT: i64 = 512 << 10;

/// Judges every attempt of every object; violations are added to the world's list.
pub fn judge(w: &mut World) -> Vec<Vec<Judged>> {
    let mut all = vec![];
    let mut viol: Vec<Violation> = vec![];
    let want_notes = w.trace.is_some();
    let mut notes: Vec<String> = vec![];
    for (i, o) in w.objs.iter().enumerate() {
        let mut js = vec![];
        for (j, h) in o.hist.iter().enumerate() {
            let mut v = |class: &'static str, msg: String| viol.push(Violation { class, obj: i, attempt: j, msg });
            js.push(attempt(h, &mut v, want_notes, &mut notes, i, j));
        }
        if o.peak > MEM_LIMIT {
            viol.push(Violation {
                class: "MemBound",
                obj: i,
                attempt: 0,
                msg: format!("the object held {} bytes", o.peak),
            });
        }
        all.push(js);
    }
    if let Some(t) = &mut w.trace {
        t.append(&mut notes);
        for v in &viol {
            t.push(format!("!! object {} attempt {}: {}: {}", v.obj, v.attempt, v.class, v.msg));
        }
    }
    w.viol.extend(viol);
    all
}

fn attempt(
    h: &Hist,
    v: &mut dyn FnMut(&'static str, String),
    want_notes: bool,
    notes: &mut Vec<String>,
    i: usize,
    j: usize,
) -> Judged {
    let wr = wire(&h.out);
    for e in &wr.errors {
        v("WireCorrupt", e.clone());
    }
    let bad_cfg = unusable(&h.cfg);
    // ---- ClientHello
    let mut ch: Option<Ch> = None;
    if let Some(m) = &wr.ch {
        match parse_ch(m) {
            Ok(c) => {
                if bad_cfg {
                    v("ChOffer", format!("ClientHello sent although nothing usable is configured: {:?}", h.cfg));
                } else {
                    for e in offer(&c, &h.cfg) {
                        v("ChOffer", e);
                    }
                }
                ch = Some(c)
            }
            Err(e) => v("ChMalformed", e),
        }
    } else if bad_cfg && !h.out.is_empty() {
        v("ChOffer", "something was written although nothing usable is configured".into());
    }
    if h.early_read {
        v("ChMissing", "read_fn was called before the whole ClientHello was written".into());
    }
    let rng_failed = h.draws.iter().any(|d| d.1);
    let zero_draw = h.draws.iter().any(|d| is_zero_mod_n(&d.0));
    if rng_failed && !h.out.is_empty() {
        v("RngMisuse", "something was written although the random source failed".into());
    }
    if let Some(c) = &ch {
        // the key the client derived may not come from an unusable draw
        let pt = c.shares.first().map(|s| s.1.clone()).unwrap_or_default();
        if pt.len() == 65 && pt[1..].iter().all(|b| *b == 0) {
            v("RngMisuse", "key share is the point at infinity".into());
        }
        let zero = |d: &[u8]| d.len() >= 16 && d.iter().all(|b| *b == 0);
        if h.draws.iter().filter(|d| zero(&d.0)).count() > zero(&c.random) as usize {
            v("RngMisuse", "goes on although the random source yielded an unusable key".into());
        }
    }
    // ---- reference
    let empty = vec![];
    let a = ch.as_ref().map(|c| {
        let (known, shared, good) = match &h.resp {
            Some(r) => (&r.known[..], &r.shared[..], &r.good_certs[..]),
            None => (&[][..], &[][..], &empty[..]),
        };
        analyze(&h.stream, c, known, shared, good, want_notes)
    });
    if want_notes {
        notes.push(format!("-- object {i} attempt {j}: {} server bytes as the reference reads them:", h.stream.len()));
        if let Some(a) = &a {
            notes.extend(a.notes.iter().cloned());
        }
    }
    if let (Some(r), Some(a)) = (&h.resp, &a) {
        // the model server and the reference client must agree on what is legal
        if r.legal && h.pre == 0 {
            if let Some(f) = &a.hard {
                assert!(
                    f.cause == "certificate that cannot be verified",
                    "harness: legal server, but the reference refuses: {} {:?}",
                    f.cause,
                    f.local.list()
                );
            }
        }
    }
    let no_points: Vec<FailPt> = vec![];
    let (hard, soft) = match &a {
        Some(a) => (a.hard.as_ref(), &a.soft),
        None => (None, &no_points),
    };
    // ---- calls
    let mut cause = "running";
    let n = h.calls.len();
    let mut last_connect: Option<&Call> = None;
    for (k, c) in h.calls.iter().enumerate() {
        if c.kind == Kind::Close {
            continue;
        }
        last_connect = Some(c);
        if c.ret > 0 {
            v("Connected", format!("turtls_connect returned {}", c.ret));
            continue;
        }
        if c.ret != -1 {
            v("WrongKind", format!("turtls_connect returned {}", c.ret));
        }
        let final_ = h.end == End::Verdict && h.calls[k + 1..].iter().all(|x| x.kind == Kind::Close);
        match c.err {
            Err::WantRead | Err::WantWrite => {
                let read = c.err == Err::WantRead;
                if read && c.read_refused == 0 || !read && c.write_refused == 0 {
                    v("WantUntruth", format!("{:?} although nothing was refused", c.err));
                }
                if read && h.ch_done_at.map_or(true, |d| c.written < d) {
                    v("ChMissing", "waits for the server before the whole ClientHello is written".into());
                }
                if c.closes > 0 {
                    v("CloseCount", "waiting, but the connection was closed".into());
                }
                if let Some(d) = h.ch_done_at {
                    if c.written > d {
                        v("AlertUnexpected", "more than the ClientHello was written while waiting".into());
                    }
                }
                if rng_failed {
                    v("RngMisuse", "goes on although the random source failed".into());
                }
                if bad_cfg {
                    v("ChOffer", "goes on although nothing usable is configured".into());
                }
                if let Some(f) = hard {
                    if c.consumed >= f.must {
                        v("MissedFail", format!("waits with {} bytes read, should have failed at {}: {}", c.consumed, f.must, f.cause));
                        if f.cause == "peer alert" {
                            v("AlertIgnored", format!("waits although the peer's alert ends at {}", f.must));
                        }
                    }
                }
                let want = match &a {
                    Some(a) if a.ee_end.is_some_and(|e| c.consumed >= e) => &a.alpn[..],
                    _ => &[][..],
                };
                if c.proto != want {
                    v("AppProto", format!("reports {:?} while waiting, expected {:?}", lossy(&c.proto), lossy(want)));
                }
            }
            Err::Tls | Err::Peer if final_ => {
                let peer = c.err == Err::Peer;
                if h.ch_done_at.is_none() {
                    v("ChMissing", format!("{:?} before the ClientHello was written", c.err));
                    continue;
                }
                let pts: Vec<&FailPt> = soft.iter().chain(hard).filter(|f| f.may <= c.consumed).collect();
                let hit: Vec<&FailPt> = pts
                    .iter()
                    .copied()
                    .filter(|f| {
                        if peer {
                            matches!(f.peer, Peer::Code(x) if x == c.alert) || f.peer == Peer::Any && KNOWN_CODES.contains(&c.alert)
                        } else {
                            f.local.has(c.alert)
                        }
                    })
                    .collect();
                let describe = || {
                    let f = pts.last().unwrap();
                    format!(
                        "{} after {} bytes; expected {}{:?} at {}: {}",
                        if peer { format!("peer alert {}", c.alert) } else { format!("TLS error {}", c.alert) },
                        c.consumed,
                        if f.peer != Peer::No { format!("peer alert {:?} or ", f.peer) } else { String::new() },
                        f.local.list(),
                        f.may,
                        f.cause
                    )
                };
                if pts.is_empty() {
                    v(
                        "FalseFail",
                        format!(
                            "{} after {} bytes although nothing is wrong so far{}",
                            if peer { format!("peer alert {}", c.alert) } else { format!("TLS error {}", c.alert) },
                            c.consumed,
                            match hard {
                                Some(f) => format!(" (next: {} at {})", f.cause, f.may),
                                None => String::new(),
                            }
                        ),
                    );
                } else if hit.is_empty() {
                    let kind = pts.iter().any(|f| if peer { f.peer != Peer::No } else { !f.local.none() });
                    v(if kind { "WrongAlert" } else { "WrongKind" }, describe());
                    // The error shows that it went on where it should have failed.
                    if let Some(f) = hard {
                        if c.consumed > f.must || !peer && [BAD_CERT, UNSUPPORTED_CERT, CERT_UNKNOWN, UNKNOWN_CA].contains(&c.alert) {
                            v("MissedFail", describe());
                        }
                    }
                }
                cause = hit.last().map(|f| f.cause).unwrap_or("?");
                // a failure that is only reported after more input than the decisive record
                if c.closes != 1 {
                    v("CloseCount", format!("failed, close_fn called {} times", c.closes));
                }
                // application protocol
                let alpn = a.as_ref().map(|a| a.alpn.clone()).unwrap_or_default();
                let ok = if hit.is_empty() {
                    c.proto.is_empty() || c.proto == alpn && a.as_ref().is_some_and(|a| a.ee_end.is_some_and(|e| e <= c.consumed))
                } else {
                    hit.iter().any(|f| if f.after_ee { c.proto == alpn } else { c.proto.is_empty() })
                };
                if !ok {
                    v("AppProto", format!("reports {:?} at the end; negotiated {:?} ({})", lossy(&c.proto), lossy(&alpn), cause));
                }
                // alert on the wire
                let mut prot: Vec<Prot> = hit.iter().map(|f| f.prot).collect();
                if prot.is_empty() {
                    prot = pts.iter().map(|f| f.prot).collect();
                }
                if peer {
                    if wr.tail.is_some() || !wr.partial.is_empty() {
                        v("AlertUnexpected", "answers an alert".into());
                    }
                } else if !prot.is_empty() {
                    alert_check(h, &wr, a.as_ref(), c.alert, &prot, c.write_refused > 0, v);
                }
            }
            Err::Rng | Err::KeyZero | Err::MissingExt | Err::TooLong if final_ => {
                cause = match c.err {
                    Err::Rng => "random source failed",
                    Err::KeyZero => "unusable key",
                    _ => "unusable configuration",
                };
                if !h.out.is_empty() {
                    v("RngMisuse", format!("{:?} after writing {} bytes", c.err, h.out.len()));
                }
                if c.closes > 1 {
                    v("CloseCount", format!("close_fn called {} times", c.closes));
                }
                let ok = match c.err {
                    Err::Rng => rng_failed,
                    Err::KeyZero => zero_draw,
                    Err::TooLong => too_long(&h.cfg),
                    _ => offers_nothing(&h.cfg) || h.cfg.sni.as_ref().is_some_and(|s| s.is_empty()),
                };
                if !ok {
                    v("FalseFail", format!("{:?} without reason", c.err));
                }
                if !c.proto.is_empty() {
                    v("AppProto", format!("reports {:?} for an attempt that failed early", lossy(&c.proto)));
                }
            }
            _ => v("WrongKind", format!("{:?} is not a final error here", c.err)),
        }
        let _ = n;
    }
    if h.end == End::Verdict {
        if let Some(c) = last_connect {
            if rng_failed && c.err != Err::Rng {
                v("RngMisuse", format!("{:?} although the random source failed", c.err));
            }
        }
    }
    // ---- closing
    if h.end == End::Closed {
        cause = "closed by the application";
        if h.closes != 1 {
            v("CloseCount", format!("turtls_close on an attempt in progress called close_fn {} times", h.closes));
        }
        let k = h.calls.iter().rposition(|c| c.kind == Kind::Connect).unwrap();
        let c = &h.calls[k + 1];
        if h.ch_done_at.is_some() && wr.errors.is_empty() {
            let prot = match a.as_ref().and_then(|a| a.keys_at) {
                Some(k) if h.calls[..].iter().filter(|x| x.kind == Kind::Connect).last().is_some_and(|x| x.consumed >= k) => Prot::Keys,
                _ => Prot::Plain,
            };
            if hard.map_or(true, |f| h.consumed < f.must) {
                alert_check(h, &wr, a.as_ref(), CLOSE_NOTIFY, &[prot], c.write_refused > 0, v);
            }
        }
        if h.gave_up && !h.dead_reads && !h.dead_writes {
            if h.consumed < h.arrived {
                v("Progress", format!("{} bytes were never read", h.arrived - h.consumed));
            }
            if h.ch_done_at.is_none() {
                v("Progress", "the ClientHello was never written".into());
            }
        }
    }
    if h.end == End::Freed {
        cause = "freed by the application";
        if h.closes > 0 {
            v("CloseCount", "waiting, but the connection was closed".into());
        }
        if h.gave_up && !h.dead_reads && !h.dead_writes && h.consumed < h.arrived {
            v("Progress", format!("{} bytes were never read", h.arrived - h.consumed));
        }
    }
    Judged { a, cause }
}

fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into()
}

fn alert_check(
    h: &Hist,
    wr: &Wire,
    a: Option<&Analysis>,
    code: u8,
    prot: &[Prot],
    refused: bool,
    v: &mut dyn FnMut(&'static str, String),
) {
    let plain_ok = prot.iter().any(|p| *p != Prot::Keys);
    let keys_ok = prot.iter().any(|p| *p != Prot::Plain);
    let Some(rec) = &wr.tail else {
        if !wr.errors.is_empty() {
            return;
        }
        if !wr.partial.is_empty() {
            if !refused {
                v("WireCorrupt", "unfinished alert although nothing was refused".into());
            }
            let t = wr.partial[0];
            if t == 21 && !plain_ok || t == 23 && !keys_ok {
                v("AlertProtection", format!("unfinished alert in a record of type {t}"));
            }
        } else if !refused {
            v("AlertMissing", format!("no alert although the error is {code}"));
        }
        return;
    };
    let _ = h;
    let content = if rec[0] == 21 {
        if !plain_ok {
            v("AlertProtection", "alert not protected although the keys exist".into());
        }
        rec[5..].to_vec()
    } else {
        if !keys_ok {
            v("AlertProtection", "alert protected before the keys exist".into());
            return;
        }
        let Some(keys) = a.and_then(|a| a.client.clone()) else { return };
        match keys.clone().open_record(rec) {
            Some(mut p) => {
                while p.last() == Some(&0) {
                    p.pop();
                }
                if p.pop() != Some(21) {
                    v("AlertProtection", "protected record after a failure is not an alert".into());
                    return;
                }
                p
            }
            None => {
                v("AlertProtection", "the server cannot decrypt the alert".into());
                return;
            }
        }
    };
    if content.len() != 2 {
        v("AlertMismatch", format!("alert of {} bytes", content.len()));
        return;
    }
    if content[1] != code {
        v("AlertMismatch", format!("sent alert {}, reported {code}", content[1]));
    }
    if content[0] != 2 && !(content[0] == 1 && content[1] == CLOSE_NOTIFY) {
        v("AlertMismatch", format!("alert level {}", content[0]));
    }
}
