//! What an isolated run reports back, in a small binary encoding.

use crate::check;
use crate::world::{Call, End, Kind, World};
use std::collections::BTreeMap;

#[derive(Default)]
pub struct Enc(pub Vec<u8>);
impl Enc {
    pub fn u(&mut self, x: u64) {
        self.0.extend_from_slice(&x.to_le_bytes());
    }
    pub fn b(&mut self, x: &[u8]) {
        self.u(x.len() as u64);
        self.0.extend_from_slice(x);
    }
    pub fn s(&mut self, x: &str) {
        self.b(x.as_bytes());
    }
}
pub struct Dec<'a>(pub &'a [u8]);
impl Dec<'_> {
    pub fn u(&mut self) -> Option<u64> {
        if self.0.len() < 8 {
            return None;
        }
        let (a, r) = self.0.split_at(8);
        self.0 = r;
        Some(u64::from_le_bytes(a.try_into().unwrap()))
    }
    pub fn b(&mut self) -> Option<Vec<u8>> {
        let n = self.u()? as usize;
        if self.0.len() < n {
            return None;
        }
        let (a, r) = self.0.split_at(n);
        self.0 = r;
        Some(a.to_vec())
    }
    pub fn s(&mut self) -> Option<String> {
        String::from_utf8(self.b()?).ok()
    }
}

#[derive(Clone, Default, PartialEq, Debug)]
pub struct V {
    pub class: String,
    pub obj: u64,
    pub attempt: u64,
    pub msg: String,
}

/// One attempt as an observer outside of the process would describe it.
#[derive(Clone, Default, PartialEq, Debug)]
pub struct Att {
    /// kind, time since the attempt began, return value, error, alert, protocol, consumed, written, closes
    pub calls: Vec<(u64, u64, i64, u64, u64, Vec<u8>, u64, u64, u64)>,
    pub out: Vec<u8>,
    /// how many bytes of out are the ClientHello's records (all, if it is unfinished)
    pub ch_end: u64,
    pub draws: Vec<Vec<u8>>,
    pub draw_failed: bool,
    pub end: u64,
    pub closes: u64,
    pub random: Vec<u8>,
    pub share: Vec<u8>,
    pub live: i64,
    pub cfg: String,
    pub recs: Vec<Vec<u8>>,
    pub cause: String,
}

impl Att {
    /// the last turtls_connect: return value, error, alert, protocol
    pub fn verdict(&self) -> Option<(i64, u64, u64, Vec<u8>)> {
        self.calls.iter().rev().find(|c| c.0 == 0).map(|c| (c.2, c.3, c.4, c.5.clone()))
    }
}

#[derive(Clone, Default)]
pub struct Report {
    pub viol: Vec<V>,
    pub counts: BTreeMap<String, u64>,
    /// rare conditions reached
    pub probes: BTreeMap<String, u64>,
    pub objs: Vec<Vec<Att>>,
    pub peaks: Vec<i64>,
    pub sim_time: u64,
    pub worlds: u64,
    pub attempts: u64,
    pub calls: u64,
    pub io: u64,
    pub path: u64,
    pub digest: u64,
    pub nontrivial: bool,
    pub choices: Vec<u32>,
    pub trace: Vec<String>,
}

fn hash(h: u64, b: &[u8]) -> u64 {
    let mut h = h ^ (b.len() as u64).wrapping_mul(0x9e3779b97f4a7c15);
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

fn call(c: &Call) -> (u64, u64, i64, u64, u64, Vec<u8>, u64, u64, u64) {
    (
        (c.kind == Kind::Close) as u64,
        c.time,
        c.ret as i64,
        c.err as u64,
        c.alert as u64,
        c.proto.clone(),
        c.consumed as u64,
        c.written as u64,
        c.closes as u64,
    )
}

impl Report {
    /// Judges a finished world and describes it.
    pub fn of(mut w: Box<World>) -> Report {
        let judged = check::judge(&mut w);
        let mut r = Report { worlds: 1, sim_time: w.end_time, ..Default::default() };
        r.path = w.order;
        for v in &w.viol {
            r.viol.push(V { class: v.class.into(), obj: v.obj as u64, attempt: v.attempt as u64, msg: v.msg.clone() });
        }
        for (k, n) in &w.counts {
            *r.counts.entry(k.to_string()).or_insert(0) += n;
        }
        let faults: u64 = w.counts.iter().filter(|(k, _)| **k != "segments").map(|x| x.1).sum();
        let mut reached = false;
        let mut calls = 0;
        for (i, o) in w.objs.iter().enumerate() {
            let mut atts = vec![];
            r.peaks.push(o.peak);
            r.probe("peak above 128 KiB", (o.peak > 128 << 10) as u64);
            for (j, h) in o.hist.iter().enumerate() {
                let jd = &judged[i][j];
                let wr = check::wire(&h.out);
                r.attempts += 1;
                r.calls += h.calls.len() as u64;
                calls += h.calls.len();
                r.io += h.calls.iter().map(|c| c.io_calls as u64).sum::<u64>();
                r.path = crate::world::mix(r.path, h.path);
                r.path = hash(r.path, jd.cause.as_bytes());
                reached |= h.ch_done_at.is_some();
                r.probe(&format!("attempt ended: {}", jd.cause), 1);
                if let Some(a) = &jd.a {
                    r.probe("keys agreed", a.keys_at.is_some_and(|k| h.consumed >= k) as u64);
                    r.probe("EncryptedExtensions accepted", a.ee_end.is_some_and(|k| h.consumed >= k) as u64);
                    r.probe("application protocol negotiated", (!a.alpn.is_empty() && a.ee_end.is_some_and(|k| h.consumed >= k)) as u64);
                    r.probe("more than 256 protected records", (a.authentic > 256) as u64);
                    r.probe("more than 65536 protected records", (a.authentic > 65536) as u64);
                    r.probe("message above 64 KiB", (a.biggest > 65536) as u64);
                    r.probe("change_cipher_spec passed over", (a.ccs > 0) as u64);
                    r.probe("AES-128-GCM", (a.suite == 0x1301) as u64);
                    r.probe("ChaCha20-Poly1305", (a.suite == 0x1303) as u64);
                }
                r.probe("ClientHello in several records", wr.ch.as_ref().is_some_and(|c| c.len() + 5 < wr.ch_end) as u64);
                r.probe("alert written", wr.tail.is_some() as u64);
                r.probe("attempt on a used object", (j > 0) as u64);
                r.probe("left unfinished before the ClientHello was written", (h.ch_done_at.is_none() && h.end == End::Closed) as u64);
                atts.push(Att {
                    calls: h.calls.iter().map(call).collect(),
                    out: h.out.clone(),
                    ch_end: if wr.ch.is_some() { wr.ch_end as u64 } else { h.out.len() as u64 },
                    draws: h.draws.iter().map(|d| d.0.clone()).collect(),
                    draw_failed: h.draws.iter().any(|d| d.1),
                    end: h.end as u64,
                    closes: h.closes as u64,
                    random: h.ch.as_ref().map(|c| c.random.clone()).unwrap_or_default(),
                    share: h.ch.as_ref().and_then(|c| c.shares.first().map(|s| s.1.clone())).unwrap_or_default(),
                    live: h.live_after,
                    cfg: format!("{:?}", h.cfg),
                    recs: h.resp.as_ref().map(|r| r.recs.iter().map(|x| x.bytes.clone()).collect()).unwrap_or_default(),
                    cause: jd.cause.into(),
                });
            }
            r.objs.push(atts);
        }
        r.probe("events processed inside a callback", w.nested);
        r.nontrivial = reached && (faults > 0 || calls > w.objs.len() || w.nested > 0);
        let mut d = hash(7, &w.end_time.to_le_bytes());
        d = hash(d, &w.order.to_le_bytes());
        for o in &r.objs {
            for a in o {
                d = hash(d, format!("{:?}", (&a.calls, &a.end, &a.closes, &a.cause, a.live)).as_bytes());
                d = hash(d, &a.out);
            }
        }
        for v in &r.viol {
            d = hash(d, v.class.as_bytes());
            d = hash(d, v.msg.as_bytes());
        }
        r.digest = d;
        r.trace = w.trace.take().unwrap_or_default();
        r
    }
    pub fn probe(&mut self, k: &str, n: u64) {
        *self.probes.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn violate(&mut self, class: &str, obj: usize, attempt: usize, msg: String) {
        self.trace.push(format!("!! object {obj} attempt {attempt}: {class}: {msg}"));
        self.digest = hash(self.digest, msg.as_bytes());
        self.viol.push(V { class: class.into(), obj: obj as u64, attempt: attempt as u64, msg });
    }
    /// Adds what another execution that belongs to the same run covered.
    pub fn absorb(&mut self, o: &Report) {
        self.worlds += o.worlds;
        self.sim_time += o.sim_time;
        self.attempts += o.attempts;
        self.calls += o.calls;
        self.io += o.io;
        for (k, n) in &o.counts {
            *self.counts.entry(k.clone()).or_insert(0) += n;
        }
        for (k, n) in &o.probes {
            *self.probes.entry(k.clone()).or_insert(0) += n;
        }
        self.digest = hash(self.digest, &o.digest.to_le_bytes());
    }
    pub fn enc(&self, full: bool) -> Vec<u8> {
        let mut e = Enc::default();
        e.u(self.viol.len() as u64);
        for v in &self.viol {
            e.s(&v.class);
            e.u(v.obj);
            e.u(v.attempt);
            e.s(&v.msg);
        }
        for m in [&self.counts, &self.probes] {
            e.u(m.len() as u64);
            for (k, n) in m {
                e.s(k);
                e.u(*n);
            }
        }
        for x in [self.sim_time, self.worlds, self.attempts, self.calls, self.io, self.path, self.digest, self.nontrivial as u64] {
            e.u(x);
        }
        e.u(self.choices.len() as u64);
        for c in &self.choices {
            e.u(*c as u64);
        }
        e.u(self.trace.len() as u64);
        for t in &self.trace {
            e.s(t);
        }
        e.u(full as u64);
        if full {
            e.u(self.peaks.len() as u64);
            for p in &self.peaks {
                e.u(*p as u64);
            }
            e.u(self.objs.len() as u64);
            for o in &self.objs {
                e.u(o.len() as u64);
                for a in o {
                    e.u(a.calls.len() as u64);
                    for c in &a.calls {
                        for x in [c.0, c.1, c.2 as u64, c.3, c.4, c.6, c.7, c.8] {
                            e.u(x);
                        }
                        e.b(&c.5);
                    }
                    e.b(&a.out);
                    e.u(a.draws.len() as u64);
                    for d in &a.draws {
                        e.b(d);
                    }
                    for x in [a.ch_end, a.draw_failed as u64, a.end, a.closes, a.live as u64] {
                        e.u(x);
                    }
                    e.b(&a.random);
                    e.b(&a.share);
                    e.s(&a.cfg);
                    e.s(&a.cause);
                    e.u(a.recs.len() as u64);
                    for r in &a.recs {
                        e.b(r);
                    }
                }
            }
        }
        e.0
    }
    pub fn dec(b: &[u8]) -> Option<Report> {
        let mut d = Dec(b);
        let mut r = Report::default();
        for _ in 0..d.u()? {
            r.viol.push(V { class: d.s()?, obj: d.u()?, attempt: d.u()?, msg: d.s()? });
        }
        for _ in 0..d.u()? {
            r.counts.insert(d.s()?, d.u()?);
        }
        for _ in 0..d.u()? {
            r.probes.insert(d.s()?, d.u()?);
        }
        r.sim_time = d.u()?;
        r.worlds = d.u()?;
        r.attempts = d.u()?;
        r.calls = d.u()?;
        r.io = d.u()?;
        r.path = d.u()?;
        r.digest = d.u()?;
        r.nontrivial = d.u()? == 1;
        for _ in 0..d.u()? {
            r.choices.push(d.u()? as u32);
        }
        for _ in 0..d.u()? {
            r.trace.push(d.s()?);
        }
        if d.u()? == 1 {
            for _ in 0..d.u()? {
                r.peaks.push(d.u()? as i64);
            }
            for _ in 0..d.u()? {
                let mut o = vec![];
                for _ in 0..d.u()? {
                    let mut a = Att::default();
                    for _ in 0..d.u()? {
                        let x: Vec<u64> = (0..8).map(|_| d.u()).collect::<Option<_>>()?;
                        a.calls.push((x[0], x[1], x[2] as i64, x[3], x[4], d.b()?, x[5], x[6], x[7]));
                    }
                    a.out = d.b()?;
                    for _ in 0..d.u()? {
                        a.draws.push(d.b()?);
                    }
                    a.ch_end = d.u()?;
                    a.draw_failed = d.u()? == 1;
                    a.end = d.u()?;
                    a.closes = d.u()?;
                    a.live = d.u()? as i64;
                    a.random = d.b()?;
                    a.share = d.b()?;
                    a.cfg = d.s()?;
                    a.cause = d.s()?;
                    for _ in 0..d.u()? {
                        a.recs.push(d.b()?);
                    }
                    o.push(a);
                }
                r.objs.push(o);
            }
        }
        Some(r)
    }
}
