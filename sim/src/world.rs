//! The simulated world: virtual time, transports, random source, applications and their servers.
//!
//! One thread, no real I/O, no real clock. Every event is ordered by (virtual time, sequence number); each
//! object has its own clock, so that what an object sees does not depend on the others.

use crate::alloc;
use crate::plan::*;
use crate::source::expand;
use crate::tls::{self, Ch, Out};
use std::collections::BTreeMap;
use std::ffi::{c_void, CStr};
use turtls::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Err {
    Tls,
    Peer,
    Rng,
    WantRead,
    WantWrite,
    KeyZero,
    MissingExt,
    TooLong,
    Unknown,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Connect,
    Close,
}

#[derive(Clone, Debug)]
pub struct Call {
    pub kind: Kind,
    pub time: u64,
    pub ret: i32,
    pub err: Err,
    pub alert: u8,
    pub proto: Vec<u8>,
    pub proto_addr: usize,
    pub consumed: usize,
    pub written: usize,
    pub closes: u32,
    pub read_refused: u32,
    pub write_refused: u32,
    pub last_refused: u8,
    pub io_calls: u32,
    pub moved: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    Running,
    /// turtls_connect reported something final
    Verdict,
    /// the application called turtls_close while waiting
    Closed,
    /// freed while waiting
    Freed,
}

pub struct Hist {
    pub cfg: Cfg,
    pub draws: Vec<(Vec<u8>, bool)>,
    pub calls: Vec<Call>,
    pub connects: usize,
    pub out: Vec<u8>,
    pub pre: usize,
    pub stream: Vec<u8>,
    /// bytes that have arrived
    pub arrived: usize,
    pub consumed: usize,
    pub closes: u32,
    pub end: End,
    pub ch: Option<Ch>,
    pub ch_err: Option<String>,
    pub ch_done_at: Option<usize>,
    /// bytes read (or waited for) before the ClientHello was complete
    pub early_read: bool,
    pub resp: Option<Out>,
    pub started: u64,
    pub live_after: i64,
    pub read_faults: u32,
    pub write_faults: u32,
    pub dead_reads: bool,
    pub dead_writes: bool,
    /// the application gave up because nothing could happen any more
    pub gave_up: bool,
    /// chronological digest of what the callbacks did
    pub path: u64,
}

pub struct Obj {
    pub plan: ObjPlan,
    pub ptr: *mut TurtlsConn,
    pub owner: usize,
    pub hist: Vec<Hist>,
    pub cur_cfg: Cfg,
    keep_alive: Vec<Vec<u8>>,
    reconfigured: bool,
    busy: bool,
    now: u64,
    pending: u32,
    rd_ops: usize,
    wr_ops: usize,
    rd_calls: u32,
    wr_calls: u32,
    dead_retries: u32,
    /// counters of the turtls call in progress
    c_rr: u32,
    c_wr: u32,
    c_last: u8,
    c_io: u32,
    c_moved: usize,
    in_call: bool,
    closed: bool,
    draw_ix: usize,
    prev: Vec<Vec<u8>>,
    pub peak: i64,
    pub freed: bool,
    pub leaked: i64,
    proto_addr: usize,
}

#[derive(Clone, Debug)]
enum Ev {
    New,
    Start(usize),
    Call(usize),
    Deliver(usize, usize),
    CloseAt(usize),
}

pub struct Violation {
    pub class: &'static str,
    pub obj: usize,
    pub attempt: usize,
    pub msg: String,
}

pub struct World {
    pub objs: Vec<Obj>,
    queue: BTreeMap<(u64, u64), (usize, Ev)>,
    seq: u64,
    nest: Vec<u8>,
    nest_ix: usize,
    threads: Vec<u8>,
    thread_ix: usize,
    stack: Vec<usize>,
    pub viol: Vec<Violation>,
    pub counts: BTreeMap<&'static str, u64>,
    pub trace: Option<Vec<String>>,
    pub end_time: u64,
    pub nested: u64,
    /// digest of the global order of events
    pub order: u64,
}

static mut W: *mut World = std::ptr::null_mut();

pub fn mix(h: u64, x: u64) -> u64 {
    (h ^ x).wrapping_mul(0x100000001b3).rotate_left(23) ^ (x >> 3)
}

macro_rules! trace {
    ($w:expr, $($t:tt)*) => {
        if let Some(t) = &mut (*$w).trace { let s = format!($($t)*); crate::runner::echo(&s); t.push(s) }
    };
}

pub struct Options {
    pub trace: bool,
    /// records of earlier attempts for the attacker of object 0
    pub prev: Option<Vec<Vec<u8>>>,
}

impl Default for Options {
    fn default() -> Options {
        Options { trace: false, prev: None }
    }
}

pub fn run(sc: &Scenario, opt: Options) -> Box<World> {
    let mut w = Box::new(World {
        objs: vec![],
        queue: BTreeMap::new(),
        seq: 0,
        nest: sc.nest.clone(),
        nest_ix: 0,
        threads: sc.threads.clone(),
        thread_ix: 0,
        stack: vec![],
        viol: vec![],
        counts: BTreeMap::new(),
        trace: if opt.trace { Some(vec![]) } else { None },
        end_time: 0,
        nested: 0,
        order: 0,
    });
    for (i, p) in sc.objs.iter().enumerate() {
        w.objs.push(Obj {
            plan: p.clone(),
            ptr: std::ptr::null_mut(),
            owner: 1 + i,
            hist: vec![],
            cur_cfg: Cfg { sni: None, sig_algs: 1, groups: 1, suites: 3, alpn: None, alpn_odd: 0, keep: false },
            keep_alive: vec![],
            reconfigured: false,
            busy: false,
            now: p.start,
            pending: 0,
            rd_ops: 0,
            wr_ops: 0,
            rd_calls: 0,
            wr_calls: 0,
            dead_retries: 0,
            c_rr: 0,
            c_wr: 0,
            c_last: 0,
            c_io: 0,
            c_moved: 0,
            in_call: false,
            closed: true,
            draw_ix: 0,
            prev: if i == 0 { opt.prev.clone().unwrap_or_default() } else { vec![] },
            peak: 0,
            freed: false,
            leaked: 0,
            proto_addr: 0,
        });
    }
    getrandom::sim_set_hook(rng_hook);
    if !sc.threads.is_empty() {
        crate::threads::prepare();
    }
    let wp: *mut World = &mut *w;
    unsafe {
        W = wp;
        for i in 0..(*wp).objs.len() {
            let t = (*wp).objs[i].now;
            push(wp, i, t, Ev::New);
        }
        while step(wp) {}
        (*wp).end_time = (*wp).objs.iter().map(|o| o.now).max().unwrap_or(0);
        W = std::ptr::null_mut();
    }
    w
}

unsafe fn count(w: *mut World, k: &'static str, n: u64) {
    *(*w).counts.entry(k).or_insert(0) += n;
}

unsafe fn violate(w: *mut World, class: &'static str, i: usize, msg: String) {
    let attempt = (*w).objs[i].hist.len().saturating_sub(1);
    trace!(w, "!! {class}: {msg}");
    if (*w).viol.len() < 50 {
        (*w).viol.push(Violation { class, obj: i, attempt, msg });
    }
}

unsafe fn push(w: *mut World, obj: usize, t: u64, ev: Ev) {
    let s = (*w).seq;
    (*w).seq += 1;
    (*w).objs[obj].pending += 1;
    (*w).queue.insert((t, s), (obj, ev));
}

/// Processes the next event of an object that is not inside a call. False if there is none.
unsafe fn step(w: *mut World) -> bool {
    let key = (*w).queue.iter().find(|(_, (o, _))| !(*w).objs[*o].busy).map(|(k, _)| *k);
    let Some(k) = key else { return false };
    let (i, ev) = (*w).queue.remove(&k).unwrap();
    let o = &mut (*w).objs[i];
    o.pending -= 1;
    o.now = o.now.max(k.0);
    crate::seam::set_now(o.now);
    o.busy = true;
    (*w).order = mix((*w).order, i as u64 + 1);
    match ev {
        Ev::New => {
            (*w).stack.push(i);
            let t = thread(w);
            let own = alloc::set_owner((*w).objs[i].owner);
            crate::runner::enter();
            let p = crate::threads::on(t, || turtls_new(TurtlsIo { write_fn, read_fn, close_fn, ctx: (i + 1) as *mut c_void }));
            crate::runner::leave();
            alloc::set_owner(own);
            (*w).stack.pop();
            if (*w).objs.iter().any(|o| o.freed && o.ptr == p) {
                count(w, "object_in_the_place_of_a_freed_one", 1);
            }
            (*w).objs[i].ptr = p;
            trace!(w, "[{} t={}] turtls_new", i, (*w).objs[i].now);
            let pp = turtls_app_proto(p);
            (*w).objs[i].proto_addr = pp as usize;
            if *pp != 0 {
                violate(w, "AppProto", i, "a new object reports an application protocol".into());
            }
            if (*w).objs[i].plan.close_first {
                close(w, i, false);
            }
            let t = (*w).objs[i].now;
            push(w, i, t, Ev::Start(0));
        }
        Ev::Start(j) => start(w, i, j),
        Ev::Call(j) => {
            if running(w, i, j) {
                connect(w, i)
            }
        }
        Ev::Deliver(j, upto) => {
            if running(w, i, j) {
                let h = (*w).objs[i].hist.last_mut().unwrap();
                h.arrived = h.arrived.max(upto);
                connect(w, i)
            }
        }
        Ev::CloseAt(j) => {
            if running(w, i, j) {
                close(w, i, true);
                finished(w, i);
            }
        }
    }
    // nothing left that could make the attempt go on
    loop {
        let o = &mut (*w).objs[i];
        if o.pending > 0 || o.freed {
            break;
        }
        match o.hist.last() {
            Some(h) if h.end == End::Running => {
                connect(w, i);
                let o = &mut (*w).objs[i];
                if o.pending > 0 || o.hist.last().unwrap().end != End::Running {
                    continue;
                }
                o.hist.last_mut().unwrap().gave_up = true;
                let last = o.hist.len() == o.plan.attempts.len();
                if last && o.plan.free_open {
                    o.hist.last_mut().unwrap().end = End::Freed;
                } else {
                    close(w, i, true);
                }
                finished(w, i);
            }
            _ => break,
        }
    }
    (*w).objs[i].busy = false;
    true
}

unsafe fn running(w: *mut World, i: usize, j: usize) -> bool {
    let o = &(*w).objs[i];
    o.hist.len() == j + 1 && o.hist[j].end == End::Running
}

unsafe fn configure(o: &mut Obj, cfg: &Cfg) {
    o.cur_cfg = cfg.clone();
    let c = turtls_get_config(o.ptr);
    match &cfg.sni {
        Some(n) => {
            let mut s = n.clone();
            s.push(0);
            o.keep_alive.push(s);
            (*c).extensions.server_name = o.keep_alive.last().unwrap().as_ptr() as *const _;
        }
        None => (*c).extensions.server_name = std::ptr::null(),
    }
    (*c).extensions.sig_algs = cfg.sig_algs;
    (*c).extensions.sup_groups = cfg.groups;
    match &cfg.alpn {
        Some(l) => {
            let mut s = vec![];
            for n in l {
                s.push(n.len() as u8);
                s.extend_from_slice(n);
            }
            (*c).extensions.app_protos_len = s.len();
            o.keep_alive.push(s);
            (*c).extensions.app_protos = o.keep_alive.last().unwrap().as_ptr() as *const _;
        }
        None => {
            (*c).extensions.app_protos = std::ptr::null();
            (*c).extensions.app_protos_len = 0;
            match cfg.alpn_odd {
                1 => {
                    o.keep_alive.push(b"\x02h2".to_vec());
                    (*c).extensions.app_protos = o.keep_alive.last().unwrap().as_ptr() as *const _;
                }
                2 => (*c).extensions.app_protos_len = 3,
                _ => {}
            }
        }
    }
    *(&raw mut (*c).cipher_suites as *mut u8) = cfg.suites;
}

unsafe fn start(w: *mut World, i: usize, j: usize) {
    let o = &mut (*w).objs[i];
    let a = o.plan.attempts[j].clone();
    // What the attempt before was to change in any case.
    if let Some((_, c)) = j.checked_sub(1).and_then(|k| o.plan.attempts[k].app.reconf.clone()) {
        if !o.reconfigured {
            configure(o, &c);
        }
    }
    o.reconfigured = false;
    if !a.cfg.keep {
        o.keep_alive.clear();
        configure(o, &a.cfg);
    }
    let mut h = Hist {
        cfg: o.cur_cfg.clone(),
        draws: vec![],
        calls: vec![],
        connects: 0,
        out: vec![],
        pre: 0,
        stream: vec![],
        arrived: 0,
        consumed: 0,
        closes: 0,
        end: End::Running,
        ch: None,
        ch_err: None,
        ch_done_at: None,
        early_read: false,
        resp: None,
        started: o.now,
        live_after: 0,
        read_faults: 0,
        write_faults: 0,
        dead_reads: false,
        dead_writes: false,
        gave_up: false,
        path: 0,
    };
    for inj in &a.server.pre {
        h.stream.extend(tls::inj_bytes(inj, a.server.seed ^ 71, None));
    }
    let n = a.server.pre.len() as u64;
    if n > 0 {
        count(w, "bytes_before_clienthello", n);
    }
    h.pre = h.stream.len();
    h.arrived = h.pre;
    o.rd_ops = 0;
    o.wr_ops = 0;
    o.rd_calls = 0;
    o.wr_calls = 0;
    o.dead_retries = 0;
    o.draw_ix = 0;
    o.closed = false;
    o.hist.push(h);
    let now = o.now;
    trace!(w, "[{i} t={now}] attempt {j} begins: {:?}", a.cfg_short());
    for t in &a.app.polls {
        push(w, i, now + *t as u64, Ev::Call(j));
    }
    if let Some(t) = a.app.close_at {
        push(w, i, now + t as u64, Ev::CloseAt(j));
    }
    connect(w, i);
}

/// The thread that makes the next call.
unsafe fn thread(w: *mut World) -> usize {
    if (*w).threads.is_empty() {
        return 0;
    }
    let k = (*w).threads[(*w).thread_ix % (*w).threads.len()] as usize;
    (*w).thread_ix += 1;
    if k > 0 {
        count(w, "call_on_another_thread", 1);
        trace!(w, "on thread {k}:");
    }
    k
}

unsafe fn begin_call(w: *mut World, i: usize) -> usize {
    let o = &mut (*w).objs[i];
    o.c_rr = 0;
    o.c_wr = 0;
    o.c_last = 0;
    o.c_io = 0;
    o.c_moved = 0;
    o.in_call = true;
    (*w).stack.push(i);
    let own = alloc::set_owner((*w).objs[i].owner);
    crate::runner::enter();
    own
}

unsafe fn end_call(w: *mut World, i: usize, own: usize) {
    crate::runner::leave();
    alloc::set_owner(own);
    (*w).stack.pop();
    (*w).objs[i].in_call = false;
}

/// Everything an application can ask a connection about: error, alert, application protocol.
unsafe fn getters<'a>(p: *mut TurtlsConn) -> (Err, u8, *const c_void, &'a CStr) {
    let err = match turtls_get_error(p) {
        TurtlsError::Tls => Err::Tls,
        TurtlsError::TlsPeer => Err::Peer,
        TurtlsError::Rng => Err::Rng,
        TurtlsError::WantRead => Err::WantRead,
        TurtlsError::WantWrite => Err::WantWrite,
        TurtlsError::PrivKeyIsZero => Err::KeyZero,
        TurtlsError::MissingExtensions => Err::MissingExt,
        TurtlsError::ExtensionsTooLong => Err::TooLong,
        #[allow(unreachable_patterns)]
        _ => Err::Unknown,
    };
    let alert = turtls_get_tls_error(p) as u8;
    let pp = turtls_app_proto(p);
    (err, alert, pp as *const c_void, CStr::from_ptr(pp))
}

/// What is wrong with the description of an alert.
unsafe fn misnamed(alert: TurtlsAlert) -> Option<String> {
    let code = alert as u8;
    let p = turtls_stringify_alert(alert);
    if p.is_null() {
        return Some(format!("alert {code} has no description"));
    }
    let text = CStr::from_ptr(p).to_string_lossy().to_lowercase();
    let words: &[&str] = match code {
        0 => &["clos"],
        10 => &["unexpected"],
        20 => &["mac"],
        22 => &["overflow"],
        40 => &["handshake"],
        42 => &["bad"],
        43 => &["unsupported"],
        44 => &["revoked"],
        45 => &["expired"],
        46 => &["unknown"],
        47 => &["illegal"],
        48 => &["authority", "ca"],
        49 => &["access"],
        50 => &["decod"],
        51 => &["decrypt"],
        70 => &["version"],
        71 => &["insufficient"],
        80 => &["internal"],
        86 => &["fallback"],
        90 => &["cancel"],
        109 => &["missing"],
        110 => &["extension"],
        112 => &["name"],
        113 => &["status", "ocsp"],
        115 => &["psk"],
        116 => &["required"],
        120 => &["protocol"],
        _ => &[""],
    };
    if text.is_empty() || !words.iter().any(|x| text.contains(x)) {
        return Some(format!("alert {code} is described as \"{text}\""));
    }
    None
}

unsafe fn connect(w: *mut World, i: usize) {
    let p = (*w).objs[i].ptr;
    let t = thread(w);
    let own = begin_call(w, i);
    let ret = crate::threads::on(t, || turtls_connect(p));
    let (err, alert, pp, proto) = getters(p);
    end_call(w, i, own);
    let proto = proto.to_bytes().to_vec();
    if ret != 1 && matches!(err, Err::Tls | Err::Peer) {
        if let Some(m) = misnamed(turtls_get_tls_error(p)) {
            violate(w, "WrongAlert", i, m);
        }
    }
    record(w, i, Kind::Connect, ret, err, alert, proto, pp as usize);
    let o = &mut (*w).objs[i];
    let j = o.hist.len() - 1;
    let app = o.plan.attempts[j].app.clone();
    let n_connects = o.hist[j].connects;
    let waiting = ret != 1 && matches!(err, Err::WantRead | Err::WantWrite);
    if !waiting {
        o.hist[j].end = End::Verdict;
        for _ in 0..app.extra_closes {
            close(w, i, false);
        }
        finished(w, i);
        return;
    }
    if app.close_after_calls.is_some_and(|n| n_connects >= n as usize) {
        close(w, i, true);
        for _ in 0..app.extra_closes {
            close(w, i, false);
        }
        finished(w, i);
        return;
    }
    if let Some((n, c)) = &app.reconf {
        if n_connects >= *n as usize && !o.reconfigured {
            o.reconfigured = true;
            configure(o, c);
            count(w, "reconfigured_during_attempt", 1);
            trace!(w, "[{i}] the application configures the object for the next attempt");
        }
    }
    let o = &mut (*w).objs[i];
    // when will the application try again?
    let now = o.now;
    if err == Err::WantWrite || o.c_wr > 0 {
        if o.hist[j].dead_writes || o.c_wr == 0 {
            o.dead_retries += 1;
            if o.dead_retries > 4 {
                return;
            }
        }
        push(w, i, now + 37, Ev::Call(j));
    } else if o.hist[j].consumed < o.hist[j].arrived {
        if o.hist[j].dead_reads || o.c_rr == 0 {
            o.dead_retries += 1;
            if o.dead_retries > 4 {
                return;
            }
        }
        push(w, i, now + 11, Ev::Call(j));
    }
}

unsafe fn record(w: *mut World, i: usize, kind: Kind, ret: i32, err: Err, alert: u8, proto: Vec<u8>, pa: usize) {
    let o = &mut (*w).objs[i];
    let now = o.now;
    let (rr, wr, last, io, moved) = (o.c_rr, o.c_wr, o.c_last, o.c_io, o.c_moved);
    let peak = alloc::peak(o.owner);
    o.peak = o.peak.max(peak);
    let h = o.hist.last_mut().unwrap();
    h.connects += (kind == Kind::Connect) as usize;
    h.calls.push(Call {
        kind,
        time: now - h.started,
        ret,
        err,
        alert,
        proto: proto.clone(),
        proto_addr: pa,
        consumed: h.consumed,
        written: h.out.len(),
        closes: h.closes,
        read_refused: rr,
        write_refused: wr,
        last_refused: last,
        io_calls: io,
        moved,
    });
    let (c, n) = (h.consumed, h.out.len());
    trace!(
        w,
        "[{i} t={now}] {} -> {ret} {err:?} alert {alert} app_proto {:?}; {c} bytes read, {n} written so far",
        if kind == Kind::Connect { "turtls_connect" } else { "turtls_close" },
        String::from_utf8_lossy(&proto)
    );
    if kind == Kind::Connect {
        let o = &mut (*w).objs[i];
        if o.proto_addr == 0 {
            o.proto_addr = pa;
        } else if o.proto_addr != pa {
            violate(w, "AppProto", i, "turtls_app_proto returned another address".into());
        }
    }
    if io as usize > moved + 8 {
        violate(w, "IoBound", i, format!("{io} I/O calls in one call that moved {moved} bytes"));
    }
}

/// turtls_close; `ends`: an attempt is in progress.
unsafe fn close(w: *mut World, i: usize, ends: bool) {
    let before = (*w).objs[i].hist.last().map(|h| (h.closes, h.consumed, h.out.len()));
    let p = (*w).objs[i].ptr;
    let told = getters(p);
    let told = (told.0, told.1, told.2, told.3.to_bytes().to_vec());
    let t = thread(w);
    let own = begin_call(w, i);
    crate::threads::on(t, || turtls_close(p));
    end_call(w, i, own);
    let now = getters(p);
    let proto = now.3.to_bytes();
    if now.2 != told.2 || !proto.is_empty() && proto != told.3 {
        violate(w, "AppProto", i, "turtls_close changed the application protocol".into());
    }
    if !ends && (now.0, now.1, proto) != (told.0, told.1, &told.3[..]) {
        violate(w, "CloseCount", i, "turtls_close on a closed connection changed what it reports".into());
    }
    if before.is_none() {
        trace!(w, "[{i}] turtls_close before any attempt");
        if (*w).objs[i].c_io > 0 {
            violate(w, "IoAfterClose", i, "turtls_close before any attempt performed I/O".into());
        }
        return;
    }
    let (err, alert) = (Err::Tls, 0);
    record(w, i, Kind::Close, 0, err, alert, vec![], 0);
    count(w, "app_close", 1);
    if ends {
        (*w).objs[i].hist.last_mut().unwrap().end = End::Closed;
    } else {
        let h = (*w).objs[i].hist.last().unwrap();
        let now = (h.closes, h.consumed, h.out.len());
        if now != before.unwrap() {
            violate(w, "CloseCount", i, format!("turtls_close on a closed connection did something: (closes, read, written) {before:?} -> {now:?}"));
        }
    }
}

/// The attempt is over; begin the next one or free the object.
unsafe fn finished(w: *mut World, i: usize) {
    let o = &mut (*w).objs[i];
    o.closed = true;
    let live = alloc::live(o.owner);
    let h = o.hist.last_mut().unwrap();
    h.live_after = live;
    let recs: Vec<Vec<u8>> = match &h.resp {
        Some(r) => r.recs.iter().map(|r| r.bytes.clone()).collect(),
        None => vec![],
    };
    o.prev.extend(recs);
    o.prev.truncate(40);
    // whatever was planned for this attempt is void
    let keys: Vec<_> = (*w).queue.iter().filter(|(_, (x, _))| *x == i).map(|(k, _)| *k).collect();
    for k in keys {
        (*w).queue.remove(&k);
        (*w).objs[i].pending -= 1;
    }
    let o = &mut (*w).objs[i];
    let n = o.hist.len();
    if n < o.plan.attempts.len() {
        let t = o.now + 100;
        push(w, i, t, Ev::Start(n));
    } else {
        free(w, i);
    }
}

unsafe fn free(w: *mut World, i: usize) {
    let p = (*w).objs[i].ptr;
    let t = thread(w);
    let own = begin_call(w, i);
    crate::threads::on(t, || turtls_free(p));
    end_call(w, i, own);
    let o = &mut (*w).objs[i];
    o.freed = true;
    o.leaked = alloc::live(o.owner);
    let l = o.leaked;
    trace!(w, "[{i}] turtls_free, {l} bytes left");
    if l != 0 {
        violate(w, "Leak", i, format!("{l} bytes still allocated after turtls_free"));
    }
}

// ------------------------------------------------------------------ callbacks

/// Enters the simulator from inside a library call.
unsafe fn suspend(w: *mut World) -> usize {
    let own = alloc::set_owner(0);
    crate::runner::leave();
    let _ = w;
    own
}
unsafe fn resume(_w: *mut World, own: usize) {
    crate::runner::enter();
    alloc::set_owner(own);
}

unsafe fn nested(w: *mut World) {
    if (*w).stack.len() > 4 {
        return;
    }
    let k = match (*w).nest.get((*w).nest_ix) {
        Some(k) => *k,
        None => return,
    };
    (*w).nest_ix += 1;
    for _ in 0..k {
        if !step(w) {
            break;
        }
        (*w).nested += 1;
    }
}

unsafe fn io_check(w: *mut World, i: usize, what: &str) {
    let o = &mut (*w).objs[i];
    o.c_io += 1;
    let (io, moved) = (o.c_io as usize, o.c_moved);
    let (busy, closed, any) = (o.in_call, o.closed, !o.hist.is_empty());
    if !busy {
        violate(w, "IoAfterClose", i, format!("{what} called outside of any call"));
    }
    if !any || closed {
        violate(w, "IoAfterClose", i, format!("{what} called on a closed connection"));
    }
    if io > moved + 2000 {
        crate::runner::die_io(&format!("object {i}: {io} I/O calls in one call that moved {moved} bytes"));
    }
}

enum Decision {
    Upto(usize),
    Refuse(isize),
}

/// "To indicate an error, it must return a value less than 1."
fn refusal(seed: u32) -> isize {
    [-1, 0, -11, 0, isize::MIN][seed as usize % 5]
}

fn decide(io: &Io, no: isize, ix: &mut usize, calls: &mut u32) -> (Decision, bool) {
    *calls += 1;
    let k = *ix;
    *ix += 1;
    if let Some(op) = io.ops.get(k) {
        return match op {
            IoOp::Cap(n) => (Decision::Upto((*n).max(1) as usize), false),
            IoOp::Refuse(-128) => (Decision::Refuse(isize::MIN), false),
            IoOp::Refuse(v) => (Decision::Refuse((*v).min(0) as isize), false),
        };
    }
    if io.dead {
        return (Decision::Refuse(no), true);
    }
    if io.every > 0 && *calls % io.every == 0 {
        return (Decision::Refuse(no), false);
    }
    (Decision::Upto(if io.cap == 0 { usize::MAX } else { io.cap as usize }), false)
}

/// More than the longest ClientHello and an alert take several times over.
const WRITE_LIMIT: usize = 512 << 10;
/// After this many calls in one attempt the transport works without interruption, to bound the
/// cost of a run.
const PATIENCE: usize = 20_000;

extern "C" fn read_fn(buf: *mut c_void, amt: usize, ctx: *const c_void) -> isize {
    unsafe {
        let w = W;
        let own = suspend(w);
        let i = ctx as usize - 1;
        io_check(w, i, "read_fn");
        nested(w);
        let r = do_read(w, i, buf as *mut u8, amt);
        trace!(w, "[{i}]   read({amt}) = {r}");
        if amt > 0 && scribbles(w, i) {
            // The buffer is the callback's until it returns; only the bytes it reports count.
            let used = r.max(0) as usize;
            std::ptr::write_bytes((buf as *mut u8).add(used), 0x96, amt - used);
            count(w, "read_buffer_scribbled", 1);
        }
        nested(w);
        resume(w, own);
        r
    }
}

/// Does this attempt's read_fn use the rest of the buffer as scratch space?
unsafe fn scribbles(w: *mut World, i: usize) -> bool {
    let o = &(*w).objs[i];
    !o.hist.is_empty() && o.plan.attempts[o.hist.len() - 1].server.seed >> 16 & 3 == 0
}

unsafe fn do_read(w: *mut World, i: usize, buf: *mut u8, amt: usize) -> isize {
    let o = &mut (*w).objs[i];
    if o.closed || o.hist.is_empty() {
        return -1;
    }
    let j = o.hist.len() - 1;
    let h = &mut o.hist[j];
    if h.ch_done_at.is_none() {
        h.early_read = true;
    }
    let avail = h.arrived - h.consumed;
    if avail == 0 || amt == 0 {
        o.c_rr += 1;
        o.c_last = b'R';
        let h = &mut o.hist[j];
        h.path = mix(h.path, 1);
        return refusal(o.plan.attempts[j].server.seed);
    }
    let (mut d, dead) = decide(&o.plan.attempts[j].reads, refusal(o.plan.attempts[j].server.seed), &mut o.rd_ops, &mut o.rd_calls);
    if o.hist[j].connects > PATIENCE && !dead {
        d = Decision::Upto(usize::MAX);
    }
    let h = &mut o.hist[j];
    match d {
        Decision::Refuse(v) => {
            h.dead_reads |= dead;
            h.read_faults += 1;
            h.path = mix(h.path, 2);
            o.c_rr += 1;
            o.c_last = b'R';
            count(w, if dead { "read_dead" } else { "read_refused" }, 1);
            v
        }
        Decision::Upto(n) => {
            let k = n.min(amt).min(avail);
            std::ptr::copy_nonoverlapping(h.stream[h.consumed..].as_ptr(), buf, k);
            h.consumed += k;
            o.c_moved += k;
            h.path = mix(h.path, 3 + (k == amt) as u64 + 2 * (usize::BITS - k.leading_zeros()) as u64);
            if k < amt.min(avail) {
                h.read_faults += 1;
                count(w, "read_short", 1);
            }
            k as isize
        }
    }
}

extern "C" fn write_fn(buf: *const c_void, amt: usize, ctx: *const c_void) -> isize {
    unsafe {
        let w = W;
        let own = suspend(w);
        let i = ctx as usize - 1;
        io_check(w, i, "write_fn");
        nested(w);
        let r = do_write(w, i, buf as *const u8, amt);
        trace!(w, "[{i}]   write({amt}) = {r}");
        nested(w);
        resume(w, own);
        r
    }
}

unsafe fn do_write(w: *mut World, i: usize, buf: *const u8, amt: usize) -> isize {
    let o = &mut (*w).objs[i];
    if o.closed || o.hist.is_empty() || amt == 0 {
        return -1;
    }
    let j = o.hist.len() - 1;
    let (mut d, dead) = decide(&o.plan.attempts[j].writes, refusal(o.plan.attempts[j].server.seed >> 8), &mut o.wr_ops, &mut o.wr_calls);
    if o.hist[j].connects > PATIENCE && !dead {
        d = Decision::Upto(usize::MAX);
    }
    let h = &mut o.hist[j];
    match d {
        Decision::Refuse(v) => {
            h.dead_writes |= dead;
            h.write_faults += 1;
            h.path = mix(h.path, 5);
            o.c_wr += 1;
            o.c_last = b'W';
            count(w, if dead { "write_dead" } else { "write_refused" }, 1);
            v
        }
        Decision::Upto(n) => {
            let k = n.min(amt);
            h.out.extend_from_slice(std::slice::from_raw_parts(buf, k));
            o.c_moved += k;
            if h.out.len() > WRITE_LIMIT {
                crate::runner::die_io(&format!("object {i}: writes without end"));
            }
            h.path = mix(h.path, 7 + (k == amt) as u64 + 2 * (usize::BITS - k.leading_zeros()) as u64);
            if k < amt {
                h.write_faults += 1;
                count(w, "write_short", 1);
            }
            server_sees(w, i, j);
            k as isize
        }
    }
}

extern "C" fn close_fn(ctx: *const c_void) {
    unsafe {
        let w = W;
        let own = suspend(w);
        let i = ctx as usize - 1;
        nested(w);
        trace!(w, "[{i}]   close()");
        let o = &mut (*w).objs[i];
        if !o.in_call || o.hist.is_empty() {
            violate(w, "CloseCount", i, "close_fn called without an attempt".into());
        } else {
            let h = o.hist.last_mut().unwrap();
            h.closes += 1;
            h.path = mix(h.path, 11);
            let n = h.closes;
            o.closed = true;
            if n > 1 {
                violate(w, "CloseCount", i, format!("close_fn called {n} times for one attempt"));
            }
        }
        resume(w, own);
    }
}

// ------------------------------------------------------------------ random source

pub const N_BE: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xbc, 0xe6, 0xfa, 0xad, 0xa7, 0x17,
    0x9e, 0x84, 0xf3, 0xb9, 0xca, 0xc2, 0xfc, 0x63, 0x25, 0x51,
];

fn add_be(v: &mut [u8; 32], d: i32) {
    let mut c = d;
    for b in v.iter_mut().rev() {
        let x = *b as i32 + c;
        *b = x as u8;
        c = x >> 8;
    }
}

pub fn edge(k: u8) -> [u8; 32] {
    let (name, be) = EDGES[k as usize % EDGES.len()];
    let mut v = N_BE;
    match name {
        "0" => v = [0; 32],
        "n" => {}
        "n-1" => add_be(&mut v, -1),
        "n+1" => add_be(&mut v, 1),
        "n-2" => add_be(&mut v, -2),
        "1" => {
            v = [0; 32];
            v[31] = 1
        }
        "p" => {
            v = crate::crypto::to_be(&crate::crypto::P);
        }
        "ff" => v = [0xff; 32],
        _ => {
            // n with a zero limb boundary: only the high half
            v = [0; 32];
            v[..16].copy_from_slice(&N_BE[..16]);
        }
    }
    if !be {
        v.reverse();
    }
    v
}

pub fn draw_bytes(t: &Tape, k: usize, n: usize) -> Option<Vec<u8>> {
    let mut v = match t.draws.get(k) {
        None => expand(t.seed ^ 0xabc0_0000 ^ k as u32, n),
        Some(Draw::Full(s)) => expand(*s, n),
        Some(Draw::Small(x)) => {
            let mut v = x.to_le_bytes().to_vec();
            v.resize(n.max(4), 0);
            v.truncate(n);
            v
        }
        Some(Draw::Edge(e)) => {
            let mut v = edge(*e).to_vec();
            v.resize(n, 0);
            v
        }
        Some(Draw::Pattern(x)) => {
            use crate::crypto::{edge_x, is_zero, reduce, to_be, N};
            let mut k = edge_x(*x);
            if is_zero(&reduce(&k, &N)) {
                k = [5, 0, 0, 0];
            }
            let mut v = to_be(&k).to_vec();
            v.reverse();
            v.resize(n, 0);
            v
        }
        Some(Draw::Fail) => return None,
    };
    if let Some((d, b, x)) = t.flip {
        if d == k && n > 0 {
            let l = v.len();
            v[b % l] ^= x;
        }
    }
    Some(v)
}

fn rng_hook(dest: &mut [u8]) -> bool {
    unsafe {
        let w = W;
        if w.is_null() {
            return crate::ecdsa::rng(dest);
        }
        let own = suspend(w);
        let i = *(*w).stack.last().expect("random numbers drawn outside of any call");
        let o = &mut (*w).objs[i];
        let ok = if o.hist.is_empty() {
            dest.copy_from_slice(&expand(7, dest.len()));
            true
        } else {
            let j = o.hist.len() - 1;
            let k = o.draw_ix;
            o.draw_ix += 1;
            let d = draw_bytes(&o.plan.attempts[j].tape, k, dest.len());
            o.hist[j].draws.push((d.clone().unwrap_or_default(), d.is_none()));
            match d {
                Some(v) => {
                    dest.copy_from_slice(&v);
                    true
                }
                None => {
                    count(w, "rng_failure", 1);
                    false
                }
            }
        };
        trace!(w, "[{i}]   random({}) = {}", dest.len(), if ok { hex(dest) } else { "failure".into() });
        resume(w, own);
        ok
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

// ------------------------------------------------------------------ the server's side of the transport

/// Extracts the first handshake message from the client's records.
pub fn first_message(out: &[u8]) -> Option<(Vec<u8>, usize)> {
    let mut m = vec![];
    let mut o = 0;
    while out.len() >= o + 5 && out[o] == 22 {
        let n = (out[o + 3] as usize) << 8 | out[o + 4] as usize;
        if out.len() < o + 5 + n {
            return None;
        }
        m.extend_from_slice(&out[o + 5..o + 5 + n]);
        o += 5 + n;
        if m.len() >= 4 {
            let l = 4 + ((m[1] as usize) << 16 | (m[2] as usize) << 8 | m[3] as usize);
            if m.len() >= l {
                m.truncate(l);
                return Some((m, o));
            }
        }
    }
    None
}

unsafe fn server_sees(w: *mut World, i: usize, j: usize) {
    let o = &mut (*w).objs[i];
    let h = &mut o.hist[j];
    if h.ch_done_at.is_some() {
        return;
    }
    let Some((m, at)) = first_message(&h.out) else { return };
    h.ch_done_at = Some(at);
    match tls::parse_ch(&m) {
        Ok(c) => h.ch = Some(c),
        Err(e) => {
            h.ch_err = Some(e);
            return;
        }
    }
    let a = o.plan.attempts[j].clone();
    let draws: Vec<&[u8]> = h.draws.iter().map(|d| &d.0[..]).collect();
    let resp = tls::respond(&a.server, &a.net, &m, &o.prev, &draws);
    let base = h.pre;
    let mut bounds = vec![];
    for r in &resp.recs {
        h.stream.extend_from_slice(&r.bytes);
        bounds.push(h.stream.len());
    }
    if let Some((rec, off)) = a.net.stall {
        if !bounds.is_empty() {
            let k = rec as usize % bounds.len();
            let s = if k == 0 { base } else { bounds[k - 1] };
            let cut = (s + off as usize).min(h.stream.len());
            if cut < h.stream.len() {
                h.stream.truncate(cut);
                count(w, "stall", 1);
            }
        }
    }
    for f in &resp.fired {
        count(w, f, 1);
    }
    let h = &mut (*w).objs[i].hist[j];
    h.resp = Some(resp);
    let total = h.stream.len();
    let mut at = base;
    let mut t = (*w).objs[i].now + 1 + a.net.latency as u64;
    for (delay, n) in &a.net.segs {
        if at >= total {
            break;
        }
        t += *delay as u64;
        let end = if *n == 0 { bounds.iter().copied().find(|b| *b > at).unwrap_or(total) } else { at + *n as usize };
        at = end.min(total);
        push(w, i, t, Ev::Deliver(j, at));
        count(w, "segments", 1);
    }
    if at < total {
        push(w, i, t + 1, Ev::Deliver(j, total));
    }
}

impl Attempt {
    fn cfg_short(&self) -> String {
        let c = &self.cfg;
        if c.keep {
            return "configuration unchanged".into();
        }
        format!(
            "server_name {:?} sig_algs {:#x} groups {:#x} suites {:#x} alpn {:?}",
            c.sni.as_ref().map(|s| if s.len() > 40 { format!("({} bytes)", s.len()) } else { String::from_utf8_lossy(s).into() }),
            c.sig_algs,
            c.groups,
            c.suites,
            c.alpn.as_ref().map(|l| if l.len() > 6 {
                vec![format!("({} names)", l.len())]
            } else {
                l.iter().map(|n| if n.len() > 40 { format!("({} bytes)", n.len()) } else { String::from_utf8_lossy(n).into() }).collect::<Vec<String>>()
            })
        )
    }
}
