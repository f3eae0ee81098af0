//! One campaign per property: which scenarios are drawn, what accompanies each run, and which kinds of
//! violation decide the property.

use crate::plan::*;
use crate::report::{Att, Report};
use crate::runner::{iso, Died};
use crate::source::{Rng, Source};
use crate::world::{run, Options};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Twin {
    None,
    /// the same bytes under the simplest schedule
    Schedule,
    /// the same run with a transport that accepts everything
    Write,
    /// the last attempt on a new object
    Reuse,
    /// other random numbers
    Rng,
    /// every object alone
    Solo,
    /// the same attempt again and again
    Growth,
    /// no TLS at all: ECDSA signing
    Sign,
}

pub struct Campaign {
    pub id: &'static str,
    pub profiles: &'static [Profile],
    pub mixed: bool,
    pub twin: Twin,
    pub classes: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
}

const CALM: Profile = Profile::CALM;
const MIXED: Profile = Profile::MIXED;

/// Everything legal, but everything varied.
const LEGAL: Profile = Profile {
    attempts: 2,
    read_faults: 25,
    write_faults: 10,
    seg: 30,
    cfg: 60,
    big_cfg: 2,
    full_keys: 20,
    frag: 75,
    big: 14,
    many_records: 2,
    reconf: 8,
    polls: 5,
    ..CALM
};

pub const CAMPAIGNS: &[Campaign] = &[
    Campaign {
        id: "C01",
        profiles: &[LEGAL, Profile { attempts: 1, read_faults: 0, write_faults: 0, seg: 0, full_keys: 40, ..LEGAL }],
        mixed: true,
        twin: Twin::None,
        classes: &["Crash", "Hang", "FalseFail", "MissedFail", "WrongAlert", "WrongKind", "AlertProtection", "Progress"],
        quick: 28000,
        thorough: 504000,
    },
    Campaign {
        id: "C02",
        profiles: &[
            Profile { read_faults: 85, write_faults: 0, write_dead: 0, seg: 70, close: 0, polls: 30, rng_fault: 0, ..MIXED },
            Profile { read_faults: 85, seg: 70, polls: 30, ..LEGAL },
        ],
        mixed: true,
        twin: Twin::Schedule,
        classes: &["TwinSchedule", "Crash", "Hang"],
        quick: 16000,
        thorough: 288000,
    },
    Campaign {
        id: "C03",
        profiles: &[
            Profile { write_faults: 85, write_dead: 8, close: 15, alert: 0, big_cfg: 10, sh_mut: 25, ..MIXED },
            Profile { write_faults: 95, write_dead: 0, close: 0, big_cfg: 15, ..LEGAL },
            Profile { write_faults: 80, write_dead: 8, close: 40, cfg: 90, big_cfg: 50, attempts: 3, ..LEGAL },
        ],
        mixed: true,
        twin: Twin::Write,
        classes: &["WireCorrupt", "ChMissing", "AlertUnexpected", "ChMalformed", "FalseFail", "TwinWrite", "Progress", "Crash", "Hang"],
        quick: 10000,
        thorough: 180000,
    },
    Campaign {
        id: "C04",
        profiles: &[
            Profile { cfg: 100, big_cfg: 25, bad_cfg: 15, attempts: 3, write_faults: 30, rng_fault: 3, close: 30, ..CALM },
            Profile { cfg: 100, big_cfg: 0, bad_cfg: 25, attempts: 3, close: 60, ..CALM },
        ],
        mixed: true,
        twin: Twin::None,
        classes: &["ChMalformed", "ChOffer", "WireCorrupt", "Crash", "Hang"],
        quick: 28000,
        thorough: 504000,
    },
    Campaign {
        id: "C05",
        profiles: &[
            Profile { mitm: 95, attempts: 2, ..LEGAL },
            Profile { mitm: 100, read_faults: 0, write_faults: 0, seg: 60, big: 3, frag: 90, cfg: 20, ..LEGAL },
            Profile { mitm: 60, inj: 30, flow_mut: 20, ..LEGAL },
        ],
        mixed: true,
        twin: Twin::None,
        classes: &["MissedFail", "AppProto", "Connected", "WrongKind", "Crash", "Hang"],
        quick: 36000,
        thorough: 648000,
    },
    Campaign {
        id: "C06",
        profiles: &[
            Profile { sh_mut: 25, ee_mut: 20, cert_mut: 35, flow_mut: 15, inj: 25, pre: 10, noise: 10, mitm: 30, big: 10, ..MIXED },
            Profile { cert_mut: 95, read_faults: 10, write_faults: 5, big: 12, ..LEGAL },
            Profile { big_cfg: 20, write_faults: 50, close: 25, ..MIXED },
            Profile { sh_mut: 60, ee_mut: 60, inj: 30, ..LEGAL },
        ],
        mixed: true,
        twin: Twin::None,
        classes: &["Crash", "Hang", "IoBound", "MemBound"],
        quick: 32000,
        thorough: 576000,
    },
    Campaign {
        id: "C07",
        profiles: &[
            Profile { attempts: 3, close: 50, extra_close: 60, write_faults: 40, write_dead: 8, polls: 25, stall: 20, ..MIXED },
            Profile { attempts: 4, close: 20, extra_close: 70, sh_mut: 40, alert: 25, rng_fault: 8, bad_cfg: 10, ..MIXED },
        ],
        mixed: true,
        twin: Twin::None,
        classes: &["CloseCount", "IoAfterClose", "Crash", "Hang"],
        quick: 32000,
        thorough: 576000,
    },
    Campaign {
        id: "C08",
        profiles: &[
            Profile { alert: 35, sh_mut: 25, ee_mut: 15, cert_mut: 15, inj: 20, close: 15, ..MIXED },
            Profile { close: 80, stall: 20, attempts: 2, ..LEGAL },
            Profile { alert: 90, ..LEGAL },
            Profile { write_faults: 60, sh_mut: 30, mitm: 30, inj: 20, ..LEGAL },
        ],
        mixed: true,
        twin: Twin::None,
        classes: &["WrongAlert", "WrongKind", "AlertMismatch", "AlertMissing", "AlertUnexpected", "AlertProtection", "AlertIgnored", "FalseFail", "Crash", "Hang"],
        quick: 36000,
        thorough: 648000,
    },
    Campaign {
        id: "C09",
        profiles: &[
            Profile { attempts: 4, close: 25, stall: 15, write_faults: 30, write_dead: 6, inj: 20, rng_fault: 6, ..MIXED },
            Profile { attempts: 3, close: 35, stall: 30, ..LEGAL },
            Profile { attempts: 5, close: 10, sh_mut: 30, big: 12, bad_cfg: 8, ..MIXED },
            Profile { attempts: 3, close: 40, cfg: 90, big_cfg: 50, write_faults: 60, write_dead: 10, ..LEGAL },
        ],
        mixed: true,
        twin: Twin::Reuse,
        classes: &["TwinReuse", "Crash", "Hang"],
        quick: 9000,
        thorough: 162000,
    },
    Campaign {
        id: "C10",
        profiles: &[
            Profile { sh_mut: 90, cfg: 70, ..LEGAL },
            Profile { sh_mut: 30, ee_mut: 50, flow_mut: 20, inj: 15, ..LEGAL },
            Profile { sh_mut: 40, mitm: 40, cfg: 80, bad_cfg: 0, ..LEGAL },
        ],
        mixed: true,
        twin: Twin::None,
        classes: &["MissedFail", "Connected", "FalseFail", "AlertMissing", "Crash", "Hang"],
        quick: 32000,
        thorough: 576000,
    },
    Campaign {
        id: "C11",
        profiles: &[
            Profile { attempts: 4, close: 40, full_keys: 60, rng_fault: 0, ..LEGAL },
            Profile { attempts: 3, rng_fault: 60, close: 20, ..LEGAL },
            Profile { attempts: 4, close: 20, rng_fault: 10, write_faults: 40, write_dead: 10, ..MIXED },
        ],
        mixed: true,
        twin: Twin::Rng,
        classes: &["TwinRng", "RngMisuse", "Crash", "Hang"],
        quick: 6000,
        thorough: 108000,
    },
    Campaign {
        id: "C12",
        profiles: &[
            Profile { objs: 3, attempts: 3, nest: 80, seg: 60, read_faults: 50, ..MIXED },
            Profile { objs: 4, attempts: 2, nest: 90, seg: 80, read_faults: 60, write_faults: 50, ..LEGAL },
        ],
        mixed: false,
        twin: Twin::Solo,
        classes: &["TwinSolo", "Crash", "Hang"],
        quick: 4000,
        thorough: 72000,
    },
    Campaign {
        id: "C13",
        profiles: &[
            Profile { cfg: 100, ee_mut: 40, attempts: 3, close: 10, ..LEGAL },
            Profile { cfg: 90, attempts: 4, stall: 20, seg: 70, close: 20, bad_cfg: 10, rng_fault: 8, ..LEGAL },
            Profile { cfg: 100, ee_mut: 95, ..LEGAL },
        ],
        mixed: true,
        twin: Twin::None,
        classes: &["AppProto", "MissedFail", "FalseFail", "Crash", "Hang"],
        quick: 24000,
        thorough: 432000,
    },
    Campaign {
        id: "C14",
        profiles: &[
            Profile { frag: 100, big: 25, many_records: 4, attempts: 1, ..LEGAL },
            Profile { frag: 90, big: 15, inj: 70, flow_mut: 20, attempts: 1, ..LEGAL },
            Profile { frag: 90, big: 30, cert_mut: 30, ee_mut: 20, sh_mut: 20, inj: 10, attempts: 1, ..LEGAL },
        ],
        mixed: true,
        twin: Twin::None,
        classes: &["FalseFail", "MissedFail", "WrongAlert", "Crash", "Hang"],
        quick: 24000,
        thorough: 432000,
    },
    Campaign {
        id: "C15",
        profiles: &[
            Profile { flow_mut: 60, cert_mut: 30, attempts: 3, stall: 15, ..LEGAL },
            Profile { cert_mut: 80, inj: 20, close: 15, ..LEGAL },
            Profile { flow_mut: 40, mitm: 40, attempts: 3, rng_fault: 5, ..MIXED },
        ],
        mixed: true,
        twin: Twin::None,
        classes: &["Connected", "MissedFail", "Crash", "Hang"],
        quick: 28000,
        thorough: 504000,
    },
    Campaign {
        id: "C16",
        profiles: &[CALM],
        mixed: false,
        twin: Twin::Sign,
        classes: &["Sign", "Crash", "Hang"],
        quick: 3600,
        thorough: 64800,
    },
    Campaign {
        id: "C17",
        profiles: &[
            Profile { attempts: 1, close: 20, stall: 20, ..MIXED },
            Profile { attempts: 1, big: 50, frag: 80, ..LEGAL },
            Profile { attempts: 1, big: 30, cert_mut: 30, inj: 25, sh_mut: 25, big_cfg: 20, bad_cfg: 10, rng_fault: 8, write_faults: 40, ..MIXED },
        ],
        mixed: true,
        twin: Twin::Growth,
        classes: &["Leak", "MemBound", "MemGrowth", "Crash", "Hang"],
        quick: 4400,
        thorough: 79200,
    },
    Campaign {
        id: "C18",
        profiles: &[
            Profile { read_faults: 95, write_faults: 60, seg: 80, polls: 30, stall: 20, ..LEGAL },
            Profile { read_faults: 80, write_faults: 80, write_dead: 5, seg: 60, polls: 40, stall: 20, ..MIXED },
        ],
        mixed: true,
        twin: Twin::None,
        classes: &["WantUntruth", "Progress", "FalseFail", "MissedFail", "ChMissing", "IoBound", "Crash", "Hang"],
        quick: 28000,
        thorough: 504000,
    },
];

pub fn find(id: &str) -> Option<&'static Campaign> {
    CAMPAIGNS.iter().find(|c| c.id == id)
}

fn mul(p: &mut Profile, r: &mut Rng) {
    let Profile {
        nest,
        read_faults,
        write_faults,
        write_dead,
        seg,
        cfg,
        big_cfg,
        bad_cfg,
        rng_fault,
        sh_mut,
        ee_mut,
        cert_mut,
        flow_mut,
        inj,
        pre,
        alert,
        noise,
        mitm,
        frag,
        big,
        stall,
        close,
        extra_close,
        polls,
        free_open,
        many_records,
        reconf,
        ..
    } = p;
    let f = [
        nest,
        read_faults,
        write_faults,
        write_dead,
        seg,
        cfg,
        big_cfg,
        bad_cfg,
        rng_fault,
        sh_mut,
        ee_mut,
        cert_mut,
        flow_mut,
        inj,
        pre,
        alert,
        noise,
        mitm,
        frag,
        big,
        stall,
        close,
        extra_close,
        polls,
        free_open,
        many_records,
        reconf,
    ];
    for x in f {
        match r.below(8) {
            0 | 1 => *x = 0,
            2 => *x = (*x * 2).min(95),
            3 => *x /= 3,
            _ => {}
        }
    }
}

impl Campaign {
    /// The profile of a run: one of the campaign's own or the mixed one, varied per run.
    pub fn profile(&self, variant: u64, pseed: u64) -> Profile {
        let mut p = if self.mixed && variant % 5 == 4 {
            MIXED
        } else {
            self.profiles[(variant as usize) % self.profiles.len()]
        };
        let mut r = Rng::new(pseed);
        if r.below(10) < 7 {
            mul(&mut p, &mut r);
        }
        match self.twin {
            Twin::Schedule => {
                p.write_faults = 0;
                p.write_dead = 0;
                p.close = 0;
            }
            Twin::Reuse => p.attempts = p.attempts.max(2),
            Twin::Growth => p.attempts = 1,
            _ => {}
        }
        p
    }
    pub fn accepts(&self, class: &str) -> bool {
        self.classes.contains(&class)
    }
}

/// A world in a process of its own.
fn world(sc: &Scenario, opt: Options) -> Result<Report, Died> {
    world_on(sc, opt, 0xa5)
}

/// The comparison run, in which fresh memory holds something else.
fn twin_world(sc: &Scenario, opt: Options) -> Result<Report, Died> {
    world_on(sc, opt, 0x3c)
}

fn world_on(sc: &Scenario, opt: Options, fresh: u8) -> Result<Report, Died> {
    let b = iso(|| {
        crate::alloc::set_fresh(fresh);
        Report::of(run(sc, opt)).enc(true)
    })?;
    Ok(Report::dec(&b).expect("harness: unreadable report"))
}

fn died(r: &mut Report, d: Died, what: &str) {
    match d {
        Died::Library(c, m) => r.violate(c, 0, 0, format!("{what}{m}")),
        Died::Harness(m) => panic!("harness: {what}{m}"),
    }
}

fn list(r: &Report) -> String {
    r.viol.iter().map(|v| v.class.as_str()).collect::<Vec<_>>().join(",")
}

/// Executes one run; to be called in a process of its own.
pub fn exec(c: &Campaign, p: &Profile, s: &mut Source, trace: bool) -> Report {
    if c.twin == Twin::Sign {
        let mut r = crate::ecdsa::exec(s, trace);
        r.choices = s.rec.clone();
        return r;
    }
    let opt = || Options { trace, prev: None };
    let mut sc = scenario(s, p);
    let mut r = match c.twin {
        Twin::None => {
            let mut r = Report::of(run(&sc, opt()));
            r.objs.clear();
            r
        }
        Twin::Schedule => {
            for o in &mut sc.objs {
                for a in &mut o.attempts {
                    a.reads.dead = false;
                    a.writes = Io::clean();
                }
            }
            let mut t = sc.clone();
            t.threads.clear();
            for o in &mut t.objs {
                o.start = 0;
                for a in &mut o.attempts {
                    a.reads = Io::clean();
                    a.net.latency = 0;
                    a.net.segs.clear();
                    a.app.polls.clear();
                }
            }
            pair(&sc, &t, opt(), |b, t, out| {
                for (i, (x, y)) in b.objs.iter().zip(&t.objs).enumerate() {
                    for (j, (x, y)) in x.iter().zip(y).enumerate() {
                        let l = |a: &Att| (a.verdict(), a.closes, a.end);
                        if l(x) != l(y) {
                            out.push(("TwinSchedule", i, j, format!("with this schedule (verdict, closes, end) {:?}, with the simplest one {:?}", l(x), l(y))));
                        } else if x.out != y.out {
                            out.push(("TwinSchedule", i, j, format!("what is written depends on the schedule: {} and {} bytes", x.out.len(), y.out.len())));
                        }
                    }
                }
            })
        }
        Twin::Write => {
            let mut t = sc.clone();
            t.threads.clear();
            for o in &mut t.objs {
                for a in &mut o.attempts {
                    a.writes = Io::clean();
                    a.app.close_after_calls = None;
                    a.app.close_at = None;
                }
            }
            pair(&sc, &t, opt(), |b, t, out| {
                for (i, (x, y)) in b.objs.iter().zip(&t.objs).enumerate() {
                    for (j, (x, y)) in x.iter().zip(y).enumerate() {
                        let got = &x.out[..x.ch_end as usize];
                        if !y.out.starts_with(got) {
                            out.push(("TwinWrite", i, j, format!("the {} bytes of the ClientHello are not what an undisturbed transport receives", got.len())));
                        }
                    }
                }
            })
        }
        Twin::Reuse => {
            if s.below(150) == 149 {
                // a long life: counters of eight bits overflow; the last two attempts are compared
                let o = &mut sc.objs[0];
                let n = if s.pct(80) { s.range(256, 258) - o.attempts.len() } else { s.range(100, 300) };
                let mut many: Vec<Attempt> = (0..n).map(|_| brief(s, &o.attempts[0])).collect();
                many.append(&mut o.attempts);
                o.attempts = many;
            }
            reuse(&sc, opt())
        }
        Twin::Rng => rng(s, sc.clone(), opt()),
        Twin::Solo => {
            if s.below(160) == 159 {
                // many objects at a time
                let n = if s.pct(30) { s.range(257, 270) } else { s.range(17, 70) };
                let all = s.pct(50);
                for _ in 0..n {
                    let a = brief(s, &sc.objs[0].attempts[0]);
                    let start = if all { 0 } else { s.scale(4000) as u64 };
                    sc.objs.push(ObjPlan { start, attempts: vec![a], free_open: s.pct(50), close_first: false });
                }
            }
            solo(&sc, opt())
        }
        Twin::Growth => growth(s, sc.clone(), opt()),
        Twin::Sign => unreachable!(),
    };
    if trace {
        r.trace.insert(0, format!("profile {p:?}"));
        for (i, o) in sc.objs.iter().enumerate() {
            r.trace.insert(1 + i, format!("plan of object {i}: {o:?}"));
        }
    }
    r.choices = s.rec.clone();
    r
}

type Finding = (&'static str, usize, usize, String);

/// A base run, and a variation of it to compare with.
fn pair(sc: &Scenario, tw: &Scenario, opt: Options, cmp: impl Fn(&Report, &Report, &mut Vec<Finding>)) -> Report {
    let trace = opt.trace;
    let base = world(sc, opt);
    let mut r = match base {
        Ok(r) => r,
        Err(d) => {
            let mut r = Report::default();
            died(&mut r, d, "");
            return r;
        }
    };
    match twin_world(tw, Options { trace, prev: None }) {
        Ok(t) => {
            let mut out = vec![];
            cmp(&r, &t, &mut out);
            twin_trace(&mut r, &t, trace);
            for (c, i, j, m) in out {
                r.violate(c, i, j, m);
            }
        }
        Err(d) => died(&mut r, d, "in the comparison run: "),
    }
    r.objs.clear();
    r
}

fn twin_trace(r: &mut Report, t: &Report, trace: bool) {
    r.absorb(t);
    if trace {
        r.trace.push(format!("---- comparison run (own violations: {}):", list(t)));
        let l: Vec<String> = t.trace.iter().map(|x| format!("  | {x}")).collect();
        r.trace.extend(l);
    }
}

/// An attempt that ends early.
fn brief(s: &mut Source, a: &Attempt) -> Attempt {
    let mut a = a.clone();
    a.app = AppPlan { close_after_calls: Some(s.range(1, 2) as u16), ..AppPlan::plain() };
    a.tape.draws = vec![Draw::Small(s.below(1000) as u32 + 1), Draw::Full(s.seed())];
    a.writes = Io::clean();
    a.reads = Io::clean();
    a.net.segs.clear();
    a.server.frag2 = Frag::Whole;
    a
}

fn reuse(sc: &Scenario, opt: Options) -> Report {
    let trace = opt.trace;
    let mut r = match world(sc, opt) {
        Ok(r) => r,
        Err(d) => {
            let mut r = Report::default();
            died(&mut r, d, "");
            return r;
        }
    };
    let o = &sc.objs[0];
    let n = r.objs[0].len();
    // the last two attempts, each on an object of its own
    for j in (1..n).rev().take(2) {
        let mut a = o.attempts[j].clone();
        let mut k = j;
        while a.cfg.keep && k > 0 {
            k -= 1;
            a.cfg = match &o.attempts[k].app.reconf {
                Some((_, c)) => (**c).clone(),
                None => o.attempts[k].cfg.clone(),
            };
        }
        let prev: Vec<Vec<u8>> = r.objs[0][..j].iter().flat_map(|a| a.recs.clone()).take(40).collect();
        let solo = Scenario {
            objs: vec![ObjPlan { start: 0, attempts: vec![a], free_open: o.free_open && j + 1 == o.attempts.len(), close_first: false }],
            nest: vec![],
            threads: vec![],
        };
        match twin_world(&solo, Options { trace, prev: Some(prev) }) {
            Ok(t) => {
                let strip = |a: &Att| Att { live: 0, ..a.clone() };
                let (x, y) = (strip(&r.objs[0][j]), strip(&t.objs[0][0]));
                twin_trace(&mut r, &t, trace);
                if x != y {
                    let m = diff(&x, &y, "on this object", "on a new one");
                    r.violate("TwinReuse", 0, j, m);
                }
            }
            Err(d) => died(&mut r, d, "on a new object: "),
        }
    }
    r.objs.clear();
    r
}

fn diff(x: &Att, y: &Att, a: &str, b: &str) -> String {
    if x.verdict() != y.verdict() {
        return format!("(return value, error, alert, protocol) {a} {:?}, {b} {:?}", x.verdict(), y.verdict());
    }
    if x.out != y.out {
        let k = x.out.iter().zip(&y.out).position(|(p, q)| p != q).unwrap_or(x.out.len().min(y.out.len()));
        return format!("{} bytes written {a}, {} {b}; different from byte {k} on", x.out.len(), y.out.len());
    }
    if x.closes != y.closes {
        return format!("close_fn called {} times {a}, {} {b}", x.closes, y.closes);
    }
    if x.draws != y.draws {
        return format!("{} random draws {a}, {} {b}", x.draws.len(), y.draws.len());
    }
    if x.calls != y.calls {
        let k = x.calls.iter().zip(&y.calls).position(|(p, q)| p != q).unwrap_or(x.calls.len().min(y.calls.len()));
        return format!("call {k} {a}: {:?}, {b}: {:?}", x.calls.get(k), y.calls.get(k));
    }
    format!("ends as {} {a}, {} {b}", x.cause, y.cause)
}

fn solo(sc: &Scenario, opt: Options) -> Report {
    let trace = opt.trace;
    let mut r = match world(sc, opt) {
        Ok(r) => r,
        Err(d) => {
            let mut r = Report::default();
            died(&mut r, d, "");
            return r;
        }
    };
    for (i, o) in sc.objs.iter().enumerate() {
        let one = Scenario { objs: vec![o.clone()], nest: vec![], threads: vec![] };
        match twin_world(&one, Options { trace, prev: None }) {
            Ok(t) => {
                let (x, y) = (r.objs[i].clone(), t.objs[0].clone());
                twin_trace(&mut r, &t, trace);
                if x.len() != y.len() {
                    r.violate("TwinSolo", i, 0, format!("{} attempts among others, {} alone", x.len(), y.len()));
                }
                for (j, (x, y)) in x.iter().zip(&y).enumerate() {
                    if x != y {
                        r.violate("TwinSolo", i, j, diff(x, y, "among others", "alone"));
                        break;
                    }
                }
            }
            Err(d) => died(&mut r, d, "alone: "),
        }
    }
    r.objs.clear();
    r
}

fn growth(s: &mut Source, mut sc: Scenario, opt: Options) -> Report {
    let n = s.range(5, 24);
    let o = &mut sc.objs[0];
    let mut a = o.attempts[0].clone();
    a.net.mitm.retain(|m| !matches!(m, Mitm::Forge { how: 3, .. }));
    a.cfg.keep = false;
    o.attempts = vec![a; n];
    let mut r = Report::of(run(&sc, opt));
    // the last attempt may have been given up halfway
    let mut l: Vec<i64> = r.objs[0].iter().map(|a| a.live).collect();
    l.pop();
    if l.len() >= 4 {
        let h = l.len() / 2;
        let (x, y) = (*l[..h].iter().max().unwrap(), *l[h..].iter().max().unwrap());
        if y > x {
            r.violate("MemGrowth", 0, l.len() - 1, format!("memory held after each of {} equal attempts: {l:?}", l.len()));
        }
    }
    r.probe("equal attempts on one object", l.len() as u64);
    r.objs.clear();
    r
}

fn rng(s: &mut Source, mut sc: Scenario, opt: Options) -> Report {
    let trace = opt.trace;
    let mode = s.weighted(&[5, 3, 2, 1]);
    if mode >= 2 {
        // many attempts that go no further than the ClientHello
        let o = &mut sc.objs[0];
        let mut a = o.attempts[0].clone();
        a.app = AppPlan { close_after_calls: Some(1), ..AppPlan::plain() };
        a.writes = Io::clean();
        a.cfg = Cfg { sni: None, sig_algs: 1, groups: 1, suites: 3, alpn: None, alpn_odd: 0, keep: false };
        a.server.pre.clear();
        let fresh = |s: &mut Source| Tape { draws: vec![Draw::Full(s.seed()), Draw::Full(s.seed())], seed: s.seed(), flip: None };
        if mode == 3 {
            // the same numbers but for one bit, another one each time
            a.tape = fresh(s);
            let first = s.below(512);
            o.attempts = vec![a.clone(); 24];
            for (k, b) in o.attempts[1..].iter_mut().enumerate() {
                let bit = (first + k) % 512;
                b.tape.flip = Some((bit / 256, bit / 8 % 32, 1 << (bit % 8)));
            }
        } else {
            o.attempts = vec![a; 8];
            for b in &mut o.attempts {
                b.tape = fresh(s);
            }
        }
    }
    let mut r = match world(&sc, opt) {
        Ok(r) => r,
        Err(d) => {
            let mut r = Report::default();
            died(&mut r, d, "");
            return r;
        }
    };
    let atts = r.objs[0].clone();
    if mode == 3 {
        for (j, a) in atts.iter().enumerate() {
            for (k, b) in atts[..j].iter().enumerate() {
                if !a.random.is_empty() && a.draws != b.draws && a.random == b.random && a.share == b.share {
                    let what = (sc.objs[0].attempts[k].tape.flip, sc.objs[0].attempts[j].tape.flip);
                    r.violate("TwinRng", 0, j, format!("(draw, byte, xor) {what:?} lead to the same hello random and key share"));
                }
            }
        }
        r.probe("one bit of the random numbers changed at a time", 1);
        r.objs.clear();
        return r;
    }
    for (j, a) in atts.iter().enumerate() {
        if !a.random.is_empty() && a.draws.is_empty() {
            r.violate("TwinRng", 0, j, "a ClientHello was made without any random numbers".into());
        }
        for (k, b) in atts[..j].iter().enumerate() {
            // edge values may name the same key: k and k + n
            let edge = [j, k].iter().any(|x| sc.objs[0].attempts[*x].tape.draws.iter().any(|d| matches!(d, Draw::Edge(_) | Draw::Pattern(_))));
            let apart = !edge && a.draws.iter().all(|d| d.len() >= 16 && !b.draws.contains(d));
            if !apart || a.random.is_empty() || b.random.is_empty() {
                continue;
            }
            if a.random == b.random {
                r.violate("TwinRng", 0, j, format!("same hello random as attempt {k} from other random numbers"));
            }
            if a.share == b.share {
                r.violate("TwinRng", 0, j, format!("same key share as attempt {k} from other random numbers"));
            }
        }
    }
    if mode == 2 {
        let full: Vec<&Att> = atts.iter().filter(|a| a.random.len() == 32 && a.share.len() == 65).collect();
        if full.len() >= 8 {
            for b in 0..32 {
                if full.iter().all(|a| a.random[b] == full[0].random[b]) {
                    r.violate("TwinRng", 0, 7, format!("byte {b} of the hello random is the same in 8 attempts"));
                }
            }
            for b in 1..65 {
                if full.iter().all(|a| a.share[b] == full[0].share[b]) {
                    r.violate("TwinRng", 0, 7, format!("byte {b} of the key share is the same in 8 attempts"));
                }
            }
            r.probe("eight hellos compared byte by byte", 1);
        }
        r.objs.clear();
        return r;
    }
    // one attempt again with other random numbers
    let j = s.below(atts.len());
    let a = &atts[j];
    if a.random.is_empty() || a.share.is_empty() || a.draw_failed {
        r.objs.clear();
        return r;
    }
    let mut t = sc.clone();
    t.threads.clear();
    let ta = &mut t.objs[0].attempts[j];
    let all = mode == 1;
    if all {
        ta.tape = Tape { draws: vec![Draw::Full(s.seed()), Draw::Full(s.seed())], seed: s.seed(), flip: None };
    } else {
        let d = s.below(a.draws.len().max(1));
        let b = s.below(a.draws.get(d).map(|x| x.len()).unwrap_or(0).max(1));
        ta.tape.flip = Some((d, b, 1 << s.below(8)));
        // the same again as a whole byte
        if s.pct(50) {
            ta.tape.flip = Some((d, b, s.byte().max(1)));
        }
    }
    let flip = ta.tape.flip;
    match twin_world(&t, Options { trace, prev: None }) {
        Ok(t) => {
            let b = t.objs[0].get(j).cloned().unwrap_or_default();
            twin_trace(&mut r, &t, trace);
            if !b.random.is_empty() {
                let distinct = a.draws.iter().all(|d| !b.draws.contains(d));
                if all && distinct {
                    if a.random == b.random {
                        r.violate("TwinRng", 0, j, "the hello random does not depend on the random source".into());
                    }
                    if a.share == b.share {
                        r.violate("TwinRng", 0, j, "the key share does not depend on the random source".into());
                    }
                }
                if !all && a.draws != b.draws && a.random == b.random && a.share == b.share {
                    r.violate("TwinRng", 0, j, format!("(draw, byte, xor) {flip:?} changes neither hello random nor key share"));
                }
            }
        }
        Err(d) => died(&mut r, d, "with other random numbers: "),
    }
    r.objs.clear();
    r
}
