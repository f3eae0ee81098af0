//! Scenarios: everything that happens in a run, decided up front from the choice list.

use crate::source::{expand, Source};

// ------------------------------------------------------------------ structures

#[derive(Clone, Debug)]
pub struct Scenario {
    pub objs: Vec<ObjPlan>,
    /// For each I/O callback in turn: process this many events of other objects inside it.
    pub nest: Vec<u8>,
    /// Which thread makes each library call, in turn and over again; empty: always the same one.
    pub threads: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct ObjPlan {
    pub start: u64,
    pub attempts: Vec<Attempt>,
    /// Free without closing first when the last attempt is still in progress.
    pub free_open: bool,
    /// turtls_close before any attempt was made.
    pub close_first: bool,
}

#[derive(Clone, Debug)]
pub struct Attempt {
    pub cfg: Cfg,
    pub tape: Tape,
    pub server: ServerPlan,
    pub net: NetPlan,
    pub reads: Io,
    pub writes: Io,
    pub app: AppPlan,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Cfg {
    pub sni: Option<Vec<u8>>,
    pub sig_algs: u16,
    pub groups: u16,
    pub suites: u8,
    pub alpn: Option<Vec<Vec<u8>>>,
    /// app_protos pointer set but length 0 (unset), or the other way round
    pub alpn_odd: u8,
    /// keep whatever the object is configured with (defaults on a fresh object)
    pub keep: bool,
}

#[derive(Clone, Debug)]
pub enum Draw {
    Full(u32),
    /// little-endian small number: cheap scalar
    Small(u32),
    Edge(u8),
    /// a number of carry-provoking limbs, never a multiple of the group order
    Pattern(u32),
    Fail,
}

#[derive(Clone, Debug)]
pub struct Tape {
    pub draws: Vec<Draw>,
    pub seed: u32,
    pub flip: Option<(usize, usize, u8)>,
}

#[derive(Clone, Debug)]
pub enum KeySel {
    Small(u32),
    Full(u32),
    OwnXZero(u32),
    OwnYZero(u32),
    SharedZero(u32),
    ClientPoint,
    ClientNegPoint,
    /// a point of this x coordinate (or the next one on the curve); its logarithm is unknown
    EdgePoint(u32),
    /// the point that makes the shared secret this x coordinate
    EdgeShared(u32),
}

#[derive(Clone, Debug)]
pub enum ShMut {
    Version(u16),
    Random(u8),
    Sid(u8, bool),
    Suite(u16),
    Compression(u8),
    NoVersions,
    VersionVal(u16),
    VersionLen(u8),
    NoKeyShare,
    KsGroup(u16),
    KsForm(u8),
    KsPoint(u8),
    KsLenField(u8),
    KsTrunc(u8),
    KsExtra(u8),
    KsHrrForm,
    Struct(u8, u16, u8),
    DupVersions,
    DupKeyShare(bool),
    ExtraExt(u16, u8),
    ExtLen(u8),
    ExtBlockLen(u8),
    /// no extensions block, but so many bytes
    NoExtBlock(u8),
    MsgTrunc(u16),
    MsgExtend(u8),
    HdrLen(u32),
    MsgType(u8),
    Flip(u16),
}

#[derive(Clone, Debug)]
pub enum EeMut {
    Unknown(u16, u8),
    AlpnUnoffered(u8),
    AlpnMalformed(u8),
    Dup(u8),
    Sni(u8),
    BlockLen(u8),
    ExtLen(u8),
    Trunc(u8),
    Extend(u8),
    HdrLen(u32),
    MsgType(u8),
    Flip(u16),
    /// how, which length field, how much
    Struct(u8, u16, u8),
}

#[derive(Clone, Debug)]
pub struct EePlan {
    pub sni_ack: bool,
    pub groups: u8,
    pub alpn: Option<u8>,
    pub order: u8,
    pub muts: Vec<EeMut>,
}

#[derive(Clone, Debug)]
pub struct CertSpec {
    pub seed: u32,
    /// total DER size to aim for (0: natural)
    pub size: u32,
    pub r_len: u8,
    pub s_len: u8,
    pub flags: u16,
}

#[derive(Clone, Debug)]
pub enum CertMut {
    ExtsLen(u8),
    ListLen(u8),
    EntryLen(u8),
    EmptyList,
    EmptyEntry,
    Ctx(u8),
    DerFlip(u16),
    DerTrunc(u16),
    DerByte(u16, u8),
    Garbage(u16),
    Trunc(u16),
    Extend(u8),
    HdrLen(u32),
    MsgType(u8),
    SigAlg(u8),
    VersionByte(u8),
    SigShape(u8),
    EntryExts(u8),
    Struct(u8, u16, u8),
}

#[derive(Clone, Debug)]
pub struct CertPlan {
    pub chain: Vec<CertSpec>,
    /// make the whole Certificate message body exactly this long (0: natural)
    pub body: u32,
    pub muts: Vec<CertMut>,
}

#[derive(Clone, Debug)]
pub enum FlowMut {
    Skip(u8),
    Dup(u8),
    Swap(u8, u8),
    Insert(u8, u8, u16),
    InsertReal(u8, u8),
    SpanKeys(u8),
}

#[derive(Clone, Debug)]
pub enum Frag {
    Whole,
    PerMsg,
    Fixed(u16),
    /// this many records of a single byte, then as few as possible
    Storm(u32),
    Cuts(Vec<u16>),
}

#[derive(Clone, Debug)]
pub enum InjKind {
    Ccs,
    CcsBad(u8),
    Alert(u8, u8),
    AlertBad(u8),
    AppData(u16),
    Unknown(u8, u16),
    Empty(u8),
    Handshake(u8, u16),
    /// protected only: inner plaintext of zeros
    AllZero(u16),
    /// type 23 record with this many bytes of nonsense
    Short(u8),
    /// header announcing this many bytes
    Oversize(u16),
    /// protected record with content of this many bytes of the right type (too long)
    BigContent(u16),
}

#[derive(Clone, Debug)]
pub struct Inj {
    pub at: u16,
    pub prot: bool,
    pub kind: InjKind,
}

#[derive(Clone, Debug)]
pub struct ServerPlan {
    pub seed: u32,
    pub key: KeySel,
    pub suite: u8,
    pub sh: Vec<ShMut>,
    pub sh_order: bool,
    pub ee: EePlan,
    pub cert: CertPlan,
    pub flow: Vec<FlowMut>,
    pub frag1: Frag,
    pub frag2: Frag,
    pub pads: Vec<u16>,
    pub inj1: Vec<Inj>,
    pub inj2: Vec<Inj>,
    pub pre: Vec<Inj>,
    pub ccs: bool,
    pub rec_ver: u8,
    /// pure noise instead of a server
    pub noise: Option<(u32, u16)>,
}

#[derive(Clone, Debug)]
pub enum Mitm {
    Flip { rec: u16, bit: u32 },
    /// changes that keep sums, parities or parts of the tag: i and j count from the end of the record
    Tag { rec: u16, how: u8, i: u8, j: u8, x: u8 },
    /// shorten the record's payload by n bytes and fix the header
    Shrink { rec: u16, n: u16 },
    Grow { rec: u16, n: u16 },
    /// remove raw bytes without fixing the header
    Cut { rec: u16, n: u16 },
    Drop { rec: u16 },
    Dup { rec: u16, dist: u8 },
    Swap { a: u16, dist: u8 },
    Inject { at: u16, kind: InjKind },
    /// a protected-looking record: 0 random bytes, 1 sealed with client keys, 2 sealed with keys of
    /// another handshake, 3 record of an earlier attempt on this object, 4 right keys wrong sequence
    /// number, 5 right keys but other associated data
    Forge { at: u16, how: u8, inner: u8, n: u16 },
    Retype { rec: u16, ty: u8 },
    Reversion { rec: u16, v: u16 },
    /// split one record in two without re-encrypting
    Split { rec: u16, n: u16 },
    Join { rec: u16 },
    /// what the server receives as ClientHello: 0 random flipped, 1 suites changed, 2 key share replaced,
    /// 3 ALPN removed/changed, 4 session id added
    TamperCh { how: u8, x: u8 },
    /// ServerHello in flight: 0 random byte flipped, 1 suite swapped, 2 key share replaced
    TamperSh { how: u8, x: u8 },
}

#[derive(Clone, Debug)]
pub struct NetPlan {
    pub latency: u32,
    /// (delay, bytes) of each delivered segment; the rest arrives at once after them
    pub segs: Vec<(u32, u32)>,
    pub mitm: Vec<Mitm>,
    /// bytes after this offset never arrive: (from record boundary, offset)
    pub stall: Option<(u16, u32)>,
}

#[derive(Clone, Debug)]
pub enum IoOp {
    Cap(u32),
    Refuse(i8),
}

#[derive(Clone, Debug)]
pub struct Io {
    pub ops: Vec<IoOp>,
    /// after the ops: at most this many bytes per call (0: no limit)
    pub cap: u32,
    /// after the ops: refuse every n-th call (0: never)
    pub every: u32,
    /// after the ops: refuse for ever
    pub dead: bool,
}

impl Io {
    pub fn clean() -> Io {
        Io { ops: vec![], cap: 0, every: 0, dead: false }
    }
}

#[derive(Clone, Debug)]
pub struct AppPlan {
    /// additional turtls_connect calls at these times
    pub polls: Vec<u32>,
    pub close_after_calls: Option<u16>,
    pub close_at: Option<u32>,
    pub extra_closes: u8,
    /// configure the object for something else after that many calls
    pub reconf: Option<(u16, Box<Cfg>)>,
}

impl AppPlan {
    pub fn plain() -> AppPlan {
        AppPlan { polls: vec![], close_after_calls: None, close_at: None, extra_closes: 0, reconf: None }
    }
}

// ------------------------------------------------------------------ generation

/// How likely each dimension of a scenario is varied (percent).
#[derive(Clone, Copy, Debug)]
pub struct Profile {
    pub objs: usize,
    pub attempts: usize,
    pub nest: u32,
    pub read_faults: u32,
    pub write_faults: u32,
    pub write_dead: u32,
    pub seg: u32,
    pub cfg: u32,
    pub big_cfg: u32,
    pub bad_cfg: u32,
    pub rng_fault: u32,
    pub full_keys: u32,
    pub sh_mut: u32,
    pub ee_mut: u32,
    pub cert_mut: u32,
    pub flow_mut: u32,
    pub inj: u32,
    pub pre: u32,
    pub alert: u32,
    pub noise: u32,
    pub mitm: u32,
    pub frag: u32,
    pub big: u32,
    pub stall: u32,
    pub close: u32,
    pub extra_close: u32,
    pub polls: u32,
    pub free_open: u32,
    /// use many records (more than 256) sometimes
    pub many_records: u32,
    /// the application changes the configuration during an attempt
    pub reconf: u32,
}

impl Profile {
    /// Legal server, perfect transport, patient application.
    pub const CALM: Profile = Profile {
        objs: 1,
        attempts: 1,
        nest: 0,
        read_faults: 0,
        write_faults: 0,
        write_dead: 0,
        seg: 0,
        cfg: 0,
        big_cfg: 0,
        bad_cfg: 0,
        rng_fault: 0,
        full_keys: 15,
        sh_mut: 0,
        ee_mut: 0,
        cert_mut: 0,
        flow_mut: 0,
        inj: 0,
        pre: 0,
        alert: 0,
        noise: 0,
        mitm: 0,
        frag: 50,
        big: 10,
        stall: 0,
        close: 0,
        extra_close: 0,
        polls: 0,
        free_open: 0,
        many_records: 1,
        reconf: 0,
    };
    /// A bit of everything.
    pub const MIXED: Profile = Profile {
        objs: 1,
        attempts: 2,
        nest: 0,
        read_faults: 40,
        write_faults: 25,
        write_dead: 3,
        seg: 40,
        cfg: 50,
        big_cfg: 5,
        bad_cfg: 5,
        rng_fault: 4,
        full_keys: 15,
        sh_mut: 12,
        ee_mut: 8,
        cert_mut: 12,
        flow_mut: 8,
        inj: 12,
        pre: 4,
        alert: 8,
        noise: 3,
        mitm: 15,
        frag: 60,
        big: 8,
        stall: 8,
        close: 10,
        extra_close: 15,
        polls: 15,
        free_open: 10,
        many_records: 1,
        reconf: 8,
    };
}

pub const ALERT_CODES: [u8; 27] = [
    0, 10, 20, 22, 40, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 70, 71, 80, 86, 90, 109, 110, 112, 113, 115,
    116, 120,
];

pub fn scenario(s: &mut Source, p: &Profile) -> Scenario {
    let n = if p.objs > 1 { s.range(2, p.objs) } else { 1 };
    let mut objs = vec![];
    for i in 0..n {
        objs.push(obj(s, p, i));
    }
    let nest = if n > 1 && s.pct(p.nest) {
        let k = s.scale(60);
        (0..k).map(|_| s.weighted(&[5, 3, 1, 1]) as u8).collect()
    } else {
        vec![]
    };
    let threads = if s.pct(12) {
        let k = s.range(2, 9);
        (0..k).map(|_| s.below(crate::threads::THREADS + 1) as u8).collect()
    } else {
        vec![]
    };
    Scenario { objs, nest, threads }
}

pub fn obj(s: &mut Source, p: &Profile, _i: usize) -> ObjPlan {
    let n = if p.attempts > 1 { s.range(1, p.attempts) } else { 1 };
    let attempts = (0..n).map(|_| attempt(s, p)).collect();
    ObjPlan {
        // Some objects are made after others were freed.
        start: if p.objs > 1 && s.pct(25) { s.scale(400_000) } else { s.scale(3000) } as u64,
        attempts,
        free_open: s.pct(p.free_open),
        close_first: s.pct(p.extra_close / 2),
    }
}

pub fn attempt(s: &mut Source, p: &Profile) -> Attempt {
    let cfg = cfg(s, p);
    let tape = tape(s, p);
    let server = server(s, p, &cfg);
    let net = net(s, p);
    let mut reads = read_plan(s, p.read_faults);
    let writes = write_plan(s, p.write_faults, p.write_dead);
    let app = app(s, p);
    let mut net = net;
    if matches!(server.frag2, Frag::Storm(_)) {
        // enough work as it is
        reads = Io::clean();
        net.segs.clear();
    }
    Attempt { cfg, tape, server, net, reads, writes, app }
}

fn name_bytes(seed: u32, n: usize) -> Vec<u8> {
    expand(seed, n).iter().map(|b| b"abcdefghijklmnopqrstuvwxyz0123456789-."[*b as usize % 38]).collect()
}

const COMMON_NAMES: [&[u8]; 14] = [
    b"localhost", b"example.com", b"example.com.", b"www.EXAMPLE.com", b"*.example.com", b".", b"..", b"-", b"127.0.0.1",
    b"::1", b"[::1]", b"xn--bcher-kva.example", b"a.b.c.d.e.f", b" example.com",
];
const COMMON_PROTOS: [&[u8]; 16] = [
    b"h2", b"http/1.1", b"http/1.0", b"http/0.9", b"h3", b"h2c", b"H2", b"acme-tls/1", b"spdy/3", b"dot", b"ftp", b"imap",
    b"\x0a\x0a", b"\xfa\xfa", b"h", b"postgresql",
];

pub fn cfg(s: &mut Source, p: &Profile) -> Cfg {
    let mut c = Cfg { sni: None, sig_algs: 1, groups: 1, suites: 3, alpn: None, alpn_odd: 0, keep: false };
    if !s.pct(p.cfg) {
        c.keep = s.pct(20);
        return c;
    }
    match s.weighted(&[3, 6, 2, 1, 2]) {
        0 => {}
        1 => c.sni = Some(name_bytes(s.seed(), s.range(1, 40))),
        4 => c.sni = Some(s.pick(&COMMON_NAMES).to_vec()),
        2 => c.sni = Some(name_bytes(s.seed(), s.pick(&[1, 2, 63, 64, 255, 256, 257]))),
        _ => {
            // any bytes except nul
            let n = s.range(1, 60);
            c.sni = Some(expand(s.seed(), n).iter().map(|b| (*b).max(1)).collect())
        }
    }
    match s.weighted(&[4, 4, 2, 1, 2, 1]) {
        0 => {}
        4 => {
            let k = s.range(1, 5);
            c.alpn = Some((0..k).map(|_| s.pick(&COMMON_PROTOS).to_vec()).collect())
        }
        5 => {
            // any bytes except nul
            let k = s.range(1, 4);
            c.alpn = Some(
                (0..k)
                    .map(|_| {
                        let n = s.pick(&[1, 2, 3, 8, 32, 255]);
                        expand(s.seed(), n).iter().map(|b| (*b).max(1)).collect()
                    })
                    .collect(),
            )
        }
        1 => {
            let k = s.range(1, 4);
            c.alpn = Some((0..k).map(|_| name_bytes(s.seed(), s.range(1, 12))).collect())
        }
        2 => {
            let k = s.range(1, 12);
            c.alpn = Some((0..k).map(|_| name_bytes(s.seed(), s.pick(&[1, 2, 8, 100, 254, 255]))).collect())
        }
        _ => {
            // names that are prefixes of each other
            let base = name_bytes(s.seed(), 40);
            let k = s.range(1, 6);
            c.alpn = Some((0..k).map(|_| base[..s.range(1, 40)].to_vec()).collect())
        }
    }
    if let Some(a) = &mut c.alpn {
        let mut seen: Vec<Vec<u8>> = vec![];
        a.retain(|x| if seen.contains(x) { false } else { seen.push(x.clone()); true });
    } else {
        c.alpn_odd = s.weighted(&[6, 1, 1]) as u8;
    }
    c.suites = match s.weighted(&[6, 3, 3, 1]) {
        0 => 3,
        1 => 1,
        2 => 2,
        _ => 3,
    };
    if s.pct(10) {
        c.suites |= (s.byte() & 0xfc) as u8;
    }
    if s.pct(10) {
        c.groups |= (1u16 << s.range(1, 15)) | if s.pct(50) { 0x8000 } else { 0 };
    }
    if s.pct(10) {
        c.sig_algs |= (1u16 << s.range(1, 15)) | if s.pct(50) { 0x4000 } else { 0 };
    }
    if s.pct(p.bad_cfg) {
        match s.below(9) {
            7 => {
                // around the largest name that fits, and around the 16-bit limits of inner lengths
                let n = s.pick(&[65428usize, 65429, 65430, 65526, 65530, 65531, 65535, 65536, 65600, 131_072, 70_000]);
                c.sni = Some(name_bytes(s.seed(), n));
            }
            8 => {
                let seed = s.seed();
                let total = s.pick(&[65431usize, 65432, 65433, 65532, 65533, 65534, 65535, 65536, 66000, 131_071, 131_080]);
                let total = if s.pct(50) { total } else { total - 9 - c.sni.as_ref().map_or(0, |n| n.len()) };
                let mut l: Vec<Vec<u8>> = vec![];
                let mut left = total;
                while left > 1 {
                    let k = if left > 300 { 255 } else { (left - 1).min(if left < 258 { 255 } else { 200 }) };
                    let mut v = name_bytes(seed.wrapping_add(l.len() as u32), k);
                    let i = l.len();
                    if v.len() > 2 {
                        [v[0], v[1], v[2]] = [b'A' + (i % 26) as u8, b'A' + (i / 26 % 26) as u8, b'A' + (i / 676) as u8];
                    }
                    left -= 1 + v.len();
                    l.push(v);
                }
                c.alpn = Some(l);
                c.alpn_odd = 0;
            }
            0 => c.suites = 0,
            1 => c.groups = 0,
            2 => c.sig_algs = 0,
            3 => c.suites &= 0xfc,
            4 => c.groups &= !1,
            5 => c.sig_algs &= !1,
            _ => c.sni = Some(vec![]),
        }
    }
    if s.pct(p.big_cfg) {
        // sizes around record and buffer boundaries
        match s.below(4) {
            3 => {
                // some element of the ClientHello begins or ends at the boundary
                let b = s.pick(&[0x4000usize, 0x8000, 0xc000, 0x10000, 512, 1024, 2048, 4096, 8192]);
                let d = if s.pct(50) { s.range(0, 6) } else { s.range(0, 116) };
                let rest = 4 + 2 + 32 + 1 + 2 + 2 * (c.suites & 3).count_ones() as usize + 2 + 2 + 9 + 8 + 7 + 8 + 75;
                c.alpn = None;
                c.sni = Some(name_bytes(s.seed(), (b + d - 3 - rest).min(65428)));
            }
            0 => {
                let n = match s.below(6) {
                    0 => s.range(16200, 16384),
                    1 => s.range(16385, 16500),
                    2 => s.range(32500, 33000),
                    3 => s.range(60000, 65000),
                    4 => s.range(49000, 49400),
                    _ => s.range(300, 16000),
                };
                c.sni = Some(name_bytes(s.seed(), n));
            }
            1 => {
                let k = match s.below(3) {
                    0 => s.range(60, 68),
                    1 => s.range(120, 200),
                    _ => s.range(10, 60),
                };
                let seed = s.seed();
                let len = s.pick(&[255usize, 254, 200]);
                c.alpn = Some(
                    (0..k).map(|i| { let mut v = name_bytes(seed.wrapping_add(i as u32), len); v[0] = b'A' + (i % 26) as u8; v[1] = b'A' + (i / 26) as u8; v }).collect(),
                );
                c.alpn_odd = 0;
            }
            _ => {
                let n = s.range(12000, 20000);
                c.sni = Some(name_bytes(s.seed(), n));
                let seed = s.seed();
                let k = s.range(1, 100);
                c.alpn = Some((0..k).map(|i| { let mut v = name_bytes(seed.wrapping_add(i as u32), 200); v[0] = b'A' + (i % 26) as u8; v[1] = b'A' + (i / 26) as u8; v }).collect());
                c.alpn_odd = 0;
            }
        }
    }
    // what does not fit the 16-bit length of the extensions is refused
    if crate::check::too_long(&c) && !s.pct(p.bad_cfg.max(2) * 4) {
        c.alpn = None;
    }
    c
}

pub fn small_draw(s: &mut Source) -> Draw {
    Draw::Small(match s.weighted(&[3, 3, 1]) {
        0 => s.range(2, 4000) as u32,
        1 => s.range(1, 16) as u32,
        _ => s.range(1, 60000) as u32,
    })
}

pub fn tape(s: &mut Source, p: &Profile) -> Tape {
    let key = if !s.pct(p.full_keys) {
        small_draw(s)
    } else if s.pct(70) {
        Draw::Full(s.seed())
    } else {
        Draw::Pattern(s.seed())
    };
    let mut draws = vec![key];
    if s.pct(5) {
        draws.push(Draw::Edge(s.below(EDGES.len()) as u8));
    } else {
        draws.push(Draw::Full(s.seed()));
    }
    if s.pct(p.rng_fault) {
        match s.below(4) {
            0 => draws[0] = Draw::Fail,
            1 => draws[1] = Draw::Fail,
            _ => draws[0] = Draw::Edge(s.below(EDGES.len()) as u8),
        }
    }
    Tape { draws, seed: s.seed(), flip: None }
}

/// Edge values as 32 bytes, in both byte orders.
pub const EDGES: [(&str, bool); 12] = [
    ("0", false),
    ("n", false),
    ("n", true),
    ("n-1", false),
    ("n+1", false),
    ("n-1", true),
    ("p", false),
    ("ff", false),
    ("1", false),
    ("1", true),
    ("n-2", false),
    ("2n-like", false),
];

fn io_ops(s: &mut Source, n: usize) -> Vec<IoOp> {
    (0..n)
        .map(|_| match s.weighted(&[4, 3, 3]) {
            0 => IoOp::Cap(s.range(1, 8) as u32),
            1 => IoOp::Refuse(s.pick(&[-1i8, 0, -1, -128])),
            _ => IoOp::Cap(s.scale(20000).max(1) as u32),
        })
        .collect()
}

pub fn read_plan(s: &mut Source, pct: u32) -> Io {
    if !s.pct(pct) {
        return Io::clean();
    }
    match s.weighted(&[5, 3, 2, 2, 1]) {
        0 => {
            let n = s.scale(40);
            Io { ops: io_ops(s, n), cap: 0, every: 0, dead: false }
        }
        1 => {
            let n = s.scale(20);
            let ops = io_ops(s, n);
            Io { ops, cap: s.pick(&[1, 2, 3, 4, 5, 7, 16, 100, 1000]), every: s.pick(&[0, 2, 3, 5]), dead: false }
        }
        // one byte, one refusal, one byte, ...
        2 => Io { ops: vec![], cap: 1, every: 2, dead: false },
        3 => Io { ops: vec![], cap: s.scale(5000) as u32, every: s.range(2, 6) as u32, dead: false },
        _ => {
            let n = s.scale(30);
            Io { ops: io_ops(s, n), cap: 0, every: 0, dead: s.pct(30) }
        }
    }
}

pub fn write_plan(s: &mut Source, pct: u32, dead: u32) -> Io {
    let mut io = Io::clean();
    if s.pct(pct) {
        io = match s.weighted(&[5, 2, 2, 2, 2]) {
            4 => {
                // whole records, then refusals
                let n = s.range(1, 4);
                let mut ops = vec![IoOp::Cap(1 << 20); n];
                ops.resize(n + s.scale(8), IoOp::Refuse(-1));
                Io { ops, cap: 0, every: 0, dead: s.pct(dead * 3) }
            }
            0 => {
                let n = s.scale(20);
                Io { ops: io_ops(s, n), cap: 0, every: 0, dead: false }
            }
            1 => Io { ops: vec![], cap: 1, every: s.pick(&[0, 2, 3]), dead: false },
            2 => Io { ops: vec![], cap: s.scale(20000) as u32, every: s.pick(&[2, 3, 4]), dead: false },
            _ => Io { ops: vec![IoOp::Cap(s.scale(300).max(1) as u32), IoOp::Refuse(-1)], cap: 0, every: 0, dead: false },
        };
    }
    if s.pct(dead) {
        if s.pct(50) {
            io.ops.push(IoOp::Cap(s.scale(400).max(1) as u32));
        }
        io.dead = true;
    }
    io
}

pub fn app(s: &mut Source, p: &Profile) -> AppPlan {
    let mut a = AppPlan::plain();
    if s.pct(p.polls) {
        let n = s.scale(12);
        a.polls = (0..n).map(|_| s.scale(60000) as u32).collect();
    }
    if s.pct(p.close) {
        if s.pct(60) {
            a.close_after_calls = Some(s.scale(20).max(1) as u16);
        } else {
            a.close_at = Some(s.scale(60000) as u32);
        }
    }
    if s.pct(p.extra_close) {
        a.extra_closes = s.range(1, 3) as u8;
    }
    if s.pct(p.reconf) {
        let n = s.scale(6).max(1) as u16;
        let mut c = cfg(s, &Profile { cfg: 100, bad_cfg: p.bad_cfg.max(10), ..*p });
        c.keep = false;
        a.reconf = Some((n, Box::new(c)));
    }
    a
}

pub fn net(s: &mut Source, p: &Profile) -> NetPlan {
    let mut n = NetPlan { latency: s.scale(40000) as u32, segs: vec![], mitm: vec![], stall: None };
    if s.pct(p.seg) {
        let k = s.scale(40);
        let style = s.weighted(&[3, 2, 2, 4]);
        n.segs = (0..k)
            .map(|_| {
                let sz = match style {
                    0 => s.scale(2000),
                    1 => s.range(1, 12),
                    2 => s.scale(20000),
                    // one record at a time
                    _ => return (s.scale(20000) as u32, if s.pct(8) { s.range(1, 6) as u32 } else { 0 }),
                };
                (s.scale(20000) as u32, sz.max(1) as u32)
            })
            .collect();
    }
    if s.pct(p.mitm) {
        let k = s.weighted(&[0, 8, 2, 1]);
        for _ in 0..k {
            n.mitm.push(mitm(s));
        }
    }
    if s.pct(p.stall) {
        n.stall = Some((s.below(12) as u16, s.scale(20000) as u32));
    }
    n
}

pub fn inj_kind(s: &mut Source) -> InjKind {
    match s.weighted(&[3, 3, 2, 2, 2, 2, 2, 3, 2, 2, 3, 1]) {
        0 => InjKind::Ccs,
        1 => InjKind::CcsBad(s.byte()),
        2 => InjKind::Alert(if s.pct(85) { s.pick(&ALERT_CODES) } else { s.byte() }, s.pick(&[2u8, 1, 2, 0, 255])),
        3 => InjKind::AlertBad(s.pick(&[1u8, 3, 0, 4, 5, 100])),
        4 => InjKind::AppData(s.scale(300) as u16),
        5 => InjKind::Unknown(s.pick(&[24u8, 0, 19, 25, 99, 255, 128]), s.scale(300) as u16),
        6 => InjKind::Empty(s.pick(&[22u8, 21, 23, 20, 22])),
        7 => InjKind::Handshake(s.pick(&[0u8, 1, 2, 4, 8, 11, 13, 15, 20, 24, 254, 255]), s.scale(400) as u16),
        8 => InjKind::AllZero(s.pick(&[1u16, 2, 17, 100, 1])),
        9 => InjKind::Short(s.range(0, 18) as u8),
        10 => InjKind::Oversize(s.pick(&[
            16385u16, 16640, 16641, 16642, 16644, 16645, 16646, 16650, 17000, 0x8000, 0xffff, 16401, 16384, 16386, 16390,
        ])),
        _ => InjKind::BigContent(s.pick(&[16385u16, 16386, 16400, 16500, 16623])),
    }
}

pub fn mitm(s: &mut Source) -> Mitm {
    let rec = |s: &mut Source| s.scale(12) as u16;
    match s.weighted(&[8, 2, 2, 1, 3, 3, 3, 4, 5, 2, 2, 2, 1, 3, 3, 5]) {
        0 => Mitm::Flip { rec: rec(s), bit: s.scale(160000) as u32 },
        1 => Mitm::Shrink { rec: rec(s), n: s.scale(40).max(1) as u16 },
        2 => Mitm::Grow { rec: rec(s), n: s.scale(40).max(1) as u16 },
        3 => Mitm::Cut { rec: rec(s), n: s.scale(40).max(1) as u16 },
        4 => Mitm::Drop { rec: rec(s) },
        5 => Mitm::Dup { rec: rec(s), dist: s.scale(4) as u8 },
        6 => Mitm::Swap { a: rec(s), dist: s.range(1, 4) as u8 },
        7 => Mitm::Inject { at: rec(s), kind: inj_kind(s) },
        8 => Mitm::Forge { at: rec(s), how: s.below(6) as u8, inner: s.pick(&[22u8, 21, 23, 20]), n: s.scale(300) as u16 },
        9 => Mitm::Retype { rec: rec(s), ty: s.pick(&[20u8, 21, 22, 23, 24, 0]) },
        10 => Mitm::Reversion { rec: rec(s), v: s.pick(&[0x0301u16, 0x0302, 0x0304, 0x0300, 0, 0xffff]) },
        11 => Mitm::Split { rec: rec(s), n: s.scale(400).max(1) as u16 },
        12 => Mitm::Join { rec: rec(s) },
        13 => Mitm::TamperCh { how: s.below(5) as u8, x: s.byte() },
        14 => Mitm::TamperSh { how: s.below(3) as u8, x: s.byte() },
        _ => {
            let how = s.below(11) as u8;
            let place = |s: &mut Source| if s.pct(70) { s.below(16) as u8 } else { s.byte() };
            let (i, j) = (place(s), place(s));
            Mitm::Tag { rec: rec(s), how, i, j, x: if s.pct(50) { 1 << s.below(8) } else { s.byte() } }
        }
    }
}

pub fn frag(s: &mut Source, pct: u32) -> Frag {
    if !s.pct(pct) {
        return Frag::Whole;
    }
    match s.weighted(&[2, 3, 4]) {
        0 => Frag::PerMsg,
        1 => Frag::Fixed(s.pick(&[1u16, 2, 3, 4, 5, 15, 16, 17, 31, 32, 64, 100, 1000, 4096, 16383, 16384])),
        _ => {
            let n = s.scale(24);
            Frag::Cuts(
                (0..n)
                    .map(|_| match s.weighted(&[4, 3, 1]) {
                        0 => s.range(1, 6) as u16,
                        1 => s.scale(600).max(1) as u16,
                        _ => s.scale(16384).max(1) as u16,
                    })
                    .collect(),
            )
        }
    }
}

fn sh_mut(s: &mut Source) -> ShMut {
    match s.below(37) {
        0 => ShMut::Version(s.pick(&[0x0304u16, 0x0302, 0x0300, 0, 0xffff])),
        1 => ShMut::Random(s.pick(&[0u8, 0, 1, 2, 3, 4, 5])),
        2 => ShMut::Sid(s.pick(&[32u8, 1, 31, 33, 255, 16]), s.pct(50)),
        3 | 34 | 35 | 36 => ShMut::Suite(s.pick(&[0x1302u16, 0x1301, 0x1303, 0x1303, 0x1301, 0x1304, 0x1305, 0x00ff, 0, 0xc02f, 0x1300, 0x0113])),
        4 => ShMut::Compression(s.pick(&[1u8, 64, 255])),
        5 => ShMut::NoVersions,
        6 => ShMut::VersionVal(s.pick(&[0x0303u16, 0x0302, 0x0305, 0x7f1c, 0x0403, 0, 0x0204])),
        7 => ShMut::VersionLen(s.pick(&[0u8, 1, 3, 4])),
        8 => ShMut::NoKeyShare,
        9 => ShMut::KsGroup(s.pick(&[0x18u16, 0x1d, 0x16, 0, 0x0100, 0x1700, 0xffff])),
        10 => ShMut::KsForm(s.pick(&[2u8, 3, 0, 5, 6, 7])),
        11 | 27 | 28 | 29 => ShMut::KsPoint(s.below(10) as u8),
        12 => ShMut::KsLenField(s.byte()),
        13 => ShMut::KsTrunc(s.range(1, 69) as u8),
        14 => ShMut::KsExtra(s.range(1, 40) as u8),
        15 => ShMut::KsHrrForm,
        16 => ShMut::DupVersions,
        17 => ShMut::DupKeyShare(s.pct(50)),
        18 => ShMut::ExtraExt(s.pick(&[0u16, 10, 13, 16, 41, 42, 44, 1, 5, 0x0a0a, 23, 65281, 45, 21]), s.scale(40) as u8),
        19 => ShMut::ExtLen(s.byte()),
        20 => ShMut::ExtBlockLen(s.byte()),
        21 => ShMut::NoExtBlock(s.below(5) as u8),
        22 => ShMut::MsgTrunc(s.scale(122).max(1) as u16),
        23 => ShMut::MsgExtend(s.range(1, 20) as u8),
        24 => ShMut::HdrLen(s.pick(&[0u32, 1, 2, 39, 40, 41, 0x3ffd, 0x4000, 0x20000, 0x20001, 0xffffff, 0x1fffc, 0x1fffd])),
        25 => ShMut::MsgType(s.pick(&[8u8, 11, 1, 0, 4, 6, 13, 15, 20, 24, 254, 255, 14])),
        26 => ShMut::Flip(s.below(130 * 8) as u16),
        _ => structural(s, ShMut::Struct),
    }
}

fn ee_mut(s: &mut Source) -> EeMut {
    match s.below(20) {
        0 => EeMut::Unknown(s.pick(&[51u16, 43, 13, 41, 42, 1, 5, 18, 0x0a0a, 65281, 23, 44, 17, 0x1000, 0xff00]), s.scale(40) as u8),
        1 => EeMut::AlpnUnoffered(s.byte()),
        2 | 13 | 14 => EeMut::AlpnMalformed(s.below(14) as u8),
        3 => EeMut::Dup(s.byte()),
        10 => EeMut::Sni(s.below(4) as u8),
        4 => EeMut::BlockLen(s.byte()),
        5 => EeMut::ExtLen(s.byte()),
        6 => EeMut::Trunc(s.range(1, 8) as u8),
        7 => EeMut::Extend(s.range(1, 8) as u8),
        8 => EeMut::HdrLen(s.pick(&[0u32, 1, 2, 0x4000, 0x20000, 0x20001, 0xffffff, 0x1fffc])),
        9 => EeMut::MsgType(s.pick(&[11u8, 2, 13, 15, 20, 4, 24, 0, 1, 255])),
        11 | 12 => EeMut::Flip(s.below(400) as u16),
        _ => structural(s, EeMut::Struct),
    }
}

/// A change at one of the nested length fields of a message.
fn structural<M>(s: &mut Source, f: fn(u8, u16, u8) -> M) -> M {
    f(s.below(9) as u8, s.below(65536) as u16, s.byte())
}

fn cert_mut(s: &mut Source) -> CertMut {
    match s.below(25) {
        0 => CertMut::ListLen(s.byte()),
        1 => CertMut::EntryLen(s.byte()),
        2 => CertMut::EmptyList,
        3 => CertMut::EmptyEntry,
        4 => CertMut::Ctx(s.pick(&[1u8, 2, 100, 255])),
        5 => CertMut::DerFlip(s.below(5000) as u16),
        6 => CertMut::DerTrunc(s.scale(800).max(1) as u16),
        7 => CertMut::DerByte(s.below(700) as u16, s.pick(&[0u8, 0xff, 0x80, 0x84, 0x85, 0x30, 0x1f, 0x7f, 0x02, 0x03])),
        8 => CertMut::Garbage(s.scale(600) as u16),
        9 => CertMut::Trunc(if s.pct(10) { 0xffff } else { s.scale(600).max(1) as u16 }),
        10 => CertMut::Extend(s.range(1, 20) as u8),
        11 => CertMut::HdrLen(s.pick(&[0u32, 1, 2, 3, 4, 0x4000, 0x20000, 0x20001, 0xffffff, 0x1fffc])),
        12 => CertMut::MsgType(s.pick(&[13u8, 2, 8, 15, 20, 4, 24, 25, 0, 1, 255])),
        13 => CertMut::SigAlg(s.below(4) as u8),
        14 => CertMut::VersionByte(s.pick(&[0u8, 1, 3, 255, 127])),
        15 => CertMut::SigShape(s.below(12) as u8),
        16 => CertMut::EntryExts(s.byte()),
        17 => CertMut::ExtsLen(s.byte()),
        _ => structural(s, CertMut::Struct),
    }
}

pub fn cert_spec(s: &mut Source) -> CertSpec {
    CertSpec {
        seed: s.seed(),
        size: 0,
        r_len: if s.pct(70) { 32 } else { s.pick(&[33u8, 31, 30, 1, 20, 32]) },
        s_len: if s.pct(70) { 32 } else { s.pick(&[33u8, 31, 30, 1, 20, 32]) },
        flags: s.byte() as u16 | (s.byte() as u16) << 8,
    }
}

pub fn server(s: &mut Source, p: &Profile, cfg: &Cfg) -> ServerPlan {
    let key = match s.weighted(&[60, p.full_keys, 6, 4, 10, 2, 2, p.full_keys / 2, p.full_keys / 3]) {
        0 => KeySel::Small(s.range(1, 4000) as u32),
        1 => KeySel::Full(s.seed()),
        2 => KeySel::OwnXZero(s.seed()),
        3 => KeySel::OwnYZero(s.seed()),
        4 => KeySel::SharedZero(s.seed()),
        5 => KeySel::ClientPoint,
        6 => KeySel::ClientNegPoint,
        7 => KeySel::EdgePoint(s.seed()),
        _ => KeySel::EdgeShared(s.seed()),
    };
    let mut pl = ServerPlan {
        seed: s.seed(),
        key,
        suite: s.below(2) as u8,
        sh: vec![],
        sh_order: s.pct(50),
        ee: EePlan {
            sni_ack: cfg.sni.is_some() && s.pct(50),
            groups: s.weighted(&[12, 4, 4, 1]) as u8,
            alpn: if cfg.alpn.is_some() && s.pct(75) { Some(s.byte()) } else { None },
            order: s.below(6) as u8,
            muts: vec![],
        },
        cert: CertPlan { chain: vec![], body: 0, muts: vec![] },
        flow: vec![],
        frag1: frag(s, p.frag),
        frag2: frag(s, p.frag),
        pads: vec![],
        inj1: vec![],
        inj2: vec![],
        pre: vec![],
        ccs: s.pct(50),
        rec_ver: s.weighted(&[6, 1, 1]) as u8,
        noise: None,
    };
    let n = s.weighted(&[0, 5, 3, 2, 1]);
    for _ in 0..n {
        pl.cert.chain.push(cert_spec(s));
    }
    if s.pct(p.frag / 2 + 5) {
        let k = s.scale(8);
        pl.pads = (0..k)
            .map(|_| match s.weighted(&[4, 3, 2, 1]) {
                0 => 0u16,
                1 => s.scale(300) as u16,
                2 => s.range(0, 16) as u16,
                _ => 16384,
            })
            .collect();
    }
    if s.pct(p.big) {
        match s.below(4) {
            0 => pl.cert.chain[0].size = s.range(1000, 20000) as u32,
            1 => pl.cert.body = match s.below(6) {
                0 => s.range(0x4000 - 8, 0x4000 + 8) as u32,
                1 => s.range(0x8000 - 8, 0x8000 + 8) as u32,
                2 => s.range(0x10000 - 8, 0x10000 + 8) as u32,
                3 => s.range(0x1fff0, 0x1fffc) as u32,
                4 => s.range(0x20000 - 4, 0x20000) as u32,
                _ => s.range(0x3f00, 0x1fffc) as u32,
            },
            2 => {
                for c in pl.cert.chain.iter_mut() {
                    c.size = s.range(500, 18000) as u32;
                }
            }
            _ => pl.cert.body = s.range(2000, 40000) as u32,
        }
        if s.pct(12) && p.cert_mut > 0 {
            pl.cert.body = s.range(0x20001, 0x20020) as u32;
        }
    }
    if s.pct(p.many_records) {
        // thousands of records are enough
        let heavy = pl.cert.body > 6000 || pl.cert.chain.iter().map(|c| c.size).sum::<u32>() > 6000;
        let k = s.pick(&[1u16, 2, 3]);
        pl.frag2 = Frag::Fixed(if heavy { k + 40 } else { k });
        pl.pads.iter_mut().for_each(|p| *p = (*p).min(40));
        if s.pct(5) {
            // past 16 bits of the sequence number
            pl.frag2 = Frag::Storm(s.range(65530, 66000) as u32);
            pl.cert.body = 66_200;
            pl.pads.clear();
            pl.ccs = false;
        }
    }
    if s.pct(p.sh_mut) {
        for _ in 0..s.weighted(&[0, 8, 1, 1]) {
            pl.sh.push(sh_mut(s));
        }
    }
    if s.pct(p.ee_mut) {
        for _ in 0..s.weighted(&[0, 8, 1]) {
            pl.ee.muts.push(ee_mut(s));
        }
    }
    if s.pct(p.cert_mut) {
        for _ in 0..s.weighted(&[0, 8, 1]) {
            pl.cert.muts.push(cert_mut(s));
        }
    }
    if s.pct(p.flow_mut) {
        pl.flow.push(match s.below(6) {
            0 => FlowMut::Skip(s.below(4) as u8),
            1 => FlowMut::Dup(s.below(4) as u8),
            2 => FlowMut::Swap(s.below(4) as u8, s.below(4) as u8),
            3 => FlowMut::Insert(s.below(5) as u8, s.pick(&[13u8, 4, 24, 20, 15, 0, 1, 2, 8, 11, 25, 254, 3, 5]), s.scale(200) as u16),
            4 => FlowMut::InsertReal(s.below(5) as u8, s.below(5) as u8),
            _ => FlowMut::SpanKeys(s.byte()),
        });
    }
    if s.pct(p.inj) {
        for _ in 0..s.weighted(&[0, 8, 2, 1]) {
            let i = Inj { at: s.scale(8) as u16, prot: s.pct(50), kind: inj_kind(s) };
            if s.pct(50) {
                pl.inj2.push(i)
            } else {
                pl.inj1.push(Inj { prot: false, ..i })
            }
        }
    }
    if s.pct(p.alert) {
        let i = Inj {
            at: s.scale(10) as u16,
            prot: true,
            kind: InjKind::Alert(if s.pct(90) { s.pick(&ALERT_CODES) } else { s.byte() }, s.pick(&[2u8, 1, 2])),
        };
        if s.pct(60) {
            pl.inj2.push(i)
        } else {
            pl.inj1.push(Inj { prot: false, ..i })
        }
    }
    if s.pct(p.pre) {
        pl.pre.push(Inj { at: 0, prot: false, kind: inj_kind(s) });
    }
    if s.pct(p.noise) {
        pl.noise = Some((s.seed(), s.scale(3000) as u16));
    }
    pl
}
