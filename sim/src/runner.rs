//! Processes: every run happens in its own forked process, so that a panic (an abort at the C boundary), a
//! crash, an endless loop or a corrupted heap is an observed outcome of that run and of no other.

use std::sync::atomic::{AtomicBool, Ordering};

#[allow(non_camel_case_types)]
type c_int = i32;

extern "C" {
    fn fork() -> c_int;
    fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    fn pipe(fds: *mut c_int) -> c_int;
    fn close(fd: c_int) -> c_int;
    fn read(fd: c_int, buf: *mut u8, n: usize) -> isize;
    fn write(fd: c_int, buf: *const u8, n: usize) -> isize;
    fn _exit(code: c_int) -> !;
    fn mmap(addr: *mut u8, len: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> c_int;
    fn setitimer(which: c_int, new: *const [i64; 4], old: *mut [i64; 4]) -> c_int;
    fn setrlimit(res: c_int, lim: *const [u64; 2]) -> c_int;
    fn prctl(op: c_int, a: u64, b: u64, c: u64, d: u64) -> c_int;
}

const PAGE: usize = 4096;
const ITIMER_REAL: c_int = 0;
const ITIMER_PROF: c_int = 2;
/// CPU seconds after which a stretch of library code between two callbacks counts as endless; the longest
/// ones of the unchanged code take less than half a second.
pub const CPU_LIMIT: i64 = 6;
/// CPU seconds after which a run is given up without a verdict.
const RUN_LIMIT: u64 = 90;
/// A run that costs too much although every call of the library returned in time.
pub const ABANDONED: &str = "run abandoned";

const EXIT_PANIC: c_int = 101;
const EXIT_MEMORY: c_int = 71;
const EXIT_IO: c_int = 72;
const EXIT_LATE: c_int = 73;
const EXIT_SMASHED: c_int = 94;

/// How often library and simulator have taken turns in this process.
static mut STRETCH: u64 = 0;

/// Called once a second of CPU time: has the library been running since the last time, and how often?
extern "C" fn tick(_: c_int) {
    static mut LAST: u64 = 0;
    static mut SAME: i64 = 0;
    unsafe {
        if *SLOT == 2 && STRETCH == LAST {
            SAME += 1;
            if SAME >= CPU_LIMIT {
                note("a call did not return within 6 seconds of CPU time");
                _exit(EXIT_IO);
            }
        } else {
            SAME = 0;
        }
        LAST = STRETCH;
    }
}

/// The same in ten seconds of real time, for calls that block.
extern "C" fn tock(_: c_int) {
    static mut LAST: u64 = 0;
    static mut SAME: u32 = 0;
    static mut N: u32 = 0;
    unsafe {
        N += 1;
        if N >= 30 {
            note("out of time");
            _exit(EXIT_LATE);
        }
        if *SLOT == 2 && STRETCH == LAST {
            SAME += 1;
            if SAME >= 6 {
                note("a call did not return within a minute");
                _exit(EXIT_IO);
            }
        } else {
            SAME = 0;
        }
        LAST = STRETCH;
    }
}

fn watch() {
    #[repr(C)]
    struct SigAction {
        handler: extern "C" fn(c_int),
        mask: [u64; 16],
        flags: c_int,
        restorer: usize,
    }
    extern "C" {
        fn sigaction(sig: c_int, new: *const SigAction, old: *mut SigAction) -> c_int;
    }
    const SA_RESTART: c_int = 0x1000_0000;
    unsafe {
        for (sig, which, s, handler) in [(27, ITIMER_PROF, 1, tick as extern "C" fn(c_int)), (14, ITIMER_REAL, 10, tock)] {
            let a = SigAction { handler, mask: [0; 16], flags: SA_RESTART, restorer: 0 };
            sigaction(sig, &a, std::ptr::null_mut());
            setitimer(which, &[s, 0, s, 0], std::ptr::null_mut());
        }
    }
}

/// [0]: 0 simulator, 2 library; [8..16]: length of the message; [16..]: message
static mut SLOT: *mut u8 = std::ptr::null_mut();
static QUIET: AtomicBool = AtomicBool::new(true);

pub fn in_library() -> bool {
    unsafe { !SLOT.is_null() && SLOT.read_volatile() == 2 }
}

/// The library is running.
pub fn enter() {
    unsafe {
        if !SLOT.is_null() {
            SLOT.write_volatile(2);
            STRETCH += 1;
        }
    }
}
/// The simulator is running.
pub fn leave() {
    unsafe {
        if !SLOT.is_null() {
            SLOT.write_volatile(1);
            STRETCH += 1;
        }
    }
}

fn note(msg: &str) {
    unsafe {
        if SLOT.is_null() || *(SLOT.add(8) as *const u64) != 0 {
            return;
        }
        let b = msg.as_bytes();
        let n = b.len().min(PAGE - 16);
        std::ptr::copy_nonoverlapping(b.as_ptr(), SLOT.add(16), n);
        *(SLOT.add(8) as *mut u64) = n as u64;
    }
}

pub fn die_memory() -> ! {
    unsafe {
        note("an object held more than 64 MiB");
        _exit(EXIT_MEMORY)
    }
}
pub fn die_smashed() -> ! {
    unsafe {
        note("memory around an allocation was overwritten");
        _exit(EXIT_SMASHED)
    }
}
pub fn die_io(msg: &str) -> ! {
    unsafe {
        note(msg);
        _exit(EXIT_IO)
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let s = format!("panicked at {at}: {m}");
        if !QUIET.load(Ordering::Relaxed) {
            eprintln!("{s}");
        }
        note(&s);
    }));
}

/// How an isolated piece of work failed to return.
#[derive(Clone, Debug)]
pub enum Died {
    /// class of the violation and description
    Library(&'static str, String),
    Harness(String),
}

/// Runs `f` in a fresh copy of this process.
pub fn iso(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, Died> {
    unsafe {
        let slot = mmap(std::ptr::null_mut(), PAGE, 3, 0x21, -1, 0);
        assert!(slot as isize != -1, "mmap failed");
        let mut fds = [0; 2];
        assert!(pipe(fds.as_mut_ptr()) == 0, "pipe failed");
        let pid = fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            prctl(1, 9, 0, 0, 0); // die with the parent
            close(fds[0]);
            SLOT = slot;
            SLOT.write_volatile(1);
            setrlimit(4, &[0, 0]); // no core files
            setrlimit(0, &[RUN_LIMIT, RUN_LIMIT]);
            watch();
            let code = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
                Ok(v) => {
                    let mut o = 0;
                    while o < v.len() {
                        let n = write(fds[1], v[o..].as_ptr(), v.len() - o);
                        if n <= 0 {
                            break;
                        }
                        o += n as usize;
                    }
                    0
                }
                Err(_) => EXIT_PANIC,
            };
            _exit(code);
        }
        close(fds[1]);
        let mut out = vec![];
        let mut buf = [0u8; 65536];
        loop {
            let n = read(fds[0], buf.as_mut_ptr(), buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        close(fds[0]);
        let mut st = 0;
        while waitpid(pid, &mut st, 0) != pid {}
        let stage = *slot;
        let n = *(slot.add(8) as *const u64) as usize;
        let msg = String::from_utf8_lossy(std::slice::from_raw_parts(slot.add(16), n.min(PAGE - 16))).into_owned();
        munmap(slot, PAGE);
        let sig = st & 0x7f;
        let code = st >> 8 & 0xff;
        let lib = stage == 2;
        match (sig, code) {
            (0, 0) => Ok(out),
            (0, EXIT_MEMORY) => Err(Died::Library("MemBound", msg)),
            (0, EXIT_SMASHED) => Err(Died::Library("Crash", msg)),
            (0, EXIT_IO) => Err(Died::Library("Hang", msg)),
            (0, EXIT_LATE) => Err(Died::Harness(format!("{ABANDONED}: {msg}"))),
            (0, EXIT_PANIC) if lib => Err(Died::Library("Crash", msg)),
            (0, c) => Err(Died::Harness(format!("exit {c}: {msg}"))),
            // SIGSEGV, SIGBUS, SIGILL, SIGFPE: never the simulator's own doing
            (11 | 7 | 4 | 8, _) => Err(Died::Library("Crash", format!("signal {sig}{}{msg}", if msg.is_empty() { "" } else { ": " }))),
            // out of CPU time, or ended from outside
            (24 | 9, _) => Err(Died::Harness(format!("{ABANDONED} {msg}"))),
            (s, _) if lib => Err(Died::Library("Crash", if msg.is_empty() { format!("signal {s}") } else { msg })),
            (s, _) => Err(Died::Harness(format!("signal {s}: {msg}"))),
        }
    }
}

/// A counter shared by all worker processes.
pub struct Shared(*mut u64);
unsafe impl Sync for Shared {}
impl Shared {
    pub fn new(x: u64) -> Shared {
        unsafe {
            let p = mmap(std::ptr::null_mut(), PAGE, 3, 0x21, -1, 0) as *mut u64;
            *p = x;
            Shared(p)
        }
    }
    pub fn at(&self, i: usize) -> &std::sync::atomic::AtomicU64 {
        unsafe { &*(self.0.add(i) as *const std::sync::atomic::AtomicU64) }
    }
}

pub struct Child {
    pid: c_int,
    fd: c_int,
}

/// Starts a worker process; its result is read with `join`.
pub fn spawn(f: impl FnOnce() -> Vec<u8>) -> Child {
    unsafe {
        let mut fds = [0; 2];
        assert!(pipe(fds.as_mut_ptr()) == 0, "pipe failed");
        let pid = fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            prctl(1, 9, 0, 0, 0);
            close(fds[0]);
            let code = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
                Ok(v) => {
                    let mut o = 0;
                    while o < v.len() {
                        let n = write(fds[1], v[o..].as_ptr(), v.len() - o);
                        if n <= 0 {
                            break;
                        }
                        o += n as usize;
                    }
                    0
                }
                Err(_) => 1,
            };
            _exit(code);
        }
        close(fds[1]);
        Child { pid, fd: fds[0] }
    }
}

pub fn join(c: Child) -> Result<Vec<u8>, String> {
    unsafe {
        let mut out = vec![];
        let mut buf = [0u8; 65536];
        loop {
            let n = read(c.fd, buf.as_mut_ptr(), buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        close(c.fd);
        let mut st = 0;
        while waitpid(c.pid, &mut st, 0) != c.pid {}
        if st == 0 {
            Ok(out)
        } else {
            Err(format!("worker ended with status {st:#x}"))
        }
    }
}

pub fn loud() {
    QUIET.store(false, Ordering::Relaxed);
}

// ------------------------------------------------------------------ trace that survives a crash

static mut ECHO: Option<std::fs::File> = None;

pub fn echo_to(path: &str) {
    unsafe {
        ECHO = std::fs::OpenOptions::new().create(true).append(true).open(path).ok();
    }
}
pub fn echo_off() {
    unsafe {
        ECHO = None;
    }
}
#[allow(static_mut_refs)]
pub fn echo(line: &str) {
    use std::io::Write;
    unsafe {
        if let Some(f) = &mut ECHO {
            let _ = f.write_all(line.as_bytes());
            let _ = f.write_all(b"\n");
        }
    }
}
