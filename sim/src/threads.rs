//! Application threads. Calls on one object may come from one thread after another; exactly one thread runs at
//! any time and the scenario says which, so runs stay repeatable.

use std::sync::{Arc, Condvar, Mutex};

struct Job(Option<*mut dyn FnMut()>);
unsafe impl Send for Job {}

struct Worker {
    slot: Arc<(Mutex<Job>, Condvar)>,
    busy: bool,
}

pub const THREADS: usize = 3;
static mut POOL: Vec<Worker> = Vec::new();

/// Starts the threads; to be called outside of library code.
pub fn prepare() {
    unsafe {
        while POOL.len() < THREADS {
            let slot = Arc::new((Mutex::new(Job(None)), Condvar::new()));
            let mine = slot.clone();
            std::thread::Builder::new()
                .spawn(move || loop {
                    let mut j = mine.0.lock().unwrap();
                    while j.0.is_none() {
                        j = mine.1.wait(j).unwrap();
                    }
                    let f = j.0.unwrap();
                    drop(j);
                    (*f)();
                    mine.0.lock().unwrap().0 = None;
                    mine.1.notify_all();
                })
                .expect("cannot start a thread");
            POOL.push(Worker { slot, busy: false });
            on(POOL.len(), || ());
        }
    }
}

/// Runs `f` on thread `k` (0, or if that thread waits further up the stack: on this one).
pub fn on<T>(k: usize, f: impl FnOnce() -> T) -> T {
    unsafe {
        if k == 0 || POOL[k - 1].busy {
            return f();
        }
        let mut f = Some(f);
        let mut out = None;
        let mut job = || out = Some((f.take().unwrap())());
        let job: &mut dyn FnMut() = &mut job;
        let job: *mut (dyn FnMut() + 'static) = std::mem::transmute(job);
        POOL[k - 1].busy = true;
        let slot = POOL[k - 1].slot.clone();
        let mut j = slot.0.lock().unwrap();
        j.0 = Some(job);
        slot.1.notify_all();
        while j.0.is_some() {
            j = slot.1.wait(j).unwrap();
        }
        drop(j);
        POOL[k - 1].busy = false;
        out.unwrap()
    }
}
