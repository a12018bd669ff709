//! A cooperative scheduler for the code under test: of the registered threads one runs at a time,
//! and every acquisition of a lock is a point where another may go on instead. Locks are taken
//! over by defining the pthread functions the standard library calls; threads that are not
//! registered use the real ones.
use std::cell::Cell;
use std::os::raw::{c_char, c_int, c_void};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub const NONE: usize = usize::max_value();
const MAX: usize = 16;

thread_local!(static ME: Cell<usize> = Cell::new(NONE));

struct Ctl {
    n: usize,
    current: AtomicUsize,
    /// what each thread waits for: 0 nothing, 1 it is done, otherwise the address of a lock
    wait: [AtomicUsize; MAX],
    free: AtomicBool,
    deadlock: AtomicBool,
    script: Vec<usize>,
    at: AtomicUsize,
    /// per decision: the threads that could go on, the one that did, and the one that was running
    log: std::cell::UnsafeCell<Vec<(u32, usize, usize)>>,
}
unsafe impl Sync for Ctl {}

static CTL: AtomicPtr<Ctl> = AtomicPtr::new(std::ptr::null_mut());

fn ctl() -> Option<&'static Ctl> {
    let p = CTL.load(SeqCst);
    if p.is_null() { None } else { Some(unsafe { &*p }) }
}

impl Ctl {
    fn ready(&self) -> u32 {
        (0..self.n).filter(|&t| self.wait[t].load(SeqCst) == 0).fold(0, |m, t| m | 1 << t)
    }

    /// Decides who goes on; called by the running thread only.
    fn pick(&self, me: usize) -> bool {
        let ready = self.ready();
        if ready == 0 {
            if (0..self.n).any(|t| self.wait[t].load(SeqCst) > 1) { self.deadlock.store(true, SeqCst) }
            return false;
        }
        let next = if ready & (ready - 1) == 0 {
            ready.trailing_zeros() as usize
        } else {
            let i = self.at.fetch_add(1, SeqCst);
            let want = self.script.get(i).copied().unwrap_or(me);
            let next = if want < self.n && ready >> want & 1 == 1 { want }
                else if ready >> me & 1 == 1 { me }
                else { ready.trailing_zeros() as usize };
            unsafe { (*self.log.get()).push((ready, next, me)) }
            next
        };
        self.current.store(next, SeqCst);
        true
    }

    fn turn(&self, me: usize) {
        let mut n = 0u32;
        while self.current.load(SeqCst) != me && !self.free.load(SeqCst) {
            n += 1;
            if n > 100 { std::thread::yield_now() } else { std::hint::spin_loop() }
        }
    }

    fn acquire(&self, me: usize, lock: usize, attempt: &dyn Fn() -> bool) -> bool {
        if self.free.load(SeqCst) { return false }
        self.pick(me);
        self.turn(me);
        loop {
            if self.free.load(SeqCst) { return false }
            if attempt() { return true }
            self.wait[me].store(lock, SeqCst);
            if !self.pick(me) {
                // nobody can go on: stay here for good
                loop { std::thread::sleep(Duration::from_secs(1)) }
            }
            self.turn(me);
        }
    }

    fn released(&self, lock: usize) {
        for t in 0..self.n {
            let _ = self.wait[t].compare_exchange(lock, 0, SeqCst, SeqCst);
        }
    }
}

extern "C" {
    fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
    fn pthread_mutex_trylock(m: *mut c_void) -> c_int;
    fn pthread_rwlock_tryrdlock(m: *mut c_void) -> c_int;
    fn pthread_rwlock_trywrlock(m: *mut c_void) -> c_int;
}

fn real(slot: &AtomicUsize, name: &'static [u8]) -> unsafe extern "C" fn(*mut c_void) -> c_int {
    let mut p = slot.load(SeqCst);
    if p == 0 {
        p = unsafe { dlsym(-1isize as *mut c_void, name.as_ptr() as *const c_char) } as usize;
        assert!(p != 0);
        slot.store(p, SeqCst);
    }
    unsafe { std::mem::transmute(p) }
}

fn me() -> usize { ME.try_with(|m| m.get()).unwrap_or(NONE) }

macro_rules! take {
    ($name:ident, $try:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(m: *mut c_void) -> c_int {
            static REAL: AtomicUsize = AtomicUsize::new(0);
            let id = me();
            if id != NONE {
                if let Some(c) = ctl() {
                    if c.acquire(id, m as usize, &|| $try(m) == 0) { return 0 }
                }
            }
            real(&REAL, concat!(stringify!($name), "\0").as_bytes())(m)
        }
    };
}
macro_rules! give {
    ($name:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(m: *mut c_void) -> c_int {
            static REAL: AtomicUsize = AtomicUsize::new(0);
            let r = real(&REAL, concat!(stringify!($name), "\0").as_bytes())(m);
            if me() != NONE {
                if let Some(c) = ctl() { c.released(m as usize) }
            }
            r
        }
    };
}
take!(pthread_mutex_lock, pthread_mutex_trylock);
take!(pthread_rwlock_rdlock, pthread_rwlock_tryrdlock);
take!(pthread_rwlock_wrlock, pthread_rwlock_trywrlock);
give!(pthread_mutex_unlock);
give!(pthread_rwlock_unlock);

/// Runs the driver's own code inside a scheduled thread without scheduling it.
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let id = me();
    ME.with(|m| m.set(NONE));
    let r = f();
    ME.with(|m| m.set(id));
    r
}

pub struct Outcome {
    pub deadlock: bool,
    /// the scheduler had to let go: something other than a lock was waited for
    pub free: bool,
    pub log: Vec<(u32, usize, usize)>,
}

/// Runs `one(0)`, .. `one(n - 1)` on n threads under the script: whom to run at the first, second,
/// ... point where there is a choice; after its end the running thread goes on.
pub fn run<'a>(n: usize, script: &[usize], one: &'a (dyn Fn(usize) + Sync + 'a)) -> Outcome {
    assert!(n <= MAX);
    let one: &'static (dyn Fn(usize) + Sync + 'static) = unsafe { std::mem::transmute(one) };
    let c: &'static Ctl = Box::leak(Box::new(Ctl {
        n,
        current: AtomicUsize::new(NONE),
        wait: Default::default(),
        free: AtomicBool::new(false),
        deadlock: AtomicBool::new(false),
        script: script.to_vec(),
        at: AtomicUsize::new(0),
        log: std::cell::UnsafeCell::new(Vec::new()),
    }));
    let left: &'static AtomicUsize = Box::leak(Box::new(AtomicUsize::new(n)));
    let born: &'static AtomicUsize = Box::leak(Box::new(AtomicUsize::new(0)));
    CTL.store(c as *const Ctl as *mut Ctl, SeqCst);
    for t in 0..n {
        std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
            born.fetch_add(1, SeqCst);
            c.turn(t);
            ME.with(|m| m.set(t));
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(t)));
            ME.with(|m| m.set(NONE));
            c.wait[t].store(1, SeqCst);
            if !c.free.load(SeqCst) { c.pick(t); }
            left.fetch_sub(1, SeqCst);
        }).unwrap();
    }
    while born.load(SeqCst) < n { std::thread::yield_now() }
    // the first decision
    let first = script.get(0).copied().unwrap_or(0);
    unsafe { (*c.log.get()).push(((1 << n) - 1, if first < n { first } else { 0 }, 0)) }
    c.at.store(1, SeqCst);
    c.current.store(if first < n { first } else { 0 }, SeqCst);
    let start = Instant::now();
    let mut spins = 0u32;
    while left.load(SeqCst) > 0 && !c.deadlock.load(SeqCst) {
        spins += 1;
        if spins > 200 { std::thread::yield_now() }
        if spins % 1024 == 0 {
            let e = start.elapsed();
            if e > Duration::from_secs(3) { c.free.store(true, SeqCst) }
            if e > Duration::from_secs(8) { c.deadlock.store(true, SeqCst) }
        }
    }
    CTL.store(std::ptr::null_mut(), SeqCst);
    Outcome { deadlock: c.deadlock.load(SeqCst), free: c.free.load(SeqCst), log: unsafe { (*c.log.get()).clone() } }
}
