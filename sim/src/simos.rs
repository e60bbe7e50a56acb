//! The operating system seam of in-process simulations: hash seeds (getrandom), thread scheduling
//! (allocation points, futex, sched_yield, sleeps) and the clock of timed waits. Inactive unless a
//! simulated run activates it. Only binaries that link this module get the interposed symbols.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    arch::asm,
    cell::Cell,
    sync::atomic::{AtomicBool, AtomicU64, Ordering},
};

// ---------------------------------------------------------------- randomness

static SEEDED: AtomicBool = AtomicBool::new(false);
static SEED: AtomicU64 = AtomicU64::new(0);
pub static RANDOM_CALLS: AtomicU64 = AtomicU64::new(0);

pub fn seed_random(s: u64) {
    SEED.store(s, Ordering::SeqCst);
    SEEDED.store(true, Ordering::SeqCst);
}

unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

unsafe fn fill(buf: *mut u8, len: usize) {
    RANDOM_CALLS.fetch_add(1, Ordering::SeqCst);
    for i in 0..len {
        let mut x = SEED.fetch_add(0x9E37_79B9_7F4A_7C15, Ordering::SeqCst);
        x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        *buf.add(i) = (x >> 32) as u8;
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if SEEDED.load(Ordering::SeqCst) {
        fill(buf, len);
        return len as isize;
    }
    ret(raw(libc::SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0)) as isize
}

// ---------------------------------------------------------------- threads

pub const MAXT: usize = 8;

#[derive(Clone, Copy, PartialEq)]
enum St {
    Absent,
    Runnable,
    /// futex address, deadline in simulated ns (0 = none)
    Blocked(usize, u64),
    Done,
}

/// Only the thread that holds the token touches this.
pub struct Sched {
    st: [St; MAXT],
    n: usize,
    cur: usize,
    /// (steps until the next switch, choice), consumed in order; afterwards no thread is preempted
    plan: Vec<(u32, u32)>,
    next: usize,
    countdown: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub switches: u64,
    pub blocked: u64,
    pub timeouts: u64,
    pub history: u64,
    pub now: u64,
    /// set when the run cannot go on: 1 = deadlock, 2 = step bound
    pub stuck: u32,
}

static ACTIVE: AtomicBool = AtomicBool::new(false);
static mut SCHED: Sched = Sched {
    st: [St::Absent; MAXT],
    n: 0,
    cur: 0,
    plan: Vec::new(),
    next: 0,
    countdown: u64::MAX,
    steps: 0,
    max_steps: 0,
    switches: 0,
    blocked: 0,
    timeouts: 0,
    history: 0,
    now: 0,
    stuck: 0,
};
static mut SEMS: [std::mem::MaybeUninit<libc::sem_t>; MAXT + 1] = [const { std::mem::MaybeUninit::uninit() }; MAXT + 1];

thread_local! {
    /// 0 = not simulated, otherwise number of the simulated thread + 1
    static TID: Cell<usize> = const { Cell::new(0) };
}

fn sched() -> *mut Sched {
    &raw mut SCHED
}
fn sem(i: usize) -> *mut libc::sem_t {
    unsafe { (&raw mut SEMS).cast::<std::mem::MaybeUninit<libc::sem_t>>().add(i).cast() }
}
fn wait(i: usize) {
    unsafe { while libc::sem_wait(sem(i)) != 0 {} }
}
fn post(i: usize) {
    unsafe {
        libc::sem_post(sem(i));
    }
}

impl Sched {
    fn refill(&mut self) {
        self.countdown = match self.plan.get(self.next) {
            Some(p) => u64::from(p.0).max(1),
            None => u64::MAX,
        };
    }
    /// a thread that may run, other than cur if there is one; wakes a timed waiter when nothing else can run
    fn choose(&mut self, pick: u32) -> Option<usize> {
        let others: Vec<usize> = (0..self.n).filter(|i| *i != self.cur && self.st[*i] == St::Runnable).collect();
        if !others.is_empty() {
            return Some(others[pick as usize % others.len()]);
        }
        if self.st[self.cur] == St::Runnable {
            return Some(self.cur);
        }
        let mut best: Option<(u64, usize)> = None;
        for i in 0..self.n {
            if let St::Blocked(_, d) = self.st[i] {
                if d != 0 && best.is_none_or(|b| d < b.0) {
                    best = Some((d, i));
                }
            }
        }
        let (d, i) = best?;
        self.now = self.now.max(d);
        self.timeouts += 1;
        self.st[i] = St::Runnable;
        Some(i)
    }
    fn pick(&mut self) -> u32 {
        let p = self.plan.get(self.next).map_or(0, |p| p.1);
        self.next += 1;
        self.refill();
        p
    }
}

/// hands the token to thread `to` and waits until it comes back (unless this thread is done)
unsafe fn switch(to: usize, me: usize, done: bool) {
    let s = &mut *sched();
    if to == me {
        return;
    }
    s.switches += 1;
    s.history = (s.history ^ s.steps).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(17) ^ to as u64;
    s.cur = to;
    post(to);
    if !done {
        wait(me);
    }
}

unsafe fn give_up(why: u32) {
    // nothing can run on: report and stop the process of this run
    (*sched()).stuck = why;
    TID.with(|t| t.set(0));
    if let Some(f) = GIVE_UP {
        f(why);
    }
    libc::_exit(77);
}
pub static mut GIVE_UP: Option<fn(u32)> = None;

/// a scheduling point
#[inline]
pub fn point() {
    if !ACTIVE.load(Ordering::Relaxed) {
        return;
    }
    let Ok(me) = TID.try_with(Cell::get) else { return };
    if me == 0 {
        return;
    }
    unsafe {
        let s = &mut *sched();
        s.steps += 1;
        if s.steps > s.max_steps {
            give_up(2);
        }
        s.countdown -= 1;
        if s.countdown == 0 {
            // the choice below allocates: leave simulation mode meanwhile
            TID.with(|t| t.set(0));
            let p = s.pick();
            let to = s.choose(p);
            TID.with(|t| t.set(me));
            if let Some(to) = to {
                switch(to, me - 1, false);
            }
        }
    }
}

/// blocks or ends the current thread
unsafe fn leave(me: usize, st: St) {
    let s = &mut *sched();
    TID.with(|t| t.set(0));
    s.st[me - 1] = st;
    let p = s.pick();
    let to = s.choose(p);
    match to {
        Some(to) => {
            if st != St::Done {
                TID.with(|t| t.set(me));
            }
            switch(to, me - 1, st == St::Done);
        }
        None if st == St::Done && (0..s.n).all(|i| s.st[i] == St::Done) => post(MAXT),
        None => give_up(1),
    }
}

unsafe fn futex(me: usize, addr: usize, op: i32, val: u32, timeout: *const libc::timespec) -> i64 {
    let s = &mut *sched();
    match op & 0x7f {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            point();
            if (*(addr as *const std::sync::atomic::AtomicU32)).load(Ordering::SeqCst) != val {
                return -i64::from(libc::EAGAIN);
            }
            let deadline = if timeout.is_null() {
                0
            } else if op & 0x7f == libc::FUTEX_WAIT {
                s.now + (*timeout).tv_sec as u64 * 1_000_000_000 + (*timeout).tv_nsec as u64
            } else {
                // absolute times come from the real clock: any finite point in the simulated future will do
                s.now + 1_000_000
            };
            s.blocked += 1;
            leave(me, St::Blocked(addr, deadline.max(u64::from(!timeout.is_null()))));
            if !timeout.is_null() && s.now >= deadline {
                -i64::from(libc::ETIMEDOUT)
            } else {
                0
            }
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let mut n = 0;
            for i in 0..s.n {
                if n < val as i64 && matches!(s.st[i], St::Blocked(a, _) if a == addr) {
                    s.st[i] = St::Runnable;
                    n += 1;
                }
            }
            point();
            n
        }
        _ => -i64::from(libc::ENOSYS),
    }
}

/// Rust's standard library does its futex calls through this libc function
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == libc::SYS_futex && ACTIVE.load(Ordering::Relaxed) {
        let me = TID.try_with(Cell::get).unwrap_or(0);
        if me != 0 {
            return ret(futex(me, a, b as i32, c as u32, d as *const libc::timespec));
        }
    }
    if n == libc::SYS_getrandom && SEEDED.load(Ordering::SeqCst) {
        fill(a as *mut u8, b);
        return b as i64;
    }
    ret(raw(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    let me = TID.try_with(Cell::get).unwrap_or(0);
    if me != 0 {
        let s = &mut *sched();
        s.countdown = 1;
        point();
        return 0;
    }
    raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    let me = TID.try_with(Cell::get).unwrap_or(0);
    if me != 0 {
        let s = &mut *sched();
        s.now += if flags == 0 { (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64 } else { 1_000_000 };
        s.countdown = 1;
        point();
        return 0;
    }
    -raw(libc::SYS_clock_nanosleep, clk as usize, flags as usize, req as usize, rem as usize, 0, 0) as i32
}

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        point();
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        point();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point();
        System.realloc(p, l, n)
    }
}

/// Runs the bodies on one thread each, exactly one of them at a time, interleaved as the plan says.
/// Use once per process.
pub fn run_threads(bodies: Vec<Box<dyn FnOnce() + Send>>, plan: Vec<(u32, u32)>, max_steps: u64) -> &'static Sched {
    let n = bodies.len();
    assert!(n <= MAXT);
    unsafe {
        for i in 0..=MAXT {
            libc::sem_init(sem(i), 0, 0);
        }
        let s = &mut *sched();
        s.n = n;
        s.plan = plan;
        s.max_steps = max_steps;
        s.refill();
        for st in s.st.iter_mut().take(n) {
            *st = St::Runnable;
        }
    }
    let handles: Vec<_> = bodies
        .into_iter()
        .enumerate()
        .map(|(i, b)| {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    wait(i);
                    TID.with(|t| t.set(i + 1));
                    b();
                    unsafe { leave(i + 1, St::Done) };
                })
                .unwrap()
        })
        .collect();
    ACTIVE.store(true, Ordering::SeqCst);
    unsafe {
        let s = &mut *sched();
        let p = s.pick();
        s.cur = p as usize % n.max(1);
        post(s.cur);
    }
    wait(MAXT);
    ACTIVE.store(false, Ordering::SeqCst);
    for h in handles {
        let _ = h.join();
    }
    unsafe { &*sched() }
}
