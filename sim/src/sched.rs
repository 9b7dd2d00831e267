//! Cooperative scheduler over real threads. Exactly one thread runs at a time; which one, and when
//! it is preempted, is decided by the choice stream. Preemption points inside library code are the
//! interposed system calls, every allocation, every basic block and every memory access (see probe);
//! each run draws which of them count, and how often one is taken.
use crate::os::raw6;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAX: usize = 4;

/// Steps after which a session is switched out whatever its turn (it may be spinning on a lock).
const TURN_LIMIT: u64 = 3_000_000;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(0) };
}

// Baton words: 0 = parked, 1 = running. Index 0 is the controller.
static WORDS: [AtomicU32; MAX + 1] = [const { AtomicU32::new(0) }; MAX + 1];

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Idle,
    Ready,
    Blocked,
    Done,
}

struct S {
    st: [St; MAX + 1],
    tasks: [Option<Box<dyn FnOnce() + Send>>; MAX + 1],
    spawned: usize,
    preempts: u64,
    blocks: u64,
    deadlock: bool,
}

static mut SCH: S = S {
    st: [St::Idle; MAX + 1],
    tasks: [const { None }; MAX + 1],
    spawned: 0,
    preempts: 0,
    blocks: 0,
    deadlock: false,
};

#[allow(static_mut_refs)]
fn s() -> &'static mut S {
    unsafe { &mut SCH }
}

fn park(i: usize) {
    while WORDS[i].load(Ordering::Acquire) == 0 {
        unsafe { raw6(libc::SYS_futex, WORDS[i].as_ptr() as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, 0, 0, 0, 0) };
    }
    WORDS[i].store(0, Ordering::Relaxed);
}

fn unpark(i: usize) {
    WORDS[i].store(1, Ordering::Release);
    unsafe { raw6(libc::SYS_futex, WORDS[i].as_ptr() as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, 1, 0, 0, 0) };
}

/// 0 outside sessions
pub fn me() -> usize {
    ME.try_with(|m| m.get()).unwrap_or(0)
}

pub fn on_sim_thread() -> bool {
    me() != 0
}

/// The probes call this when the running session has used up its turn.
pub fn on_empty() {
    let me = ME.try_with(|m| m.get()).unwrap_or(0);
    if me != 0 {
        switch(me, St::Ready);
    }
}

/// The current thread cannot proceed: run others.
pub fn block_point() {
    let me = ME.with(|m| m.get());
    if me != 0 {
        switch(me, St::Blocked);
    }
}

fn switch(me: usize, st: St) {
    let _o = probe::Outside::enter();
    let sc = s();
    sc.st[me] = st;
    if st == St::Blocked {
        sc.blocks += 1;
    } else {
        sc.preempts += 1;
    }
    unpark(0);
    park(me);
}

fn worker(i: usize) {
    ME.with(|m| m.set(i));
    loop {
        park(i);
        let t = s().tasks[i].take();
        if let Some(t) = t {
            t();
        }
        s().st[i] = St::Done;
        unpark(0);
    }
}

pub struct Outcome {
    pub preempts: u64,
    pub blocks: u64,
    pub switches: u64,
    pub deadlock: bool,
    pub hash: u64,
    pub events: u32,
}

/// Runs the tasks to completion under the choice stream.
pub fn run(ch: &mut crate::choices::Choices, tasks: Vec<Box<dyn FnOnce() + Send>>) -> Outcome {
    let n = tasks.len();
    assert!(n <= MAX);
    let sc = s();
    while sc.spawned < n {
        sc.spawned += 1;
        let i = sc.spawned;
        std::thread::Builder::new().stack_size(1 << 20).spawn(move || worker(i)).expect("spawn");
    }
    sc.st = [St::Idle; MAX + 1];
    sc.preempts = 0;
    sc.blocks = 0;
    sc.deadlock = false;
    for (k, t) in tasks.into_iter().enumerate() {
        sc.tasks[k + 1] = Some(t);
        sc.st[k + 1] = St::Ready;
    }
    // where sessions may be preempted in this run
    let events = *ch.pick(&[
        probe::COARSE,
        probe::COARSE | probe::EDGE,
        probe::COARSE | probe::GLOBAL,
        probe::COARSE | probe::EDGE | probe::MEMORY,
    ]);
    let p = probe::probe();
    p.events = events;
    p.turn_limit = TURN_LIMIT;
    let mut h: u64 = 0xcbf2_9ce4_8422_2325 ^ events as u64;
    let mut switches = 0u64;
    let mut stuck = 0;
    loop {
        let mut ready: Vec<usize> = (1..=n).filter(|i| sc.st[*i] == St::Ready).collect();
        if ready.is_empty() {
            ready = (1..=n).filter(|i| sc.st[*i] == St::Blocked).collect();
            if ready.is_empty() {
                break;
            }
        }
        if stuck > 400 {
            // every unfinished session waits for another: report and abandon the process
            sc.deadlock = true;
            break;
        }
        let i = ready[ch.draw(ready.len() as u64) as usize];
        // how many preemption points this session may pass before it is switched out
        let fuel = match ch.draw(4) {
            0 => i64::MAX,
            _ if events & probe::EDGE != 0 => {
                let top = if events & probe::MEMORY != 0 { 15 } else { 13 };
                let scale = 1u64 << ch.draw(top);
                (scale + ch.draw(scale)) as i64
            }
            1 => 1 + ch.draw(4) as i64,
            2 => 1 + ch.draw(24) as i64,
            _ => 1 + ch.draw(120) as i64,
        };
        probe::probe().turn = 0;
        probe::probe().fuel = fuel;
        h = (h ^ (i as u64)).wrapping_mul(0x100_0000_01b3);
        h = (h ^ (fuel as u64)).wrapping_mul(0x100_0000_01b3);
        switches += 1;
        unpark(i);
        park(0);
        // a turn in which a session only finds that it still has to wait is no progress
        stuck = if sc.st[i] == St::Blocked && probe::probe().turn <= 64 { stuck + 1 } else { 0 };
        // a session that was blocked gets retried once somebody else has run
        for j in 1..=n {
            if j != i && sc.st[j] == St::Blocked {
                sc.st[j] = St::Ready;
            }
        }
    }
    let p = probe::probe();
    p.events = probe::COARSE;
    p.fuel = i64::MAX;
    p.turn_limit = u64::MAX;
    Outcome { events, preempts: sc.preempts, blocks: sc.blocks, switches, deadlock: sc.deadlock, hash: h }
}
