//! Compiler-inserted probes. The library (and the simulator, where the library's generic code is
//! instantiated) is compiled with LLVM's SanitizerCoverage; each basic-block edge, and in the C15
//! build each memory access, calls in here. This crate itself is not instrumented.
//!
//! While library code runs (IN_SUT) the probes count steps, hash the executed path, note which edges
//! were reached and offer preemption points to the thread scheduler. All of it is deterministic.
use std::cell::Cell;

thread_local! {
    /// True while library code runs on this thread.
    pub static IN_SUT: Cell<bool> = const { Cell::new(false) };
}

/// Keeps simulator code that runs inside a library call from being taken for library code.
pub struct Outside(bool);

impl Outside {
    #[inline]
    pub fn enter() -> Self {
        Outside(IN_SUT.try_with(|f| f.replace(false)).unwrap_or(false))
    }
    #[inline]
    pub fn was_sut(&self) -> bool {
        self.0
    }
}

impl Drop for Outside {
    #[inline]
    fn drop(&mut self) {
        if self.0 {
            let _ = IN_SUT.try_with(|f| f.set(true));
        }
    }
}

pub const EDGES: usize = 1 << 16;

/// Which events are preemption points.
pub const COARSE: u32 = 1; // allocations and system calls
pub const EDGE: u32 = 2; // basic blocks
pub const MEMORY: u32 = 4; // loads and stores
pub const GLOBAL: u32 = 8; // loads and stores of static memory

pub struct Probe {
    pub edges: u32,
    pub hit: [u8; EDGES / 8],
    pub path: u64,
    pub steps: u64,
    pub global_accesses: u64,
    pub events: u32,
    pub fuel: i64,
    pub turn: u64,
    pub turn_limit: u64,
    pub on_empty: Option<fn()>,
}

// Only the thread that holds the simulator's baton touches this.
static mut P: Probe =
    Probe { edges: 0, hit: [0; EDGES / 8], path: 1, steps: 0, global_accesses: 0, events: COARSE, fuel: i64::MAX, turn: 0, turn_limit: u64::MAX, on_empty: None };

#[allow(static_mut_refs)]
#[inline]
pub fn probe() -> &'static mut Probe {
    unsafe { &mut P }
}

#[inline]
pub fn point(kind: u32) {
    let p = probe();
    if p.events & kind != 0 {
        p.fuel -= 1;
        if p.fuel <= 0 {
            turn_over();
        }
    }
}

#[cold]
fn turn_over() {
    let _o = Outside::enter();
    if let Some(f) = probe().on_empty {
        f()
    }
}

/// # Safety
/// Called by instrumented code only.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 {
        return;
    }
    let mut x = a;
    while x < b {
        let p = probe();
        p.edges += 1;
        *x = p.edges;
        x = x.add(1);
    }
}

/// # Safety
/// Called by instrumented code only.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !IN_SUT.try_with(|f| f.get()).unwrap_or(false) {
        return;
    }
    let p = probe();
    let id = *g as usize % EDGES;
    p.hit[id >> 3] |= 1 << (id & 7);
    p.path = (p.path ^ id as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23);
    p.steps += 1;
    p.turn += 1;
    if p.turn > p.turn_limit {
        p.fuel = 0;
    }
    point(EDGE);
    if p.fuel <= 0 && p.events & EDGE == 0 && p.turn > p.turn_limit {
        turn_over();
    }
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

#[inline]
unsafe fn access(a: usize) {
    if !IN_SUT.try_with(|f| f.get()).unwrap_or(false) {
        return;
    }
    let lo = &raw const __data_start as usize;
    let hi = &raw const _end as usize;
    if a >= lo && a < hi {
        probe().global_accesses += 1;
        point(GLOBAL | MEMORY);
    } else {
        point(MEMORY);
    }
}

macro_rules! accesses {
    ($($n:ident),*) => { $(
        /// # Safety
        /// Called by instrumented code only.
        #[no_mangle]
        pub unsafe extern "C" fn $n(a: *const u8) { access(a as usize) }
    )* };
}
accesses!(
    __sanitizer_cov_load1, __sanitizer_cov_load2, __sanitizer_cov_load4, __sanitizer_cov_load8, __sanitizer_cov_load16,
    __sanitizer_cov_store1, __sanitizer_cov_store2, __sanitizer_cov_store4, __sanitizer_cov_store8, __sanitizer_cov_store16
);
