//! Calls into the library: accounted, with panics caught, and with every authentication level
//! behind one object-safe trait.
use crate::alloc::{IN_SUT, LIVE, PEAK};
use http_ntlm::client::Client;
use http_ntlm::messages::structures::Version;
use http_ntlm::messages::Challenge;
use http_ntlm::NtlmVersion;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static START: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let sut = IN_SUT.with(|f| f.replace(false));
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| {
            let f = l.file();
            let f = f.rsplit("/src/").next().unwrap_or(f);
            format!("{}:{}", f, l.line())
        });
        let text = format!("{} at {}", msg.chars().take(160).collect::<String>().replace('\n', " "), loc.unwrap_or_default());
        if sut {
            crate::os::os().say(text.as_bytes());
        } else {
            eprintln!("harness panic: {}", text);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = text);
        IN_SUT.with(|f| f.set(sut));
    }));
}

#[derive(Debug, Clone)]
pub struct Panicked(pub String);

pub struct Mem {
    pub peak: i64,
    /// basic-block edges executed
    pub steps: u64,
}

/// Memory used by the last call on this thread.
pub fn mem() -> Mem {
    Mem { peak: PEAK.with(|p| p.get()), steps: probe::probe().steps - START.with(|s| s.get()) }
}

/// Bytes library code of this thread holds, over all calls of the run.
pub fn net() -> i64 {
    crate::alloc::NET.with(|n| n.get())
}

/// Runs library code.
pub fn sut<R>(f: impl FnOnce() -> R) -> Result<R, Panicked> {
    LIVE.with(|l| l.set(0));
    PEAK.with(|l| l.set(0));
    START.with(|s| s.set(probe::probe().steps));
    IN_SUT.with(|x| x.set(true));
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(drop);
    IN_SUT.with(|x| x.set(false));
    r.map_err(|_| Panicked(LAST_PANIC.with(|p| p.borrow().clone())))
}

pub trait AnyClient {
    fn negotiate(&mut self) -> Result<Vec<u8>, Panicked>;
    fn receive(&mut self, c: Challenge) -> Result<(), Panicked>;
    fn authenticate(&mut self) -> Result<Vec<u8>, Panicked>;
    fn exported_key(&self) -> Option<Vec<u8>>;
    fn set_version(&mut self, v: Option<Version>);
}

impl<V: NtlmVersion> AnyClient for Client<V> {
    fn negotiate(&mut self) -> Result<Vec<u8>, Panicked> {
        sut(|| self.send_negociate().to_vec())
    }
    fn receive(&mut self, c: Challenge) -> Result<(), Panicked> {
        sut(|| self.recv_challenge(c))
    }
    fn authenticate(&mut self) -> Result<Vec<u8>, Panicked> {
        sut(|| self.send_authenticate().to_vec())
    }
    fn exported_key(&self) -> Option<Vec<u8>> {
        let k = self.sim_authenticate().and_then(|a| a.exported_session_key.as_ref()).map(|k| k.to_vec());
        if crate::os::os().watch {
            if let Some(k) = &k {
                crate::os::os().secret("exported-session-key", k);
            }
        }
        k
    }
    fn set_version(&mut self, v: Option<Version>) {
        self.sim_set_version(v)
    }
}

macro_rules! levels {
    ($($n:ident $v:literal),*) => {
        $(pub struct $n; impl NtlmVersion for $n { fn version() -> u32 { $v } })*
        /// `how`: None = `new(name)`, Some(domain) = `new_with_domain(name, domain)`.
        pub fn make(level: u32, name: &str, domain: Option<&str>, pw: &str, target: &str) -> Result<Box<dyn AnyClient>, Panicked> {
            let (name, domain, pw, target) = (name.to_string(), domain.map(|d| d.to_string()), pw.to_string(), target.to_string());
            sut(move || -> Box<dyn AnyClient> {
                match (level, domain) {
                    $(($v, None) => Box::new(Client::<$n>::new(name, pw, target)),
                      ($v, Some(d)) => Box::new(Client::<$n>::new_with_domain(name, d, pw, target)),)*
                    _ => unreachable!(),
                }
            })
        }
    };
}
levels!(L0 0, L1 1, L2 2, L3 3, L4 4, L5 5);

pub fn decode_challenge(b: &[u8]) -> Result<Result<Challenge, String>, Panicked> {
    sut(|| http_ntlm::sim::decode::<Challenge>(b).map(|(_, c)| c))
}

pub fn encode_challenge(c: &Challenge) -> Result<Vec<u8>, Panicked> {
    sut(|| {
        let mut v = Vec::new();
        http_ntlm::sim::encode(c, &mut v).expect("vec");
        v
    })
}

/// One call outside any run, so that lazily initialised process state (the entropy source's
/// availability probe, std's lazies) is the same for every run.
pub fn prime() {
    crate::os::reset();
    let _ = make(3, "prime", Some("p"), "p", "").map(|mut c| {
        let _ = c.negotiate();
        let _ = decode_challenge(&[0; 4]);
    });
    let _ = sut(|| http_ntlm::messages::structures::ClientChallenge::random());
    let _ = sut(|| panic!("prime"));
    crate::os::reset();
}
