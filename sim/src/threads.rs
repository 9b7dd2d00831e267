//! C15: sessions on real threads under the baton scheduler.
use crate::ctx::Ctx;
use crate::gen::{self, Form};
use crate::os::{self, os};
use crate::refntlm::*;
use crate::sched;
use crate::sut;
use crate::world::{self, claim, EPOCH_DIFF};
use std::sync::{Arc, Mutex};

struct Shot {
    raw: Result<Vec<u8>, String>,
    exported: Option<Vec<u8>>,
    chal: usize,
    neg: Vec<u8>,
    t0: i128,
    t1: i128,
}

#[derive(Default)]
struct Rec {
    crashed: Option<String>,
    negs: Vec<Vec<u8>>,
    shots: Vec<Shot>,
}

fn ft() -> i128 {
    let (s, n) = os().rt;
    s as i128 * 10_000_000 + n as i128 / 100 + EPOCH_DIFF
}

struct Plan {
    acct: Account,
    form: Form,
    level: u32,
    /// per handshake: challenge bytes, number of responses asked, and whether the session builds a
    /// new client for it
    hs: Vec<(Vec<u8>, u64, bool)>,
}

/// One session under way. It may be handed from thread to thread between calls.
struct Sess {
    rec: Rec,
    client: Option<Box<dyn sut::AnyClient>>,
    hs: usize,
    asked: u64,
    neg: Option<Vec<u8>>,
    received: bool,
}

// Only one thread at a time runs, and each session is held by one of them.
unsafe impl Send for Sess {}

impl Sess {
    fn new() -> Self {
        Sess { rec: Rec::default(), client: None, hs: 0, asked: 0, neg: None, received: false }
    }

    fn crash(&mut self, what: &str, e: String) {
        self.rec.crashed = Some(format!("{} {}", what, e));
    }

    /// The next library call of the session, if there is one left.
    fn step(&mut self, p: &Plan) {
        let Some((raw, asks, renew)) = p.hs.get(self.hs) else {
            // where a client is dropped is part of the schedule too
            let c = self.client.take();
            let _ = sut::sut(move || drop(c));
            return;
        };
        if self.rec.crashed.is_some() {
            return;
        }
        if self.client.is_none() || *renew && self.hs > 0 && self.neg.is_none() {
            if *renew && self.hs > 0 {
                let old = self.client.take();
                let _ = sut::sut(move || drop(old));
            }
            match gen::client(p.level, &p.acct, p.form, "HTTP/x") {
                Ok(c) => self.client = Some(c),
                Err(e) => return self.crash("constructor", e.0),
            }
            if self.hs == 0 {
                return;
            }
        }
        let c = self.client.as_mut().unwrap();
        match &self.neg {
            None => match c.negotiate() {
                Ok(n) => {
                    self.rec.negs.push(n.clone());
                    self.neg = Some(n);
                }
                Err(e) => return self.crash("negotiate", e.0),
            },
            Some(_) if !self.received => {
                match sut::decode_challenge(raw) {
                    Ok(Ok(x)) => {
                        if let Err(e) = c.receive(x) {
                            return self.crash("receive", e.0);
                        }
                    }
                    Ok(Err(e)) => return self.crash("challenge rejected", e),
                    Err(e) => return self.crash("decode", e.0),
                }
                self.received = true;
            }
            Some(neg) => {
                let t0 = ft();
                let raw = c.authenticate();
                let t1 = ft();
                let exported = c.exported_key();
                self.rec.shots.push(Shot { raw: raw.map_err(|e| e.0), exported, chal: self.hs, neg: neg.clone(), t0, t1 });
                self.asked += 1;
                if self.asked == *asks {
                    self.hs += 1;
                    self.asked = 0;
                    self.neg = None;
                    self.received = false;
                }
            }
        }
    }
}

pub fn run(cx: &mut Ctx) {
    os::reset();
    let seed = cx.ch.u64();
    os().entropy = crate::choices::Rng::new(seed);
    let host = if cx.ch.chance(60) { world::odd_host(cx) } else { world::plain_host() };
    let mut host = host;
    host.file.reads.clear();
    host.stderr_err = None;
    host.ws = world::expected_ws(&host);
    {
        let o = os();
        o.env = host.env.clone();
        o.host = host.file.clone();
        o.tick_ns = *cx.ch.pick(&[0i64, 1000, 500_000_000, 3_000_000_000]);
    }
    world::set_clock(1_600_000_000_000_000_000 + cx.ch.draw(1 << 50) as i128);
    let n = cx.ch.range(2, 4) as usize;
    // sessions of one process often share an account, or parts of one
    let shared_user = cx.ch.chance(60);
    let shared_pw = cx.ch.chance(60);
    let shared_level = cx.ch.chance(60);
    let mut plans: Vec<Plan> = Vec::new();
    let mut chals: Vec<Vec<RChal>> = Vec::new();
    for t in 0..n {
        let (mut acct, form) = gen::account(&mut cx.ch);
        if shared_user && t > 0 && form == plans[0].form {
            acct.user = plans[0].acct.user.clone();
        }
        if shared_pw && t > 0 && cx.ch.chance(170) {
            acct.pw = plans[0].acct.pw.clone();
        }
        if acct.user.is_empty() && acct.pw.is_empty() {
            acct.pw.push('p');
        }
        let mut level = cx.ch.draw(6) as u32;
        if shared_level && t > 0 {
            level = plans[0].level;
        }
        let mut hs = vec![];
        let mut cs = vec![];
        for _ in 0..cx.ch.range(1, 3) {
            let c = gen::conformant(&mut cx.ch);
            hs.push((enc_chal(&c, &Layout { version_hole: true, ..Default::default() }), cx.ch.range(1, 2), cx.ch.chance(128)));
            cs.push(c);
        }
        cx.ev("session", t as u64, level as u64, acct.user.as_bytes());
        plans.push(Plan { acct, form, level, hs });
        chals.push(cs);
    }
    let plans = Arc::new(plans);
    // how far a session moves along the threads after each step (0 = it stays where it is)
    let hop = if cx.ch.chance(90) { cx.ch.range(1, 3) as usize } else { 0 };
    cx.count(if hop > 0 { "runs-with-sessions-changing-threads" } else { "runs-with-sessions-staying-on-their-thread" }, 1);
    // construct; negotiate, receive, ask..; drop
    let rounds = plans.iter().map(|p| 2 + p.hs.iter().map(|h| 2 + h.1 as usize).sum::<usize>()).max().unwrap_or(0);
    // per session: the step it is at, and the session unless a thread has it
    let out: Arc<Mutex<Vec<(usize, Option<Sess>)>>> = Arc::new(Mutex::new((0..n).map(|_| (0, Some(Sess::new()))).collect()));
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for t in 0..n {
        let (plans, out) = (plans.clone(), out.clone());
        tasks.push(Box::new(move || {
            for k in 0..rounds {
                let i = (t + k * hop) % n;
                let mut s = loop {
                    let got = {
                        let mut o = out.lock().unwrap();
                        if o[i].0 == k {
                            o[i].1.take()
                        } else {
                            None
                        }
                    };
                    match got {
                        Some(s) => break s,
                        None => sched::block_point(),
                    }
                };
                s.step(&plans[i]);
                out.lock().unwrap()[i] = (k + 1, Some(s));
            }
        }));
    }
    let o = sched::run(&mut cx.ch, tasks);
    cx.ev("threads-done", o.switches, o.deadlock as u64, &[]);
    cx.ev("schedule", o.hash, 0, &[]);
    cx.count(
        match o.events {
            e if e & probe::MEMORY != 0 => "runs-preempted-at-memory-accesses",
            e if e & probe::EDGE != 0 => "runs-preempted-at-basic-blocks",
            e if e & probe::GLOBAL != 0 => "runs-preempted-at-static-data",
            _ => "runs-preempted-at-calls-and-allocations",
        },
        1,
    );
    cx.count("static-data-accesses", std::mem::take(&mut probe::probe().global_accesses));
    cx.count("preemptions", o.preempts);
    cx.count("thread-switches", o.switches);
    cx.count("lock-waits", o.blocks);
    cx.faults_n("preempted-inside-library", o.preempts);
    cx.nontrivial = o.preempts > 0;
    cx.checks += 1;
    if o.deadlock {
        cx.fail("sessions-block-each-other", || "no session can proceed".into());
        return;
    }
    let recs: Vec<Rec> = out.lock().unwrap().drain(..).map(|r| r.1.map(|s| s.rec).unwrap_or_default()).collect();
    let mut claims = vec![];
    // the random bytes each thread got, in the order it got them
    let mut log: Vec<u8> = Vec::new();
    for t in 0..=sched::MAX as u8 {
        log.extend(os().ent_log.iter().zip(&os().ent_who).filter(|x| *x.1 == t).map(|x| *x.0));
    }
    for (t, r) in recs.iter().enumerate() {
        let p = &plans[t];
        cx.checks += 1;
        if let Some(e) = &r.crashed {
            cx.fail("session-crashed", || format!("session {}: {}", t, e));
            return;
        }
        for raw in &r.negs {
            cx.ev("negotiate", t as u64, raw.len() as u64, raw);
            cx.checks += 1;
            if let Err((k, d)) = world::check_neg(p.level, &p.acct, None, raw) {
                cx.fail(k, || format!("session {}: {}", t, d));
            }
        }
        for s in &r.shots {
            cx.checks += 1;
            let raw = match &s.raw {
                Ok(r) => r,
                Err(e) => {
                    cx.fail("session-crashed", || format!("session {}: {}", t, e));
                    return;
                }
            };
            cx.ev("authenticate", t as u64, raw.len() as u64, raw);
            let chal_raw = &p.hs[s.chal].0;
            let rep = verify(
                raw,
                &Expect {
                    level: p.level,
                    acct: &p.acct,
                    neg: &s.neg,
                    chal_raw,
                    chal: &chals[t][s.chal],
                    ws: Some(&host.ws),
                    clock: Some((s.t0 - 10_000_000, s.t1 + 10_000_000)),
                    exported: s.exported.as_deref(),
                    want_key: true,
                    version: None,
                },
            );
            for (_, k, d) in &rep.errs {
                cx.fail(k, || format!("session {} of {}: {}", t, recs.len(), d));
            }
            for v in [rep.nonce.map(|n| n.to_vec()), rep.random_key.map(|k| k.to_vec())].into_iter().flatten() {
                if let Err(k) = claim(&mut claims, &log, &v) {
                    cx.fail(k, || format!("session {} value {}", t, crate::ctx::hex(&v)));
                }
            }
            // nothing of another session
            for (u, q) in plans.iter().enumerate() {
                if u == t {
                    continue;
                }
                let key = recs[u].shots.iter().filter_map(|s| s.exported.as_deref()).next();
                let (a, b, c, d) = (utf16(&p.acct.user), utf16(&p.acct.domain), utf16(&host.ws), utf16(&q.acct.pw));
                let same = q.acct.pw == p.acct.pw;
                let _ = d;
                if !same {
                    if let Some(k) = secrets(raw, &q.acct, None, key, &[&a, &b, &c, chal_raw]) {
                        cx.fail("value-of-another-session", || format!("{} of session {} in a message of session {}", k, u, t));
                    }
                }
            }
        }
    }
}
