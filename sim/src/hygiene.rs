//! C20: what library code does to its host besides its declared inputs, and what it logs.
//! C21: what a client holds on to, and what it costs, over a long life.
use crate::ctx::Ctx;
use crate::gen;
use crate::os::{self, os, EntFault};
use crate::refntlm::*;
use crate::sut::{self, sut};
use crate::world;

// ------------------------------------------------------------------ C20

/// Byte strings a reader could take out of a diagnostic text: hex strings, and lists of numbers.
pub fn readings(text: &str) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![];
    let (mut dec, mut hex) = (vec![], vec![]);
    for t in text.split(|c: char| !c.is_ascii_alphanumeric()) {
        if t.is_empty() {
            continue;
        }
        let h = t.strip_prefix("0x").unwrap_or(t);
        if h.len() >= 16 && h.bytes().all(|b| b.is_ascii_hexdigit()) {
            for skip in 0..2usize {
                out.push(h.as_bytes()[skip..].chunks_exact(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect());
            }
        }
        match t.parse::<u8>() {
            Ok(v) => dec.push(v),
            Err(_) => out.push(std::mem::take(&mut dec)),
        }
        match u8::from_str_radix(h, 16) {
            Ok(v) if h.len() <= 2 => hex.push(v),
            _ => out.push(std::mem::take(&mut hex)),
        }
    }
    out.push(dec);
    out.push(hex);
    out.retain(|v| v.len() >= 8);
    out
}

/// A secret that can be read off a diagnostic text.
pub fn leaked(diag: &[u8], secrets: &[(&'static str, Vec<u8>)]) -> Option<&'static str> {
    if diag.is_empty() {
        return None;
    }
    let mut hay = readings(&String::from_utf8_lossy(diag));
    hay.push(diag.to_vec());
    for (n, s) in secrets {
        let whole = n.starts_with("password");
        for h in &hay {
            if whole && find(h, s) || !whole && s.chunks_exact(8).any(|w| w.iter().any(|b| *b != 0) && find(h, w)) {
                return Some(n);
            }
        }
    }
    None
}

/// Notes what must stay secret about an account (only where it is looked for).
pub fn guard_account(a: &Account) {
    if !os().watch {
        return;
    }
    let nt = ntowf(&a.pw);
    let o = os();
    o.secret("nt-hash", &nt);
    o.secret("v2-hash", &ntowfv2(&nt, &a.user, &a.domain));
    o.secret("v1-session-base-key", &md4(&nt));
    if let Some(l) = lmowf(&a.pw) {
        o.secret("lm-hash", &l);
    }
    let public = [&a.user, &a.domain];
    if a.pw.chars().count() >= 6 && !public.iter().any(|p| p.contains(&a.pw)) {
        o.secret("password", a.pw.as_bytes());
        o.secret("password-utf16", &utf16(&a.pw));
        let esc = format!("{:?}", a.pw);
        o.secret("password-escaped", esc[1..esc.len() - 1].as_bytes());
    }
}

fn scenario(cx: &mut Ctx, k: u64, rare: u64) {
    match k {
        0..=6 => crate::props::calm_world(cx),
        7 | 8 => crate::props::run_as(cx, "C10"),
        9 => crate::props::run_as(cx, "C06"),
        10 => crate::props::run_as(cx, "C07"),
        11 => crate::props::run_as(cx, "C08"),
        12 => crate::props::run_as(cx, "C14"),
        13 => crate::props::run_as(cx, "C09"),
        14 => crate::props::run_as(cx, "C16"),
        _ if rare < 40 => crate::props::run_as(cx, "C15"),
        _ => crate::props::run_as(cx, "C05"),
    }
}

/// The same scenario with the application's logger on and off: nothing else may differ.
fn twins(cx: &mut Ctx, k: u64) {
    let seed = cx.ch.u64();
    let mut full = [0u64; 2];
    let mut texts = [vec![], vec![]];
    for (i, l) in [log::LevelFilter::Off, log::LevelFilter::Trace].into_iter().enumerate() {
        log::set_max_level(l);
        let mut c = Ctx::new(cx.prop, crate::choices::Choices::random(seed), vec![], cx.verbose);
        scenario(&mut c, k, 255);
        full[i] = c.full;
        texts[i] = std::mem::take(&mut c.text);
        for (k, v) in &c.faults {
            cx.faults_n(k, *v);
        }
        for (k, v) in &c.counts {
            cx.count(k, *v);
        }
        cx.sim_ms += c.sim_ms;
    }
    cx.count("runs-repeated-with-logging", 1);
    cx.checks += 1;
    cx.ev("twins", k, 0, &full[0].to_le_bytes());
    if full[0] != full[1] {
        let at = texts[0].iter().zip(&texts[1]).position(|(a, b)| a != b);
        if let Some(i) = at {
            let t = format!("first difference:\n  logging off {}\n  logging on  {}", texts[0][i], texts[1][i]);
            cx.text.append(&mut texts[0]);
            cx.text.push(t);
        }
        cx.fail("logging-changes-behaviour", || "the same scenario went differently with the logger on".into());
    }
}

/// Any scenario of any other property, judged only on its side effects.
pub fn calm(cx: &mut Ctx) {
    os().watch = true;
    let rare = cx.ch.draw(256);
    let k = cx.ch.draw(16);
    if cx.ch.chance(48) {
        twins(cx, k);
        if cx.failed() {
            return;
        }
    } else {
        scenario(cx, k, rare);
    }
    // other properties' verdicts are not this one's
    cx.viol = None;
    cx.nontrivial = true;
    cx.checks += 2;
    cx.count("log-records", os().n.log_records);
    cx.count("diagnostic-bytes", os().diag.len() as u64);
    cx.ev("effects", os().effects.len() as u64, os().diag.len() as u64, &os().diag);
    if let Some(e) = os().effects.first() {
        let kind = match e {
            e if e.starts_with("wrote") => "library-wrote-output",
            e if e.starts_with("opened") => "library-opened-a-file",
            e if e.starts_with("slept") => "library-slept",
            _ => "library-acted-on-the-host",
        };
        let all = os().effects.join("; ");
        cx.fail(kind, || format!("{}: {}", all, String::from_utf8_lossy(&os().diag[..os().diag.len().min(200)])));
    }
    if !os().fds.is_empty() {
        cx.fail("descriptor-left-open", || format!("{:?}", os().fds));
    }
    if let Some(n) = leaked(&os().diag, &os().secrets) {
        cx.fail("secret-in-diagnostics", || format!("{}: {}", n, String::from_utf8_lossy(&os().diag[..os().diag.len().min(600)])));
    }
    os().watch = false;
}

// ------------------------------------------------------------------ C21

enum Op {
    Negotiate,
    /// decode these bytes as a challenge and hand the result to the client
    Deliver(Vec<u8>),
    /// the same with a challenge of the same shape, but other values each time
    Challenge(RChal, Layout),
    Answer,
    /// ask for a response while the random source fails
    AnswerNoEntropy,
    /// decode bytes as other messages and drop them
    Decode(Vec<u8>),
}

fn script(cx: &mut Ctx) -> Vec<Op> {
    let mut v = vec![];
    for _ in 0..1 + cx.ch.draw(2) {
        if cx.ch.chance(20) {
            v.push(Op::Answer);
        }
        v.push(Op::Negotiate);
        if cx.ch.chance(60) {
            let mut b = enc_chal(&gen::hostile(&mut cx.ch), &gen::layout(&mut cx.ch, 100));
            let k = gen::corrupt(&mut cx.ch, &mut b);
            cx.fault(k);
            v.push(Op::Deliver(b));
        }
        if cx.ch.chance(60) {
            let (_, b) = crate::props::hostile_bytes(cx);
            v.push(Op::Decode(b));
        }
        for _ in 0..1 + cx.ch.draw(2) {
            let c = if cx.ch.chance(60) { gen::hostile(&mut cx.ch) } else { gen::conformant(&mut cx.ch) };
            v.push(Op::Challenge(c, gen::layout(&mut cx.ch, 128)));
        }
        if cx.ch.chance(60) {
            v.push(Op::AnswerNoEntropy);
        }
        for _ in 0..cx.ch.draw(3) {
            v.push(Op::Answer);
        }
    }
    v
}

fn drop_in<T>(v: T) {
    let _ = sut(move || drop(v));
}

/// A challenge of the same size with other values in it.
fn variant(c: &RChal, k: u64) -> RChal {
    let mut c = c.clone();
    c.sc = crate::choices::mix(k, 77).to_le_bytes();
    let other = |s: &mut String| {
        if s.starts_with(|x: char| x.is_ascii_alphanumeric()) {
            s.replace_range(..1, &((b'a' + (k % 26) as u8) as char).to_string());
        }
    };
    other(&mut c.target);
    for a in &mut c.avs {
        match a {
            RAv::Str(_, s) => other(s),
            RAv::Time(t) => *t = t.wrapping_add(k * 10_000_000) & i64::MAX as u64,
            _ => {}
        }
    }
    c
}

fn cycle(cx: &mut Ctx, c: &mut Box<dyn sut::AnyClient>, ops: &[Op], k: u64, tell: bool) -> u64 {
    use http_ntlm::messages::{Authenticate, Negotiate};
    let mut steps = 0;
    for op in ops {
        match op {
            Op::Negotiate => {
                let r = c.negotiate();
                steps += sut::mem().steps;
                if tell { cx.ev("negotiate", r.is_ok() as u64, 0, r.as_deref().unwrap_or(&[])); }
                drop_in(r.ok());
            }
            Op::Deliver(_) | Op::Challenge(..) => {
                let b = &match op {
                    Op::Challenge(c, l) => enc_chal(&variant(c, k), l),
                    Op::Deliver(b) => b.clone(),
                    _ => unreachable!(),
                };
                let r = sut::decode_challenge(b);
                steps += sut::mem().steps;
                match r {
                    Ok(Ok(x)) => {
                        let r = c.receive(x);
                        steps += sut::mem().steps;
                        if tell { cx.ev("deliver", r.is_ok() as u64, 0, b); }
                    }
                    Ok(Err(e)) => {
                        if tell { cx.ev("refuse", 0, 0, b); }
                        drop_in(e);
                    }
                    Err(_) => {}
                }
            }
            Op::Answer => {
                let r = c.authenticate();
                steps += sut::mem().steps;
                if tell { cx.ev("answer", r.is_ok() as u64, 0, r.as_deref().unwrap_or(&[])); }
                drop_in(r.ok());
            }
            Op::AnswerNoEntropy => {
                os().ent_faults.push_back(EntFault::Err(libc::EIO));
                if tell {
                    cx.fault("entropy-failed");
                }
                let r = c.authenticate();
                steps += sut::mem().steps;
                os().ent_faults.clear();
                if tell { cx.ev("answer-no-entropy", r.is_ok() as u64, 0, r.as_deref().unwrap_or(&[])); }
                drop_in(r.ok());
            }
            Op::Decode(b) => {
                macro_rules! t {
                    ($t:ty) => {
                        if let Ok(r) = sut(|| http_ntlm::sim::decode::<$t>(b).map(|(_, v)| v)) {
                            steps += sut::mem().steps;
                            drop_in(r);
                        }
                    };
                }
                t!(Negotiate);
                t!(Authenticate);
                t!(http_ntlm::messages::Challenge);
            }
        }
    }
    steps
}

/// A client in service for a very long time: counters wrap, tables fill, and nothing may come of it.
/// Judged as C05 (each response answers the first challenge since the negotiate message), C11 (the exchanges
/// verify) and C17 (the negotiate messages do not change).
pub fn long_service(cx: &mut Ctx) {
    let (c05, c17) = (cx.prop == "C05", cx.prop == "C17");
    os::reset();
    let seed = cx.ch.u64();
    os().entropy = crate::choices::Rng::new(seed);
    let host = world::plain_host();
    let (acct, form) = gen::account(&mut cx.ch);
    let level = cx.ch.draw(6) as u32;
    let n = *cx.ch.pick(&[300u64, 300, 700, 700, 1_500, 1_500, 5_000, 66_000]);
    let (second, dud, abandon, again) = (cx.ch.draw(5), cx.ch.draw(5), cx.ch.draw(5), cx.ch.draw(5));
    let mut chal = gen::conformant(&mut cx.ch);
    if chal.avs.iter().any(|a| a.raw().1.len() > 500) {
        chal.avs = vec![RAv::Str(2, "D".into()), RAv::Eol];
    }
    // the cost of one handshake goes with the texts
    let n = if acct.user.len() + acct.domain.len() + chal.target.len() > 1_500 { n.min(1_500) } else { n };
    let l = Layout { version_hole: true, ..Default::default() };
    {
        let o = os();
        o.env = host.env.clone();
        o.host = host.file.clone();
        o.rt = (1_700_000_000, 0);
    }
    let Ok(mut c) = gen::client(level, &acct, form, "HTTP/server") else { return };
    cx.note(|| format!("account {:?} level {} handshakes {} period of: second challenge {} failing random source {} abandoned {} asked again {}", acct, level, n, second, dud, abandon, again));
    cx.count("handshakes-on-one-client", n);
    let on = |p: u64, k: u64| p > 0 && k % (p + 1) == p;
    let asp = if c05 { A_NT | A_LM | A_ECHO } else { A_NT | A_LM | A_IDENT | A_MIC | A_KEY };
    let mut first: Option<Vec<u8>> = None;
    let mut duds = 0;
    for k in 0..n {
        if k % 256 == 0 {
            crate::arm();
        }
        let neg = match c.negotiate() {
            Ok(x) => x,
            Err(e) => return cx.fail("client-fails-in-long-service", || format!("negotiate {} of a level {} client: {}", k + 1, level, e.0)),
        };
        cx.checks += 1;
        let f = first.get_or_insert_with(|| neg.clone());
        if *f != neg && c17 {
            return cx.fail("negotiate-depends-on-history", || format!("handshake {}: {} instead of {}", k + 1, crate::ctx::hexs(&neg), crate::ctx::hexs(f)));
        }
        if on(abandon, k) {
            if c05 {
                if let Ok(m) = c.authenticate() {
                    if !m.is_empty() {
                        return cx.fail("authenticate-without-challenge", || format!("handshake {}: {}", k + 1, crate::ctx::hexs(&m)));
                    }
                }
            } else {
                continue;
            }
        }
        let ch = variant(&chal, k);
        let raw = enc_chal(&ch, &l);
        match sut::decode_challenge(&raw) {
            Ok(Ok(x)) => {
                if c.receive(x).is_err() {
                    return cx.fail("client-fails-in-long-service", || format!("challenge {}", k + 1));
                }
            }
            _ => return cx.fail("client-fails-in-long-service", || format!("decoding challenge {}", k + 1)),
        }
        if on(second, k) {
            let other = enc_chal(&variant(&chal, k + 1), &l);
            if let Ok(Ok(x)) = sut::decode_challenge(&other) {
                let _ = c.receive(x);
            }
        }
        if on(dud, k) {
            os().ent_faults.push_back(EntFault::Err(libc::EIO));
            duds += 1;
            let _ = c.authenticate();
            os().ent_faults.clear();
        }
        let m = c.authenticate();
        if !c05 && (on(dud, k) || on(second, k)) {
            // what is owed here is C05's business
            continue;
        }
        let m = match m {
            Ok(m) => m,
            Err(e) => return cx.fail("client-fails-in-long-service", || format!("response {} of a level {} client: {}", k + 1, level, e.0)),
        };
        cx.checks += 1;
        if !c17 && (k < 4 || k + 4 > n || (k + 2) & (k + 1) == 0 || (k + 1) & k == 0 || k % 64 == 0) {
            let key = c.exported_key();
            let e = Expect { level, acct: &acct, neg: &neg, chal_raw: &raw, chal: &ch, ws: Some(&host.ws), clock: None, exported: key.as_deref(), want_key: true, version: None };
            let rep = verify(&m, &e);
            if let Some((_, kind, d)) = rep.errs.iter().find(|e| e.0 & asp != 0) {
                return cx.fail("exchange-fails-in-long-service", || format!("handshake {} of a level {} client: {} {}", k + 1, level, kind, d));
            }
            cx.ev("verified", k, 0, &m);
        }
        if on(again, k) {
            // a challenge that comes too late must not be answered the next time
            if let Ok(Ok(x)) = sut::decode_challenge(&enc_chal(&variant(&chal, k + 3), &l)) {
                let _ = c.receive(x);
            }
            let _ = c.authenticate();
        }
    }
    cx.nontrivial = true;
    cx.faults_n("entropy-failed", duds);
    cx.ev("served", n, 0, &[]);
}

/// The same cycle of operations, over and over, on one client; and clients built and dropped.
pub fn long_life(cx: &mut Ctx) {
    os::reset();
    let seed = cx.ch.u64();
    os().entropy = crate::choices::Rng::new(seed);
    let mut host = if cx.ch.chance(128) { world::odd_host(cx) } else { world::plain_host() };
    let (acct, form) = gen::account(&mut cx.ch);
    let level = cx.ch.draw(6) as u32;
    let ops = script(cx);
    let big: usize = ops.iter().map(|o| match o { Op::Deliver(b) | Op::Decode(b) => b.len(), Op::Challenge(c, l) => enc_chal(c, l).len(), _ => 0 }).sum();
    let mut cycles = *cx.ch.pick(&[6u64, 12, 24, 40]);
    if cx.ch.chance(2) {
        // what was set aside in advance is used up at some point
        cycles = if big > 6_000 { 150 } else { *cx.ch.pick(&[150u64, 300, 1_100, 4_500]) };
    }
    let lives = *cx.ch.pick(&[3u64, 3, 6, 10]);
    host.ws = world::expected_ws(&host);
    cx.note(|| format!("account {:?} level {} cycles {} lives {}", acct, level, cycles, lives));
    let mut ends = vec![];
    for life in 0..lives {
        {
            let o = os();
            o.env = host.env.clone();
            o.host = host.file.clone();
            o.stderr_err = host.stderr_err;
            o.rt = (1_700_000_000, 0);
        }
        let before = world::hostcounts();
        let c = gen::client(level, &acct, form, "HTTP/server");
        world::host_faults(cx, before);
        cx.checks += 1;
        if !os().fds.is_empty() {
            cx.fail("descriptor-left-open", || format!("after building client {}: {:?}", life, os().fds));
            return;
        }
        let Ok(mut c) = c else { return };
        // the long life is the last but one; the others are short
        let n = if life == lives - 2 { cycles } else { 3 };
        let mut held = vec![];
        let mut work = vec![];
        for k in 0..n {
            if k % 32 == 0 {
                crate::arm();
            }
            work.push(cycle(cx, &mut c, &ops, life * 10_000 + k, k < 64));
            held.push(sut::net());
            if k < 64 || k + 2 > n {
                cx.ev("held", k, 0, &held[held.len() - 1].to_le_bytes());
            }
        }
        if n > 3 {
            cx.checks += 2;
            cx.count("cycles-on-one-client", n);
            let (a, b) = (held[2], *held.last().unwrap());
            if b > a {
                cx.fail("client-grows-with-use", || format!("level {}: {} bytes held after 3 cycles, {} after {}", level, a, b, n));
            }
            let (a, b) = (work[1].max(work[2]), *work.last().unwrap());
            if b > a + a / 2 + 2_000 {
                cx.fail("work-grows-with-use", || format!("level {}: {} basic blocks in cycle 3, {} in cycle {}", level, a, b, n));
            }
            let texts = acct.user.len() + acct.domain.len() + host.env.iter().map(|e| e.1.as_bytes().len()).sum::<usize>();
            let limit = 256 * 1024 + 200 * (big + texts + 400_000.min(host.file.data.len() * 4)) as i64;
            if held[2] - ends.last().copied().unwrap_or(0) > limit {
                cx.fail("client-too-large", || format!("{} bytes", held[2]));
            }
        }
        drop_in(c);
        ends.push(sut::net());
        cx.ev("dropped", life, 0, &ends[ends.len() - 1].to_le_bytes());
    }
    cx.nontrivial = true;
    cx.checks += 1;
    cx.count("clients-built-and-dropped", lives);
    let (a, b) = (ends[1], *ends.last().unwrap());
    if b > a {
        cx.fail("dropped-clients-leave-memory", || format!("level {}: {} bytes still held after 2 clients were dropped, {} after {}", level, a, b, lives));
    }
}
