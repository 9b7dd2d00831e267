//! The simulated deployment: clients on their own hosts (clock, environment, host name file,
//! entropy source), reference servers with volatile handshake state, and a network that loses,
//! duplicates, delays, reorders and damages messages. The clients are the real library objects.
use crate::ctx::Ctx;
use crate::gen::{self, Form};
use crate::os::{self, os, EntFault, HostFile, ReadFault};
use crate::refntlm::*;
use crate::sut::{self, AnyClient};
use std::collections::{BTreeMap, VecDeque};
use std::ffi::CString;

#[derive(Clone)]
pub struct WCfg {
    pub aspects: u32,
    pub clients: (u64, u64),
    pub levels: &'static [u32],
    pub rounds: (u64, u64),
    /// probabilities out of 256
    pub p_drop: u64,
    pub p_dup: u64,
    pub p_slow: u64,
    pub p_corrupt: u64,
    pub p_forge: u64,
    pub p_hostile: u64,
    pub p_entropy: u64,
    pub p_entropy_fail: u64,
    pub p_clock: u64,
    pub p_host: u64,
    pub p_crash: u64,
    pub p_misuse: u64,
    pub p_again: u64,
    pub p_wrong_pw: u64,
    pub p_sut_server: u64,
    pub p_version: u64,
    /// share of canonical challenge layouts
    pub canonical: u64,
    /// 0 = plain present-day clocks
    pub odd_clock: u64,
    pub no_time_av: u64,
    pub final_clean: bool,
}

pub const CLEAN: WCfg = WCfg {
    aspects: 0,
    clients: (1, 4),
    levels: &[0, 1, 2, 3, 4, 5],
    rounds: (1, 3),
    p_drop: 0,
    p_dup: 0,
    p_slow: 128,
    p_corrupt: 0,
    p_forge: 0,
    p_hostile: 0,
    p_entropy: 0,
    p_entropy_fail: 0,
    p_clock: 0,
    p_host: 0,
    p_crash: 0,
    p_misuse: 0,
    p_again: 40,
    p_wrong_pw: 0,
    p_sut_server: 64,
    p_version: 24,
    canonical: 150,
    odd_clock: 0,
    no_time_av: 0,
    final_clean: false,
};

pub const EPOCH_DIFF: i128 = 116_444_736_000_000_000;

/// What a client's machine looks like.
#[derive(Clone)]
pub struct Host {
    pub file: HostFile,
    pub env: Vec<(&'static str, CString)>,
    pub stderr_err: Option<i32>,
    /// clock = base + simulated time + skew, in ns
    pub skew_ns: i128,
    pub tick_ns: i64,
    pub ws: String,
}

pub fn plain_host() -> Host {
    Host {
        file: HostFile { open_err: None, data: b"simhost\n".to_vec(), reads: VecDeque::new() },
        env: vec![],
        stderr_err: None,
        skew_ns: 1_700_000_000_000_000_000,
        tick_ns: 0,
        ws: "SIMHOST".into(),
    }
}

/// The workstation a client built on this host must send ("" = absent).
pub fn expected_ws(h: &Host) -> String {
    let usable = |s: &str| s.encode_utf16().count() <= 32767;
    if let Some((_, v)) = h.env.iter().find(|(k, _)| *k == "COMPUTERNAME") {
        if let Ok(s) = std::str::from_utf8(v.as_bytes()) {
            return if usable(s) { s.to_string() } else { String::new() };
        }
    }
    if h.file.open_err.is_some() || h.file.reads.iter().any(|r| matches!(r, ReadFault::Err(_))) {
        return String::new();
    }
    match std::str::from_utf8(&h.file.data) {
        Err(_) => String::new(),
        Ok(t) => {
            let line = t.split('\n').next().unwrap_or("");
            let line = line.strip_suffix('\r').unwrap_or(line);
            let label = line.split('.').next().unwrap_or("").trim().to_uppercase();
            if usable(&label) {
                label
            } else {
                String::new()
            }
        }
    }
}

fn name_line(cx: &mut Ctx) -> String {
    let n = gen::len(&mut cx.ch, 80);
    let mut s: String = gen::text_of(&mut cx.ch, n, false).chars().filter(|c| !c.is_control() && !c.is_whitespace()).collect();
    if cx.ch.chance(100) {
        let at = s.char_indices().map(|(i, _)| i).nth(cx.ch.draw(4) as usize).unwrap_or(s.len());
        s.insert_str(at, *cx.ch.pick(&[".", ".example.org", "."]));
    }
    s
}

pub fn odd_host(cx: &mut Ctx) -> Host {
    let mut h = plain_host();
    match cx.ch.draw(12) {
        0 | 1 => {}
        2 => {
            h.file.open_err = Some(*cx.ch.pick(&[libc::ENOENT, libc::EACCES, libc::EMFILE, libc::EIO, libc::ENOMEM, libc::ELOOP]));
        }
        3 => {
            h.file.data.clear();
            cx.fault("host-file-empty");
        }
        4 => {
            h.file.data = vec![0xff, 0xfe, b'a', 0x80, b'\n'];
            cx.fault("host-file-not-text");
        }
        5 => {
            h.file.data = cx.ch.pick(&[&b"\n"[..], b"\r\n", b".\n", b"   \n", b"\n\nx", b".dom\n", b"a\xc2", b"\0\n", b"a"]).to_vec();
            cx.fault("host-file-degenerate");
        }
        6 => {
            // the limit is in UTF-16 units of the upper-cased label
            let n = *cx.ch.pick(&[4096usize, 20_000, 32_767, 32_768, 70_000, 16_383, 16_384]);
            h.file.data = cx.ch.pick(&["h", "h", "\u{e9}", "\u{10428}", "\u{fb03}"]).repeat(n).into_bytes();
            cx.fault("host-file-huge");
        }
        _ => {
            let mut s = name_line(cx);
            if cx.ch.chance(30) {
                // blanks around the label
                let at = s.find('.').unwrap_or(s.len());
                s.insert_str(at, *cx.ch.pick(&[" ", "\t", "  "]));
                s.insert_str(0, *cx.ch.pick(&["", " ", "\t"]));
            }
            s.push_str(*cx.ch.pick(&["\n", "", "\r\n", "\nsecond line\n", " \n", ".\n"]));
            h.file.data = s.into_bytes();
        }
    }
    for _ in 0..cx.ch.draw(4) {
        let f = match cx.ch.draw(4) {
            0 => ReadFault::Eintr,
            1 | 2 => ReadFault::Short(1 + cx.ch.draw(4) as usize),
            _ => ReadFault::Err(*cx.ch.pick(&[libc::EIO, libc::EISDIR, libc::ESTALE])),
        };
        h.file.reads.push_back(f);
    }
    match cx.ch.draw(8) {
        0..=3 => {}
        4 | 5 => {
            let n = gen::len(&mut cx.ch, 60);
            let s: String = gen::text_of(&mut cx.ch, n, false);
            h.env.push(("COMPUTERNAME", CString::new(s).unwrap_or_default()));
        }
        6 => {
            let v = *cx.ch.pick(&[&b"\xff\xfe"[..], b"ab\x80", b"\xed\xa0\x80"]);
            h.env.push(("COMPUTERNAME", CString::new(v).unwrap()));
            cx.fault("env-not-unicode");
        }
        _ => {
            let n = *cx.ch.pick(&[0usize, 1, 11_000, 16_383, 16_384, 32767, 32768, 40_000]);
            let c = *cx.ch.pick(&["C", "C", "\u{e9}", "\u{4e2d}", "\u{1f600}"]);
            h.env.push(("COMPUTERNAME", CString::new(c.repeat(n)).unwrap()));
            cx.fault("env-odd-length");
        }
    }
    if cx.ch.chance(90) {
        h.stderr_err = Some(*cx.ch.pick(&[libc::EBADF, libc::EIO, libc::ENOSPC, libc::EPIPE]));
    }
    // an error only counts if the reads get that far
    h.ws = expected_ws(&h);
    h
}

pub fn odd_clock_ns(cx: &mut Ctx) -> i128 {
    const S: i128 = 1_000_000_000;
    match cx.ch.draw(10) {
        0 | 1 => 1_700_000_000 * S,
        2 => 0,
        3 => -1 - cx.ch.draw(2_000_000_000) as i128,
        4 => -(cx.ch.draw(11_644_473_600) as i128) * S,
        5 => (-11_644_473_600 - 1 + cx.ch.draw(4) as i128) * S,
        6 => -(11_644_473_600 + cx.ch.draw(1 << 40) as i128) * S,
        7 => cx.ch.draw(253_402_300_800) as i128 * S + cx.ch.draw(1_000_000_000) as i128,
        8 => (1i128 << *cx.ch.pick(&[31u32, 32, 33, 40, 50, 61])) * S,
        _ => (1_833_029_933_770 + cx.ch.draw(3) as i128 - 1) * S,
    }
}

pub fn set_clock(ns: i128) {
    let s = ns.div_euclid(1_000_000_000).clamp(-(1i128 << 62), 1i128 << 62) as i64;
    os().rt = (s, ns.rem_euclid(1_000_000_000) as i64);
}

fn clock_ft() -> i128 {
    let (s, n) = os().rt;
    s as i128 * 10_000_000 + n as i128 / 100 + EPOCH_DIFF
}

#[derive(Clone)]
pub struct ChalInfo {
    pub raw: Vec<u8>,
    pub content: RChal,
    /// connection it was made for
    pub conn: u64,
}

enum CState {
    New,
    NegSent,
    Chal,
    AuthSent,
}

struct Cl {
    obj: Box<dyn AnyClient>,
    level: u32,
    acct: Account,
    form: Form,
    host: Host,
    version: Option<RVer>,
    st: CState,
    neg: Vec<u8>,
    chal: Option<ChalInfo>,
    conn: u64,
    rounds_left: u64,
    fresh_neg: Vec<u8>,
    last_accept: bool,
    wrong_pw: bool,
}

struct SConn {
    client: usize,
    neg_sent: Vec<u8>,
    neg: Vec<u8>,
    chal_raw: Vec<u8>,
    chal: RChal,
}

#[derive(Clone)]
struct Msg {
    to_server: bool,
    client: usize,
    conn: u64,
    bytes: Vec<u8>,
    /// for challenges: the content the server meant
    content: Option<RChal>,
    /// as originally sent
    orig: Vec<u8>,
}

enum Ev {
    Start(usize, bool),
    Arrive(Msg),
    Answer(usize),
    Misuse(usize),
    Jump(usize),
    Crash,
}

pub struct World {
    cfg: WCfg,
    now: u64,
    seq: u64,
    queue: BTreeMap<(u64, u64), Ev>,
    cl: Vec<Cl>,
    conns: BTreeMap<u64, SConn>,
    next_conn: u64,
    /// challenges seen on the wire, for stale and forged delivery
    pool: Vec<(Vec<u8>, RChal, u64, bool)>,
    claims: Vec<(usize, usize)>,
    clean: bool,
    events: u64,
}

pub fn neg_policy(level: u32, acct: &Account, version: Option<RVer>) -> (u32, u32) {
    use fl::*;
    let mut must = UNICODE | OEM | SIGN | ALWAYS_SIGN | SEAL | B128 | REQUEST_TARGET;
    if level == 0 {
        must |= LM_KEY;
    } else {
        must |= ESS;
    }
    if level <= 1 {
        must |= NTLM;
    }
    if level != 1 {
        must |= KEY_EXCH;
    }
    if level >= 2 {
        must |= TARGET_INFO;
    }
    if !acct.domain.is_empty() {
        must |= DOMAIN_SUPPLIED;
    }
    if version.is_some() {
        must |= VERSION;
    }
    // the target-type bits have no meaning in a negotiate message
    (must, !(TYPE_SERVER | TYPE_DOMAIN))
}

/// Checks a negotiate message against its level's policy.
pub fn check_neg(level: u32, acct: &Account, version: Option<RVer>, raw: &[u8]) -> Result<(), (&'static str, String)> {
    let v = parse_neg(raw).map_err(|e| ("malformed-negotiate", e))?;
    let (must, mask) = neg_policy(level, acct, version);
    if v.flags & mask != must & mask {
        return Err(("wrong-negotiate-flags", format!("level {} sent {:08x} policy {:08x}", level, v.flags & mask, must)));
    }
    if acct.domain.is_ascii() && v.domain != acct.domain.as_bytes() || acct.domain.is_empty() != v.domain.is_empty() {
        return Err(("wrong-negotiate-domain", format!("{:02x?} for {:?}", v.domain, acct.domain)));
    }
    if !v.ws.is_empty() {
        return Err(("unexpected-negotiate-workstation", format!("{:02x?}", v.ws)));
    }
    if v.version.unwrap_or([0; 8]) != enc_ver(version) {
        return Err(("wrong-negotiate-version", format!("{:02x?}", v.version)));
    }
    Ok(())
}

pub fn sut_version(v: Option<RVer>) -> Option<http_ntlm::messages::structures::Version> {
    v.map(|v| v.into())
}

/// Takes entropy bytes for one emitted value; every byte handed out may be used once.
pub fn claim(claims: &mut Vec<(usize, usize)>, log: &[u8], v: &[u8]) -> Result<(), &'static str> {
    let mut from = 0;
    let mut seen = false;
    while let Some(i) = find_at(log, v, from) {
        seen = true;
        let j = i + v.len();
        if !claims.iter().any(|(a, b)| i < *b && *a < j) {
            claims.push((i, j));
            return Ok(());
        }
        from = i + 1;
    }
    Err(if seen { "random-value-reused" } else { "random-value-not-from-os" })
}

impl World {
    pub fn new(cfg: WCfg, cx: &mut Ctx) -> Option<World> {
        let seed = cx.ch.u64();
        os().entropy = crate::choices::Rng::new(seed);
        let mut w = World {
            cfg,
            now: 0,
            seq: 0,
            queue: BTreeMap::new(),
            cl: vec![],
            conns: BTreeMap::new(),
            next_conn: 1,
            pool: vec![],
            claims: vec![],
            clean: false,
            events: 0,
        };
        let n = cx.ch.range(w.cfg.clients.0, w.cfg.clients.1);
        for _ in 0..n {
            let c = w.make_client(cx)?;
            w.cl.push(c);
        }
        Some(w)
    }

    fn at(&mut self, dt: u64, e: Ev) {
        self.seq += 1;
        self.queue.insert((self.now + dt, self.seq), e);
    }

    fn enter(&mut self, h: &Host) {
        let o = os();
        o.env = h.env.clone();
        o.host = h.file.clone();
        o.stderr_err = h.stderr_err;
        o.tick_ns = h.tick_ns;
        set_clock(h.skew_ns + self.now as i128 * 1_000_000);
    }

    fn make_client(&mut self, cx: &mut Ctx) -> Option<Cl> {
        let (mut acct, mut form) = gen::account(&mut cx.ch);
        if !self.cl.is_empty() && cx.ch.chance(72) {
            let o = &self.cl[cx.ch.draw(self.cl.len() as u64) as usize];
            (acct, form) = gen::related(&mut cx.ch, &o.acct, o.form, (acct, form));
        }
        let level = *cx.ch.pick(self.cfg.levels);
        let mut host = if self.cfg.p_host > 0 && cx.ch.chance(self.cfg.p_host) { odd_host(cx) } else { plain_host() };
        if self.cfg.odd_clock > 0 && cx.ch.chance(self.cfg.odd_clock) {
            host.skew_ns = odd_clock_ns(cx);
            cx.fault("clock-skew");
        }
        if self.cfg.p_clock > 0 {
            host.tick_ns = *cx.ch.pick(&[0, 1, 999_999_999, 100_000]);
        }
        let version = if cx.ch.chance(self.cfg.p_version) { Some((10, 0, 19041)) } else { None };
        self.enter(&host);
        let before = hostcounts();
        let obj = gen::client(level, &acct, form, "HTTP/server");
        host_faults(cx, before);
        if hostcounts()[3] == before[3] {
            // no read failed after all
            host.file.reads.retain(|r| !matches!(r, ReadFault::Err(_)));
            host.ws = expected_ws(&host);
        }
        cx.ev("new-client", level as u64, form as u64, acct.user.as_bytes());
        cx.note(|| format!("account {:?} {:?} level {} expected workstation {:?}", acct, form, level, host.ws));
        let mut obj = match obj {
            Ok(o) => o,
            Err(p) => {
                cx.checks += 1;
                if !self.aspect(A_LIVE) {
                    return None;
                }
                cx.fail("constructor-crashed", || format!("{:?} for {:?} form {:?}", p.0, acct, form));
                return None;
            }
        };
        cx.checks += 1;
        if version.is_some() {
            obj.set_version(sut_version(version));
        }
        // what a fresh client of the same level and account offers
        let fresh_neg = match gen::client(level, &acct, form, "x") {
            Ok(mut f) => {
                f.set_version(sut_version(version));
                f.negotiate().unwrap_or_default()
            }
            Err(_) => vec![],
        };
        // faults of the name lookup are over; the rest of the host stays as it is
        host.file.reads.clear();
        let rounds_left = cx.ch.range(self.cfg.rounds.0, self.cfg.rounds.1);
        let wrong_pw = cx.ch.chance(self.cfg.p_wrong_pw);
        Some(Cl {
            obj,
            level,
            acct,
            form,
            host,
            version,
            st: CState::New,
            neg: vec![],
            chal: None,
            conn: 0,
            rounds_left,
            fresh_neg,
            last_accept: false,
            wrong_pw,
        })
    }

    fn aspect(&self, a: u32) -> bool {
        self.cfg.aspects & a != 0
    }

    fn entropy_faults(&mut self, cx: &mut Ctx) {
        let o = os();
        o.ent_faults.clear();
        if self.clean || self.cfg.p_entropy == 0 && self.cfg.p_entropy_fail == 0 {
            return;
        }
        if cx.ch.chance(self.cfg.p_entropy) {
            for _ in 0..1 + cx.ch.draw(5) {
                let f = match cx.ch.draw(3) {
                    0 => EntFault::None,
                    1 => EntFault::Eintr,
                    _ => EntFault::Short(1 + cx.ch.draw(7) as usize),
                };
                os().ent_faults.push_back(f);
            }
        }
        if cx.ch.chance(self.cfg.p_entropy_fail) {
            os().ent_faults.push_back(EntFault::Err(*cx.ch.pick(&[libc::EIO, libc::ENOSYS, libc::EPERM])));
        }
    }

    /// Starts a handshake on client `i`.
    fn negotiate(&mut self, cx: &mut Ctx, i: usize) -> Option<Vec<u8>> {
        let h = self.cl[i].host.clone();
        self.enter(&h);
        self.entropy_faults(cx);
        let r = self.cl[i].obj.negotiate();
        os().ent_faults.clear();
        let raw = match r {
            Err(p) => {
                cx.ev("negotiate-crashed", i as u64, 0, p.0.as_bytes());
                cx.checks += 1;
                if self.aspect(A_LIVE) {
                    cx.fail("negotiate-crashed", || p.0.clone());
                }
                return None;
            }
            Ok(r) => r,
        };
        cx.ev("negotiate", i as u64, raw.len() as u64, &raw);
        let c = &mut self.cl[i];
        c.st = CState::NegSent;
        c.chal = None;
        c.neg = raw.clone();
        cx.count("negotiates", 1);
        if self.cfg.aspects & A_NEG != 0 {
            let c = &self.cl[i];
            cx.checks += 2;
            if let Err((k, d)) = check_neg(c.level, &c.acct, c.version, &raw) {
                cx.fail(k, || d);
            }
            if raw != c.fresh_neg {
                cx.fail("negotiate-depends-on-history", || format!("sent {} fresh {}", crate::ctx::hexs(&raw), crate::ctx::hexs(&c.fresh_neg)));
            }
        }
        if self.cfg.aspects & A_SECRET != 0 {
            let c = &self.cl[i];
            cx.checks += 1;
            let (u, d) = (utf16(&c.acct.user), utf16(&c.acct.domain));
            if let Some(s) = secrets(&raw, &c.acct, None, None, &[&u, &d, c.acct.domain.as_bytes()]) {
                cx.fail("secret-in-negotiate", || s.to_string());
            }
        }
        if self.cfg.aspects & A_BACK != 0 {
            self.decode_back(cx, &raw, 1);
        }
        Some(raw)
    }

    /// The library on the other end must be able to read what the library emits.
    fn decode_back(&mut self, cx: &mut Ctx, raw: &[u8], kind: u8) {
        use http_ntlm::messages::{Authenticate, Negotiate};
        cx.checks += 1;
        let r = match kind {
            1 => sut::sut(|| http_ntlm::sim::decode::<Negotiate>(raw).map(|_| ())),
            _ => sut::sut(|| http_ntlm::sim::decode::<Authenticate>(raw).map(|_| ())),
        };
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => cx.fail(if kind == 1 { "negotiate-not-readable" } else { "authenticate-not-readable" }, || e),
            Err(p) => cx.fail("peer-crashed-on-own-message", || p.0),
        }
    }

    /// Hands challenge bytes to client `i` the way an application does.
    fn deliver(&mut self, cx: &mut Ctx, i: usize, raw: &[u8], meant: Option<&RChal>, conn: u64) -> bool {
        let h = self.cl[i].host.clone();
        self.enter(&h);
        let c = match sut::decode_challenge(raw) {
            Err(p) => {
                cx.ev("decode-crashed", i as u64, 0, p.0.as_bytes());
                cx.checks += 1;
                if self.aspect(A_LIVE) {
                    cx.fail("challenge-decoder-crashed", || format!("{} on {}", p.0, crate::ctx::hexs(raw)));
                }
                return false;
            }
            Ok(Err(e)) => {
                cx.ev("challenge-rejected", i as u64, raw.len() as u64, raw);
                cx.checks += 1;
                if meant.is_some() && self.aspect(A_LIVE) {
                    cx.fail("conformant-challenge-rejected", || format!("{} on {}", e, crate::ctx::hexs(raw)));
                }
                return false;
            }
            Ok(Ok(c)) => c,
        };
        let content = match meant {
            Some(m) => m.clone(),
            None => RChal::from_sut(&c),
        };
        cx.ev("challenge-delivered", i as u64, content.flags as u64, raw);
        if let Err(p) = self.cl[i].obj.receive(c) {
            if self.aspect(A_LIVE) {
                cx.fail("receive-crashed", || p.0);
            }
            return false;
        }
        let cl = &mut self.cl[i];
        if matches!(cl.st, CState::NegSent) {
            cl.st = CState::Chal;
            cl.chal = Some(ChalInfo { raw: raw.to_vec(), content, conn });
            true
        } else {
            cx.count("challenges-out-of-turn", 1);
            false
        }
    }

    /// Asks client `i` for its response and judges what comes out.
    fn authenticate(&mut self, cx: &mut Ctx, i: usize) -> Option<Vec<u8>> {
        let h = self.cl[i].host.clone();
        self.enter(&h);
        self.entropy_faults(cx);
        let t0 = clock_ft();
        let err0 = os().n.entropy_err;
        let e0 = (os().n.entropy_eintr, os().n.entropy_short);
        let r = self.cl[i].obj.authenticate();
        let t1 = clock_ft();
        os().ent_faults.clear();
        let hard = os().n.entropy_err - err0;
        cx.faults_n("entropy-interrupted", os().n.entropy_eintr - e0.0);
        cx.faults_n("entropy-short-read", os().n.entropy_short - e0.1);
        cx.faults_n("entropy-failed", hard);
        let has = self.cl[i].chal.is_some();
        let raw = match r {
            Err(p) => {
                cx.ev(if has { "authenticate-refused" } else { "refused-no-challenge" }, i as u64, hard, p.0.as_bytes());
                cx.checks += 1;
                if has && hard == 0 && self.aspect(A_LIVE) {
                    let ch = self.cl[i].chal.as_ref().map(|c| crate::ctx::hexs(&c.raw)).unwrap_or_default();
                    cx.fail("authenticate-crashed", || format!("{} after challenge {}", p.0, ch));
                }
                return None;
            }
            Ok(r) => r,
        };
        cx.ev("authenticate", i as u64, raw.len() as u64, &raw);
        cx.count("authenticates", 1);
        if !has {
            cx.checks += 1;
            if !raw.is_empty() && self.aspect(A_STATE) {
                cx.fail("authenticate-without-challenge", || crate::ctx::hexs(&raw));
            }
            return None;
        }
        if raw.is_empty() {
            if hard == 0 && self.aspect(A_LIVE) {
                cx.fail("no-authenticate-produced", || String::new());
            }
            return None;
        }
        cx.nontrivial = true;
        self.cl[i].st = CState::AuthSent;
        let asp = self.cfg.aspects;
        let c = &self.cl[i];
        let ci = c.chal.clone().unwrap();
        let exported = c.obj.exported_key();
        let clock = if t0 >= 0 && t1 <= u64::MAX as i128 { Some((t0 - 10_000_000, t1 + 10_000_000)) } else { None };
        let e = Expect {
            level: c.level,
            acct: &c.acct,
            neg: &c.neg,
            chal_raw: &ci.raw,
            chal: &ci.content,
            ws: Some(&c.host.ws),
            clock,
            exported: exported.as_deref(),
            want_key: true,
            version: c.version,
        };
        let rep = verify(&raw, &e);
        if os().watch {
            for (n, k) in [("session-base-key", rep.base_key), ("key-exchange-key", rep.kek), ("session-key", rep.key)] {
                if let Some(k) = k {
                    os().secret(n, &k);
                }
            }
        }
        cx.checks += 1;
        for (a, k, d) in &rep.errs {
            if asp & a == 0 {
                continue;
            }
            if *a == A_MIC {
                // Is it the code over the library's own re-encoding of the challenge?
                let canon = sut::decode_challenge(&ci.raw).ok().and_then(|r| r.ok()).and_then(|c| sut::encode_challenge(&c).ok());
                if let (Some(canon), Some(x)) = (canon, exported.as_ref()) {
                    if canon != ci.raw && mic_over(&raw, x, &c.neg, &canon) {
                        cx.fail("mic-over-reencoded-challenge", || format!("received {} re-encoded {}", crate::ctx::hexs(&ci.raw), crate::ctx::hexs(&canon)));
                        continue;
                    }
                }
            }
            cx.fail(k, || format!("{} (level {} challenge {} message {})", d, e.level, crate::ctx::hexs(&ci.raw), crate::ctx::hexs(&raw)));
        }
        if asp & A_ENTROPY != 0 {
            let log: &[u8] = &os().ent_log;
            for (n, v) in [("client nonce", rep.nonce.map(|n| n.to_vec())), ("session key", rep.random_key.map(|k| k.to_vec()))] {
                if let Some(v) = v {
                    cx.checks += 1;
                    if let Err(k) = claim(&mut self.claims, log, &v) {
                        cx.fail(k, || format!("{} {} of a level {} message; entropy handed out: {}", n, crate::ctx::hex(&v), e.level, crate::ctx::hexs(log)));
                    }
                }
            }
        }
        if asp & A_SECRET != 0 {
            cx.checks += 1;
            let (u, d, ws) = (utf16(&c.acct.user), utf16(&c.acct.domain), utf16(&c.host.ws));
            if let Some(s) = secrets(&raw, &c.acct, Some(&rep), exported.as_deref(), &[&u, &d, &ws, &ci.raw]) {
                cx.fail("secret-in-authenticate", || format!("{} (level {} flags {:08x})", s, e.level, ci.content.flags));
            }
        }
        if asp & A_BACK != 0 {
            self.decode_back(cx, &raw, 3);
        }
        if cx.failed() {
            return None;
        }
        Some(raw)
    }

    fn send(&mut self, cx: &mut Ctx, m: Msg) {
        let g = self.cfg.clone();
        if self.clean {
            self.at(1, Ev::Arrive(m));
            return;
        }
        if cx.ch.chance(g.p_drop) {
            cx.fault("message-lost");
            return;
        }
        let mut copies = 1;
        if cx.ch.chance(g.p_dup) {
            cx.fault("message-duplicated");
            copies = 2;
        }
        for _ in 0..copies {
            let mut m = m.clone();
            let mut dt = 1 + cx.ch.draw(20);
            if cx.ch.chance(g.p_slow) {
                dt += *cx.ch.pick(&[50u64, 300, 2_000, 40_000]);
                cx.count("slow-deliveries", 1);
            }
            if cx.ch.chance(g.p_corrupt) {
                let k = gen::corrupt(&mut cx.ch, &mut m.bytes);
                cx.fault(k);
                m.content = None;
            }
            self.at(dt, Ev::Arrive(m));
        }
    }

    fn start(&mut self, cx: &mut Ctx, i: usize) {
        if let Some(raw) = self.negotiate(cx, i) {
            let conn = self.next_conn;
            self.next_conn += 1;
            self.cl[i].conn = conn;
            self.cl[i].last_accept = false;
            let m = Msg { to_server: true, client: i, conn, orig: raw.clone(), bytes: raw, content: None };
            self.send(cx, m);
        }
    }

    fn server_challenge(&mut self, cx: &mut Ctx, i: usize) -> (RChal, Vec<u8>, bool) {
        let hostile = !self.clean && cx.ch.chance(self.cfg.p_hostile);
        let mut c = if hostile {
            cx.fault("hostile-challenge");
            gen::hostile(&mut cx.ch)
        } else {
            gen::conformant(&mut cx.ch)
        };
        if !hostile && cx.ch.chance(24) {
            let k = cx.ch.draw(self.pool.len() as u64 + 1) as usize;
            // (a hostile challenge is no model for a conformant one)
            let e = self.pool.get(k).filter(|e| e.1.flags & fl::UNICODE != 0 && e.3).map(|e| e.1.clone());
            let cl = &self.cl[i];
            let now = ((cl.host.skew_ns + self.now as i128 * 1_000_000) / 100 + EPOCH_DIFF).clamp(0, u64::MAX as i128) as u64;
            gen::coincide(&mut cx.ch, &mut c, &cl.acct, &cl.host.ws, now, e.as_ref());
        }
        if self.cfg.no_time_av > 0 && cx.ch.chance(self.cfg.no_time_av) {
            c.avs.retain(|a| !matches!(a, RAv::Time(_)));
        }
        if !hostile && cx.ch.chance(self.cfg.p_sut_server) {
            if let Some(raw) = crate::build::sut_challenge(&c) {
                cx.count("challenges-encoded-by-library", 1);
                return (c, raw, false);
            }
        }
        let l = if self.clean { Layout { version_hole: true, ..Default::default() } } else { gen::layout(&mut cx.ch, self.cfg.canonical) };
        let raw = enc_chal(&c, &l);
        (c, raw, hostile)
    }

    fn arrive_server(&mut self, cx: &mut Ctx, m: Msg) {
        if m.bytes.len() >= 12 && m.bytes[8] == 1 {
            if self.conns.contains_key(&m.conn) {
                cx.ev("server-duplicate-negotiate", m.conn, 0, &[]);
                // a real server restarts the handshake with a new challenge
            }
            let v = parse_neg(&m.bytes).is_ok();
            cx.ev("server-negotiate", m.conn, v as u64, &m.bytes);
            if !v && m.bytes != m.orig {
                return;
            }
            let (chal, raw, hostile) = self.server_challenge(cx, m.client);
            self.conns.insert(m.conn, SConn { client: m.client, neg_sent: m.orig.clone(), neg: m.bytes.clone(), chal_raw: raw.clone(), chal: chal.clone() });
            self.pool.push((raw.clone(), chal.clone(), m.conn, !hostile));
            let content = if hostile { None } else { Some(chal) };
            self.send(cx, Msg { to_server: false, client: m.client, conn: m.conn, orig: raw.clone(), bytes: raw, content });
            return;
        }
        let Some(s) = self.conns.get(&m.conn) else {
            cx.ev("server-unknown-connection", m.conn, 0, &[]);
            return;
        };
        // the server judges with what it knows
        let c = &self.cl[s.client];
        let acct = if c.wrong_pw { Account { pw: format!("{}x", c.acct.pw), ..c.acct.clone() } } else { c.acct.clone() };
        let e = Expect { level: c.level, acct: &acct, neg: &s.neg, chal_raw: &s.chal_raw, chal: &s.chal, ws: None, clock: None, exported: None, want_key: false, version: c.version };
        let rep = verify(&m.bytes, &e);
        let basic = rep.nt_ok && !rep.errs.iter().any(|(a, _, _)| a & (A_STRUCT | A_IDENT | A_NT | A_KEYFLAG) != 0);
        let accept = basic && rep.mic_ok;
        cx.ev("server-verdict", m.conn, accept as u64, &m.bytes);
        cx.checks += 1;
        let seen = c.chal.as_ref();
        let answers_this = seen.map_or(false, |x| x.conn == m.conn);
        let neg_same = s.neg == s.neg_sent && s.neg == c.neg;
        let same = m.bytes == m.orig && neg_same && seen.map_or(false, |x| x.raw == s.chal_raw);
        if c.wrong_pw {
            if rep.nt_ok && self.cfg.aspects & A_NT != 0 {
                cx.fail("wrong-password-accepted", || format!("level {}", c.level));
            }
            return;
        }
        // Only the client's latest handshake can be compared with what the client now holds.
        if answers_this && c.conn == m.conn && c.level >= 3 && !same && basic && rep.mic_ok && self.cfg.aspects & A_MIC != 0 {
            let canon = |raw: &[u8]| sut::decode_challenge(raw).ok().and_then(|r| r.ok()).and_then(|c| sut::encode_challenge(&c).ok());
            let x = seen.unwrap();
            let by_reencoding = m.bytes == m.orig && neg_same && canon(&x.raw).map_or(false, |k| k == s.chal_raw);
            let k = if by_reencoding { "mic-over-reencoded-challenge" } else { "tampering-not-detected" };
            cx.fail(k, || format!("server accepted although neg {} chal {} auth {}", neg_same, x.raw == s.chal_raw, m.bytes == m.orig));
        }
        if same && c.conn == m.conn && basic {
            cx.count("server-accepts", accept as u64);
            let i = s.client;
            if accept {
                self.cl[i].last_accept = true;
            }
        }
    }

    fn arrive_client(&mut self, cx: &mut Ctx, m: Msg) {
        let i = m.client;
        self.deliver(cx, i, &m.bytes, m.content.as_ref(), m.conn);
        if cx.failed() {
            return;
        }
        // the application answers at once, later, or after something else happened
        let dt = if self.clean { 0 } else { *cx.ch.pick(&[0u64, 0, 5, 100, 30_000]) };
        self.at(dt, Ev::Answer(i));
    }

    fn misuse(&mut self, cx: &mut Ctx, i: usize) {
        match cx.ch.draw(4) {
            0 => {
                cx.count("responses-asked-out-of-turn", 1);
                self.answer(cx, i);
            }
            1 => {
                if !self.pool.is_empty() {
                    let (raw, content, conn, _) = self.pool[cx.ch.draw(self.pool.len() as u64) as usize].clone();
                    cx.fault("stale-challenge");
                    let ok = parse_chal(&raw).is_ok() && content.flags & fl::UNICODE != 0;
                    // content of hostile challenges is taken from the decoder
                    let _ = ok;
                    self.deliver_pool(cx, i, &raw, &content, conn);
                }
            }
            2 => {
                let c = gen::conformant(&mut cx.ch);
                let raw = enc_chal(&c, &Layout { version_hole: true, ..Default::default() });
                cx.fault("unsolicited-challenge");
                self.deliver(cx, i, &raw, Some(&c), 0);
            }
            _ => {
                cx.count("handshakes-restarted", 1);
                self.start(cx, i);
            }
        }
    }

    fn deliver_pool(&mut self, cx: &mut Ctx, i: usize, raw: &[u8], _content: &RChal, conn: u64) {
        self.deliver(cx, i, raw, None, conn);
    }

    fn answer(&mut self, cx: &mut Ctx, i: usize) {
        if let Some(raw) = self.authenticate(cx, i) {
            let conn = self.cl[i].chal.as_ref().map(|c| c.conn).unwrap_or(0);
            self.send(cx, Msg { to_server: true, client: i, conn, orig: raw.clone(), bytes: raw, content: None });
            if !self.clean && cx.ch.chance(self.cfg.p_again) {
                let dt = cx.ch.draw(500);
                cx.count("responses-asked-again", 1);
                self.at(dt, Ev::Answer(i));
            }
        }
    }

    fn step(&mut self, cx: &mut Ctx) -> bool {
        let Some((&k, _)) = self.queue.iter().next() else { return false };
        let e = self.queue.remove(&k).unwrap();
        self.now = k.0;
        self.events += 1;
        let g = self.cfg.clone();
        match e {
            Ev::Start(i, retry) => {
                if !retry {
                    self.cl[i].rounds_left -= 1;
                }
                self.start(cx, i);
                if self.cl[i].rounds_left > 0 {
                    let dt = 1 + cx.ch.draw(5_000);
                    self.at(dt, Ev::Start(i, false));
                }
                if g.p_misuse > 0 {
                    for _ in 0..3 {
                        if cx.ch.chance(g.p_misuse) {
                            let dt = cx.ch.draw(3_000);
                            self.at(dt, Ev::Misuse(i));
                        }
                    }
                }
                if g.p_clock > 0 && cx.ch.chance(g.p_clock) {
                    let dt = cx.ch.draw(2_000);
                    self.at(dt, Ev::Jump(i));
                }
                if g.p_crash > 0 && cx.ch.chance(g.p_crash) {
                    let dt = cx.ch.draw(500);
                    self.at(dt, Ev::Crash);
                }
                if g.p_forge > 0 && cx.ch.chance(g.p_forge) {
                    // an attacker races the server
                    let c = gen::hostile(&mut cx.ch);
                    let l = gen::layout(&mut cx.ch, 128);
                    let raw = enc_chal(&c, &l);
                    let conn = self.cl[i].conn;
                    cx.fault("forged-challenge");
                    let dt = cx.ch.draw(20);
                    self.at(dt, Ev::Arrive(Msg { to_server: false, client: i, conn, orig: vec![], bytes: raw, content: None }));
                }
            }
            Ev::Arrive(m) => {
                if m.to_server {
                    self.arrive_server(cx, m)
                } else {
                    self.arrive_client(cx, m)
                }
            }
            Ev::Answer(i) => self.answer(cx, i),
            Ev::Misuse(i) => self.misuse(cx, i),
            Ev::Jump(i) => {
                cx.fault("clock-jump");
                let ns = if cx.ch.chance(128) {
                    odd_clock_ns(cx)
                } else {
                    let d = (cx.ch.draw(20_000_000_000) as i128 - 10_000_000_000) * *cx.ch.pick(&[1i128, 1000, 100_000]);
                    self.cl[i].host.skew_ns + d
                };
                self.cl[i].host.skew_ns = ns;
            }
            Ev::Crash => {
                cx.fault("server-restart");
                self.conns.clear();
            }
        }
        true
    }

    pub fn run(&mut self, cx: &mut Ctx) {
        for i in 0..self.cl.len() {
            let dt = cx.ch.draw(2_000);
            self.at(dt, Ev::Start(i, false));
        }
        while !cx.failed() && self.events < 400 && self.step(cx) {}
        if self.cfg.final_clean && !cx.failed() {
            self.recover(cx);
        }
        cx.sim_ms += self.now;
    }

    /// Faults have stopped: one complete exchange must succeed for every client.
    fn recover(&mut self, cx: &mut Ctx) {
        self.queue.clear();
        self.clean = true;
        self.cfg.aspects = A_STRUCT | A_IDENT | A_NT | A_LM | A_ECHO | A_KEY | A_KEYFLAG | A_MIC | A_LIVE;
        cx.ev("faults-stop", 0, 0, &[]);
        for i in 0..self.cl.len() {
            self.cl[i].wrong_pw = false;
            self.cl[i].last_accept = false;
            self.start(cx, i);
            let mut n = 0;
            while !cx.failed() && n < 16 && self.step(cx) {
                n += 1;
            }
            if cx.failed() {
                return;
            }
            let c = &self.cl[i];
            cx.checks += 1;
            if !c.last_accept {
                cx.fail("no-recovery", || format!("client {} level {} account {:?} form {:?}: clean exchange not accepted", i, c.level, c.acct, c.form));
            }
            cx.count("recoveries", 1);
        }
    }
}

pub fn hostcounts() -> [u64; 5] {
    let n = &os().n;
    [n.host_open_err, n.host_read_eintr, n.host_read_short, n.host_read_err, n.stderr_err]
}

pub fn host_faults(cx: &mut Ctx, b: [u64; 5]) {
    let a = hostcounts();
    for (k, name) in ["host-file-unopenable", "host-read-interrupted", "host-read-short", "host-read-failed", "stderr-failed"].iter().enumerate() {
        cx.faults_n(name, a[k] - b[k]);
    }
}

pub fn run(cfg: WCfg, cx: &mut Ctx) {
    os::reset();
    if let Some(mut w) = World::new(cfg, cx) {
        w.run(cx);
    }
}
