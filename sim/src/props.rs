//! One profile per property: which part of the system runs, under which faults, judged on what.
use crate::build;
use crate::ctx::{hexs, Ctx};
use crate::gen;
use crate::os::{self, os};
use crate::refntlm::*;
use crate::sut::{self, sut};
use crate::world::{self, WCfg, CLEAN, EPOCH_DIFF};
use http_ntlm::messages::structures::*;
use http_ntlm::messages::{Authenticate, Challenge, Flags, Negotiate};
use std::ffi::CString;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C20", "C21",
];

pub fn canonical_name(p: &str) -> Option<&'static str> {
    PROPS.iter().find(|x| **x == p).copied()
}

pub fn run(cx: &mut Ctx) {
    let p = cx.prop;
    run_as(cx, p)
}

/// Every kind of trouble at once; nothing of it is judged.
pub fn calm_world(cx: &mut Ctx) {
    world::run(
        WCfg {
            aspects: 0,
            p_drop: 20,
            p_dup: 30,
            p_slow: 100,
            p_corrupt: 40,
            p_forge: 50,
            p_hostile: 90,
            p_entropy: 40,
            p_entropy_fail: 30,
            p_clock: 60,
            odd_clock: 30,
            p_host: 90,
            p_crash: 30,
            p_misuse: 90,
            p_again: 80,
            rounds: (1, 3),
            ..CLEAN
        },
        cx,
    )
}

pub fn run_as(cx: &mut Ctx, prop: &str) {
    os::reset();
    match prop {
        "C01" if cx.ch.chance(4) => helpers(cx),
        "C01" => world::run(
            WCfg { aspects: A_STRUCT | A_IDENT | A_NT | A_LM | A_ECHO | A_LIVE, p_wrong_pw: 40, canonical: 110, ..CLEAN },
            cx,
        ),
        "C02" => world::run(WCfg { aspects: A_KEY | A_KEYFLAG, p_entropy: 40, canonical: 180, ..CLEAN }, cx),
        "C03" if cx.ch.chance(20) => mic_again(cx),
        "C03" => world::run(
            WCfg {
                aspects: A_MIC,
                levels: &[3, 4, 5, 3, 4, 5, 2],
                p_corrupt: 40,
                p_dup: 10,
                p_entropy: 20,
                p_clock: 30,
                p_host: 40,
                p_version: 60,
                canonical: 140,
                ..CLEAN
            },
            cx,
        ),
        "C04" if cx.ch.chance(16) => draws(cx),
        "C04" => world::run(
            WCfg {
                aspects: A_ENTROPY,
                p_entropy: 110,
                p_entropy_fail: 40,
                p_again: 110,
                p_misuse: 40,
                p_dup: 20,
                p_drop: 10,
                p_clock: 40,
                rounds: (1, 4),
                ..CLEAN
            },
            cx,
        ),
        "C05" | "C11" | "C17" if cx.ch.chance(1) && cx.ch.chance(80) => crate::hygiene::long_service(cx),
        "C05" => world::run(
            WCfg {
                aspects: A_NT | A_LM | A_ECHO | A_STATE | A_LIVE,
                clients: (1, 3),
                p_dup: 90,
                p_drop: 20,
                p_slow: 140,
                p_misuse: 140,
                p_again: 130,
                p_crash: 40,
                p_entropy_fail: 10,
                rounds: (1, 4),
                ..CLEAN
            },
            cx,
        ),
        "C06" => c06(cx),
        "C07" => {
            if cx.ch.chance(40) {
                world::run(WCfg { aspects: A_BACK | A_STRUCT, p_host: 60, p_version: 80, ..CLEAN }, cx)
            } else {
                c07(cx)
            }
        }
        "C08" => c08(cx),
        "C09" => {
            if cx.ch.chance(90) {
                c09_convert(cx)
            } else {
                world::run(
                    WCfg { aspects: A_TIME | A_LIVE, levels: &[3, 4, 5], p_clock: 160, odd_clock: 150, no_time_av: 150, p_again: 90, ..CLEAN },
                    cx,
                )
            }
        }
        "C10" => world::run(WCfg { aspects: A_WS | A_LIVE | A_NT, p_host: 230, clients: (1, 3), rounds: (1, 2), p_entropy: 20, ..CLEAN }, cx),
        "C11" => world::run(
            WCfg {
                aspects: 0,
                p_drop: 30,
                p_dup: 30,
                p_slow: 100,
                p_corrupt: 40,
                p_forge: 50,
                p_hostile: 40,
                p_entropy: 30,
                p_entropy_fail: 30,
                p_clock: 60,
                odd_clock: 30,
                p_host: 40,
                p_crash: 60,
                p_misuse: 90,
                p_again: 80,
                rounds: (0, 4).max((1, 4)),
                final_clean: true,
                ..CLEAN
            },
            cx,
        ),
        "C12" => world::run(
            WCfg { aspects: A_DOWN, p_hostile: 210, p_corrupt: 50, p_forge: 60, p_dup: 30, p_misuse: 40, canonical: 200, p_sut_server: 20, ..CLEAN },
            cx,
        ),
        "C13" => world::run(
            WCfg {
                aspects: A_SECRET,
                p_hostile: 150,
                p_corrupt: 40,
                p_forge: 40,
                p_misuse: 60,
                p_entropy: 60,
                p_entropy_fail: 30,
                p_host: 40,
                p_again: 90,
                p_clock: 40,
                ..CLEAN
            },
            cx,
        ),
        "C14" => c14(cx),
        "C15" => crate::threads::run(cx),
        "C16" => {
            if cx.ch.chance(60) {
                world::run(WCfg { aspects: A_BACK | A_LIVE | A_NT, p_version: 60, ..CLEAN }, cx)
            } else {
                c16(cx)
            }
        }
        "C17" => world::run(
            WCfg {
                aspects: A_NEG,
                p_hostile: 110,
                p_corrupt: 40,
                p_forge: 40,
                p_dup: 40,
                p_drop: 30,
                p_misuse: 160,
                p_again: 90,
                p_entropy_fail: 30,
                p_clock: 40,
                p_version: 40,
                rounds: (2, 5),
                clients: (1, 3),
                ..CLEAN
            },
            cx,
        ),
        "C18" => crate::diag::run(cx),
        "C20" => crate::hygiene::calm(cx),
        "C21" => crate::hygiene::long_life(cx),
        _ => unreachable!(),
    }
}

pub fn dec<'a, T>(b: &'a [u8]) -> Result<Result<T, String>, sut::Panicked>
where
    T: for<'x> Decodable<'x>,
{
    sut(|| T::dec(b))
}

/// The library types reachable through the simulator's codec access.
pub trait Decodable<'a>: Sized {
    fn dec(b: &'a [u8]) -> Result<Self, String>;
}
macro_rules! decodable {
    ($($t:ty),*) => { $(impl<'a> Decodable<'a> for $t {
        fn dec(b: &'a [u8]) -> Result<Self, String> { http_ntlm::sim::decode::<$t>(b).map(|(_, v)| v) }
    })* };
}
decodable!(
    Negotiate, Challenge, Authenticate, AvPair, Vec<AvPair>, NtChallenge, Ntv1Challenge, Ntv2Challenge, LmChallenge, Lmv1Challenge, Lmv2Challenge,
    FileTime, SingleHostData, MsvAvFlags, Version, MessageSignature, Flags, ServerChallenge, Mic0, EncryptedRandomSessionKey
);
type Mic0 = ExportedSessionKey;

macro_rules! enc {
    ($v:expr) => {
        sut(|| {
            let mut out = Vec::new();
            let n = http_ntlm::sim::encode($v, &mut out);
            (n, out)
        })
    };
}

/// Encodes and checks the reported size; None after a reported failure.
macro_rules! enc_checked {
    ($cx:expr, $v:expr, $kind:expr) => {
        match enc!($v) {
            Err(p) => {
                $cx.fail("encoder-crashed", || format!("{} {}", $kind, p.0));
                None
            }
            Ok((Ok(n), out)) if n == out.len() => Some(out),
            Ok((n, out)) => {
                $cx.fail("encoder-miscounts", || format!("{} says {:?} wrote {}", $kind, n, out.len()));
                None
            }
        }
    };
}

// ------------------------------------------------------------------ C06

pub fn r_neg(cx: &mut Ctx) -> RNeg {
    let ch = &mut cx.ch;
    let mut n = RNeg { flags: fl::UNICODE, ..Default::default() };
    n.flags |= plain_flags(ch, true);
    if ch.chance(128) {
        n.domain = gen::nonempty_name(ch);
        n.flags |= fl::DOMAIN_SUPPLIED;
    }
    if ch.chance(128) {
        n.ws = gen::nonempty_name(ch);
        n.flags |= fl::WS_SUPPLIED;
    }
    if ch.chance(2) && n.domain.is_ascii() && n.ws.is_ascii() {
        let t = if ch.chance(128) { &mut n.domain } else { &mut n.ws };
        gen::stretch(ch, t, 32_767);
        if ch.chance(60) && !t.is_empty() {
            *t = "z".repeat(65_535);
        }
    }
    if ch.chance(24) {
        n.flags = n.flags & !fl::UNICODE | fl::OEM;
    }
    if ch.chance(128) {
        n.flags |= fl::VERSION;
        n.version = Some((ch.draw(256) as u8, ch.draw(256) as u8, ch.draw(65536) as u16));
    }
    n
}

/// Any legal combination of the flags that announce no content.
fn plain_flags(ch: &mut crate::choices::Choices, key_exch: bool) -> u32 {
    use fl::*;
    let mut f = 0;
    for b in [OEM, SIGN, SEAL, NTLM, ALWAYS_SIGN, IDENTIFY, NON_NT, B128, B56, DATAGRAM, ANON] {
        if ch.chance(100) {
            f |= b;
        }
    }
    if key_exch && ch.chance(128) {
        f |= KEY_EXCH;
    }
    match ch.draw(3) {
        0 => f |= ESS,
        1 => f |= LM_KEY,
        _ => {}
    }
    match ch.draw(3) {
        0 => f |= TYPE_DOMAIN,
        1 => f |= TYPE_SERVER,
        _ => {}
    }
    f
}

pub fn r_chal(cx: &mut Ctx) -> RChal {
    let mut c = gen::conformant(&mut cx.ch);
    if cx.ch.chance(40) {
        c.flags = c.flags & (fl::VERSION | fl::TARGET_INFO | fl::REQUEST_TARGET) | fl::UNICODE | plain_flags(&mut cx.ch, true);
    }
    if c.version.is_some() {
        c.version = Some((cx.ch.draw(256) as u8, cx.ch.draw(256) as u8, cx.ch.draw(65536) as u16));
    }
    c
}

pub fn v2_response(cx: &mut Ctx) -> Vec<u8> {
    let mut v = cx.ch.bytes(16);
    v.extend([1, 1, 0, 0, 0, 0, 0, 0]);
    v.extend(gen::filetime(&mut cx.ch).to_le_bytes());
    v.extend(cx.ch.bytes8());
    v.extend([0; 4]);
    if cx.ch.chance(200) {
        v.extend(enc_avs(&gen::avs(&mut cx.ch)));
    }
    v.extend([0; 4]);
    v
}

pub fn r_auth(cx: &mut Ctx) -> RAuth {
    let mut a = RAuth { flags: fl::UNICODE | plain_flags(&mut cx.ch, false), ..Default::default() };
    if cx.ch.chance(220) {
        a.lm = cx.ch.bytes(24);
    }
    match cx.ch.draw(8) {
        0 => {}
        1..=3 => a.nt = cx.ch.bytes(24),
        _ => a.nt = v2_response(cx),
    }
    let ch = &mut cx.ch;
    a.domain = if ch.chance(200) { gen::name(ch) } else { String::new() };
    a.user = if ch.chance(230) { gen::name(ch) } else { String::new() };
    a.ws = if ch.chance(200) { gen::name(ch) } else { String::new() };
    if ch.chance(2) {
        let t = *ch.pick(&[0, 1, 2]);
        gen::stretch(ch, [&mut a.domain, &mut a.user, &mut a.ws][t], 32_767);
    }
    if ch.chance(128) {
        a.esk = ch.bytes(16);
        a.flags |= fl::KEY_EXCH;
    }
    if ch.chance(128) {
        a.flags |= fl::VERSION;
        a.version = Some((ch.draw(256) as u8, ch.draw(256) as u8, ch.draw(65536) as u16));
    }
    if ch.chance(150) {
        a.mic.copy_from_slice(&ch.bytes(16));
    }
    if ch.chance(128) {
        a.flags |= fl::TARGET_INFO | fl::REQUEST_TARGET;
    }
    a
}

pub fn hostile_bytes(cx: &mut Ctx) -> (u64, Vec<u8>) {
    let kind = cx.ch.draw(16);
    let mut b = match kind {
        0..=5 => {
            let c = if cx.ch.chance(128) { gen::hostile(&mut cx.ch) } else { r_chal(cx) };
            let l = gen::layout(&mut cx.ch, 100);
            enc_chal(&c, &l)
        }
        6 | 7 => {
            let c = r_auth(cx);
            let l = gen::layout(&mut cx.ch, 100);
            enc_auth(&c, &l)
        }
        8 => {
            let c = r_neg(cx);
            let l = gen::layout(&mut cx.ch, 100);
            enc_neg(&c, &l)
        }
        9 => {
            // right header, random rest
            let mut v = b"NTLMSSP\0".to_vec();
            v.extend((1 + cx.ch.draw(3) as u32).to_le_bytes());
            let n = cx.ch.draw(140) as usize;
            let r = cx.ch.bytes(n);
            v.extend(r);
            v
        }
        10 => {
            // a pair list with lengths that may lie
            let mut v = enc_avs(&gen::avs(&mut cx.ch));
            if v.len() > 4 {
                let i = cx.ch.draw(v.len() as u64) as usize;
                v[i] = cx.ch.draw(256) as u8;
            }
            v
        }
        11 => {
            // wrong-size pairs
            let mut v = Vec::new();
            for _ in 0..1 + cx.ch.draw(5) {
                let id = cx.ch.draw(13) as u16;
                let n = *cx.ch.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 47, 48, 49, 33]);
                v.extend(id.to_le_bytes());
                v.extend((n as u16).to_le_bytes());
                let r = if cx.ch.chance(128) { vec![0; n] } else { cx.ch.bytes(n) };
                v.extend(r);
            }
            if cx.ch.chance(128) {
                v.extend([0; 4]);
            }
            v
        }
        12 => {
            let n = *cx.ch.pick(&[0usize, 1, 3, 4, 8, 12, 16, 24, 28, 44, 48]);
            cx.ch.bytes(n)
        }
        13 => v2_response(cx),
        14 => {
            // large
            let n = *cx.ch.pick(&[1000usize, 20_000, 65_480, 65_480, 65_487, 65_535, 65_536, 131_072]);
            let fill = *cx.ch.pick(&[0u8, 1, 0x41, 0xff]);
            let mut v = b"NTLMSSP\0\x02\0\0\0".to_vec();
            v.resize(48, 0);
            v[20] = 1;
            let big = (n.min(65_535) & !3) as u16;
            for (at, len, off) in [(12usize, *cx.ch.pick(&[0u16, big]), 48u32), (40, big, 48)] {
                v[at..at + 2].copy_from_slice(&len.to_le_bytes());
                v[at + 4..at + 8].copy_from_slice(&off.to_le_bytes());
            }
            v.resize(48 + n, fill);
            let m = v.len();
            if cx.ch.chance(200) && m >= 56 {
                // one huge terminated pair list: a name, then the end marker
                let end = 48 + big as usize;
                let id = *cx.ch.pick(&[1u16, 5, 9]);
                let n = big - 8;
                v[48..50].copy_from_slice(&id.to_le_bytes());
                v[50..52].copy_from_slice(&n.to_le_bytes());
                for x in v[52..end].chunks_mut(2) {
                    x.copy_from_slice(&[0x61, 0][..x.len()]);
                }
                v[end - 4..end].fill(0);
            } else if cx.ch.chance(128) && m >= 56 {
                // as many pairs as fit, each as short as can be, then the end marker
                let end = 48 + big as usize;
                let id = cx.ch.draw(12) as u16;
                let n = *cx.ch.pick(&[0usize, 0, 2, 4, 8]);
                let mut k = 0u16;
                for x in v[48..end].chunks_mut(4 + n) {
                    let t = if id == 0 { 1 + k % 10 } else { id };
                    k += 1;
                    if x.len() == 4 + n {
                        x.fill(0);
                        x[..2].copy_from_slice(&t.to_le_bytes());
                        x[2..4].copy_from_slice(&(n as u16).to_le_bytes());
                    } else {
                        x.fill(0);
                    }
                }
                v[end - 4..end].fill(0);
            }
            v
        }
        _ => {
            let n = cx.ch.draw(300) as usize;
            cx.ch.bytes(n)
        }
    };
    let cuts = match cx.ch.draw(4) {
        0 => 0,
        1 | 2 => 1,
        _ => 1 + cx.ch.draw(5),
    };
    for _ in 0..cuts {
        let k = gen::corrupt(&mut cx.ch, &mut b);
        cx.fault(k);
    }
    (kind, b)
}

fn mem_bound(len: usize) -> i64 {
    len as i64 * 160 + 65_536
}

/// Basic-block edges one call may execute. Measured use is below a tenth of this; work that grows
/// with the square of the input, or never ends, is far above it.
fn step_bound(len: usize) -> u64 {
    len as u64 * 150 + 60_000
}

fn c06(cx: &mut Ctx) {
    let (kind, b) = hostile_bytes(cx);
    cx.ev("hostile-bytes", kind, b.len() as u64, &b);
    macro_rules! try_one {
        ($t:ty, $name:expr) => {{
            cx.checks += 1;
            let r = dec::<$t>(&b);
            let m = sut::mem();
            match r {
                Err(p) => {
                    cx.fail("decoder-crashed", || format!("{} {} on {}", $name, p.0, hexs(&b)));
                    None
                }
                Ok(r) => {
                    if m.steps > step_bound(b.len()) {
                        cx.fail("decoder-work", || format!("{} ran {} basic blocks for {} input bytes", $name, m.steps, b.len()));
                    }
                    if m.peak > mem_bound(b.len()) {
                        cx.fail("decoder-memory", || format!("{} used {} bytes for {} input bytes", $name, m.peak, b.len()));
                    }
                    cx.ev($name, r.is_ok() as u64, 0, &[]);
                    r.ok()
                }
            }
        }};
    }
    let chal = try_one!(Challenge, "as-challenge");
    if let Some(a) = try_one!(Authenticate, "as-authenticate") {
        cx.nontrivial = true;
        if let Err(p) = sut(|| (format!("{:?}", a).len(), http_ntlm::sim::encode(&a, &mut Vec::new()).is_ok())) {
            cx.fail("accepted-message-crashes", || format!("authenticate {} on {}", p.0, hexs(&b)));
        }
    }
    if let Some(n) = try_one!(Negotiate, "as-negotiate") {
        cx.nontrivial = true;
        if let Err(p) = sut(|| (format!("{:?}", n).len(), http_ntlm::sim::encode(&n, &mut Vec::new()).is_ok())) {
            cx.fail("accepted-message-crashes", || format!("negotiate {} on {}", p.0, hexs(&b)));
        }
    }
    // parts: the same bytes, and the payload part of them
    match cx.ch.draw(12) {
        0 => drop(try_one!(AvPair, "as-avpair")),
        1 | 2 => drop(try_one!(Vec<AvPair>, "as-avpairs")),
        3 | 4 => drop(try_one!(NtChallenge, "as-nt-response")),
        5 => drop(try_one!(Ntv2Challenge, "as-ntv2")),
        6 => drop(try_one!(LmChallenge, "as-lm-response")),
        7 => drop(try_one!(FileTime, "as-filetime").map(|t| sut(|| t.to_system_time()))),
        8 => drop(try_one!(SingleHostData, "as-single-host")),
        9 => drop(try_one!(Version, "as-version")),
        10 => drop(try_one!(MessageSignature, "as-signature")),
        _ => {
            drop(try_one!(EncryptedRandomSessionKey, "as-key"));
            drop(try_one!(MsvAvFlags, "as-avflags"));
            let _ = try_one!(Flags, "as-flags");
            drop(try_one!(Ntv1Challenge, "as-ntv1"));
            drop(try_one!(Lmv1Challenge, "as-lmv1"));
            drop(try_one!(Lmv2Challenge, "as-lmv2"));
            drop(try_one!(ServerChallenge, "as-server-challenge"));
        }
    }
    // an accepted challenge is handed to a client
    if let Some(c) = chal {
        cx.nontrivial = true;
        cx.count("challenges-accepted", 1);
        if let Err(p) = sut(|| {
            let _ = format!("{:?}", c);
            for a in c.get_target_infos() {
                if let AvPair::MsvAvTimestamp(t) = a {
                    let _ = t.to_system_time();
                }
            }
        }) {
            cx.fail("accepted-message-crashes", || format!("challenge {} on {}", p.0, hexs(&b)));
        }
        let level = cx.ch.draw(6) as u32;
        let Ok(mut cl) = sut::make(level, "User", Some("Domain"), "Password", "") else {
            cx.fail("constructor-crashed", || "User/Domain".into());
            return;
        };
        let early = cx.ch.chance(30);
        if !early {
            let _ = cl.negotiate();
        }
        cx.checks += 1;
        if let Err(p) = cl.receive(c) {
            cx.fail("receive-crashed", || format!("{} on {}", p.0, hexs(&b)));
            return;
        }
        let r = cl.authenticate();
        let m = sut::mem();
        cx.ev("reaction", level as u64, r.is_ok() as u64, &[]);
        match r {
            Err(p) if !early => cx.fail("response-crashed", || format!("level {} {} on {}", level, p.0, hexs(&b))),
            Ok(v) if !early && v.is_empty() => cx.fail("response-empty", || format!("level {}", level)),
            _ => {
                if m.steps > step_bound(b.len()) * 4 {
                    cx.fail("response-work", || format!("{} basic blocks for {} input bytes", m.steps, b.len()));
                }
                if m.peak > mem_bound(b.len()) * 4 {
                    cx.fail("response-memory", || format!("{} bytes for {} input bytes", m.peak, b.len()));
                }
            }
        }
    }
}

// ------------------------------------------------------------------ C07

fn opt(s: &Option<String>) -> &str {
    s.as_deref().unwrap_or("")
}

fn neg_content(n: &Negotiate) -> RNeg {
    RNeg {
        flags: n.negotiate_flags.0,
        domain: n.get_domain_name().cloned().unwrap_or_default(),
        ws: n.get_workstation().cloned().unwrap_or_default(),
        version: n.version.as_ref().map(|v| (v.major, v.minor, v.build)),
    }
}

fn auth_content(a: &Authenticate) -> RAuth {
    let enc = |r: Result<(std::io::Result<usize>, Vec<u8>), sut::Panicked>| r.map(|x| x.1).unwrap_or_default();
    let mut mic = [0; 16];
    mic.copy_from_slice(&a.mic[..16]);
    let s = |o: Option<String>| opt(&o).to_string();
    RAuth {
        lm: a.lm_challenge_response.as_ref().map(|v| enc(enc!(v))).unwrap_or_default(),
        nt: a.nt_challenge_response.as_ref().map(|v| enc(enc!(v))).unwrap_or_default(),
        domain: s(a.domain.as_ref().map(|x| x.to_string())),
        user: s(a.user.as_ref().map(|x| x.to_string())),
        ws: s(a.workstation.as_ref().map(|x| x.to_string())),
        esk: a.get_encrypted_random_session_key().map(|k| k.to_vec()).unwrap_or_default(),
        flags: a.negotiate_flags.0,
        version: a.version.as_ref().map(|v| (v.major, v.minor, v.build)),
        mic,
    }
}

/// A message crosses the link in fragments; the reader looks at what it has after each one.
macro_rules! transit {
    ($cx:ident, $t:ty, $name:expr, $bytes:expr, $want:expr, $content:expr) => {{
        let bytes: &[u8] = $bytes;
        let want = $want;
        $cx.ev($name, bytes.len() as u64, 0, bytes);
        $cx.nontrivial = true;
        $cx.checks += 1;
        let full = match dec::<$t>(bytes) {
            Err(p) => {
                $cx.fail("decoder-crashed", || format!("{} {} on {}", $name, p.0, hexs(bytes)));
                None
            }
            Ok(Err(e)) => {
                $cx.fail("well-formed-message-rejected", || format!("{} {} on {}", $name, e, hexs(bytes)));
                None
            }
            Ok(Ok(v)) => {
                let got = $content(&v);
                if got != want {
                    $cx.fail("content-changed", || {
                        let (a, b) = (format!("{:?}", want), format!("{:?}", got));
                        let k = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count();
                        let from = |s: &str| s.chars().skip(k.saturating_sub(60)).take(300).collect::<String>();
                        format!("{}: sent ..{} read ..{}", $name, from(&a), from(&b))
                    });
                }
                Some(v)
            }
        };
        if full.is_some() && !$cx.failed() {
            // cut points: all of them for short messages, a sample with all header cuts otherwise
            let n = bytes.len();
            let step = if n <= 400 { 1 } else { 1 + n / 160 };
            let mut cut = 0;
            let mut torn = 0;
            while cut < n && !$cx.failed() {
                $cx.checks += 1;
                torn += 1;
                match dec::<$t>(&bytes[..cut]) {
                    Err(p) => $cx.fail("decoder-crashed", || format!("{} cut at {} {}", $name, cut, p.0)),
                    Ok(Err(_)) => {}
                    Ok(Ok(v)) => {
                        let got = $content(&v);
                        if got != want {
                            $cx.fail("torn-message-misread", || format!("{} cut at {} of {}: sent {:?} read {:?} ({})", $name, cut, n, want, got, hexs(bytes)));
                        }
                    }
                }
                cut += if cut < 104 { 1 } else { step };
            }
            $cx.faults_n("torn-delivery", torn);
        }
        full
    }};
}

/// encode, read back: equal value, and the reference reads the same content
macro_rules! back {
    ($cx:ident, $t:ty, $name:expr, $v:expr) => {{
        let mut out = None;
        if let Some(bytes) = enc_checked!($cx, &$v, $name) {
            $cx.checks += 1;
            match dec::<$t>(&bytes) {
                Ok(Ok(w)) => {
                    if w != $v {
                        $cx.fail("roundtrip-changed", || format!("{} {:?} became {:?} via {}", $name, $v, w, hexs(&bytes)));
                    }
                }
                Ok(Err(e)) => $cx.fail("own-encoding-rejected", || format!("{} {:?} {} via {}", $name, $v, e, hexs(&bytes))),
                Err(p) => $cx.fail("decoder-crashed", || format!("{} {}", $name, p.0)),
            }
            out = Some(bytes);
        }
        out
    }};
}

fn c07(cx: &mut Ctx) {
    match cx.ch.draw(12) {
        0..=3 => {
            let c = r_chal(cx);
            let l = gen::layout(&mut cx.ch, 60);
            let b = enc_chal(&c, &l);
            let v = transit!(cx, Challenge, "challenge", &b, c.clone(), RChal::from_sut);
            if cx.failed() {
                return;
            }
            if let Some(v) = v {
                if let Some(out) = back!(cx, Challenge, "challenge", v) {
                    own_chal(cx, &c, &out);
                }
            }
            if let Ok(Some(s)) = sut(|| build::sut_chal(&c)) {
                if let Some(out) = back!(cx, Challenge, "built-challenge", s) {
                    own_chal(cx, &c, &out);
                }
            }
        }
        4 | 5 => {
            let c = r_neg(cx);
            let l = gen::layout(&mut cx.ch, 60);
            let b = enc_neg(&c, &l);
            let v = transit!(cx, Negotiate, "negotiate", &b, c.clone(), neg_content);
            if cx.failed() {
                return;
            }
            if let Some(v) = v {
                if let Some(out) = back!(cx, Negotiate, "negotiate", v) {
                    own_neg(cx, &c, &out);
                }
            }
            let s = sut(|| {
                let mut s = Negotiate::default();
                if !c.domain.is_empty() {
                    s.set_domain_name(Some(c.domain.clone()));
                }
                if !c.ws.is_empty() {
                    s.set_workstation(Some(c.ws.clone()));
                }
                s.negotiate_flags = Flags(c.flags);
                s.version = world::sut_version(c.version);
                s
            });
            if let Ok(s) = s {
                if let Some(out) = back!(cx, Negotiate, "built-negotiate", s) {
                    own_neg(cx, &c, &out);
                }
            }
        }
        6..=9 => {
            let c = r_auth(cx);
            let l = gen::layout(&mut cx.ch, 60);
            let b = enc_auth(&c, &l);
            let v = transit!(cx, Authenticate, "authenticate", &b, c.clone(), auth_content);
            if cx.failed() {
                return;
            }
            if let Some(v) = v {
                if let Some(out) = back!(cx, Authenticate, "authenticate", v) {
                    own_auth(cx, &c, &out);
                }
            }
            if let Ok(Some(s)) = sut(|| built_auth(&c)) {
                if let Some(out) = back!(cx, Authenticate, "built-authenticate", s) {
                    own_auth(cx, &c, &out);
                }
            }
        }
        10 => {
            let s = MessageSignature {
                random_pad: { let b = cx.ch.bytes(4); [b[0], b[1], b[2], b[3]].into() },
                checksum: cx.ch.u64() as u32,
                seq_num: *cx.ch.pick(&[0u32, 1, 2, u32::MAX, 0x8000_0000]),
            };
            if let Some(b) = back!(cx, MessageSignature, "signature", s) {
                let mut want = vec![1, 0, 0, 0];
                want.extend_from_slice(&s.random_pad);
                want.extend(s.checksum.to_le_bytes());
                want.extend(s.seq_num.to_le_bytes());
                cx.check(b == want, "wrong-signature-bytes", || format!("{:?} {}", s, hexs(&b)));
                transit!(cx, MessageSignature, "signature", &b, s.clone(), |v: &MessageSignature| v.clone());
            }
        }
        _ => {
            let a = gen::av(&mut cx.ch);
            let s = a.to_sut();
            if let Some(b) = back!(cx, AvPair, "av-pair", s) {
                let want = enc_avs(&[a.clone()]);
                cx.check(b == want, "wrong-pair-bytes", || format!("{:?} {} expected {}", a, hexs(&b), hexs(&want)));
                transit!(cx, AvPair, "av-pair", &want, s.clone(), |v: &AvPair| v.clone());
            }
            let r = v2_response(cx);
            if let Ok(Ok(v)) = dec::<NtChallenge>(&r) {
                if let Some(out) = back!(cx, NtChallenge, "nt-response", v) {
                    cx.check(out == r, "nt-response-changed", || format!("{} became {}", hexs(&r), hexs(&out)));
                }
            } else {
                cx.fail("nt-response-rejected", || hexs(&r));
            }
            let v = Ntv2Challenge {
                timestamp: { let t = gen::filetime(&mut cx.ch); FileTime { low: t as u32, high: (t >> 32) as u32 } },
                challenge_from_client: cx.ch.bytes8().into(),
                target_infos: gen::avs(&mut cx.ch).iter().map(|a| a.to_sut()).collect(),
            };
            back!(cx, Ntv2Challenge, "ntv2", v);
        }
    }
}

fn own_chal(cx: &mut Ctx, c: &RChal, out: &[u8]) {
    cx.checks += 1;
    let ok = parse_chal(out).map(|v| {
        v.flags == c.flags && v.sc == c.sc && v.target == utf16(&c.target) && v.info == enc_avs(&c.avs) && v.version == c.version.map(|x| enc_ver(Some(x)))
    });
    if ok != Ok(true) {
        cx.fail("encoded-challenge-differs", || format!("{:?} {:?} encoded as {}", ok, c, hexs(out)));
    }
}

fn own_neg(cx: &mut Ctx, c: &RNeg, out: &[u8]) {
    cx.checks += 1;
    let ok = parse_neg(out)
        .map(|v| v.flags == c.flags && v.domain == c.domain.as_bytes() && v.ws == c.ws.as_bytes() && v.version == c.version.map(|x| enc_ver(Some(x))));
    if ok != Ok(true) {
        cx.fail("encoded-negotiate-differs", || format!("{:?} {:?} encoded as {}", ok, c, hexs(out)));
    }
}

fn own_auth(cx: &mut Ctx, c: &RAuth, out: &[u8]) {
    cx.checks += 1;
    let ok = parse_auth(out).map(|v| {
        v.lm == c.lm
            && v.nt == c.nt
            && v.domain == utf16(&c.domain)
            && v.user == utf16(&c.user)
            && v.ws == utf16(&c.ws)
            && v.esk == c.esk
            && v.flags == c.flags
            && v.version == enc_ver(c.version)
            && v.mic == c.mic
    });
    if ok != Ok(true) {
        cx.fail("encoded-authenticate-differs", || format!("{:?} {:?} encoded as {}", ok, c, hexs(out)));
    }
}

/// A library AUTHENTICATE with this content (NTLMv1-style responses and whatever the library's
/// response decoder makes of NTLMv2 ones).
fn built_auth(c: &RAuth) -> Option<Authenticate> {
    let mut a = Authenticate::default();
    let r24 = |b: &[u8]| {
        let mut r = [0u8; 24];
        r.copy_from_slice(b);
        r
    };
    if !c.lm.is_empty() {
        a.lm_challenge_response = Some(if c.flags & fl::NTLM != 0 {
            LmChallenge::V1(Lmv1Challenge { response: r24(&c.lm).into() })
        } else {
            let mut r = [0u8; 16];
            r.copy_from_slice(&c.lm[..16]);
            let mut k = [0u8; 8];
            k.copy_from_slice(&c.lm[16..]);
            LmChallenge::V2(Lmv2Challenge { response: r.into(), challenge_from_client: k.into() })
        });
    }
    if c.nt.len() == 24 {
        a.nt_challenge_response = Some(NtChallenge::V1(Ntv1Challenge { response: r24(&c.nt).into() }));
    } else if !c.nt.is_empty() {
        a.nt_challenge_response = Some(http_ntlm::sim::decode::<NtChallenge>(&c.nt).ok()?.1);
    }
    let s = |x: &str| if x.is_empty() { None } else { Some(x.to_string().into()) };
    a.domain = s(&c.domain);
    a.user = s(&c.user);
    a.workstation = s(&c.ws);
    if !c.esk.is_empty() {
        let k: [u8; 16] = c.esk.as_slice().try_into().ok()?;
        a.set_encrypted_random_session_key(Some(k.into()));
    }
    a.negotiate_flags = Flags(c.flags);
    a.version = world::sut_version(c.version);
    a.mic = c.mic.into();
    Some(a)
}

/// The response types' own constructors.
fn helpers(cx: &mut Ctx) {
    let (sc, cc) = (gen::challenge_bytes(&mut cx.ch), cx.ch.bytes8());
    let n = if cx.ch.chance(200) { 16 } else { cx.ch.draw(80) as usize };
    let key = cx.ch.bytes(n);
    cx.checks += 2;
    cx.nontrivial = true;
    match sut(|| Lmv2Challenge::from_server_challenge(&sc.into(), &key, &cc.into())) {
        Err(p) => cx.fail("response-helper-crashed", || p.0.clone()),
        Ok(v) => {
            let want = hmac(&key, &[&sc, &cc]);
            cx.ev("lmv2", 0, 0, &v.response);
            if v.response[..] != want || v.challenge_from_client[..] != cc {
                cx.fail("response-helper-wrong", || format!("{:?} expected {}", v, hexs(&want)));
            }
        }
    }
    match sut(|| Lmv1Challenge::from_client_challenge(&cc.into())) {
        Err(p) => cx.fail("response-helper-crashed", || p.0.clone()),
        Ok(v) => {
            if v.response[..8] != cc || v.response[8..] != [0; 16] {
                cx.fail("response-helper-wrong", || format!("{:?} for nonce {}", v, hexs(&cc)));
            }
        }
    }
}

/// Random values drawn directly, from a source in trouble.
fn draws(cx: &mut Ctx) {
    os::reset();
    let seed = cx.ch.u64();
    os().entropy = crate::choices::Rng::new(seed);
    let mut claims = vec![];
    for _ in 0..1 + cx.ch.draw(12) {
        let k = if cx.ch.chance(100) { cx.ch.draw(6) } else { 0 };
        for _ in 0..k {
            let f = match cx.ch.draw(8) {
                0..=2 => os::EntFault::Eintr,
                3..=6 => os::EntFault::Short(1 + cx.ch.draw(15) as usize),
                _ => os::EntFault::Err(libc::EIO),
            };
            os().ent_faults.push_back(f);
        }
        let before = os().n.entropy_err;
        let (name, r) = match cx.ch.draw(11) {
            0 => ("server challenge", sut(|| ServerChallenge::random().to_vec())),
            1 => ("client challenge", sut(|| ClientChallenge::random().to_vec())),
            2 => ("session base key", sut(|| SessionBaseKey::random().to_vec())),
            3 => ("key exchange key", sut(|| KeyExchangeKey::random().to_vec())),
            4 => ("exported session key", sut(|| ExportedSessionKey::random().to_vec())),
            5 => ("encrypted session key", sut(|| EncryptedRandomSessionKey::random().to_vec())),
            6 => ("proof", sut(|| NtProofStr::random().to_vec())),
            7 => ("response of 16", sut(|| Response16::random().to_vec())),
            8 => ("response of 24", sut(|| Response24::random().to_vec())),
            9 => ("code", sut(|| Mic::random().to_vec())),
            _ => ("pad", sut(|| RandomPad::random().to_vec())),
        };
        let failed = os().n.entropy_err > before;
        cx.ev("draw", failed as u64, r.is_ok() as u64, r.as_deref().unwrap_or(&[]));
        cx.checks += 1;
        cx.nontrivial = true;
        match r {
            Ok(_) if failed => cx.fail("value-without-entropy", || name.into()),
            Err(_) if failed => cx.fault("entropy-failed"),
            Err(p) => cx.fail("random-value-crashed", || format!("{} {}", name, p.0)),
            Ok(v) => {
                if let Err(k) = world::claim(&mut claims, &os().ent_log, &v) {
                    cx.fail(k, || format!("{} {}; entropy handed out: {}", name, hexs(&v), hexs(&os().ent_log)));
                }
            }
        }
        if cx.failed() {
            break;
        }
    }
    cx.faults_n("entropy-interrupted", os().n.entropy_eintr);
    cx.faults_n("entropy-short-read", os().n.entropy_short);
}

/// Single flags set, cleared and asked for, against a plain word.
fn c14_flags(cx: &mut Ctx) {
    let mut model = if cx.ch.chance(64) { 0 } else { cx.ch.u64() as u32 };
    let mut f = Flags(model);
    for _ in 0..1 + cx.ch.draw(24) {
        let bit = cx.ch.draw(32) as u32;
        let set = cx.ch.chance(128);
        let r = sut(|| {
            if set {
                f.set_flag(bit);
            } else {
                f.clear_flag(bit);
            }
        });
        if set {
            model |= 1 << bit;
        } else {
            model &= !(1 << bit);
        }
        cx.checks += 1;
        if let Err(p) = r {
            cx.fail("flag-call-crashed", || p.0.clone());
            return;
        }
        let seen = sut(|| (0..32).filter(|b| f.has_flag(*b)).fold(0u32, |a, b| a | 1 << b)).unwrap_or(!model);
        if f.0 != model || seen != model {
            cx.fail("flags-differ", || format!("bit {} set {}: {:08x} read {:08x} expected {:08x}", bit, set, f.0, seen, model));
            return;
        }
        cx.ev("flags", model as u64, bit as u64, &[]);
    }
    if let Ok((_, b)) = enc!(&f) {
        cx.check(b == model.to_le_bytes(), "flag-bytes-differ", || format!("{:08x} {}", model, hexs(&b)));
    }
    cx.nontrivial = true;
}

/// One authenticate message whose integrity code is computed again and again, its content (the old
/// code included) changing in between.
fn mic_again(cx: &mut Ctx) {
    let (n, c, a) = (r_neg(cx), r_chal(cx), r_auth(cx));
    let built = sut(|| {
        let mut s = Negotiate::default();
        if !n.domain.is_empty() {
            s.set_domain_name(Some(n.domain.clone()));
        }
        s.negotiate_flags = Flags(n.flags);
        s.version = world::sut_version(n.version);
        (s, build::sut_chal(&c), built_auth(&a))
    });
    let Ok((neg, Some(chal), Some(mut auth))) = built else { return };
    let (Ok((Ok(_), nb)), Ok((Ok(_), cb))) = (enc!(&neg), enc!(&chal)) else { return };
    for round in 0..2 + cx.ch.draw(3) {
        let (k0, k1) = (cx.ch.bytes8(), cx.ch.bytes8());
        let mut key = [0u8; 16];
        key[..8].copy_from_slice(&k0);
        key[8..].copy_from_slice(&k1);
        auth.exported_session_key = Some(key.into());
        match cx.ch.draw(6) {
            0 => auth.user = Some(gen::nonempty_name(&mut cx.ch).into()),
            1 => auth.workstation = None,
            2 => auth.mic = { let mut m = [0x5a; 16]; m[..8].copy_from_slice(&cx.ch.bytes8()); m }.into(),
            3 => auth.negotiate_flags = Flags(auth.negotiate_flags.0 ^ fl::SEAL),
            4 => auth.version = Some((6, 1, 7601).into()),
            _ => {}
        }
        cx.checks += 1;
        if let Err(p) = sut(|| auth.compute_mic(&neg, &chal)) {
            cx.fail("code-computation-crashed", || p.0.clone());
            return;
        }
        let Ok((Ok(_), raw)) = enc!(&auth) else { return };
        cx.ev("code", round, raw.len() as u64, &raw);
        cx.nontrivial |= round > 0;
        if !mic_over(&raw, &key, &nb, &cb) {
            cx.fail("recomputed-code-wrong", || format!("round {} key {} message {}", round, hexs(&key), hexs(&raw)));
            return;
        }
    }
}

// ------------------------------------------------------------------ C08

struct Disk<'c> {
    ch: &'c mut crate::choices::Choices,
    got: Vec<u8>,
    cap: usize,
    mode: u64,
    short: u64,
    eintr: u64,
    hard: u64,
    calls: u64,
    after_error: u64,
}

impl std::io::Write for Disk<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        use std::io::{Error, ErrorKind};
        self.calls += 1;
        if self.hard > 0 {
            self.after_error += 1;
        }
        if b.is_empty() {
            return Ok(0);
        }
        let room = self.cap.saturating_sub(self.got.len());
        if room == 0 {
            self.hard += 1;
            return if self.ch.chance(80) { Ok(0) } else { Err(Error::from_raw_os_error(libc::ENOSPC)) };
        }
        let k = match (self.mode, self.ch.draw(16)) {
            (0, _) => b.len(),
            (_, 0..=5) => b.len(),
            (_, 6..=10) => {
                let k = 1 + self.ch.draw(b.len() as u64) as usize;
                if k < b.len() {
                    self.short += 1;
                }
                k
            }
            (_, 11..=13) => {
                self.eintr += 1;
                return Err(Error::from(ErrorKind::Interrupted));
            }
            (2, 14) if self.ch.chance(100) => {
                self.hard += 1;
                return Err(match self.ch.draw(4) {
                    0 => Error::from(ErrorKind::WouldBlock),
                    1 => Error::from_raw_os_error(libc::EPIPE),
                    2 => Error::from_raw_os_error(libc::EIO),
                    _ => Error::new(ErrorKind::TimedOut, "stall"),
                });
            }
            (2, 15) if self.ch.chance(100) => {
                self.hard += 1;
                return Ok(0);
            }
            _ => b.len(),
        };
        let k = k.min(room);
        self.got.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn c08(cx: &mut Ctx) {
    macro_rules! go {
        ($v:expr, $name:expr) => {{
            let v = $v;
            let canon = match enc_checked!(cx, &v, $name) {
                Some(c) => c,
                None => return,
            };
            cx.ev($name, canon.len() as u64, 0, &canon);
            for _ in 0..6 {
                let mode = cx.ch.draw(3);
                let cap = if cx.ch.chance(100) { cx.ch.draw(canon.len() as u64 + 2) as usize } else { usize::MAX };
                let mut d = Disk { ch: &mut cx.ch, got: vec![], cap, mode, short: 0, eintr: 0, hard: 0, calls: 0, after_error: 0 };
                let r = sut(|| http_ntlm::sim::encode(&v, &mut d));
                let Disk { got, short, eintr, hard, after_error, .. } = d;
                cx.faults_n("write-short", short);
                cx.faults_n("write-interrupted", eintr);
                cx.faults_n(if cap == usize::MAX { "write-failed" } else { "disk-full" }, hard);
                cx.nontrivial |= short + eintr + hard > 0;
                cx.ev("written", got.len() as u64, hard, &got);
                cx.checks += 1;
                match r {
                    Err(p) => cx.fail("encoder-crashed", || format!("{} {}", $name, p.0)),
                    Ok(Ok(n)) => {
                        if got != canon || n != canon.len() {
                            cx.fail("false-success", || format!("{} says {} delivered {} of {}: {}", $name, n, got.len(), hexs(&canon), hexs(&got)));
                        }
                    }
                    Ok(Err(e)) => {
                        if hard == 0 {
                            cx.fail("error-without-fault", || format!("{} {} after {} short {} interrupted", $name, e, short, eintr));
                        } else if !canon.starts_with(&got) {
                            cx.fail("not-a-prefix", || format!("{} delivered {} of {}", $name, hexs(&got), hexs(&canon)));
                        }
                    }
                }
                if after_error > 0 {
                    cx.count("writes-after-error", after_error);
                }
                if cx.failed() {
                    return;
                }
            }
        }};
    }
    match cx.ch.draw(14) {
        0..=2 => {
            let c = r_chal(cx);
            if let Ok(Some(s)) = sut(|| build::sut_chal(&c)) {
                go!(s, "challenge")
            }
        }
        3 | 4 => {
            let c = r_neg(cx);
            let l = gen::layout(&mut cx.ch, 256);
            if let Ok(Ok(n)) = dec::<Negotiate>(&enc_neg(&c, &l)) {
                go!(n, "negotiate")
            }
        }
        5..=7 => {
            let c = r_auth(cx);
            if let Ok(Some(s)) = sut(|| built_auth(&c)) {
                go!(s, "authenticate")
            }
        }
        8 => go!(gen::avs(&mut cx.ch).iter().map(|a| a.to_sut()).collect::<Vec<_>>(), "av-pairs"),
        9 => {
            let a = gen::av(&mut cx.ch).to_sut();
            go!(a, "av-pair")
        }
        10 => {
            let r = v2_response(cx);
            if let Ok(Ok(v)) = dec::<NtChallenge>(&r) {
                go!(v, "nt-response")
            }
        }
        11 => {
            let b = cx.ch.bytes(24);
            if let Ok(Ok(v)) = dec::<LmChallenge>(&b) {
                go!(v, "lm-response")
            }
        }
        12 => {
            let b = cx.ch.bytes(12);
            let s = MessageSignature { random_pad: [b[0], b[1], b[2], b[3]].into(), checksum: 7, seq_num: b[4] as u32 };
            go!(s, "signature")
        }
        _ => {
            let v: Version = (cx.ch.draw(256) as u8, cx.ch.draw(256) as u8, cx.ch.draw(65536) as u16).into();
            go!(v, "version");
            let t = gen::filetime(&mut cx.ch);
            go!(FileTime { low: t as u32, high: (t >> 32) as u32 }, "filetime");
            let k: [u8; 16] = cx.ch.bytes(16).try_into().unwrap();
            go!(EncryptedRandomSessionKey::from(k), "key");
        }
    }
}

// ------------------------------------------------------------------ C09

fn systime(ns: i128) -> Option<SystemTime> {
    let d = Duration::new((ns.unsigned_abs() / 1_000_000_000) as u64, (ns.unsigned_abs() % 1_000_000_000) as u32);
    if ns >= 0 {
        UNIX_EPOCH.checked_add(d)
    } else {
        UNIX_EPOCH.checked_sub(d)
    }
}

const NS_1601: i128 = -11_644_473_600_000_000_000;
const NS_9999: i128 = 253_402_300_799_999_999_999;

fn c09_convert(cx: &mut Ctx) {
    let ns = if cx.ch.chance(100) {
        world::odd_clock_ns(cx)
    } else {
        NS_1601 + (((cx.ch.u64() >> 8) as i128) * (NS_9999 - NS_1601) >> 56)
    };
    cx.ev("convert", 0, 0, &ns.to_le_bytes());
    cx.nontrivial = true;
    cx.checks += 1;
    if let Some(t) = systime(ns) {
        match sut(|| FileTime::try_from(t)) {
            Err(p) => cx.fail("conversion-crashed", || format!("{} ns {}", p.0, ns)),
            Ok(Err(_)) => {
                if (NS_1601..=NS_9999).contains(&ns) {
                    cx.fail("conversion-refused", || format!("ns {}", ns));
                }
            }
            Ok(Ok(f)) => {
                let v = f.as_u64() as i128;
                let want = ns.div_euclid(100) + EPOCH_DIFF;
                if (NS_1601..=NS_9999).contains(&ns) {
                    if (v - want).abs() > 10_000_000 {
                        cx.fail("wrong-filetime", || format!("ns {} gives {} expected {}", ns, v, want));
                    }
                    match sut(|| f.to_system_time()) {
                        Err(p) => cx.fail("conversion-crashed", || format!("{} filetime {}", p.0, v)),
                        Ok(None) => cx.fail("no-way-back", || format!("filetime {}", v)),
                        Ok(Some(b)) => {
                            let d = match b.duration_since(t) {
                                Ok(d) => d,
                                Err(e) => e.duration(),
                            };
                            if d > Duration::from_secs(1) {
                                cx.fail("time-roundtrip", || format!("ns {} off by {:?}", ns, d));
                            }
                        }
                    }
                }
            }
        }
    }
    // any value from the wire
    let v = gen::filetime(&mut cx.ch);
    cx.checks += 1;
    let f = FileTime { low: v as u32, high: (v >> 32) as u32 };
    match sut(|| (f.as_u64(), f.to_system_time())) {
        Err(p) => cx.fail("conversion-crashed", || format!("{} filetime {}", p.0, v)),
        Ok((u, _)) if u != v => cx.fail("filetime-value", || format!("{} read as {}", v, u)),
        Ok((_, t)) => {
            let ns = (v as i128 - EPOCH_DIFF) * 100;
            if ns <= NS_9999 {
                let ok = match (t, systime(ns)) {
                    (Some(a), Some(b)) => match a.duration_since(b) {
                        Ok(d) => d <= Duration::from_secs(1),
                        Err(e) => e.duration() <= Duration::from_secs(1),
                    },
                    _ => false,
                };
                if !ok {
                    cx.fail("wrong-system-time", || format!("filetime {} gives {:?}", v, t));
                }
            }
        }
    }
    // and the clock itself
    let ns = if cx.ch.chance(128) { world::odd_clock_ns(cx) } else { NS_1601 + (((cx.ch.u64() >> 8) as i128) * (NS_9999 - NS_1601) >> 56) };
    world::set_clock(ns);
    cx.checks += 1;
    match sut(FileTime::now) {
        Err(p) => cx.fail("now-crashed", || format!("{} at ns {}", p.0, ns)),
        Ok(f) => {
            let want = ns.div_euclid(100) + EPOCH_DIFF;
            if want >= 0 && want <= u64::MAX as i128 && (f.as_u64() as i128 - want).abs() > 10_000_000 {
                cx.fail("wrong-now", || format!("clock ns {} gives {} expected {}", ns, f.as_u64(), want));
            }
        }
    }
}

// ------------------------------------------------------------------ C14

fn c14(cx: &mut Ctx) {
    cx.nontrivial = true;
    match cx.ch.draw(8) {
        0 if cx.ch.chance(64) => c14_flags(cx),
        0..=4 => c14_challenge(cx),
        5 | 6 => c14_negotiate(cx),
        _ => c14_auth(cx),
    }
}

fn env_value(cx: &mut Ctx) -> CString {
    if cx.ch.chance(24) {
        cx.fault("env-not-unicode");
        return CString::new(&b"a\xff"[..]).unwrap();
    }
    let n = gen::len(&mut cx.ch, 60).max(1);
    CString::new(gen::text_of(&mut cx.ch, n, false)).unwrap_or_default()
}

const ENV_VARS: [(&str, u16, bool); 4] = [("COMPUTERNAME", 1, true), ("COMPUTERDNSNAME", 3, false), ("USERDOMAIN", 2, true), ("USERDNSDOMAIN", 4, false)];

fn c14_challenge(cx: &mut Ctx) {
    let mut s = Challenge::default();
    let mut target: Option<String> = None;
    // groups: within a group (one fill from the environment) any order is fine
    let mut groups: Vec<Vec<(u16, Vec<u8>)>> = Vec::new();
    let mut other: u32 = fl::UNICODE;
    let content = fl::TARGET_INFO | fl::REQUEST_TARGET;
    let mut size = 0usize;
    // a list that has its end marker even if it has no pairs
    let mut lone = false;
    if cx.ch.chance(50) {
        // go on with a message that came from the wire
        let mut c = r_chal(cx);
        if cx.ch.chance(80) || enc_avs(&c.avs).len() > 30_000 {
            c.avs = vec![RAv::Eol];
        }
        lone = !c.avs.is_empty();
        c.flags = c.flags & !content | (if c.target.is_empty() { 0 } else { fl::REQUEST_TARGET }) | (if c.avs.is_empty() { 0 } else { fl::TARGET_INFO });
        let l = gen::layout(&mut cx.ch, 128);
        let b = enc_chal(&c, &l);
        cx.ev("continue-received-challenge", lone as u64, c.avs.len() as u64, &b);
        match dec::<Challenge>(&b) {
            Ok(Ok(d)) => s = d,
            Ok(Err(e)) => {
                if !cfg!(feature = "strict") {
                    cx.fail("peer-rejects", || format!("{} {}", e, hexs(&b)))
                }
                return;
            }
            Err(p) => return cx.fail("decoder-crashed", || p.0),
        }
        other = c.flags & !content;
        target = if c.target.is_empty() { None } else { Some(c.target.clone()) };
        for r in c.raw_avs().into_iter().filter(|r| r.0 != 0) {
            size += r.1.len() + 4;
            groups.push(vec![r]);
        }
        cx.count("builders-continued-from-the-wire", 1);
    }
    for _ in 0..2 + cx.ch.draw(24) {
        let op = cx.ch.draw(16);
        match op {
            0 | 1 => {
                let t = if cx.ch.chance(90) { None } else { Some(gen::nonempty_name(&mut cx.ch)) };
                cx.ev("set-target-name", t.is_some() as u64, 0, opt(&t).as_bytes());
                let _ = sut(|| s.set_target_name(t.clone()).get_target_name().is_some());
                target = t;
            }
            2..=9 => {
                let a = loop {
                    let a = gen::av(&mut cx.ch);
                    if let RAv::Str(_, ref x) = a {
                        if x.is_empty() {
                            break RAv::Flags(2);
                        }
                    }
                    break a;
                };
                let raw = a.raw();
                if size + raw.1.len() + 8 > 60_000 {
                    continue;
                }
                size += raw.1.len() + 4;
                cx.ev("add-target-info", raw.0 as u64, raw.1.len() as u64, &raw.1);
                let r = sut(|| {
                    match a.to_sut() {
                        AvPair::MsvAvNbComputerName(x) => s.target_infos_add_computername(x),
                        AvPair::MsvAvNbDomainName(x) => s.target_infos_add_domainname(x),
                        AvPair::MsvAvDnsComputerName(x) => s.target_infos_add_dnscomputername(x),
                        AvPair::MsvAvDnsDomainName(x) => s.target_infos_add_dnsdomainname(x),
                        AvPair::MsvAvDnsTreeName(x) => s.target_infos_add_dnstreename(x),
                        AvPair::MsvAvFlags(x) => s.target_infos_add_flags(x),
                        AvPair::MsvAvTimestamp(x) => s.target_infos_add_timestamp(x),
                        AvPair::MsvAvSingleHost(x) => s.target_infos_add_singlehost(x),
                        AvPair::MsvAvTargetName(x) => s.target_infos_add_targetname(x),
                        AvPair::MsvAvChannelBindings(x) => s.target_infos_add_channelbindings(x),
                        AvPair::MsvAvEOL => unreachable!(),
                    };
                });
                if let Err(p) = r {
                    cx.fail("builder-crashed", || p.0);
                    return;
                }
                groups.push(vec![raw]);
            }
            10 => {
                os().env.clear();
                let mut g = vec![];
                for (k, id, up) in ENV_VARS {
                    if cx.ch.chance(150) {
                        let v = env_value(cx);
                        if let Ok(t) = v.to_str() {
                            let t = if up { t.to_uppercase() } else { t.to_string() };
                            size += utf16(&t).len() + 4;
                            g.push((id, utf16(&t)));
                        }
                        os().env.push((k, v));
                    }
                }
                cx.ev("fill-from-env", g.len() as u64, 0, &[]);
                if let Err(p) = sut(|| s.fill_from_env()) {
                    cx.fail("builder-crashed", || p.0);
                    return;
                }
                groups.push(g);
            }
            11 => {
                let f = *cx.ch.pick(&[fl::SEAL, fl::SIGN, fl::ESS, fl::KEY_EXCH, fl::TYPE_SERVER, fl::NTLM]);
                other ^= f;
                cx.ev("toggle-flag", f as u64, 0, &[]);
                s.negotiate_flags.0 ^= f;
            }
            12 => {
                let sc = gen::challenge_bytes(&mut cx.ch);
                s.server_challenge = sc.into();
            }
            13 => {
                // sent, received, and built on by the receiver
                let Some(b) = enc_checked!(cx, &s, "challenge") else { return };
                cx.ev("carry", 0, 0, &b);
                if let Ok(Ok(d)) = dec::<Challenge>(&b) {
                    s = d;
                }
            }
            _ => check_built_challenge(cx, &s, &target, &groups, lone, other, content),
        }
        if cx.failed() {
            return;
        }
    }
    check_built_challenge(cx, &s, &target, &groups, lone, other, content);
}

fn check_built_challenge(cx: &mut Ctx, s: &Challenge, target: &Option<String>, groups: &[Vec<(u16, Vec<u8>)>], lone: bool, other: u32, content: u32) {
    let Some(b) = enc_checked!(cx, s, "challenge") else { return };
    cx.checks += 1;
    let v = match parse_chal(&b) {
        Ok(v) => v,
        Err(e) => return cx.fail("built-challenge-malformed", || format!("{} {}", e, hexs(&b))),
    };
    if v.target != utf16(opt(target)) {
        cx.fail("target-name-lost", || format!("{:?} in {}", target, hexs(&b)));
    }
    let n: usize = groups.iter().map(|g| g.len()).sum();
    if n == 0 && !lone {
        if !v.info.is_empty() {
            cx.fail("phantom-target-info", || hexs(&b));
        }
    } else {
        match split_avs(&v.info) {
            Some((got, rest)) if rest.is_empty() => {
                let mut at = 0;
                let mut ok = got.len() == n + 1;
                for g in groups {
                    if !ok {
                        break;
                    }
                    let mut a: Vec<_> = got[at..at + g.len()].to_vec();
                    let mut w = g.clone();
                    a.sort();
                    w.sort();
                    ok = a == w;
                    at += g.len();
                }
                if !ok {
                    cx.fail("target-info-differs", || {
                        format!("added ids {:?} read ids {:?}", groups.iter().flatten().map(|x| x.0).collect::<Vec<_>>(), got.iter().map(|x| x.0).collect::<Vec<_>>())
                    });
                }
            }
            Some((got, rest)) => cx.fail("more-than-one-end-marker", || format!("{} pairs then {} bytes", got.len(), rest.len())),
            None => cx.fail("target-info-unterminated", || hexs(&b)),
        }
    }
    let want = (if target.is_some() { fl::REQUEST_TARGET } else { 0 }) | (if n > 0 || lone { fl::TARGET_INFO } else { 0 });
    if v.flags & content != want {
        cx.fail("presence-flags-wrong", || format!("flags {:08x}: target {:?}, {} pairs", v.flags, target.is_some(), n));
    }
    if v.flags & !content != other {
        cx.fail("other-flags-changed", || format!("flags {:08x} expected {:08x}", v.flags & !content, other));
    }
    // and the library as the peer reads the same
    match dec::<Challenge>(&b) {
        Ok(Ok(d)) => {
            if d != *s {
                cx.fail("peer-reads-differently", || format!("{:?} vs {:?}", d, s));
            }
        }
        Ok(Err(e)) => {
            if !cfg!(feature = "strict") {
                cx.fail("peer-rejects", || format!("{} {}", e, hexs(&b)))
            }
        }
        Err(p) => cx.fail("decoder-crashed", || p.0),
    }
}

fn c14_negotiate(cx: &mut Ctx) {
    let mut s = Negotiate::default();
    let (mut d, mut w): (Option<String>, Option<String>) = (None, None);
    let mut other = fl::UNICODE;
    let content = fl::DOMAIN_SUPPLIED | fl::WS_SUPPLIED;
    if cx.ch.chance(50) {
        let mut c = r_neg(cx);
        c.flags = c.flags & !content | (if c.domain.is_empty() { 0 } else { fl::DOMAIN_SUPPLIED }) | (if c.ws.is_empty() { 0 } else { fl::WS_SUPPLIED });
        let l = gen::layout(&mut cx.ch, 128);
        let b = enc_neg(&c, &l);
        cx.ev("continue-received-negotiate", 0, 0, &b);
        match dec::<Negotiate>(&b) {
            Ok(Ok(x)) => s = x,
            Ok(Err(e)) => {
                if !cfg!(feature = "strict") {
                    cx.fail("peer-rejects", || format!("{} {}", e, hexs(&b)))
                }
                return;
            }
            Err(p) => return cx.fail("decoder-crashed", || p.0),
        }
        other = c.flags & !content;
        d = if c.domain.is_empty() { None } else { Some(c.domain.clone()) };
        w = if c.ws.is_empty() { None } else { Some(c.ws.clone()) };
        cx.count("builders-continued-from-the-wire", 1);
    }
    for _ in 0..2 + cx.ch.draw(14) {
        match cx.ch.draw(7) {
            0 | 1 => {
                d = if cx.ch.chance(100) { None } else { Some(gen::nonempty_name(&mut cx.ch)) };
                cx.ev("set-domain", d.is_some() as u64, 0, opt(&d).as_bytes());
                let _ = sut(|| s.set_domain_name(d.clone()).get_domain_name().is_some());
            }
            2 | 3 => {
                w = if cx.ch.chance(100) { None } else { Some(gen::nonempty_name(&mut cx.ch)) };
                cx.ev("set-workstation", w.is_some() as u64, 0, opt(&w).as_bytes());
                let _ = sut(|| s.set_workstation(w.clone()).get_workstation().is_some());
            }
            4 => {
                let f = *cx.ch.pick(&[fl::SEAL, fl::SIGN, fl::ESS, fl::KEY_EXCH, fl::OEM, fl::NTLM]);
                other ^= f;
                s.negotiate_flags.0 ^= f;
                cx.ev("toggle-flag", f as u64, 0, &[]);
            }
            5 => {
                let Some(b) = enc_checked!(cx, &s, "negotiate") else { return };
                cx.ev("carry", 0, 0, &b);
                if let Ok(Ok(x)) = dec::<Negotiate>(&b) {
                    s = x;
                }
            }
            _ => {}
        }
        let Some(b) = enc_checked!(cx, &s, "negotiate") else { return };
        cx.checks += 1;
        match parse_neg(&b) {
            Err(e) => cx.fail("built-negotiate-malformed", || e),
            Ok(v) => {
                let want = (if d.is_some() { fl::DOMAIN_SUPPLIED } else { 0 }) | (if w.is_some() { fl::WS_SUPPLIED } else { 0 });
                if v.domain != opt(&d).as_bytes() || v.ws != opt(&w).as_bytes() {
                    cx.fail("negotiate-names-differ", || format!("{:?} {:?} in {}", d, w, hexs(&b)));
                }
                if v.flags & content != want {
                    cx.fail("presence-flags-wrong", || format!("flags {:08x} domain {:?} workstation {:?}", v.flags, d, w));
                }
                if v.flags & !content != other {
                    cx.fail("other-flags-changed", || format!("flags {:08x} expected {:08x}", v.flags & !content, other));
                }
            }
        }
        if cx.failed() {
            return;
        }
    }
}

fn c14_auth(cx: &mut Ctx) {
    let c = r_auth(cx);
    let Ok(Some(mut s)) = sut(|| built_auth(&c)) else { return };
    let mut key = c.esk.clone();
    for _ in 0..2 + cx.ch.draw(8) {
        if cx.ch.chance(40) {
            let Some(b) = enc_checked!(cx, &s, "authenticate") else { return };
            cx.ev("carry", 0, 0, &b);
            if let Ok(Ok(x)) = dec::<Authenticate>(&b) {
                s = x;
            }
        }
        if cx.ch.chance(200) {
            key = if cx.ch.chance(110) {
                vec![]
            } else {
                cx.ch.bytes(16)
            };
            cx.ev("set-key", key.len() as u64, 0, &key);
            let k = <[u8; 16]>::try_from(key.as_slice()).ok().map(|k| k.into());
            let _ = sut(|| s.set_encrypted_random_session_key(k).get_encrypted_random_session_key().is_some());
        }
        let Some(b) = enc_checked!(cx, &s, "authenticate") else { return };
        cx.checks += 1;
        match parse_auth(&b) {
            Err(e) => cx.fail("built-authenticate-malformed", || e),
            Ok(v) => {
                if v.esk != key {
                    cx.fail("key-differs", || format!("{:02x?} in {}", key, hexs(&b)));
                }
                if (v.flags & fl::KEY_EXCH != 0) == key.is_empty() {
                    cx.fail("presence-flags-wrong", || format!("flags {:08x} key of {}", v.flags, key.len()));
                }
                if (v.flags ^ c.flags) & !fl::KEY_EXCH != 0 || v.nt != c.nt || v.user != utf16(&c.user) {
                    cx.fail("other-content-changed", || hexs(&b));
                }
            }
        }
        if cx.failed() {
            return;
        }
    }
}

// ------------------------------------------------------------------ C16

fn c16(cx: &mut Ctx) {
    let strict = cfg!(feature = "strict");
    let which = cx.ch.draw(3);
    let l = gen::layout(&mut cx.ch, 100);
    // a well-formed message, its flags offset, and a decoder that returns the flags it saw
    let (bytes, at) = match which {
        0 => {
            let c = r_chal(cx);
            (enc_chal(&c, &l), 20)
        }
        1 => {
            let c = r_neg(cx);
            (enc_neg(&c, &l), 12)
        }
        _ => {
            let c = r_auth(cx);
            (enc_auth(&c, &l), 60)
        }
    };
    fn seen(which: u64, b: &[u8]) -> Result<Result<(u32, String), String>, sut::Panicked> {
        match which {
            0 => dec::<Challenge>(b).map(|r| r.map(|c| (c.negotiate_flags.0, format!("{:?}", RChal { flags: 0, ..RChal::from_sut(&c) })))),
            1 => dec::<Negotiate>(b).map(|r| r.map(|c| (c.negotiate_flags.0, format!("{:?}", RNeg { flags: 0, ..neg_content(&c) })))),
            _ => dec::<Authenticate>(b).map(|r| r.map(|c| (c.negotiate_flags.0, format!("{:?}", RAuth { flags: 0, ..auth_content(&c) })))),
        }
    }
    cx.ev("well-formed", which, strict as u64, &bytes);
    cx.checks += 1;
    cx.nontrivial = true;
    let base = match seen(which, &bytes) {
        Ok(Ok(b)) => b,
        Ok(Err(e)) => return cx.fail("well-formed-rejected", || format!("strict {} {} {}", strict, e, hexs(&bytes))),
        Err(p) => return cx.fail("decoder-crashed", || p.0),
    };
    for _ in 0..4 {
        let mut b = bytes.clone();
        let mut f = u32at4(&b, at);
        let kind = cx.ch.draw(if which == 0 { 6 } else { 5 });
        let name = match kind {
            0 | 1 => {
                f |= 1 << *cx.ch.pick(&fl::RESERVED);
                if cx.ch.chance(60) {
                    f |= 1 << *cx.ch.pick(&fl::RESERVED);
                }
                "reserved-flag-set"
            }
            2 => {
                f |= fl::TYPE_DOMAIN | fl::TYPE_SERVER;
                "both-target-types"
            }
            3 => {
                f &= !(fl::UNICODE | fl::OEM);
                "no-character-set"
            }
            4 => {
                f |= fl::ESS | fl::LM_KEY;
                "ess-and-lm-key"
            }
            _ => {
                let i = cx.ch.draw(8) as usize;
                b[32 + i] |= 1 << cx.ch.draw(8);
                "reserved-field-set"
            }
        };
        b[at..at + 4].copy_from_slice(&f.to_le_bytes());
        cx.fault(name);
        cx.checks += 1;
        cx.ev("damaged", kind, f as u64, &b);
        match seen(which, &b) {
            Err(p) => cx.fail("decoder-crashed", || p.0),
            Ok(Ok((g, rest))) => {
                if strict {
                    cx.fail("strict-accepts-damage", || format!("{} flags {:08x} in {}", name, f, hexs(&b)));
                } else if g != f {
                    cx.fail("flags-misread", || format!("{:08x} read as {:08x}", f, g));
                } else if rest != base.1 {
                    cx.fail("content-changed", || format!("{}: {} became {}", name, base.1, rest));
                }
            }
            Ok(Err(e)) => {
                if !strict {
                    cx.fail("lenient-rejects-damage", || format!("{} {} in {}", name, e, hexs(&b)));
                }
            }
        }
        if cx.failed() {
            return;
        }
    }
}

fn u32at4(b: &[u8], i: usize) -> u32 {
    u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]])
}
