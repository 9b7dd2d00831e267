//! C18: what messages look like in diagnostics, and what becomes of diagnostics whose sink fails.
use crate::ctx::{hex, hexs, Ctx};
use crate::gen;
use crate::props::{dec, hostile_bytes, r_auth, r_chal, r_neg, v2_response, Decodable};
use crate::refntlm::*;
use crate::sut::sut;
use http_ntlm::messages::structures::*;
use http_ntlm::messages::{Authenticate, Challenge, Flags, Negotiate};
use std::fmt::{self, Debug, Write};

/// Flag names, most significant bit first.
pub const NAMES: [&str; 32] = [
    "NTLMSSP_NEGOTIATE_56",
    "NTLMSSP_NEGOTIATE_KEY_EXCH",
    "NTLMSSP_NEGOTIATE_128",
    "R1",
    "R2",
    "R3",
    "NTLMSSP_NEGOTIATE_VERSION",
    "R4",
    "NTLMSSP_NEGOTIATE_TARGET_INFO",
    "NTLMSSP_REQUEST_NON_NT_SESSION_KEY",
    "R5",
    "NTLMSSP_NEGOTIATE_IDENTIFY",
    "NTLMSSP_NEGOTIATE_EXTENDED_SESSIONSECURITY",
    "R6",
    "NTLMSSP_TARGET_TYPE_SERVER",
    "NTLMSSP_TARGET_TYPE_DOMAIN",
    "NTLMSSP_NEGOTIATE_ALWAYS_SIGN",
    "R7",
    "NTLMSSP_NEGOTIATE_OEM_WORKSTATION_SUPPLIED",
    "NTLMSSP_NEGOTIATE_OEM_DOMAIN_SUPPLIED",
    "NTLMSSP_ANONYMOUS",
    "R8",
    "NTLMSSP_NEGOTIATE_NTLM",
    "R9",
    "NTLMSSP_NEGOTIATE_LM_KEY",
    "NTLMSSP_NEGOTIATE_DATAGRAM",
    "NTLMSSP_NEGOTIATE_SEAL",
    "NTLMSSP_NEGOTIATE_SIGN",
    "R10",
    "NTLMSSP_REQUEST_TARGET",
    "NTLM_NEGOTIATE_OEM",
    "NTLMSSP_NEGOTIATE_UNICODE",
];

/// The flag set a text names.
fn named(text: &str) -> Result<u32, String> {
    let mut f = 0;
    for t in text.split(|c: char| !c.is_ascii_alphanumeric() && c != '_').filter(|t| !t.is_empty()) {
        match NAMES.iter().position(|n| *n == t) {
            Some(i) => {
                let bit = 1u32 << (31 - i);
                if f & bit != 0 {
                    return Err(format!("{} twice", t));
                }
                f |= bit
            }
            None => return Err(format!("unknown name {}", t)),
        }
    }
    Ok(f)
}

/// A diagnostics sink with room for `cap` bytes. It refuses the piece that does not fit, or takes
/// the part of it that does.
struct Sink {
    got: String,
    cap: usize,
    torn: bool,
    errors: u64,
    after: u64,
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.errors > 0 {
            self.after += 1;
            return Err(fmt::Error);
        }
        let room = self.cap - self.got.len();
        if s.len() <= room {
            self.got.push_str(s);
            return Ok(());
        }
        if self.torn {
            let mut n = room;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            self.got.push_str(&s[..n]);
        }
        self.errors += 1;
        Err(fmt::Error)
    }
}

fn render<T: Debug>(v: &T, alt: bool, w: &mut dyn Write) -> fmt::Result {
    if alt {
        w.write_fmt(format_args!("{:#?}", v))
    } else {
        w.write_fmt(format_args!("{:?}", v))
    }
}

/// The full text, after failing sinks.
fn show<T: Debug>(cx: &mut Ctx, v: &T, name: &'static str) -> Option<String> {
    let alt = cx.ch.chance(80);
    let whole = |cx: &mut Ctx| {
        let mut s = String::new();
        match sut(|| render(v, alt, &mut s)) {
            Err(p) => {
                cx.fail("diagnostics-crashed", || format!("{} {}", name, p.0));
                None
            }
            Ok(Err(_)) => {
                cx.fail("diagnostics-error-without-fault", || format!("{} after {:?}", name, s));
                None
            }
            Ok(Ok(())) => Some(s),
        }
    };
    let text = whole(cx)?;
    cx.ev(name, text.len() as u64, alt as u64, text.as_bytes());
    for _ in 0..cx.ch.draw(4) {
        let cap = cx.ch.draw(text.len() as u64 + 2) as usize;
        let torn = cx.ch.chance(128);
        let mut s = Sink { got: String::new(), cap, torn, errors: 0, after: 0 };
        let r = sut(|| render(v, alt, &mut s));
        cx.faults_n("diagnostics-sink-failed", s.errors);
        cx.ev("sink", cap as u64, s.errors, s.got.as_bytes());
        cx.nontrivial |= s.errors > 0;
        cx.checks += 1;
        match r {
            Err(p) => cx.fail("diagnostics-crashed", || format!("{} with a sink of {} bytes: {}", name, cap, p.0)),
            Ok(Ok(())) => {
                if s.got != text {
                    cx.fail("diagnostics-false-success", || format!("{} delivered {:?} of {:?}", name, s.got, text));
                }
            }
            Ok(Err(_)) => {
                if s.errors == 0 {
                    cx.fail("diagnostics-error-without-fault", || format!("{} delivered {:?}", name, s.got));
                } else if !text.starts_with(&s.got) {
                    cx.fail("diagnostics-not-a-prefix", || format!("{} delivered {:?} of {:?}", name, s.got, text));
                }
            }
        }
        if cx.failed() {
            return None;
        }
    }
    cx.checks += 1;
    let again = whole(cx)?;
    if again != text {
        cx.fail("diagnostics-vary", || format!("{} first {:?} then {:?}", name, text, again));
        return None;
    }
    if alt {
        let mut s = String::new();
        let _ = sut(|| render(v, false, &mut s));
        return Some(s);
    }
    Some(text)
}

fn flags_named(cx: &mut Ctx, f: u32, text: &str, place: &str) {
    cx.checks += 1;
    match named(text) {
        Ok(g) if g == f => {}
        r => cx.fail("wrong-flag-names", || format!("{:08x} {} as {:?}: {:x?}", f, place, text, r)),
    }
}

/// A bit flipped, a byte replaced, two bytes swapped, or one inserted into a length-free place.
fn twin(cx: &mut Ctx, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    if v.is_empty() {
        return v;
    }
    for _ in 0..cx.ch.range(1, 2) {
        let i = cx.ch.draw(v.len() as u64) as usize;
        match cx.ch.draw(3) {
            0 => v[i] ^= 1 << cx.ch.draw(8),
            1 => v[i] = cx.ch.draw(256) as u8,
            _ => {
                let j = cx.ch.draw(v.len() as u64) as usize;
                v.swap(i, j);
            }
        }
    }
    v
}

fn both<T: Debug + PartialEq + for<'x> Decodable<'x>>(cx: &mut Ctx, b: &[u8], name: &'static str, look: fn(&T) -> Vec<(&'static str, Vec<u8>)>, flags: fn(&T) -> Option<Flags>) {
    let v = match dec::<T>(b) {
        Ok(Ok(v)) => v,
        _ => return,
    };
    let text = match show(cx, &v, name) {
        Some(t) => t,
        None => return,
    };
    let low = text.to_lowercase();
    for (what, bytes) in look(&v) {
        cx.checks += 1;
        if !low.contains(&hex(&bytes)) {
            cx.fail("bytes-not-shown", || format!("{} {} {} not in {:?}", name, what, hex(&bytes), text));
            return;
        }
    }
    if let Some(f) = flags(&v) {
        let mut s = String::new();
        let _ = sut(|| render(&f, false, &mut s));
        flags_named(cx, f.0, &s, name);
        cx.checks += 1;
        if !text.contains(&s) {
            cx.fail("flags-not-shown", || format!("{} flags {} not in {:?}", name, s, text));
        }
    }
    if cx.failed() {
        return;
    }
    for _ in 0..cx.ch.range(1, 4) {
        let t = twin(cx, b);
        if let Ok(Ok(w)) = dec::<T>(&t) {
            if w == v {
                continue;
            }
            let mut s = String::new();
            cx.checks += 1;
            cx.count("twins-compared", 1);
            match sut(|| render(&w, false, &mut s)) {
                Err(p) => cx.fail("diagnostics-crashed", || format!("{} {}", name, p.0)),
                Ok(_) => {
                    if s == text {
                        cx.fail("different-messages-look-alike", || format!("{} {} and {} both {:?}", name, hexs(b), hexs(&t), text));
                    }
                }
            }
            if cx.failed() {
                return;
            }
        }
    }
}

macro_rules! buffers {
    ($cx:expr, $k:expr, $($i:literal $t:ident $n:literal),*) => {
        match $k { $($i => {
            let mut a = [0u8; $n];
            let b = $cx.ch.bytes($n);
            a.copy_from_slice(&b);
            let v: $t = a.into();
            if let Some(t) = show($cx, &v, stringify!($t)) {
                $cx.checks += 1;
                if t.to_lowercase() != hex(&b) {
                    $cx.fail("bytes-not-shown", || format!("{} {} shown as {:?}", stringify!($t), hex(&b), t));
                }
            }
        })* _ => {} }
    };
}

pub fn run(cx: &mut Ctx) {
    fn none<T>(_: &T) -> Option<Flags> {
        None
    }
    fn nothing<T>(_: &T) -> Vec<(&'static str, Vec<u8>)> {
        vec![]
    }
    fn in_auth(a: &Authenticate) -> Vec<(&'static str, Vec<u8>)> {
        let mut v = vec![("integrity code", a.mic.to_vec())];
        if let Some(k) = a.get_encrypted_random_session_key() {
            v.push(("session key", k.to_vec()));
        }
        match &a.lm_challenge_response {
            Some(LmChallenge::V1(r)) => v.push(("LM response", r.response.to_vec())),
            Some(LmChallenge::V2(r)) => v.push(("LMv2 response", r.response.to_vec())),
            None => {}
        }
        if let Some(NtChallenge::V1(r)) = &a.nt_challenge_response {
            v.push(("NT response", r.response.to_vec()));
        }
        v
    }
    match cx.ch.draw(12) {
        0..=2 => {
            let f = match cx.ch.draw(4) {
                0 => 1 << cx.ch.draw(32),
                1 => !(1 << cx.ch.draw(32)),
                2 => [0, u32::MAX, 0xe208_8297, 0x6289_8235][cx.ch.draw(4) as usize],
                _ => cx.ch.u64() as u32,
            };
            cx.nontrivial = true;
            if let Some(t) = show(cx, &Flags(f), "flags") {
                flags_named(cx, f, &t, "alone");
            }
        }
        3 => {
            let k = cx.ch.draw(11);
            buffers!(cx, k, 0 ServerChallenge 8, 1 ClientChallenge 8, 2 SessionBaseKey 16, 3 KeyExchangeKey 16, 4 ExportedSessionKey 16,
                5 NtProofStr 16, 6 Response16 16, 7 Response24 24, 8 Mic 16, 9 RandomPad 4, 10 EncryptedRandomSessionKey 16);
        }
        4..=6 => {
            let c = r_chal(cx);
            let l = gen::layout(&mut cx.ch, 128);
            let b = enc_chal(&c, &l);
            both::<Challenge>(cx, &b, "challenge", |c| vec![("server challenge", c.server_challenge.to_vec())], |c| Some(c.negotiate_flags));
            if !cx.failed() {
                if let Ok(Ok(v)) = dec::<Challenge>(&b) {
                    // names are shown as they are
                    let t = sut(|| v.get_target_name().map(|n| (n.to_string(), format!("{}", n), format!("{:?}", n))));
                    cx.checks += 1;
                    if let Ok(Some((plain, shown, quoted))) = t {
                        if plain != c.target || shown != plain || quoted != format!("{:?}", plain) {
                            cx.fail("name-not-shown", || format!("{:?} shown as {:?} and {:?}", c.target, shown, quoted));
                        }
                    }
                }
            }
        }
        7 => {
            let n = r_neg(cx);
            let l = gen::layout(&mut cx.ch, 128);
            let b = enc_neg(&n, &l);
            both::<Negotiate>(cx, &b, "negotiate", nothing, |n| Some(n.negotiate_flags));
        }
        8 => {
            let a = r_auth(cx);
            let l = gen::layout(&mut cx.ch, 128);
            let b = enc_auth(&a, &l);
            both::<Authenticate>(cx, &b, "authenticate", in_auth, |a| Some(a.negotiate_flags));
        }
        9 => {
            let b = enc_avs(&gen::avs(&mut cx.ch));
            both::<Vec<AvPair>>(cx, &b, "av-pairs", nothing, none);
        }
        10 => {
            let b = v2_response(cx);
            both::<NtChallenge>(cx, &b, "nt-response", nothing, none);
            let mut s = vec![1, 0, 0, 0];
            s.extend(cx.ch.bytes(12));
            both::<MessageSignature>(cx, &s, "signature", |s| vec![("pad", s.random_pad.to_vec())], none);
            let mut f = gen::filetime(&mut cx.ch).to_le_bytes().to_vec();
            both::<FileTime>(cx, &f, "filetime", nothing, none);
            f = cx.ch.bytes(24);
            both::<LmChallenge>(cx, &f, "lm-response", nothing, none);
        }
        _ => {
            let (_, b) = hostile_bytes(cx);
            both::<Challenge>(cx, &b, "challenge", |c| vec![("server challenge", c.server_challenge.to_vec())], |c| Some(c.negotiate_flags));
            both::<Authenticate>(cx, &b, "authenticate", in_auth, |a| Some(a.negotiate_flags));
            both::<Negotiate>(cx, &b, "negotiate", nothing, |n| Some(n.negotiate_flags));
        }
    }
}
