//! Edge-biased generators, all fed by the choice stream (0 = simplest).
use crate::choices::Choices;
use crate::refntlm::*;

const ASCII: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_";
const PUNCT: &[u8] = b" !\"#$%&'()*+,-./:;<=>?[]^_`{|}~";
const LATIN: &[char] = &['é', 'ü', 'ñ', 'å', 'ø', 'ÿ', 'Ä', 'Ö', 'ç', 'µ', '£', '\u{a0}'];
const OTHER: &[char] = &['Ω', 'σ', 'ς', 'ж', 'Я', 'ı', 'ſ', 'ª', 'ǆ', '中', '文', '한', '€', '\u{301}', '\u{200d}', '\u{fffd}', '\u{ffff}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{100}', '\u{2f00}', '\u{5c00}', '\u{4000}'];
const ASTRAL: &[char] = &['😀', '𐐨', '𐐀', '𝒳', '𠀀', '\u{10ffff}', '\u{10000}', '\u{1f1eb}'];

/// Characters whose upper-case form is a single character (others are compared differently by
/// different servers).
fn single_upper(c: char) -> bool {
    c.to_uppercase().count() == 1
}

pub fn chr(ch: &mut Choices, class: u64) -> char {
    match class {
        0 => *ch.pick(ASCII) as char,
        1 => *ch.pick(PUNCT) as char,
        2 => *ch.pick(LATIN),
        3 => *ch.pick(OTHER),
        4 => *ch.pick(ASTRAL),
        _ => {
            let mut v = 1 + ch.draw(0x10ffff) as u32;
            while char::from_u32(v).is_none() {
                v = (v + 0x800) % 0x10ffff + 1;
            }
            char::from_u32(v).unwrap()
        }
    }
}

/// A text of `len` characters; `mix` picks the class per character, else one class throughout.
pub fn text_of(ch: &mut Choices, len: usize, upper_safe: bool) -> String {
    let mode = ch.draw(10);
    let mut s = String::new();
    for _ in 0..len {
        let class = match mode {
            0..=4 => 0,
            5 => 1,
            6 => 2,
            7 => 3,
            8 => 4,
            _ => ch.draw(6),
        };
        let mut c = chr(ch, class);
        if upper_safe && !single_upper(c) {
            c = 'x';
        }
        s.push(c);
    }
    s
}

/// Pieces that well-meaning code trims, folds, unescapes or cuts at.
const TROUBLE: &[&str] = &[
    " ", "  ", "\t", "\n", "\r\n", "\0", "\u{85}", "\u{a0}", "\u{3000}", "\u{2028}", "\u{feff}", "\u{200b}", "\u{7f}", "e\u{301}", "\u{1100}\u{1161}",
    "\u{212b}", "\u{ff21}", "%20", "+", "\"", "'", "$", "\\n", ".", ":", "/", "0", "A", "a",
];

/// Puts trouble at the start, the end or inside.
fn spice(ch: &mut Choices, s: &mut String, upper_safe: bool) {
    let p = *ch.pick(TROUBLE);
    // the library reads U+0000 in a name as its end, so no name has one
    if upper_safe && (p == "\0" || !p.chars().all(single_upper)) {
        return;
    }
    let at = match ch.draw(4) {
        0 | 1 => s.len(),
        2 => 0,
        _ => {
            let k = ch.draw(s.chars().count() as u64 + 1) as usize;
            s.char_indices().map(|(i, _)| i).nth(k).unwrap_or(s.len())
        }
    };
    s.insert_str(at, p);
}

/// Makes a text long by repetition.
pub fn stretch(ch: &mut Choices, s: &mut String, max: usize) {
    let n = *ch.pick(&[127usize, 128, 129, 255, 256, 257, 511, 513, 1023, 1025, 4097, 8191, 16_385, 32_767]);
    let units = s.encode_utf16().count();
    if units == 0 {
        return;
    }
    let mut t = String::new();
    let mut have = 0;
    while have + units <= n.min(max) {
        t.push_str(s);
        have += units;
    }
    while have < n.min(max) {
        t.push(if have % 7 == 0 { 'q' } else { 'w' });
        have += 1;
    }
    *s = t;
}

pub fn len(ch: &mut Choices, max_rare: u64) -> usize {
    (match ch.draw(16) {
        0..=9 => 1 + ch.draw(12),
        10 => 0,
        11 => 1,
        12 => 13 + ch.draw(4),
        13 => 15 + ch.draw(20),
        14 => ch.draw(120),
        _ => ch.draw(max_rare),
    }) as usize
}

pub fn name(ch: &mut Choices) -> String {
    let n = len(ch, 300);
    let mut s = text_of(ch, n, true);
    if ch.chance(24) {
        spice(ch, &mut s, true);
    }
    s
}

pub fn nonempty_name(ch: &mut Choices) -> String {
    let n = len(ch, 300).max(1);
    text_of(ch, n, true)
}

pub fn password(ch: &mut Choices) -> String {
    let n = match ch.draw(16) {
        0..=4 => 6 + ch.draw(9),
        5 => 0,
        6 => 1 + ch.draw(6),
        7 => 7,
        8 => 8,
        9 => 13,
        10 => 14,
        11 => 15,
        12 => 14 + ch.draw(4),
        13 => 10 + ch.draw(6),
        _ => ch.draw(160),
    } as usize;
    let mut p = text_of(ch, n, false);
    if ch.chance(6) && !p.is_empty() {
        // a few characters whose case mapping changes length
        let c = *ch.pick(&['ß', 'ŉ', 'ﬁ', 'ΐ', '\0', '\u{149}']);
        p.push(c);
    }
    if ch.chance(40) {
        spice(ch, &mut p, false);
    }
    if ch.chance(2) {
        stretch(ch, &mut p, 1 << 16);
    }
    p
}

/// How an account is given to the client.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Form {
    Pair,
    Backslash,
    At,
    Bare,
}

pub fn account(ch: &mut Choices) -> (Account, Form) {
    let form = *ch.pick(&[Form::Pair, Form::Backslash, Form::At, Form::Bare]);
    let mut user = name(ch);
    let mut domain = if ch.chance(64) { String::new() } else { name(ch) };
    let mut pw = password(ch);
    if ch.chance(1) {
        stretch(ch, &mut user, 32_766);
    }
    if ch.chance(1) && domain.is_ascii() {
        stretch(ch, &mut domain, 32_767);
    }
    if form != Form::Pair {
        // a down-level name DOMAIN\user may well have a user part such as someone@example.com
        let upn = form == Form::Backslash && ch.chance(48);
        user = user.replace(['\\', '@'], "-");
        if upn {
            let at = user.char_indices().map(|(i, _)| i).nth(user.chars().count() / 2).unwrap_or(0);
            user.insert(at, '@');
        }
        domain = domain.replace(['\\', '@'], "-");
    } else if ch.chance(24) {
        let at = user.char_indices().map(|(i, _)| i).nth(user.chars().count() / 2).unwrap_or(0);
        user.insert(at, *ch.pick(&['@', '\\']));
    }
    if form == Form::Bare {
        domain.clear();
    }
    if user.is_empty() && pw.is_empty() {
        pw.push('p');
    }
    (Account { user, domain, pw }, form)
}

fn swap_case(s: &str) -> String {
    s.chars()
        .map(|c| match c {
            'a'..='z' => c.to_ascii_uppercase(),
            'A'..='Z' => c.to_ascii_lowercase(),
            _ => c,
        })
        .collect()
}

/// An account that could be mistaken for another one: what is kept between sessions under too short
/// or too coarse a key shows.
pub fn related(ch: &mut Choices, o: &Account, oform: Form, own: (Account, Form)) -> (Account, Form) {
    let (mut a, form) = own;
    if o.user.len() + o.domain.len() > 2000 {
        return (a, form);
    }
    match ch.draw(8) {
        0 => (Account { pw: a.pw, ..o.clone() }, oform),
        1 => (o.clone(), oform),
        2 => (Account { user: swap_case(&o.user), ..o.clone() }, oform),
        3 => (Account { pw: swap_case(&o.pw), ..o.clone() }, oform),
        4 if oform != Form::Bare => (Account { domain: swap_case(&o.domain), ..o.clone() }, oform),
        5 => {
            // the same text, split elsewhere
            a = o.clone();
            if let Some(c) = a.user.pop() {
                a.domain.insert(0, c);
            }
            if a.user.is_empty() {
                a.user.push('u');
            }
            (a, Form::Pair)
        }
        6 => (Account { user: o.domain.clone() + "u", domain: o.user.clone(), pw: o.pw.clone() }, Form::Pair),
        _ => {
            a.pw = o.pw.clone();
            if a.user.is_empty() && a.pw.is_empty() {
                a.pw.push('p');
            }
            (a, form)
        }
    }
}

/// Names and times in a challenge that coincide with something the client knows.
pub fn coincide(ch: &mut Choices, c: &mut RChal, a: &Account, ws: &str, now: u64, earlier: Option<&RChal>) {
    let names: Vec<String> = [a.domain.clone(), a.user.clone(), ws.to_string(), ws.to_lowercase(), a.domain.to_uppercase()]
        .into_iter()
        .filter(|n| !n.is_empty() && n.len() < 600 && !n.contains('\0'))
        .collect();
    let big = c.avs.iter().any(|a| a.raw().1.len() > 10_000);
    for av in c.avs.iter_mut() {
        match av {
            // (no room)
            RAv::Str(..) if big => {}
            RAv::Str(_, t) if !names.is_empty() && ch.chance(128) => *t = ch.pick(&names).clone(),
            RAv::Time(t) if ch.chance(128) => *t = *ch.pick(&[now, now.wrapping_sub(1), now.wrapping_add(1), now.wrapping_add(3_000_000_000), now.wrapping_sub(864_000_000_000)]),
            RAv::Cb(b) if ch.chance(128) => *b = [0; 16],
            _ => {}
        }
    }
    if !c.target.is_empty() && !names.is_empty() && ch.chance(128) {
        c.target = ch.pick(&names).clone();
    }
    if let Some(e) = earlier {
        match ch.draw(4) {
            0 => c.sc = e.sc,
            1 => c.sc[..4].copy_from_slice(&e.sc[..4]),
            2 => {
                // the same content with another server challenge
                let sc = c.sc;
                *c = e.clone();
                c.sc = sc;
            }
            _ => {}
        }
    }
}

pub fn client(level: u32, a: &Account, form: Form, target: &str) -> Result<Box<dyn crate::sut::AnyClient>, crate::sut::Panicked> {
    crate::hygiene::guard_account(a);
    match form {
        Form::Pair => crate::sut::make(level, &a.user, Some(&a.domain), &a.pw, target),
        Form::Backslash => crate::sut::make(level, &format!("{}\\{}", a.domain, a.user), None, &a.pw, target),
        Form::At => crate::sut::make(level, &format!("{}@{}", a.user, a.domain), None, &a.pw, target),
        Form::Bare => crate::sut::make(level, &a.user, None, &a.pw, target),
    }
}

pub fn challenge_bytes(ch: &mut Choices) -> [u8; 8] {
    match ch.draw(16) {
        0 => [0; 8],
        1 => [0xff; 8],
        2 => [1, 1, 0, 0, 0, 0, 0, 0],
        3 => {
            let mut b = ch.bytes8();
            b[*ch.pick(&[0usize, 7, 3])] = *ch.pick(&[0, 0xff, 0x80]);
            b
        }
        _ => ch.bytes8(),
    }
}

pub fn filetime(ch: &mut Choices) -> u64 {
    match ch.draw(10) {
        0..=4 => 116_444_736_000_000_000 + ch.draw(40_000_000_000_000_000),
        5 => 0,
        6 => u64::MAX,
        7 => 116_444_736_000_000_000 - 1 + ch.draw(3),
        8 => *ch.pick(&[1, i64::MAX as u64, i64::MAX as u64 + 1, 1 << 32, u32::MAX as u64, 0x0101]),
        _ => ch.u64(),
    }
}

/// A name a server gives itself or its domain.
fn server_text(ch: &mut Choices, n: usize) -> String {
    let mut s = text_of(ch, n, false);
    if ch.chance(8) {
        spice(ch, &mut s, false);
        s = s.replace('\0', "");
    }
    s
}

pub fn av(ch: &mut Choices) -> RAv {
    match ch.draw(10) {
        0..=4 => {
            let id = *ch.pick(&[1u16, 2, 3, 4, 5, 9]);
            let n = len(ch, 400);
            RAv::Str(id, server_text(ch, n))
        }
        5 => RAv::Time(filetime(ch)),
        6 => RAv::Flags(ch.draw(8) as u32),
        7 => {
            let size = *ch.pick(&[48u32, 48, 0, u32::MAX]);
            let custom = ch.bytes8();
            let mut machine = [0; 32];
            machine.copy_from_slice(&ch.bytes(32));
            RAv::Host { size, z4: 0, custom, machine }
        }
        8 => {
            let mut b = [0; 16];
            if !ch.chance(24) {
                b.copy_from_slice(&ch.bytes(16));
            }
            RAv::Cb(b)
        }
        _ => RAv::Str(9, format!("HTTP/{}", text_of(ch, 8, false))),
    }
}

/// What a conformant Unicode server may put in a challenge.
pub fn conformant(ch: &mut Choices) -> RChal {
    let mut c = RChal { flags: fl::UNICODE, sc: challenge_bytes(ch), ..Default::default() };
    for f in [fl::SIGN, fl::SEAL, fl::KEY_EXCH, fl::ALWAYS_SIGN, fl::B128] {
        if !ch.chance(64) {
            c.flags |= f;
        }
    }
    for f in [fl::NTLM, fl::B56, fl::IDENTIFY] {
        if ch.chance(96) {
            c.flags |= f;
        }
    }
    if ch.chance(24) {
        c.flags |= fl::OEM;
    }
    match ch.draw(8) {
        0..=3 => c.flags |= fl::ESS,
        4 | 5 => c.flags |= fl::LM_KEY,
        _ => {}
    }
    if ch.chance(48) {
        c.flags |= fl::NON_NT;
    }
    if !ch.chance(64) {
        c.flags |= fl::REQUEST_TARGET | *ch.pick(&[fl::TYPE_DOMAIN, fl::TYPE_SERVER]);
        let n = len(ch, 200);
        c.target = server_text(ch, n);
        if ch.chance(1) {
            stretch(ch, &mut c.target, 32_767);
        }
    }
    if !ch.chance(48) {
        c.flags |= fl::TARGET_INFO;
        c.avs = avs(ch);
    }
    if ch.chance(128) {
        c.flags |= fl::VERSION;
        c.version = Some(*ch.pick(&[(6, 0, 6000), (10, 0, 20348), (0, 0, 0), (255, 255, 65535), (5, 1, 2600)]));
    }
    c
}

/// A terminated pair list, at most one of each kind, as a server sends it.
pub fn avs(ch: &mut Choices) -> Vec<RAv> {
    let mut v = Vec::new();
    match ch.draw(8) {
        0..=3 => {
            for id in [2u16, 1, 4, 3, 5] {
                if ch.chance(200) {
                    let n = len(ch, 250);
                    v.push(RAv::Str(id, server_text(ch, n)));
                }
            }
            if ch.chance(100) {
                v.push(RAv::Time(filetime(ch)));
            }
        }
        4 => {}
        _ => {
            let n = ch.draw(9);
            for _ in 0..n {
                let a = av(ch);
                if !v.iter().any(|x: &RAv| x.raw().0 == a.raw().0) {
                    v.push(a);
                }
            }
        }
    }
    if ch.chance(3) {
        // a target information block near the size limits
        // (65486 bytes, terminator included, are the most a response can give back)
        let n = *ch.pick(&[4_000usize, 32_000, 54_000, 65_484, 65_486]);
        v.retain(|x| x.raw().0 != 5);
        fill_to(&mut v, n);
    }
    v.push(RAv::Eol);
    v
}

/// Adds a name that makes the pairs, with the terminator still to come, that many bytes.
fn fill_to(v: &mut Vec<RAv>, total: usize) {
    let have: usize = v.iter().map(|a| 4 + a.raw().1.len()).sum::<usize>() + 8;
    if have < total {
        v.push(RAv::Str(5, "x".repeat((total - have) / 2)));
    }
}

pub fn layout(ch: &mut Choices, canonical_of_256: u64) -> Layout {
    if !ch.chance(256 - canonical_of_256) {
        return Layout { version_hole: true, ..Default::default() };
    }
    let mut l = Layout { version_hole: ch.chance(128), order: ch.draw(720), ..Default::default() };
    if ch.chance(128) {
        for g in l.gaps.iter_mut() {
            if ch.chance(90) {
                *g = ch.range(1, 40) as u8;
            }
        }
        l.gap_byte = *ch.pick(&[0, 0xff, 0x41]);
    }
    if ch.chance(80) {
        l.max_extra = *ch.pick(&[2, 100, 65535]);
    }
    if ch.chance(80) {
        l.trailing = ch.range(1, 60) as u8;
    }
    l.empty_off = ch.draw(6) as u8;
    l
}

/// The bits a hostile server may send: anything, conformant or not.
pub fn hostile_flags(ch: &mut Choices, base: u32) -> u32 {
    match ch.draw(6) {
        0 => ch.u64() as u32,
        1 => base ^ 1 << ch.draw(32),
        2 => base ^ 1 << ch.draw(32) ^ 1 << ch.draw(32),
        3 => base & !(fl::ESS | fl::TARGET_INFO) | fl::NTLM | fl::LM_KEY,
        4 => *ch.pick(&[0, u32::MAX, fl::OEM, fl::LM_KEY | fl::UNICODE, fl::ESS | fl::LM_KEY | fl::UNICODE]),
        _ => base,
    }
}

/// Any challenge an attacker can phrase with well-typed content.
pub fn hostile(ch: &mut Choices) -> RChal {
    let mut c = conformant(ch);
    c.flags = hostile_flags(ch, c.flags);
    if ch.chance(100) {
        c.avs.clear();
        for _ in 0..ch.draw(12) {
            let a = if ch.chance(24) { RAv::Eol } else { av(ch) };
            c.avs.push(a);
        }
        if !ch.chance(32) {
            c.avs.push(RAv::Eol);
        }
    }
    if ch.chance(1) {
        c.flags |= fl::TARGET_INFO;
        c.avs.clear();
        fill_to(&mut c.avs, *ch.pick(&[65_486usize, 65_488, 65_490, 65_534]));
        c.avs.push(RAv::Eol);
    }
    c.version = if c.flags & fl::VERSION != 0 { Some((6, 1, 7600)) } else { None };
    c
}

/// Damage done to bytes in transit. Returns the fault kind.
pub fn corrupt(ch: &mut Choices, b: &mut Vec<u8>) -> &'static str {
    if b.is_empty() {
        b.push(ch.draw(256) as u8);
        return "byte-inserted";
    }
    match ch.draw(8) {
        0 | 1 => {
            let i = ch.draw(b.len() as u64) as usize;
            b[i] ^= 1 << ch.draw(8);
            "bit-flip"
        }
        2 => {
            let i = ch.draw(b.len() as u64) as usize;
            b[i] = *ch.pick(&[0, 0xff, 1, 0x7f, 0x80]);
            "byte-overwrite"
        }
        3 => {
            // hit a 16/32-bit header field with an interesting value
            let i = 8 + 4 * ch.draw(18) as usize;
            let v = *ch.pick(&[0u32, 1, 4, 0xffff, 0xffff_ffff, 0x7fff_ffff, 0x8000_0000, 48, 56, 64, 88]);
            for (k, x) in v.to_le_bytes().iter().enumerate() {
                if i + k < b.len() {
                    b[i + k] = *x;
                }
            }
            "header-field-overwrite"
        }
        4 => {
            let n = ch.draw(b.len() as u64) as usize;
            b.truncate(n);
            "truncated"
        }
        5 => {
            let n = ch.range(1, 24) as usize;
            let x = ch.bytes(n);
            b.extend(x);
            "extended"
        }
        6 => {
            let i = ch.draw(b.len() as u64) as usize;
            b.remove(i);
            "byte-lost"
        }
        _ => {
            let i = ch.draw(b.len() as u64 + 1) as usize;
            b.insert(i, ch.draw(256) as u8);
            "byte-inserted"
        }
    }
}
