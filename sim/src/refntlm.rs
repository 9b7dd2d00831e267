//! Independent MS-NLMP reference: codecs, hashes, and a server-side verifier. Shares no code with
//! the library except the primitive ciphers and digests.
use des::cipher::{generic_array::GenericArray, BlockEncrypt, KeyInit as _};
use hmac::{Hmac, Mac};
use md4::Digest;
use rc4::StreamCipher;

pub type K16 = [u8; 16];

pub mod fl {
    pub const UNICODE: u32 = 1;
    pub const OEM: u32 = 1 << 1;
    pub const REQUEST_TARGET: u32 = 1 << 2;
    pub const SIGN: u32 = 1 << 4;
    pub const SEAL: u32 = 1 << 5;
    pub const DATAGRAM: u32 = 1 << 6;
    pub const LM_KEY: u32 = 1 << 7;
    pub const NTLM: u32 = 1 << 9;
    pub const ANON: u32 = 1 << 11;
    pub const DOMAIN_SUPPLIED: u32 = 1 << 12;
    pub const WS_SUPPLIED: u32 = 1 << 13;
    pub const ALWAYS_SIGN: u32 = 1 << 15;
    pub const TYPE_DOMAIN: u32 = 1 << 16;
    pub const TYPE_SERVER: u32 = 1 << 17;
    pub const ESS: u32 = 1 << 19;
    pub const IDENTIFY: u32 = 1 << 20;
    pub const NON_NT: u32 = 1 << 22;
    pub const TARGET_INFO: u32 = 1 << 23;
    pub const VERSION: u32 = 1 << 25;
    pub const B128: u32 = 1 << 29;
    pub const KEY_EXCH: u32 = 1 << 30;
    pub const B56: u32 = 1 << 31;
    pub const RESERVED: [u32; 10] = [3, 8, 10, 14, 18, 21, 24, 26, 27, 28];
}

pub fn utf16(s: &str) -> Vec<u8> {
    s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect()
}

fn to16(x: &[u8]) -> K16 {
    let mut k = [0; 16];
    k.copy_from_slice(&x[..16]);
    k
}
pub fn md4(x: &[u8]) -> K16 {
    to16(&md4::Md4::digest(x))
}
pub fn md5(x: &[u8]) -> K16 {
    to16(&md5::Md5::digest(x))
}
pub fn hmac(key: &[u8], parts: &[&[u8]]) -> K16 {
    let mut m = <Hmac<md5::Md5> as Mac>::new_from_slice(key).unwrap();
    for p in parts {
        m.update(p);
    }
    to16(&m.finalize().into_bytes())
}
pub fn rc4k(key: &K16, data: &[u8]) -> Vec<u8> {
    let mut v = data.to_vec();
    rc4::Rc4::new(key.into()).apply_keystream(&mut v);
    v
}
/// DES with a 56-bit key: the key bits in order, seven per byte, parity bit ignored.
pub fn des7(key: &[u8], block: &[u8]) -> [u8; 8] {
    let mut bits: u64 = 0;
    for b in &key[..7] {
        bits = bits << 8 | *b as u64;
    }
    let mut k8 = [0u8; 8];
    for (i, o) in k8.iter_mut().enumerate() {
        *o = ((bits >> (49 - 7 * i)) as u8 & 0x7f) << 1;
    }
    let c = des::Des::new_from_slice(&k8).unwrap();
    let mut b = GenericArray::clone_from_slice(block);
    c.encrypt_block(&mut b);
    let mut o = [0; 8];
    o.copy_from_slice(&b);
    o
}
pub fn desl(key: &K16, d: &[u8]) -> [u8; 24] {
    let mut k = [0u8; 21];
    k[..16].copy_from_slice(key);
    let mut o = [0; 24];
    for i in 0..3 {
        o[i * 8..i * 8 + 8].copy_from_slice(&des7(&k[i * 7..i * 7 + 7], d));
    }
    o
}
pub fn ntowf(pw: &str) -> K16 {
    md4(&utf16(pw))
}
/// Defined only for ASCII passwords (the OEM code page of the account database is unknown).
pub fn lmowf(pw: &str) -> Option<K16> {
    if !pw.is_ascii() {
        return None;
    }
    let mut p: Vec<u8> = pw.bytes().map(|b| b.to_ascii_uppercase()).take(14).collect();
    p.resize(14, 0);
    let mut o = [0; 16];
    o[..8].copy_from_slice(&des7(&p[..7], b"KGS!@#$%"));
    o[8..].copy_from_slice(&des7(&p[7..], b"KGS!@#$%"));
    Some(o)
}
pub fn ntowfv2(nt: &K16, user: &str, domain: &str) -> K16 {
    hmac(nt, &[&utf16(&user.to_uppercase()), &utf16(domain)])
}

// ---------------------------------------------------------------- messages

#[derive(Clone, Debug, PartialEq)]
pub enum RAv {
    Eol,
    /// names: ids 1-5 and 9
    Str(u16, String),
    Flags(u32),
    Time(u64),
    Host { size: u32, z4: u32, custom: [u8; 8], machine: [u8; 32] },
    Cb([u8; 16]),
}

impl RAv {
    pub fn raw(&self) -> (u16, Vec<u8>) {
        match self {
            RAv::Eol => (0, vec![]),
            RAv::Str(id, s) => (*id, utf16(s)),
            RAv::Flags(f) => (6, f.to_le_bytes().to_vec()),
            RAv::Time(t) => (7, t.to_le_bytes().to_vec()),
            RAv::Host { size, z4, custom, machine } => {
                let mut v = size.to_le_bytes().to_vec();
                v.extend(z4.to_le_bytes());
                v.extend(custom);
                v.extend(machine);
                (8, v)
            }
            RAv::Cb(h) => (10, h.to_vec()),
        }
    }
    pub fn from_sut(a: &http_ntlm::messages::structures::AvPair) -> RAv {
        use http_ntlm::messages::structures::AvPair as A;
        match a {
            A::MsvAvEOL => RAv::Eol,
            A::MsvAvNbComputerName(s) => RAv::Str(1, s.clone()),
            A::MsvAvNbDomainName(s) => RAv::Str(2, s.clone()),
            A::MsvAvDnsComputerName(s) => RAv::Str(3, s.clone()),
            A::MsvAvDnsDomainName(s) => RAv::Str(4, s.clone()),
            A::MsvAvDnsTreeName(s) => RAv::Str(5, s.clone()),
            A::MsvAvFlags(f) => RAv::Flags(
                f.account_authentication_constrained as u32 | (f.mic_present as u32) << 1 | (f.generated_spn_from_untrusted_source as u32) << 2,
            ),
            A::MsvAvTimestamp(t) => RAv::Time((t.high as u64) << 32 | t.low as u64),
            A::MsvAvSingleHost(h) => RAv::Host { size: h.size, z4: h.z4, custom: h.custom_data, machine: h.machine_id },
            A::MsvAvTargetName(s) => RAv::Str(9, s.clone()),
            A::MsvAvChannelBindings(h) => RAv::Cb(*h),
        }
    }
    pub fn to_sut(&self) -> http_ntlm::messages::structures::AvPair {
        use http_ntlm::messages::structures::{AvPair as A, FileTime, MsvAvFlags, SingleHostData};
        match self {
            RAv::Eol => A::MsvAvEOL,
            RAv::Str(1, s) => A::MsvAvNbComputerName(s.clone()),
            RAv::Str(2, s) => A::MsvAvNbDomainName(s.clone()),
            RAv::Str(3, s) => A::MsvAvDnsComputerName(s.clone()),
            RAv::Str(4, s) => A::MsvAvDnsDomainName(s.clone()),
            RAv::Str(5, s) => A::MsvAvDnsTreeName(s.clone()),
            RAv::Str(_, s) => A::MsvAvTargetName(s.clone()),
            RAv::Flags(f) => A::MsvAvFlags(MsvAvFlags {
                account_authentication_constrained: f & 1 != 0,
                mic_present: f & 2 != 0,
                generated_spn_from_untrusted_source: f & 4 != 0,
            }),
            RAv::Time(t) => A::MsvAvTimestamp(FileTime { low: *t as u32, high: (*t >> 32) as u32 }),
            RAv::Host { size, z4, custom, machine } => A::MsvAvSingleHost(SingleHostData { size: *size, z4: *z4, custom_data: *custom, machine_id: *machine }),
            RAv::Cb(h) => A::MsvAvChannelBindings(*h),
        }
    }
}

pub fn enc_avs(avs: &[RAv]) -> Vec<u8> {
    let mut v = Vec::new();
    for a in avs {
        let (id, d) = a.raw();
        v.extend(id.to_le_bytes());
        v.extend((d.len() as u16).to_le_bytes());
        v.extend(d);
    }
    v
}

/// Raw (id, value) list up to and including the first end marker; the rest of the bytes.
pub fn split_avs(mut b: &[u8]) -> Option<(Vec<(u16, Vec<u8>)>, &[u8])> {
    let mut out = Vec::new();
    loop {
        if b.len() < 4 {
            return None;
        }
        let id = u16::from_le_bytes([b[0], b[1]]);
        let n = u16::from_le_bytes([b[2], b[3]]) as usize;
        if b.len() < 4 + n {
            return None;
        }
        out.push((id, b[4..4 + n].to_vec()));
        b = &b[4 + n..];
        if id == 0 {
            return Some((out, b));
        }
    }
}

pub type RVer = (u8, u8, u16);

pub fn enc_ver(v: Option<RVer>) -> [u8; 8] {
    match v {
        None => [0; 8],
        Some((a, b, c)) => [a, b, c as u8, (c >> 8) as u8, 0, 0, 0, 0x0f],
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct RChal {
    pub flags: u32,
    pub sc: [u8; 8],
    /// empty and absent are the same on the wire
    pub target: String,
    pub avs: Vec<RAv>,
    pub version: Option<RVer>,
}

impl RChal {
    pub fn from_sut(c: &http_ntlm::messages::Challenge) -> RChal {
        let mut sc = [0; 8];
        sc.copy_from_slice(&c.server_challenge[..8]);
        RChal {
            flags: c.negotiate_flags.0,
            sc,
            target: c.get_target_name().map(|t| t.to_string()).unwrap_or_default(),
            avs: c.get_target_infos().iter().map(RAv::from_sut).collect(),
            version: c.version.as_ref().map(|v| (v.major, v.minor, v.build)),
        }
    }
    pub fn raw_avs(&self) -> Vec<(u16, Vec<u8>)> {
        self.avs.iter().map(|a| a.raw()).collect()
    }
}

/// How a sender lays out the variable part of a message.
#[derive(Clone, Debug, Default)]
pub struct Layout {
    /// order in which the fields are put in the payload (permutation seed)
    pub order: u64,
    /// gap bytes before each field
    pub gaps: [u8; 6],
    pub gap_byte: u8,
    pub max_extra: u16,
    pub trailing: u8,
    /// the 8 version bytes are there (zero) although no version is sent
    pub version_hole: bool,
    /// offset written for an empty field: 0 = zero, 1 = current end, 2 = header end, more = anywhere
    pub empty_off: u8,
}

fn place(fields: &[&[u8]], start: usize, l: &Layout) -> (Vec<[u8; 8]>, Vec<u8>) {
    let n = fields.len();
    let mut idx: Vec<usize> = (0..n).collect();
    let mut o = l.order;
    for i in (1..n).rev() {
        let j = i - (o % (i as u64 + 1)) as usize;
        o /= i as u64 + 1;
        idx.swap(i, j);
    }
    let mut pay = Vec::new();
    let mut desc = vec![[0u8; 8]; n];
    for (k, i) in idx.into_iter().enumerate() {
        let f = fields[i];
        let d = &mut desc[i];
        if f.is_empty() {
            let off = match l.empty_off {
                0 => 0,
                1 => start + pay.len(),
                2 => start,
                // the offset of an empty field has no meaning, and a receiver ignores it
                3 => 0xffff_fff0,
                4 => 9,
                _ => 0x1_0000 + start,
            } as u32;
            d[4..].copy_from_slice(&off.to_le_bytes());
            continue;
        }
        pay.extend(std::iter::repeat(l.gap_byte).take(l.gaps[k % 6] as usize));
        let off = (start + pay.len()) as u32;
        d[..2].copy_from_slice(&(f.len() as u16).to_le_bytes());
        d[2..4].copy_from_slice(&(f.len() as u16).saturating_add(l.max_extra).to_le_bytes());
        d[4..].copy_from_slice(&off.to_le_bytes());
        pay.extend_from_slice(f);
    }
    pay.extend(std::iter::repeat(l.gap_byte).take(l.trailing as usize));
    (desc, pay)
}

pub fn enc_chal(c: &RChal, l: &Layout) -> Vec<u8> {
    let hole = c.version.is_some() || l.version_hole;
    let start = if hole { 56 } else { 48 };
    let t = utf16(&c.target);
    let i = enc_avs(&c.avs);
    let (d, pay) = place(&[&t, &i], start, l);
    let mut v = b"NTLMSSP\0\x02\0\0\0".to_vec();
    v.extend(d[0]);
    v.extend(c.flags.to_le_bytes());
    v.extend(c.sc);
    v.extend([0; 8]);
    v.extend(d[1]);
    if hole {
        v.extend(enc_ver(c.version));
    }
    v.extend(pay);
    v
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct RNeg {
    pub flags: u32,
    pub domain: String,
    pub ws: String,
    pub version: Option<RVer>,
}

pub fn enc_neg(c: &RNeg, l: &Layout) -> Vec<u8> {
    let hole = c.version.is_some() || l.version_hole;
    let start = if hole { 40 } else { 32 };
    let (d, pay) = place(&[c.domain.as_bytes(), c.ws.as_bytes()], start, l);
    let mut v = b"NTLMSSP\0\x01\0\0\0".to_vec();
    v.extend(c.flags.to_le_bytes());
    v.extend(d[0]);
    v.extend(d[1]);
    if hole {
        v.extend(enc_ver(c.version));
    }
    v.extend(pay);
    v
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct RAuth {
    pub lm: Vec<u8>,
    pub nt: Vec<u8>,
    pub domain: String,
    pub user: String,
    pub ws: String,
    pub esk: Vec<u8>,
    pub flags: u32,
    pub version: Option<RVer>,
    pub mic: K16,
}

pub fn enc_auth(c: &RAuth, l: &Layout) -> Vec<u8> {
    let (dd, uu, ww) = (utf16(&c.domain), utf16(&c.user), utf16(&c.ws));
    let (d, pay) = place(&[&c.lm, &c.nt, &dd, &uu, &ww, &c.esk], 88, l);
    let mut v = b"NTLMSSP\0\x03\0\0\0".to_vec();
    for x in d {
        v.extend(x);
    }
    v.extend(c.flags.to_le_bytes());
    v.extend(enc_ver(c.version));
    v.extend(c.mic);
    v.extend(pay);
    v
}

fn u32at(b: &[u8], i: usize) -> u32 {
    u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]])
}

fn field<'a>(b: &'a [u8], at: usize, min: usize, name: &str) -> Result<&'a [u8], String> {
    let n = u16::from_le_bytes([b[at], b[at + 1]]) as usize;
    let off = u32at(b, at + 4) as usize;
    if n == 0 {
        return Ok(&[]);
    }
    if off < min {
        return Err(format!("{} at offset {} lies inside the fixed header", name, off));
    }
    b.get(off..off + n).ok_or_else(|| format!("{} {}+{} beyond message of {}", name, off, n, b.len()))
}

pub struct NegView<'a> {
    pub flags: u32,
    pub domain: &'a [u8],
    pub ws: &'a [u8],
    pub version: Option<[u8; 8]>,
}

pub fn parse_neg(b: &[u8]) -> Result<NegView<'_>, String> {
    if b.len() < 32 || &b[..12] != b"NTLMSSP\0\x01\0\0\0" {
        return Err("not a negotiate message".into());
    }
    let flags = u32at(b, 12);
    let version = if flags & fl::VERSION != 0 {
        let mut v = [0; 8];
        v.copy_from_slice(b.get(32..40).ok_or("no version")?);
        Some(v)
    } else {
        None
    };
    let min = if version.is_some() { 40 } else { 32 };
    Ok(NegView { flags, domain: field(b, 16, min, "domain")?, ws: field(b, 24, min, "workstation")?, version })
}

pub struct ChalView {
    pub flags: u32,
    pub sc: [u8; 8],
    pub target: Vec<u8>,
    pub info: Vec<u8>,
    pub version: Option<[u8; 8]>,
}

pub fn parse_chal(b: &[u8]) -> Result<ChalView, String> {
    if b.len() < 48 || &b[..12] != b"NTLMSSP\0\x02\0\0\0" {
        return Err("not a challenge".into());
    }
    let flags = u32at(b, 20);
    let mut sc = [0; 8];
    sc.copy_from_slice(&b[24..32]);
    let version = if flags & fl::VERSION != 0 {
        let mut v = [0; 8];
        v.copy_from_slice(b.get(48..56).ok_or("no version")?);
        Some(v)
    } else {
        None
    };
    let min = if version.is_some() { 56 } else { 48 };
    Ok(ChalView { flags, sc, target: field(b, 12, min, "target name")?.to_vec(), info: field(b, 40, min, "target info")?.to_vec(), version })
}

pub struct AuthView<'a> {
    pub lm: &'a [u8],
    pub nt: &'a [u8],
    pub domain: &'a [u8],
    pub user: &'a [u8],
    pub ws: &'a [u8],
    pub esk: &'a [u8],
    pub flags: u32,
    pub version: [u8; 8],
    pub mic: K16,
}

/// Full-layout AUTHENTICATE: 64 bytes of fields and flags, 8 of version, 16 of MIC, then payload.
pub fn parse_auth(b: &[u8]) -> Result<AuthView<'_>, String> {
    if b.len() < 88 || &b[..12] != b"NTLMSSP\0\x03\0\0\0" {
        return Err(format!("not a full authenticate message ({} bytes)", b.len()));
    }
    let mut version = [0; 8];
    version.copy_from_slice(&b[64..72]);
    Ok(AuthView {
        lm: field(b, 12, 88, "lm response")?,
        nt: field(b, 20, 88, "nt response")?,
        domain: field(b, 28, 88, "domain")?,
        user: field(b, 36, 88, "user")?,
        ws: field(b, 44, 88, "workstation")?,
        esk: field(b, 52, 88, "session key")?,
        flags: u32at(b, 60),
        version,
        mic: to16(&b[72..88]),
    })
}

// ---------------------------------------------------------------- verifier

pub const A_STRUCT: u32 = 1;
pub const A_IDENT: u32 = 2;
pub const A_NT: u32 = 4;
pub const A_LM: u32 = 8;
pub const A_ECHO: u32 = 16;
pub const A_KEY: u32 = 32;
pub const A_KEYFLAG: u32 = 64;
pub const A_MIC: u32 = 128;
pub const A_TIME: u32 = 256;
pub const A_WS: u32 = 512;
pub const A_DOWN: u32 = 1024;
pub const A_SECRET: u32 = 2048;
pub const A_ENTROPY: u32 = 4096;
pub const A_LIVE: u32 = 8192;
pub const A_NEG: u32 = 16384;
pub const A_STATE: u32 = 32768;
/// the library's own decoder reads what the library emits
pub const A_BACK: u32 = 65536;

#[derive(Clone, Debug)]
pub struct Account {
    pub user: String,
    pub domain: String,
    pub pw: String,
}

pub struct Expect<'a> {
    pub level: u32,
    pub acct: &'a Account,
    /// negotiate bytes and challenge bytes as the verifying side knows them
    pub neg: &'a [u8],
    pub chal_raw: &'a [u8],
    pub chal: &'a RChal,
    /// expected workstation ("" = absent)
    pub ws: Option<&'a str>,
    /// FILETIME window allowed when the challenge carries no timestamp
    pub clock: Option<(i128, i128)>,
    pub exported: Option<&'a [u8]>,
    /// judged at the client, which must hold a key
    pub want_key: bool,
    pub version: Option<RVer>,
}

#[derive(Default)]
pub struct Report {
    /// (aspect, kind, detail)
    pub errs: Vec<(u32, &'static str, String)>,
    pub v2: bool,
    pub nonce: Option<[u8; 8]>,
    /// key transported (key exchange in effect), decrypted
    pub random_key: Option<K16>,
    pub key: Option<K16>,
    pub base_key: Option<K16>,
    pub kek: Option<K16>,
    pub nt_ok: bool,
    pub mic_ok: bool,
}

pub fn key_exchange_applies(flags: u32) -> bool {
    flags & fl::KEY_EXCH != 0 && flags & (fl::SIGN | fl::SEAL) != 0
}

/// What an independent server concludes from an authenticate message.
pub fn verify(raw: &[u8], e: &Expect) -> Report {
    let mut r = Report::default();
    let a = match parse_auth(raw) {
        Ok(a) => a,
        Err(m) => {
            for a in [A_STRUCT, A_NT, A_KEY, A_MIC] {
                if a != A_MIC || e.level >= 3 {
                    r.errs.push((a, "malformed-authenticate", m.clone()));
                }
            }
            return r;
        }
    };
    let acct = e.acct;
    let nt = ntowf(&acct.pw);
    let lm = lmowf(&acct.pw);
    let v2k = ntowfv2(&nt, &acct.user, &acct.domain);
    macro_rules! err {
        ($a:expr, $k:expr, $($t:tt)*) => { r.errs.push(($a, $k, format!($($t)*))) };
    }
    if a.user != utf16(&acct.user) {
        err!(A_IDENT, "wrong-user", "sent {:?}", String::from_utf16_lossy(&words(a.user)));
    }
    if a.domain != utf16(&acct.domain) {
        err!(A_IDENT, "wrong-domain", "sent {:?} for {:?}", String::from_utf16_lossy(&words(a.domain)), acct.domain);
    }
    if a.flags & fl::UNICODE == 0 && e.chal.flags & fl::UNICODE != 0 {
        err!(A_STRUCT, "not-unicode", "names are UTF-16 but the flags {:08x} do not say so", a.flags);
    }
    let want_ver = if a.flags & fl::VERSION != 0 { enc_ver(e.version.or(Some((0, 0, 0)))) } else { [0; 8] };
    if a.flags & fl::VERSION != 0 && e.version.is_none() {
        err!(A_STRUCT, "version-flag-without-version", "flags {:08x}", a.flags);
    } else if a.version != want_ver {
        err!(A_STRUCT, "wrong-version-bytes", "{:02x?}", a.version);
    }
    if let Some(ws) = e.ws {
        if a.ws != utf16(ws) {
            err!(A_WS, "wrong-workstation", "sent {:?}, expected {:?}", String::from_utf16_lossy(&words(a.ws)), ws);
        }
    }
    let sc = &e.chal.sc;
    r.v2 = a.nt.len() > 24;
    let (ok, sbk, kek);
    if r.v2 {
        if a.nt.len() < 16 + 28 + 4 {
            err!(A_NT, "short-v2-response", "{} bytes", a.nt.len());
            err!(A_KEY, "no-session-key-derivable", "nt response of {} bytes", a.nt.len());
            return r;
        }
        let (proof, temp) = a.nt.split_at(16);
        ok = hmac(&v2k, &[sc, temp]) == proof;
        if !ok {
            err!(A_NT, "v2-proof-rejected", "proof {:02x?} does not verify", proof);
        }
        if temp[..8] != [1, 1, 0, 0, 0, 0, 0, 0] || temp[24..28] != [0; 4] {
            err!(A_STRUCT, "bad-v2-blob-header", "{:02x?}", &temp[..28]);
        }
        let mut n = [0; 8];
        n.copy_from_slice(&temp[16..24]);
        r.nonce = Some(n);
        let mut t = [0; 8];
        t.copy_from_slice(&temp[8..16]);
        let t = u64::from_le_bytes(t);
        let times: Vec<u64> = e.chal.avs.iter().filter_map(|x| if let RAv::Time(t) = x { Some(*t) } else { None }).collect();
        if !times.is_empty() {
            if !times.contains(&t) {
                err!(A_TIME, "server-timestamp-not-used", "sent {} server {:?}", t, times);
            }
        } else if let Some((lo, hi)) = e.clock {
            if (t as i128) < lo || (t as i128) > hi {
                err!(A_TIME, "wrong-timestamp", "sent {} expected {}..{}", t, lo, hi);
            }
        }
        // target information: every pair of the challenge, in order, then an end marker
        match split_avs(&temp[28..]) {
            None => err!(A_ECHO, "unterminated-target-info", "{} bytes", temp.len() - 28),
            Some((got, rest)) => {
                if rest.iter().any(|b| *b != 0) || rest.len() > 4 {
                    err!(A_ECHO, "junk-after-target-info", "{:02x?}", &rest[..rest.len().min(16)]);
                }
                let mut it = got.iter();
                for want in e.chal.raw_avs() {
                    if want.0 == 0 {
                        break;
                    }
                    if !it.any(|g| *g == want) {
                        err!(A_ECHO, "target-info-not-echoed", "pair id {} missing or out of order", want.0);
                        break;
                    }
                }
                if e.chal.avs.iter().position(|x| *x == RAv::Eol).map_or(0, |p| p) > 0 && rest.len() != 4 {
                    err!(A_ECHO, "v2-blob-not-terminated", "{} bytes after the end marker, MS-NLMP puts 4", rest.len());
                }
            }
        }
        let lmv2 = hmac(&v2k, &[sc, &n]);
        // Z(24) is for servers that sent a time; they have the NT response to judge by
        let zero = a.lm == [0; 24] && !times.is_empty();
        if !(a.lm.len() == 24 && a.lm[..16] == lmv2 && a.lm[16..] == n) && !zero {
            err!(A_LM, "lmv2-rejected", "{:02x?}", a.lm);
        }
        sbk = hmac(&v2k, &[proof]);
        kek = Some(sbk);
    } else {
        if a.nt.len() != 24 || a.lm.len() != 24 {
            err!(A_NT, "bad-v1-response-length", "nt {} lm {}", a.nt.len(), a.lm.len());
            err!(A_KEY, "no-session-key-derivable", "nt response of {} bytes", a.nt.len());
            if e.level >= 3 {
                err!(A_DOWN, "v1-response-at-level-3+", "level {} nt {} bytes", e.level, a.nt.len());
            }
            return r;
        }
        sbk = md4(&nt);
        if a.flags & fl::ESS != 0 {
            let mut n = [0; 8];
            n.copy_from_slice(&a.lm[..8]);
            r.nonce = Some(n);
            let mut x = sc.to_vec();
            x.extend(n);
            ok = desl(&nt, &md5(&x)[..8])[..] == *a.nt;
            if !ok {
                err!(A_NT, "ntlm2-session-response-rejected", "{:02x?}", a.nt);
            }
            if a.lm[8..] != [0; 16] {
                err!(A_LM, "ntlm2-session-lm-not-nonce", "{:02x?}", a.lm);
            }
            kek = Some(hmac(&sbk, &[sc, &a.lm[..8]]));
        } else {
            ok = desl(&nt, sc)[..] == *a.nt;
            if !ok {
                err!(A_NT, "ntlmv1-response-rejected", "{:02x?}", a.nt);
            }
            let by_lm = lm.map(|l| desl(&l, sc)[..] == *a.lm);
            let lm_fine = if e.level == 0 { by_lm != Some(false) } else { a.lm == a.nt || a.lm.iter().all(|b| *b == 0) };
            if !lm_fine {
                err!(A_LM, "lm-response-rejected", "{:02x?}", a.lm);
            }
            kek = if a.flags & fl::LM_KEY != 0 {
                lm.map(|l| {
                    let mut k = [0; 16];
                    k[..8].copy_from_slice(&des7(&l[..7], &a.lm[..8]));
                    k[8..].copy_from_slice(&des7(&[l[7], 0xbd, 0xbd, 0xbd, 0xbd, 0xbd, 0xbd], &a.lm[..8]));
                    k
                })
            } else if a.flags & fl::NON_NT != 0 {
                lm.map(|l| {
                    let mut k = [0; 16];
                    k[..8].copy_from_slice(&l[..8]);
                    k
                })
            } else {
                Some(sbk)
            };
        }
    }
    r.nt_ok = ok;
    r.base_key = Some(sbk);
    r.kek = kek;
    // levels
    if e.level >= 3 && !r.v2 {
        err!(A_DOWN, "v1-response-at-level-3+", "level {} nt {} bytes flags {:08x}", e.level, a.nt.len(), e.chal.flags);
    }
    if e.level >= 1 {
        if let Some(l) = lm {
            let d = desl(&l, sc);
            if a.lm == d || a.nt == d {
                err!(A_DOWN, "lm-hash-response", "level {} answers with the LM hash", e.level);
            }
        }
        // also with the challenge of the extended form
        if let (Some(l), Some(n)) = (lm, r.nonce) {
            let mut x = sc.to_vec();
            x.extend(n);
            let d = desl(&l, &md5(&x)[..8]);
            if a.lm == d || a.nt == d {
                err!(A_DOWN, "lm-hash-response", "level {} answers with the LM hash", e.level);
            }
        }
    }
    if e.level >= 3 {
        let d = desl(&nt, sc);
        if a.lm == d {
            err!(A_DOWN, "ntlmv1-in-lm-field-at-level-3+", "level {}", e.level);
        }
    }
    if e.level < 3 && !r.v2 && e.chal.flags & fl::ESS != 0 {
        // extended session security selected: response must be computed with the client nonce
        let mut x = sc.to_vec();
        x.extend(&a.lm[..8]);
        if desl(&nt, &md5(&x)[..8])[..] != *a.nt || a.flags & fl::ESS == 0 {
            err!(A_DOWN, "extended-session-security-dropped", "level {} flags {:08x}", e.level, a.flags);
        }
    }
    // session key
    // (the server goes by the flags carried in the message)
    let claims = a.flags & fl::KEY_EXCH != 0;
    let applies = key_exchange_applies(e.chal.flags);
    if applies && !key_exchange_applies(a.flags) {
        err!(A_KEYFLAG, "sign-seal-flags-dropped", "challenge flags {:08x} message flags {:08x}", e.chal.flags, a.flags);
    }
    if applies != claims {
        err!(A_KEYFLAG, if claims { "key-exchange-claimed" } else { "key-exchange-not-claimed" }, "challenge flags {:08x} message flags {:08x}", e.chal.flags, a.flags);
    }
    if claims && a.esk.len() != 16 || !claims && !a.esk.is_empty() {
        err!(A_KEYFLAG, "bad-encrypted-key-length", "claimed {} length {}", claims, a.esk.len());
    }
    if let Some(k) = kek {
        let key = if claims && a.esk.len() == 16 {
            let k = to16(&rc4k(&k, a.esk));
            r.random_key = Some(k);
            k
        } else {
            k
        };
        r.key = Some(key);
        if e.exported.is_none() && e.want_key {
            err!(A_KEY, "no-key-exported", "client holds no session key");
        }
        if let Some(x) = e.exported {
            if x != key {
                err!(A_KEY, "session-keys-differ", "client {:02x?} server {:02x?} flags {:08x}", x, key, a.flags);
            }
        }
    }
    // integrity code
    if e.level >= 3 {
        let key = e.exported.map(|x| x.to_vec()).or(r.key.map(|k| k.to_vec())).unwrap_or_default();
        let mut z = raw.to_vec();
        z[72..88].fill(0);
        r.mic_ok = hmac(&key, &[e.neg, e.chal_raw, &z]) == a.mic;
        if !r.mic_ok {
            err!(A_MIC, "mic-mismatch", "mic {:02x?}", a.mic);
        }
    } else {
        r.mic_ok = true;
    }
    r
}

pub fn mic_over(raw: &[u8], key: &[u8], neg: &[u8], chal: &[u8]) -> bool {
    if raw.len() < 88 {
        return false;
    }
    let mut z = raw.to_vec();
    z[72..88].fill(0);
    hmac(key, &[neg, chal, &z]) == raw[72..88]
}

pub fn words(b: &[u8]) -> Vec<u16> {
    b.chunks(2).map(|c| u16::from_le_bytes([c[0], *c.get(1).unwrap_or(&0)])).collect()
}

/// Secrets that must never be visible in `wire`; `public` is everything legitimately known to the
/// peer (a password that happens to be part of it proves nothing).
pub fn secrets(wire: &[u8], acct: &Account, r: Option<&Report>, exported: Option<&[u8]>, public: &[&[u8]]) -> Option<&'static str> {
    let nt = ntowf(&acct.pw);
    let v2 = ntowfv2(&nt, &acct.user, &acct.domain);
    let mut list: Vec<(&'static str, Vec<u8>)> = vec![("nt-hash", nt.to_vec()), ("v2-hash", v2.to_vec()), ("v1-session-base-key", md4(&nt).to_vec())];
    if let Some(l) = lmowf(&acct.pw) {
        list.push(("lm-hash", l.to_vec()));
    }
    if let Some(r) = r {
        for (n, k) in [("session-base-key", r.base_key), ("key-exchange-key", r.kek), ("session-key", r.key)] {
            if let Some(k) = k {
                list.push((n, k.to_vec()));
            }
        }
    }
    if let Some(x) = exported {
        list.push(("exported-session-key", x.to_vec()));
    }
    for (n, k) in &list {
        for w in k.chunks(8) {
            if w.len() == 8 && w.iter().any(|b| *b != 0) && find(wire, w) {
                return Some(n);
            }
        }
    }
    let pw = &acct.pw;
    if !pw.contains('\0') && pw.chars().count() >= 6 {
        let low = pw.to_lowercase();
        let up = pw.to_uppercase();
        for s in [pw.as_str(), up.as_str(), low.as_str()] {
            for (n, needle) in [("password-utf8", s.as_bytes().to_vec()), ("password-utf16", utf16(s))] {
                if find(wire, &needle) && !public.iter().any(|p| find(p, &needle)) {
                    return Some(n);
                }
            }
        }
    }
    None
}

pub fn find(hay: &[u8], needle: &[u8]) -> bool {
    find_at(hay, needle, 0).is_some()
}

pub fn find_at(hay: &[u8], needle: &[u8], from: usize) -> Option<usize> {
    if needle.is_empty() || hay.len() < needle.len() + from {
        return None;
    }
    (from..=hay.len() - needle.len()).find(|i| &hay[*i..*i + needle.len()] == needle)
}
