//! Checks the reference implementation against the examples published in MS-NLMP section 4.2.
use crate::refntlm::*;

fn h(s: &str) -> Vec<u8> {
    let s: String = s.chars().filter(|c| !c.is_whitespace()).collect();
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub fn run() -> Result<u32, String> {
    let mut n = 0;
    let mut eq = |name: &str, a: &[u8], b: &str| -> Result<(), String> {
        n += 1;
        if a == h(b) {
            Ok(())
        } else {
            Err(format!("{}: {:02x?} expected {}", name, a, b))
        }
    };
    let (user, dom, pw) = ("User", "Domain", "Password");
    let sc = h("0123456789abcdef");
    let cc = [0xaa; 8];
    let rk = [0x55; 16];
    let nt = ntowf(pw);
    let lm = lmowf(pw).unwrap();
    eq("NTOWFv1", &nt, "a4f49c406510bdcab6824ee7c30fd852")?;
    eq("LMOWFv1", &lm, "e52cac67419a9a224a3b108f3fa6cb6d")?;
    let sbk = md4(&nt);
    eq("session base key v1", &sbk, "d87262b0cde4b1cb7499becccdf10784")?;
    eq("NTLMv1 response", &desl(&nt, &sc), "67c43011f30298a2ad35ece64f16331c44bdbed927841f94")?;
    eq("LMv1 response", &desl(&lm, &sc), "98def7b87f88aa5dafe2df779688a172def11c7d5ccdef13")?;
    eq("encrypted key v1", &rc4k(&sbk, &rk), "518822b1b3f350c8958682ecbb3e3cb7")?;
    let l8 = &desl(&lm, &sc)[..8];
    let mut non_nt = [0u8; 16];
    non_nt[..8].copy_from_slice(&lm[..8]);
    eq("encrypted key, non-NT", &rc4k(&non_nt, &rk), "7452ca55c225a1ca04b48fae32cf56fc")?;
    let mut lmk = [0u8; 16];
    lmk[..8].copy_from_slice(&des7(&lm[..7], l8));
    lmk[8..].copy_from_slice(&des7(&[lm[7], 0xbd, 0xbd, 0xbd, 0xbd, 0xbd, 0xbd], l8));
    eq("key exchange key, LM key", &lmk, "b09e379f7fbecb1eaf0afdcb0383c8a0")?;
    eq("encrypted key, LM key", &rc4k(&lmk, &rk), "4cd7bb57d697ef9b549f02b8f9b37864")?;
    let mut x = sc.clone();
    x.extend(cc);
    eq("NTLM2 session response", &desl(&nt, &md5(&x)[..8]), "7537f803ae367128ca458204bde7caf81e97ed2683267232")?;
    eq("NTLM2 key exchange key", &hmac(&sbk, &[&sc, &cc]), "eb93429a8bd952f8b89c55b87f475edc")?;
    let v2 = ntowfv2(&nt, user, dom);
    eq("NTOWFv2", &v2, "0c868a403bfd7a93a3001ef22ef02e3f")?;
    let mut temp = h("0101000000000000 0000000000000000 aaaaaaaaaaaaaaaa 00000000");
    let avs = [RAv::Str(2, "Domain".into()), RAv::Str(1, "Server".into()), RAv::Eol];
    temp.extend(enc_avs(&avs));
    temp.extend([0; 4]);
    let proof = hmac(&v2, &[&sc, &temp]);
    eq("NTProofStr", &proof, "68cd0ab851e51c96aabc927bebef6a1c")?;
    eq("LMv2", &hmac(&v2, &[&sc, &cc]), "86c35097ac9cec102554764a57cccc19")?;
    let sbk2 = hmac(&v2, &[&proof]);
    eq("session base key v2", &sbk2, "8de40ccadbc14a82f15cb0ad0de95ca3")?;
    eq("encrypted key v2", &rc4k(&sbk2, &rk), "c5dad2544fc9799094ce1ce90bc9d03e")?;
    Ok(n)
}
