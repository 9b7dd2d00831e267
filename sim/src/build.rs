//! Builds library values from reference content.
use crate::refntlm::*;
use crate::sut;
use http_ntlm::messages::structures::{AvPair, FileTime};
use http_ntlm::messages::{Challenge, Flags};

/// A library challenge with exactly this content, if its builder can express it.
pub fn sut_chal(c: &RChal) -> Option<Challenge> {
    let n = c.avs.len();
    if n == 1 || n > 1 && (c.avs[n - 1] != RAv::Eol || c.avs[..n - 1].contains(&RAv::Eol)) {
        return None;
    }
    let mut s = Challenge::default();
    if !c.target.is_empty() {
        s.set_target_name(Some(c.target.as_str()));
    }
    for a in &c.avs[..n.saturating_sub(1)] {
        match a.to_sut() {
            AvPair::MsvAvNbComputerName(x) => s.target_infos_add_computername(x),
            AvPair::MsvAvNbDomainName(x) => s.target_infos_add_domainname(x),
            AvPair::MsvAvDnsComputerName(x) => s.target_infos_add_dnscomputername(x),
            AvPair::MsvAvDnsDomainName(x) => s.target_infos_add_dnsdomainname(x),
            AvPair::MsvAvDnsTreeName(x) => s.target_infos_add_dnstreename(x),
            AvPair::MsvAvFlags(x) => s.target_infos_add_flags(x),
            AvPair::MsvAvTimestamp(x) => s.target_infos_add_timestamp(FileTime { low: x.low, high: x.high }),
            AvPair::MsvAvSingleHost(x) => s.target_infos_add_singlehost(x),
            AvPair::MsvAvTargetName(x) => s.target_infos_add_targetname(x),
            AvPair::MsvAvChannelBindings(x) => s.target_infos_add_channelbindings(x),
            AvPair::MsvAvEOL => return None,
        };
    }
    s.negotiate_flags = Flags(c.flags);
    s.server_challenge = c.sc.into();
    s.version = crate::world::sut_version(c.version);
    Some(s)
}

/// The same, encoded by the library.
pub fn sut_challenge(c: &RChal) -> Option<Vec<u8>> {
    let s = sut::sut(|| sut_chal(c)).ok()??;
    sut::encode_challenge(&s).ok()
}
