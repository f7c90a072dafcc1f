use std::net::{IpAddr, Ipv4Addr};
#[derive(Debug)]
pub struct Error;
pub fn list_afinet_netifas() -> Result<Vec<(String, IpAddr)>, Error> {
    Ok(vec![("lo".into(), IpAddr::V4(Ipv4Addr::LOCALHOST))])
}
