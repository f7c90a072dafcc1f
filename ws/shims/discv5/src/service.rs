use std::net::IpAddr;
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Pong {
    pub enr_seq: u64,
    pub ip: IpAddr,
    pub port: u16,
}
