//! No gateway is ever found.
use std::net::{IpAddr, SocketAddr};
#[derive(Default)]
pub struct SearchOptions;
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("no gateway")
    }
}
impl std::error::Error for Error {}
pub enum PortMappingProtocol {
    UDP,
    TCP,
}
pub struct Gateway {
    pub addr: SocketAddr,
}
impl Gateway {
    pub fn get_external_ip(&self) -> Result<IpAddr, Error> {
        Err(Error)
    }
    pub fn add_port(&self, _: PortMappingProtocol, _: u16, _: SocketAddr, _: u32, _: &str) -> Result<(), Error> {
        Err(Error)
    }
}
pub fn search_gateway(_: SearchOptions) -> Result<Gateway, Error> {
    Err(Error)
}
