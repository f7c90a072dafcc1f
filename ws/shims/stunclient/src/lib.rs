//! No server ever answers.
use std::net::{SocketAddr, UdpSocket};
pub struct StunClient;
impl StunClient {
    pub fn new(_: SocketAddr) -> Self {
        Self
    }
    pub fn query_external_address(&self, _: &UdpSocket) -> Result<SocketAddr, std::io::Error> {
        Err(std::io::ErrorKind::TimedOut.into())
    }
}
