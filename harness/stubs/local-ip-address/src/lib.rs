//! Stand-in for the crate of the same name: the harness may run where only the loopback interface exists.
use std::net::{IpAddr, Ipv4Addr};

#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "no local ip")
    }
}
impl std::error::Error for Error {}

pub fn local_ip() -> Result<IpAddr, Error> {
    Ok(IpAddr::V4(Ipv4Addr::LOCALHOST))
}
