//! MODEL of socket2: sockets that record what was set and sent, and receive what the harness scripted.
use std::collections::VecDeque;
use std::io;
use std::mem::MaybeUninit;
use std::net::{IpAddr, Ipv4Addr, SocketAddr, SocketAddrV4};
use std::os::fd::*;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Domain(i32);
impl Domain {
    pub const IPV4: Domain = Domain(2);
    pub const IPV6: Domain = Domain(10);
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Type(i32);
impl Type {
    pub const DGRAM: Type = Type(2);
    pub const STREAM: Type = Type(1);
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Protocol(i32);
impl Protocol {
    pub const UDP: Protocol = Protocol(17);
    pub const TCP: Protocol = Protocol(6);
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct SockAddr(pub SocketAddr);
impl From<SocketAddr> for SockAddr {
    fn from(a: SocketAddr) -> Self { SockAddr(a) }
}
impl From<SocketAddrV4> for SockAddr {
    fn from(a: SocketAddrV4) -> Self { SockAddr(a.into()) }
}
impl SockAddr {
    pub fn as_socket(&self) -> Option<SocketAddr> { Some(self.0) }
    pub fn as_socket_ipv4(&self) -> Option<SocketAddrV4> {
        match self.0 {
            SocketAddr::V4(a) => Some(a),
            _ => None,
        }
    }
    pub fn is_ipv4(&self) -> bool { matches!(self.0, SocketAddr::V4(_)) }
}
/// what happened to all sockets, for the harness
#[derive(Clone, Copy, Debug, Default)]
pub struct Conf {
    pub ttl: Option<u32>,
    pub mif: Option<Ipv4Addr>,
    pub looped: Option<bool>,
    pub bound: Option<SocketAddr>,
    pub joined: Option<(Ipv4Addr, Ipv4Addr)>,
    pub reuse: bool,
}
pub struct Sent {
    pub data: Vec<u8>,
    pub to: SocketAddr,
    pub conf: Conf,
}
pub enum In {
    Data(Vec<u8>, SocketAddrV4),
    Interrupted,
}
pub struct State {
    pub sent: Vec<Sent>,
    pub inbox: VecDeque<In>,
    pub fail_send: bool,
    pub recv_conf: Option<Conf>,
}
pub static STATE: Mutex<State> = Mutex::new(State { sent: vec![], inbox: VecDeque::new(), fail_send: false, recv_conf: None });
pub static DRAINED: AtomicBool = AtomicBool::new(false);
pub static IN_THREAD: Mutex<Option<fn()>> = Mutex::new(None);
pub fn reset() {
    let mut s = STATE.lock().unwrap();
    *s = State { sent: vec![], inbox: VecDeque::new(), fail_send: false, recv_conf: None };
    DRAINED.store(false, Ordering::SeqCst);
}
#[derive(Debug)]
pub struct Socket {
    fd: OwnedFd,
    conf: Mutex<Conf>,
}
impl Socket {
    pub fn new(_d: Domain, _t: Type, _p: Option<Protocol>) -> io::Result<Socket> {
        let fd = unsafe {
            let f = libc::socket(2, 2, 0);
            if f < 0 {
                return Err(io::Error::last_os_error());
            }
            OwnedFd::from_raw_fd(f)
        };
        Ok(Socket { fd, conf: Mutex::new(Conf::default()) })
    }
    fn set(&self, f: impl FnOnce(&mut Conf)) -> io::Result<()> {
        f(&mut *self.conf.lock().unwrap());
        Ok(())
    }
    pub fn set_multicast_ttl_v4(&self, t: u32) -> io::Result<()> { self.set(|c| c.ttl = Some(t)) }
    pub fn set_multicast_if_v4(&self, i: &Ipv4Addr) -> io::Result<()> { self.set(|c| c.mif = Some(*i)) }
    pub fn set_multicast_loop_v4(&self, b: bool) -> io::Result<()> { self.set(|c| c.looped = Some(b)) }
    pub fn set_reuse_address(&self, b: bool) -> io::Result<()> { self.set(|c| c.reuse = b) }
    pub fn set_nonblocking(&self, _b: bool) -> io::Result<()> { Ok(()) }
    pub fn bind(&self, a: &SockAddr) -> io::Result<()> { self.set(|c| c.bound = Some(a.0)) }
    pub fn join_multicast_v4(&self, g: &Ipv4Addr, i: &Ipv4Addr) -> io::Result<()> { self.set(|c| c.joined = Some((*g, *i))) }
    pub fn send_to(&self, b: &[u8], to: &SockAddr) -> io::Result<usize> {
        let mut s = STATE.lock().unwrap();
        if s.fail_send {
            return Err(io::Error::from_raw_os_error(101));
        }
        let conf = *self.conf.lock().unwrap();
        s.sent.push(Sent { data: b.to_vec(), to: to.0, conf });
        Ok(b.len())
    }
    pub fn recv_from(&self, b: &mut [MaybeUninit<u8>]) -> io::Result<(usize, SockAddr)> {
        let hook = *IN_THREAD.lock().unwrap();
        if let Some(f) = hook {
            f()
        }
        let mut s = STATE.lock().unwrap();
        s.recv_conf = Some(*self.conf.lock().unwrap());
        match s.inbox.pop_front() {
            Some(In::Data(d, a)) => {
                let n = d.len().min(b.len());
                for i in 0..n {
                    b[i].write(d[i]);
                }
                Ok((n, SockAddr(SocketAddr::V4(a))))
            }
            Some(In::Interrupted) => Err(io::Error::from_raw_os_error(libc::EINTR)),
            None => {
                // nothing more will come: the thread would block here for ever
                DRAINED.store(true, Ordering::SeqCst);
                Err(io::Error::from_raw_os_error(libc::EBADF))
            }
        }
    }
}
impl AsFd for Socket {
    fn as_fd(&self) -> BorrowedFd<'_> { self.fd.as_fd() }
}
impl AsRawFd for Socket {
    fn as_raw_fd(&self) -> RawFd { self.fd.as_raw_fd() }
}
#[allow(unused)]
fn _unused(_: IpAddr) {}
