//! The virtual network. Addresses are the real types; sockets are not.
pub use std::net::*;

use crate::rt;
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::io::{self, IoSlice, IoSliceMut, Read, Write};
use std::rc::Rc;
use std::time::Duration;

pub type UdpId = usize;
pub type ConnId = usize;
pub type LisId = usize;

#[derive(Clone, Debug)]
pub struct Dgram {
    pub at: u64,
    pub sock: UdpId,
    pub tid: usize,
    pub from: SocketAddr,
    pub to: SocketAddr,
    pub data: Vec<u8>,
}

pub struct UdpSock {
    pub local: SocketAddr,
    pub peer: Option<SocketAddr>,
    pub q: VecDeque<(Vec<u8>, SocketAddr)>,
    pub rt: Option<u64>,
    pub wt: Option<u64>,
    pub nonblocking: bool,
    pub refs: usize,
    pub received: u64,
    pub explicit_port: bool,
}

#[derive(Default)]
pub struct Pipe {
    pub buf: VecDeque<u8>,
    pub fin: bool,
    pub total: u64,
}
pub struct Conn {
    // side 0 connected, side 1 accepted
    pub addr: [SocketAddr; 2],
    // pipes[s]: bytes written by side s
    pub pipes: [Pipe; 2],
    pub cap: [usize; 2],
    pub reset: bool,
    pub refs: [usize; 2],
    pub rt: [Option<u64>; 2],
    pub wt: [Option<u64>; 2],
    pub nonblocking: [bool; 2],
    pub accepted: bool,
    pub wr_closed: [bool; 2],
    pub rd_closed: [bool; 2],
    // threads which read or wrote side 1, for oracles
    pub served_by: Vec<usize>,
}
pub struct Lis {
    pub local: SocketAddr,
    pub backlog: VecDeque<ConnId>,
    pub refs: usize,
    pub nonblocking: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    UdpBind(SocketAddr),
    UdpSend(UdpId, SocketAddr, usize),
    UdpRecv(UdpId),
    UdpClone(UdpId),
    UdpConnect(UdpId, SocketAddr),
    SetTimeout,
    /// of a TCP connection
    ConnTimeout(ConnId),
    Listen(SocketAddr),
    Accept(LisId),
    Connect(SocketAddr),
    Read(ConnId, usize, usize),
    Write(ConnId, usize, usize),
    Clone(ConnId),
}
pub enum Action {
    Err(io::Error),
    Short(usize),
}

#[derive(Default)]
pub struct Net {
    pub udp: Vec<UdpSock>,
    pub conns: Vec<Conn>,
    pub lis: Vec<Lis>,
    pub next_port: u16,
    /// Every datagram sent by the program to an address where nothing is bound.
    pub sent: Vec<Dgram>,
    pub upstream: Option<Rc<dyn Fn(&Dgram)>>,
    pub fault: Option<Rc<dyn Fn(Op) -> Option<Action>>>,
    pub bound_log: Vec<(bool, SocketAddr)>,
    pub timeouts_log: Vec<(&'static str, Option<u64>)>,
    pub connects: Vec<SocketAddr>,
    /// addresses that do not belong to the virtual machine
    pub foreign: Vec<IpAddr>,
    pub no_ipv6: bool,
}

fn net() -> &'static mut Net {
    &mut rt::k().net
}
fn fault(op: Op) -> Option<Action> {
    let f = net().fault.clone()?;
    f(op)
}
fn fault_err(op: Op) -> io::Result<()> {
    match fault(op) {
        Some(Action::Err(e)) => Err(e),
        _ => Ok(()),
    }
}
fn os(e: i32) -> io::Error {
    io::Error::from_raw_os_error(e)
}
fn ephemeral() -> u16 {
    let n = net();
    if n.next_port < 40000 {
        n.next_port = 40000;
    }
    n.next_port += 1;
    n.next_port
}
fn local_ip(ip: IpAddr) -> bool {
    ip.is_unspecified() || ip.is_loopback() || !net().foreign.contains(&ip)
}
/// A socket bound at `b` receives what is sent to `to`.
fn matches(b: SocketAddr, to: SocketAddr) -> bool {
    if b.port() != to.port() {
        return false;
    }
    if b.ip() == to.ip() {
        return true;
    }
    // sending to the unspecified address means this machine
    let to_self = to.ip().is_unspecified() || to.ip().is_loopback();
    if b.ip().is_unspecified() {
        if b.is_ipv4() == to.is_ipv4() {
            return local_ip(to.ip());
        }
        return b.is_ipv6() && to.is_ipv4() && local_ip(to.ip()); // dual stack
    }
    to_self && to.ip().is_unspecified() && b.ip().is_loopback() && b.is_ipv4() == to.is_ipv4()
}
fn overlap(a: SocketAddr, b: SocketAddr) -> bool {
    a.port() == b.port() && (a.ip() == b.ip() || (a.is_ipv4() == b.is_ipv4() && (a.ip().is_unspecified() || b.ip().is_unspecified())) || (a.is_ipv6() && a.ip().is_unspecified()) || (b.is_ipv6() && b.ip().is_unspecified()))
}
fn addrs<A: ToSocketAddrs>(a: A) -> io::Result<Vec<SocketAddr>> {
    let v: Vec<SocketAddr> = a.to_socket_addrs()?.collect();
    if v.is_empty() {
        return Err(io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any addresses"));
    }
    Ok(v)
}
fn first_ok<T>(v: Vec<SocketAddr>, mut f: impl FnMut(SocketAddr) -> io::Result<T>) -> io::Result<T> {
    let mut last = None;
    for a in v {
        match f(a) {
            Ok(t) => return Ok(t),
            Err(e) => last = Some(e),
        }
    }
    Err(last.unwrap())
}
fn check_timeout(d: Option<Duration>) -> io::Result<Option<u64>> {
    match d {
        Some(d) if d.is_zero() => Err(io::Error::new(io::ErrorKind::InvalidInput, "cannot set a 0 duration timeout")),
        Some(d) => Ok(Some(crate::time::to_ns(d))),
        None => Ok(None),
    }
}
fn dl(t: Option<u64>) -> Option<u64> {
    t.map(|t| rt::now().saturating_add(t))
}

// ------------------------------------------------------------------ UDP

pub struct UdpSocket(UdpId);

impl UdpSocket {
    pub fn bind<A: ToSocketAddrs>(a: A) -> io::Result<UdpSocket> {
        rt::point();
        first_ok(addrs(a)?, |a| {
            fault_err(Op::UdpBind(a))?;
            if a.is_ipv6() && net().no_ipv6 {
                return Err(os(libc::EAFNOSUPPORT));
            }
            if !local_ip(a.ip()) {
                return Err(os(libc::EADDRNOTAVAIL));
            }
            let explicit = a.port() != 0;
            let mut a = a;
            if !explicit {
                a.set_port(ephemeral());
            }
            if net().udp.iter().any(|s| s.refs > 0 && overlap(s.local, a)) {
                return Err(os(libc::EADDRINUSE));
            }
            let id = net().udp.len();
            net().udp.push(UdpSock { local: a, peer: None, q: VecDeque::new(), rt: None, wt: None, nonblocking: false, refs: 1, received: 0, explicit_port: explicit });
            if explicit {
                net().bound_log.push((true, a));
            }
            rt::log_line(|| format!("udp socket {} bound to {}", id, a));
            Ok(UdpSocket(id))
        })
    }
    fn s(&self) -> &'static mut UdpSock {
        &mut net().udp[self.0]
    }
    pub fn connect<A: ToSocketAddrs>(&self, a: A) -> io::Result<()> {
        rt::point();
        first_ok(addrs(a)?, |a| {
            fault_err(Op::UdpConnect(self.0, a))?;
            if a.is_ipv4() != self.s().local.is_ipv4() {
                return Err(os(libc::EAFNOSUPPORT));
            }
            self.s().peer = Some(a);
            Ok(())
        })
    }
    pub fn send(&self, b: &[u8]) -> io::Result<usize> {
        match self.s().peer {
            Some(p) => self.send_to(b, p),
            None => Err(os(libc::EDESTADDRREQ)),
        }
    }
    pub fn send_to<A: ToSocketAddrs>(&self, b: &[u8], a: A) -> io::Result<usize> {
        rt::point();
        let to = match a.to_socket_addrs()?.next() {
            Some(a) => a,
            None => return Err(io::Error::new(io::ErrorKind::InvalidInput, "no addresses to send data to")),
        };
        match fault(Op::UdpSend(self.0, to, b.len())) {
            Some(Action::Err(e)) => return Err(e),
            _ => {}
        }
        if to.is_ipv4() != self.s().local.is_ipv4() && !(self.s().local.is_ipv6() && self.s().local.ip().is_unspecified()) {
            return Err(os(libc::EAFNOSUPPORT));
        }
        if to.port() == 0 {
            return Err(os(libc::EINVAL));
        }
        if b.len() > 65507 {
            return Err(os(libc::EMSGSIZE));
        }
        let mut from = self.s().local;
        if from.ip().is_unspecified() {
            from.set_ip(if to.ip().is_loopback() || to.ip().is_unspecified() {
                if to.is_ipv4() { IpAddr::V4(Ipv4Addr::LOCALHOST) } else { IpAddr::V6(Ipv6Addr::LOCALHOST) }
            } else if to.is_ipv4() {
                IpAddr::V4(Ipv4Addr::new(10, 0, 0, 1))
            } else {
                IpAddr::V6("fd00::1".parse().unwrap())
            });
        }
        rt::log_line(|| format!("udp {} -> {} ({} bytes)", from, to, b.len()));
        if deliver(from, to, b) {
            return Ok(b.len());
        }
        let d = Dgram { at: rt::now(), sock: self.0, tid: rt::cur(), from, to, data: b.to_vec() };
        net().sent.push(d.clone());
        if let Some(u) = net().upstream.clone() {
            u(&d);
        }
        Ok(b.len())
    }
    pub fn recv_from(&self, b: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        self.recv_inner(b, false)
    }
    pub fn peek_from(&self, b: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        self.recv_inner(b, true)
    }
    fn recv_inner(&self, b: &mut [u8], peek: bool) -> io::Result<(usize, SocketAddr)> {
        rt::point();
        fault_err(Op::UdpRecv(self.0))?;
        let id = self.0;
        if self.s().q.is_empty() {
            if self.s().nonblocking {
                return Err(os(libc::EAGAIN));
            }
            let ok = rt::block_on("UdpSocket::recv", &|| !net().udp[id].q.is_empty(), dl(self.s().rt));
            if !ok {
                rt::log_line(|| format!("udp socket {} receive timeout", id));
                return Err(os(libc::EAGAIN));
            }
        }
        let (d, from) = if peek { self.s().q[0].clone() } else { self.s().q.pop_front().unwrap() };
        self.s().received += 1;
        let n = d.len().min(b.len());
        b[..n].copy_from_slice(&d[..n]);
        rt::log_line(|| format!("udp socket {} received {} bytes from {}", id, d.len(), from));
        Ok((n, from))
    }
    pub fn recv(&self, b: &mut [u8]) -> io::Result<usize> {
        self.recv_from(b).map(|x| x.0)
    }
    pub fn peek(&self, b: &mut [u8]) -> io::Result<usize> {
        self.peek_from(b).map(|x| x.0)
    }
    pub fn try_clone(&self) -> io::Result<UdpSocket> {
        fault_err(Op::UdpClone(self.0))?;
        self.s().refs += 1;
        Ok(UdpSocket(self.0))
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.s().local)
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        self.s().peer.ok_or_else(|| os(libc::ENOTCONN))
    }
    pub fn set_read_timeout(&self, d: Option<Duration>) -> io::Result<()> {
        self.s().rt = check_timeout(d)?;
        net().timeouts_log.push(("udp read", self.s().rt));
        fault_err(Op::SetTimeout)
    }
    pub fn set_write_timeout(&self, d: Option<Duration>) -> io::Result<()> {
        self.s().wt = check_timeout(d)?;
        net().timeouts_log.push(("udp write", self.s().wt));
        fault_err(Op::SetTimeout)
    }
    pub fn read_timeout(&self) -> io::Result<Option<Duration>> {
        Ok(self.s().rt.map(Duration::from_nanos))
    }
    pub fn write_timeout(&self) -> io::Result<Option<Duration>> {
        Ok(self.s().wt.map(Duration::from_nanos))
    }
    pub fn set_nonblocking(&self, v: bool) -> io::Result<()> {
        self.s().nonblocking = v;
        Ok(())
    }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn set_broadcast(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        Ok(None)
    }
    pub fn virtual_id(&self) -> UdpId {
        self.0
    }
}
impl Drop for UdpSocket {
    fn drop(&mut self) {
        if let Some(s) = net().udp.get_mut(self.0) {
            s.refs = s.refs.saturating_sub(1);
            if s.refs == 0 {
                s.q.clear();
            }
        }
    }
}
impl std::fmt::Debug for UdpSocket {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "UdpSocket({})", self.0)
    }
}

/// Put a datagram into the queue of the socket bound at `to`, if there is one.
pub fn deliver(from: SocketAddr, to: SocketAddr, b: &[u8]) -> bool {
    let n = net();
    // an exact binding is preferred to a wildcard one
    let mut best = None;
    for (i, s) in n.udp.iter().enumerate() {
        if s.refs > 0 && matches(s.local, to) {
            let exact = s.local == to;
            if best.is_none() || exact {
                best = Some(i);
            }
        }
    }
    match best {
        Some(i) => {
            if let Some(p) = n.udp[i].peer {
                if p != from {
                    return true; // dropped by the operating system
                }
            }
            n.udp[i].q.push_back((b.to_vec(), from));
            true
        }
        None => false,
    }
}

// ------------------------------------------------------------------ TCP

pub struct TcpListener(LisId);

impl TcpListener {
    pub fn bind<A: ToSocketAddrs>(a: A) -> io::Result<TcpListener> {
        rt::point();
        first_ok(addrs(a)?, |a| {
            fault_err(Op::Listen(a))?;
            if a.is_ipv6() && net().no_ipv6 {
                return Err(os(libc::EAFNOSUPPORT));
            }
            if !local_ip(a.ip()) {
                return Err(os(libc::EADDRNOTAVAIL));
            }
            let mut a = a;
            if a.port() == 0 {
                a.set_port(ephemeral());
            } else {
                net().bound_log.push((false, a));
            }
            if net().lis.iter().any(|s| s.refs > 0 && overlap(s.local, a)) {
                return Err(os(libc::EADDRINUSE));
            }
            let id = net().lis.len();
            net().lis.push(Lis { local: a, backlog: VecDeque::new(), refs: 1, nonblocking: false });
            rt::log_line(|| format!("tcp listener {} bound to {}", id, a));
            Ok(TcpListener(id))
        })
    }
    pub fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        rt::point();
        fault_err(Op::Accept(self.0))?;
        let id = self.0;
        if net().lis[id].backlog.is_empty() {
            if net().lis[id].nonblocking {
                return Err(os(libc::EAGAIN));
            }
            rt::block_on("TcpListener::accept", &|| !net().lis[id].backlog.is_empty(), None);
        }
        let c = net().lis[id].backlog.pop_front().unwrap();
        let conn = &mut net().conns[c];
        conn.accepted = true;
        conn.refs[1] += 1;
        rt::log_line(|| format!("accepted connection {}", c));
        Ok((TcpStream { c, side: 1 }, conn.addr[0]))
    }
    pub fn incoming(&self) -> Incoming<'_> {
        Incoming(self)
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(net().lis[self.0].local)
    }
    pub fn try_clone(&self) -> io::Result<TcpListener> {
        net().lis[self.0].refs += 1;
        Ok(TcpListener(self.0))
    }
    pub fn set_nonblocking(&self, v: bool) -> io::Result<()> {
        net().lis[self.0].nonblocking = v;
        Ok(())
    }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        Ok(None)
    }
}
impl Drop for TcpListener {
    fn drop(&mut self) {
        if let Some(l) = net().lis.get_mut(self.0) {
            l.refs = l.refs.saturating_sub(1);
            if l.refs == 0 {
                let v: Vec<ConnId> = l.backlog.drain(..).collect();
                for c in v {
                    net().conns[c].reset = true;
                }
            }
        }
    }
}
impl std::fmt::Debug for TcpListener {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "TcpListener({})", self.0)
    }
}
pub struct Incoming<'a>(&'a TcpListener);
impl Iterator for Incoming<'_> {
    type Item = io::Result<TcpStream>;
    fn next(&mut self) -> Option<Self::Item> {
        Some(self.0.accept().map(|x| x.0))
    }
}

pub struct TcpStream {
    c: ConnId,
    side: usize,
}

/// Open a connection to whatever listens at `to`.
pub fn open(from: SocketAddr, to: SocketAddr) -> Option<ConnId> {
    let n = net();
    let l = n.lis.iter().position(|l| l.refs > 0 && matches(l.local, to))?;
    let id = n.conns.len();
    n.conns.push(Conn {
        addr: [from, to],
        pipes: [Pipe::default(), Pipe::default()],
        cap: [1 << 20, 1 << 20],
        reset: false,
        refs: [1, 0],
        rt: [None, None],
        wt: [None, None],
        nonblocking: [false, false],
        accepted: false,
        wr_closed: [false, false],
        rd_closed: [false, false],
        served_by: Vec::new(),
    });
    n.lis[l].backlog.push_back(id);
    Some(id)
}

impl TcpStream {
    pub fn connect<A: ToSocketAddrs>(a: A) -> io::Result<TcpStream> {
        rt::point();
        first_ok(addrs(a)?, |a| {
            fault_err(Op::Connect(a))?;
            net().connects.push(a);
            if a.is_ipv6() && net().no_ipv6 {
                return Err(os(libc::EAFNOSUPPORT));
            }
            let ip = if a.is_ipv4() { IpAddr::V4(Ipv4Addr::LOCALHOST) } else { IpAddr::V6(Ipv6Addr::LOCALHOST) };
            match open(SocketAddr::new(ip, ephemeral()), a) {
                Some(c) => Ok(TcpStream { c, side: 0 }),
                None => Err(os(libc::ECONNREFUSED)),
            }
        })
    }
    pub fn connect_timeout(a: &SocketAddr, d: Duration) -> io::Result<TcpStream> {
        check_timeout(Some(d))?;
        Self::connect(a)
    }
    fn c(&self) -> &'static mut Conn {
        &mut net().conns[self.c]
    }
    pub fn virtual_id(&self) -> ConnId {
        self.c
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.c().addr[1 - self.side])
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.c().addr[self.side])
    }
    pub fn try_clone(&self) -> io::Result<TcpStream> {
        fault_err(Op::Clone(self.c))?;
        self.c().refs[self.side] += 1;
        Ok(TcpStream { c: self.c, side: self.side })
    }
    pub fn set_read_timeout(&self, d: Option<Duration>) -> io::Result<()> {
        self.c().rt[self.side] = check_timeout(d)?;
        net().timeouts_log.push(("tcp read", self.c().rt[self.side]));
        fault_err(Op::ConnTimeout(self.c))
    }
    pub fn set_write_timeout(&self, d: Option<Duration>) -> io::Result<()> {
        self.c().wt[self.side] = check_timeout(d)?;
        net().timeouts_log.push(("tcp write", self.c().wt[self.side]));
        fault_err(Op::ConnTimeout(self.c))
    }
    pub fn read_timeout(&self) -> io::Result<Option<Duration>> {
        Ok(self.c().rt[self.side].map(Duration::from_nanos))
    }
    pub fn write_timeout(&self) -> io::Result<Option<Duration>> {
        Ok(self.c().wt[self.side].map(Duration::from_nanos))
    }
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(false)
    }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn set_nonblocking(&self, v: bool) -> io::Result<()> {
        self.c().nonblocking[self.side] = v;
        Ok(())
    }
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        Ok(None)
    }
    pub fn shutdown(&self, h: Shutdown) -> io::Result<()> {
        rt::point();
        let s = self.side;
        let c = self.c();
        if h != Shutdown::Read {
            c.wr_closed[s] = true;
            c.pipes[s].fin = true;
        }
        if h != Shutdown::Write {
            c.rd_closed[s] = true;
        }
        Ok(())
    }
    pub fn peek(&self, b: &mut [u8]) -> io::Result<usize> {
        self.rd(b, true)
    }
    fn served(&self) {
        let me = rt::cur();
        if self.side == 1 && !self.c().served_by.contains(&me) {
            self.c().served_by.push(me);
        }
    }
    fn rd(&self, b: &mut [u8], peek: bool) -> io::Result<usize> {
        rt::point();
        self.served();
        let (id, s) = (self.c, self.side);
        if b.is_empty() {
            return Ok(0);
        }
        let mut max = b.len();
        // a fault may strike before anything has arrived ...
        if self.c().rd_closed[s] {
            return Ok(0);
        }
        let ready = move || {
            let c = &net().conns[id];
            !c.pipes[1 - s].buf.is_empty() || c.pipes[1 - s].fin || c.reset
        };
        if !ready() {
            if self.c().nonblocking[s] {
                return Err(os(libc::EAGAIN));
            }
            if !rt::block_on("TcpStream::read", &ready, dl(self.c().rt[s])) {
                rt::log_line(|| format!("connection {} read timeout", id));
                return Err(os(libc::EAGAIN));
            }
        }
        // ... or decide how much of what has arrived is handed over
        match fault(Op::Read(id, s, b.len().min(self.c().pipes[1 - s].buf.len()))) {
            Some(Action::Err(e)) => return Err(e),
            Some(Action::Short(n)) => max = max.min(n.max(1)),
            None => {}
        }
        let c = self.c();
        if c.reset {
            return Err(os(libc::ECONNRESET));
        }
        let p = &mut c.pipes[1 - s];
        let n = max.min(p.buf.len());
        for i in 0..n {
            b[i] = if peek { p.buf[i] } else { p.buf.pop_front().unwrap() };
        }
        Ok(n)
    }
    fn wr(&self, b: &[u8]) -> io::Result<usize> {
        rt::point();
        self.served();
        let (id, s) = (self.c, self.side);
        if b.is_empty() {
            return Ok(0);
        }
        let ready = move || {
            let c = &net().conns[id];
            c.reset || c.wr_closed[s] || c.refs[1 - s] == 0 && c.accepted || c.pipes[s].buf.len() < c.cap[s]
        };
        if !ready() {
            if self.c().nonblocking[s] {
                return Err(os(libc::EAGAIN));
            }
            if !rt::block_on("TcpStream::write", &ready, dl(self.c().wt[s])) {
                rt::log_line(|| format!("connection {} write timeout", id));
                return Err(os(libc::EAGAIN));
            }
        }
        let mut max = b.len();
        match fault(Op::Write(id, s, b.len())) {
            Some(Action::Err(e)) => return Err(e),
            Some(Action::Short(n)) => max = max.min(n.max(1)),
            None => {}
        }
        let c = self.c();
        if c.reset {
            return Err(os(libc::ECONNRESET));
        }
        if c.wr_closed[s] || (c.accepted && c.refs[1 - s] == 0) {
            return Err(os(libc::EPIPE));
        }
        let room = c.cap[s].saturating_sub(c.pipes[s].buf.len());
        let n = max.min(room);
        c.pipes[s].buf.extend(&b[..n]);
        c.pipes[s].total += n as u64;
        rt::log_line(|| format!("connection {} side {}: wrote {} of {} bytes", id, s, n, b.len()));
        Ok(n)
    }
}
impl Read for TcpStream {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.rd(b, false)
    }
}
impl Read for &TcpStream {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.rd(b, false)
    }
}
impl Write for TcpStream {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.wr(b)
    }
    fn write_vectored(&mut self, v: &[IoSlice<'_>]) -> io::Result<usize> {
        let all: Vec<u8> = v.iter().flat_map(|s| s.iter().copied()).collect();
        self.wr(&all)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Write for &TcpStream {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.wr(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Drop for TcpStream {
    fn drop(&mut self) {
        if let Some(c) = net().conns.get_mut(self.c) {
            let s = self.side;
            c.refs[s] = c.refs[s].saturating_sub(1);
            if c.refs[s] == 0 {
                c.pipes[s].fin = true;
                c.wr_closed[s] = true;
            }
        }
    }
}
impl std::fmt::Debug for TcpStream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "TcpStream({}/{})", self.c, self.side)
    }
}

// ------------------------------------------------------------------ clients (for scenarios)

pub mod client {
    use super::*;

    pub fn send_udp(from: SocketAddr, to: SocketAddr, b: &[u8]) -> bool {
        rt::log_line(|| format!("client {} -> {} ({} bytes)", from, to, b.len()));
        deliver(from, to, b)
    }
    /// Take the datagrams the program sent to `me` (nothing is bound there).
    pub fn take_udp(me: SocketAddr) -> Vec<Dgram> {
        let mut got = Vec::new();
        let n = net();
        let mut rest = Vec::new();
        for d in n.sent.drain(..) {
            if d.to == me {
                got.push(d)
            } else {
                rest.push(d)
            }
        }
        n.sent = rest;
        got
    }
    pub fn connect(from: SocketAddr, to: SocketAddr) -> Option<ConnId> {
        let c = open(from, to);
        rt::log_line(|| format!("client {} connects to {}: {:?}", from, to, c));
        c
    }
    pub fn send(c: ConnId, b: &[u8]) {
        let p = &mut net().conns[c].pipes[0];
        p.buf.extend(b);
        p.total += b.len() as u64;
    }
    /// Everything the server has written so far (taken out of the window).
    pub fn recv(c: ConnId) -> Vec<u8> {
        net().conns[c].pipes[1].buf.drain(..).collect()
    }
    pub fn peek(c: ConnId) -> Vec<u8> {
        net().conns[c].pipes[1].buf.iter().copied().collect()
    }
    pub fn server_closed(c: ConnId) -> bool {
        let c = &net().conns[c];
        c.pipes[1].fin || c.reset
    }
    pub fn half_close(c: ConnId) {
        net().conns[c].pipes[0].fin = true;
    }
    pub fn close(c: ConnId) {
        let c = &mut net().conns[c];
        c.pipes[0].fin = true;
        c.refs[0] = 0;
    }
    pub fn reset(c: ConnId) {
        net().conns[c].reset = true;
    }
    pub fn set_window(c: ConnId, n: usize) {
        net().conns[c].cap[1] = n;
    }
    pub fn conn(c: ConnId) -> &'static Conn {
        &net().conns[c]
    }
}

#[allow(dead_code)]
type Unused = (RefCell<()>, BTreeMap<(), ()>, IoSliceMut<'static>);
