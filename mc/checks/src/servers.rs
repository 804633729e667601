//! Running the program's two servers on the virtual network.
use crate::wire::*;
use crate::zones::{load_model, Model};
use ariadne_dns::nameserver::NameserverHandler;
use ariadne_dns::resolver::*;
use ariadne_dns::shared::net::{start_servers, DnsHandler, TcpParams, UdpParams};
use std::net::{IpAddr, SocketAddr};
use std::time::Duration;
use vstd::net::{self, client, ConnId};
use vstd::rt;
use vstd::sync::Arc;

#[derive(Clone)]
pub struct Net {
    pub udp: SocketAddr,
    pub tcp: SocketAddr,
    pub udp_threads: usize,
    pub tcp_threads: usize,
    pub read_timeout: u64,
    pub write_timeout: u64,
}
impl Default for Net {
    fn default() -> Self {
        Net { udp: sa("127.0.0.1:5300"), tcp: sa("127.0.0.1:5300"), udp_threads: 1, tcp_threads: 1, read_timeout: 2, write_timeout: 2 }
    }
}
pub fn sa(s: &str) -> SocketAddr {
    s.parse().unwrap()
}
/// The `i`-th client.
pub fn cl(i: usize) -> SocketAddr {
    SocketAddr::new(IpAddr::from([10, 9, 0, 1 + i as u8]), 7000 + i as u16)
}

/// Run both listeners with `h` in a thread of their own; returns that thread.
pub fn run<H: DnsHandler>(h: H, n: &Net) -> usize {
    let u = UdpParams { address: n.udp.ip().to_string(), port: n.udp.port(), write_timeout: Duration::new(n.write_timeout, 0), threads: n.udp_threads };
    let t = TcpParams {
        address: n.tcp.ip().to_string(),
        port: n.tcp.port(),
        read_timeout: Duration::new(n.read_timeout, 0),
        write_timeout: Duration::new(n.write_timeout, 0),
        threads: n.tcp_threads,
    };
    let h = Arc::new(h);
    rt::spawn("service", move || start_servers(h, u, t))
}

/// A small zone: alias, several types, a delegation, a big record set.
pub fn demo_zone() -> Model {
    let mut recs = vec![
        rr("example.", 3600, soa("ns.example.", "admin.example.", [1, 2, 3, 4, 5])),
        rr("example.", 3600, ns("ns.example.")),
        rr("ns.example.", 3600, a([192, 0, 2, 53])),
        rr("www.example.", 3600, a([192, 0, 2, 1])),
        rr("alias.example.", 3600, cname("www.example.")),
        rr("txt.example.", 3600, txts(&["some text"])),
    ];
    for i in 0..4 {
        recs.push(rr("big.example.", 3600, txts(&[&format!("{:02}{}", i, "x".repeat(170))])));
    }
    Model {
        top: nm("example."),
        recs,
        subs: vec![(nm("sub.example."), vec![rr("sub.example.", 3600, ns("ns.sub.example.")), rr("ns.sub.example.", 3600, a([192, 0, 2, 99]))])],
    }
}
pub fn nameserver(m: &Model) -> NameserverHandler {
    NameserverHandler(load_model(m).expect("the demonstration zone loads"))
}
pub fn rsv(conf: ResolverParams, trace: TraceParams) -> (Arc<RecordsCache>, Resolver) {
    let cache = Arc::new(Cache::new(CacheConf { clean_period: Duration::new(60, 0), max_cleaned: 500 }));
    let r = Resolver::new(&cache, conf, trace);
    (cache, r)
}
pub fn quiet() -> TraceParams {
    TraceParams { silent: true, verbose: false, color: false }
}

/// Bytes of one request over TCP.
pub fn framed(b: &[u8]) -> Vec<u8> {
    let mut v = (b.len() as u16).to_be_bytes().to_vec();
    v.extend(b);
    v
}
/// The messages in what was received over TCP; an error when it is no sequence of whole messages.
pub fn unframe(b: &[u8]) -> Result<Vec<Vec<u8>>, String> {
    let mut v = vec![];
    let mut p = 0;
    while p < b.len() {
        if p + 2 > b.len() {
            return Err("a single byte where a length should be".into());
        }
        let n = u16::from_be_bytes([b[p], b[p + 1]]) as usize;
        if p + 2 + n > b.len() {
            return Err(format!("{} bytes announced, {} follow", n, b.len() - p - 2));
        }
        v.push(b[p + 2..p + 2 + n].to_vec());
        p += 2 + n;
    }
    Ok(v)
}
/// Send a datagram and give the replies that came when nothing moves any more.
pub fn udp_send(n: &Net, from: SocketAddr, b: &[u8]) {
    client::send_udp(from, n.udp, b);
}
pub fn udp_replies(me: SocketAddr) -> Vec<Vec<u8>> {
    client::take_udp(me).into_iter().map(|d| d.data).collect()
}
pub fn tcp_open(n: &Net, from: SocketAddr) -> ConnId {
    match client::connect(from, n.tcp) {
        Some(c) => c,
        None => rt::fail("no tcp listener", format!("a connection from {} to {} is refused", from, n.tcp)),
    }
}

/// Let every listener reach its waiting state. Time does not pass.
pub fn ready() {
    rt::settle();
}

/// A nameserver for everything: any name has the address 192.0.2.77, unless
/// its first label says something else.
pub fn universal_upstream(d: &net::Dgram) {
    let dec = decode(&d.data);
    if d.to.port() != 53 || dec.msg.q.len() != 1 {
        return;
    }
    let q = dec.msg.q[0].clone();
    let mut m = Msg { h: Hdr { id: dec.msg.h.id, qr: true, aa: true, ..Default::default() }, q: vec![q.clone()], ..Default::default() };
    let first = q.name.first().map(|l| String::from_utf8_lossy(l).to_lowercase()).unwrap_or_default();
    match first.as_str() {
        "nx" => m.h.rcode = 3,
        "fail" => m.h.rcode = 2,
        "silent" => return,
        "alias" => m.s[0].push(RR { owner: q.name.clone(), class: 1, ttl: 60, data: cname("target.example.") }),
        "big" => {
            for i in 0..12 {
                m.s[0].push(RR { owner: q.name.clone(), class: 1, ttl: 60, data: RData::A([192, 0, 2, i]) });
            }
        }
        _ => {
            let data = match q.qtype {
                A => RData::A([192, 0, 2, 77]),
                NS => ns("ns.example."),
                CNAME => cname("target.example."),
                SOA => soa("ns.example.", "admin.example.", [1, 2, 3, 4, 5]),
                PTR => RData::Ptr(nm("host.example.")),
                HINFO => RData::Hinfo(b"cpu".to_vec(), b"os".to_vec()),
                MX => RData::Mx(10, nm("mail.example.")),
                TXT => txts(&["text"]),
                WKS => RData::Wks([192, 0, 2, 77], 6, vec![0, 128]),
                _ => {
                    m.h.rcode = 3;
                    RData::A([0; 4])
                }
            };
            if m.h.rcode == 0 {
                m.s[0].push(RR { owner: q.name.clone(), class: 1, ttl: 60, data });
            }
        }
    }
    m.fix_counts();
    let bytes = encode(&m, true);
    net::deliver(d.to, d.from, &bytes);
}

/// The reply a nameserver for [`demo_zone`] gives to a request it is asked
/// alone: as a datagram, or framed.
pub fn proper(req: &[u8], udp: bool) -> Option<Vec<u8>> {
    thread_local! {
        static MEMO: std::cell::RefCell<std::collections::HashMap<(Vec<u8>, bool), Option<Vec<u8>>>> = Default::default();
    }
    let key = (req.to_vec(), udp);
    if let Some(v) = MEMO.with(|m| m.borrow().get(&key).cloned()) {
        return v;
    }
    let v = crate::zones::ask(&nameserver(&demo_zone()), req);
    if v.len() > 1 {
        rt::fail("number of replies", format!("{} replies to {}", v.len(), hex(req)));
    }
    let v = v.into_iter().next().map(|(full, cut)| if udp { cut } else { framed(&full) });
    MEMO.with(|m| m.borrow_mut().insert(key, v.clone()));
    v
}
