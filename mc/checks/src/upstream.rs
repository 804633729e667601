//! A simulated DNS tree: what its servers answer and what the truth is.
use crate::wire::*;
use std::cell::RefCell;
use std::net::{IpAddr, SocketAddr};
use std::rc::Rc;
use vstd::net::{self, Dgram};
use vstd::rt;

pub type Ip = [u8; 4];
pub const ROOTS: [Ip; 13] = [
    [198, 41, 0, 4],
    [199, 9, 14, 201],
    [192, 33, 4, 12],
    [199, 7, 91, 13],
    [192, 203, 230, 10],
    [192, 5, 5, 241],
    [192, 112, 36, 4],
    [198, 97, 190, 53],
    [192, 36, 148, 17],
    [192, 58, 128, 30],
    [193, 0, 14, 129],
    [199, 7, 83, 42],
    [202, 12, 27, 33],
];

#[derive(Clone, Debug)]
pub struct Zone {
    pub apex: Labels,
    pub recs: Vec<RR>,
    pub ips: Vec<Ip>,
    /// lifetime of the delegation and of the addresses in referrals, when they
    /// differ from those in the zones themselves
    pub deleg_ttl: Option<u32>,
    pub glue_ttl: Option<u32>,
}

#[derive(Clone, Debug, Default)]
pub struct Tree {
    pub zones: Vec<Zone>,
    /// the data of an alias' target is added when the server has it
    pub chase: bool,
    /// owner names as in the question, not as in the zone
    pub echo: bool,
    /// addresses for the nameservers and mail exchangers in an answer
    pub extras: bool,
    /// answers and aliases come with the nameservers of their zone, or those
    /// the target of the alias is delegated to
    pub hints: bool,
    /// referrals come only with the addresses without which they lead nowhere:
    /// those of nameservers inside the delegated zone
    pub strict_glue: bool,
    /// nothing but the response code tells that there is no such name
    pub bare: bool,
    /// the response code is that of the last alias' target
    pub nx_chase: bool,
    pub roots: Vec<Ip>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Truth {
    /// aliases which lead to it, and the record set
    Found(Vec<RR>, Vec<RR>),
    Nx(Vec<RR>),
    NoData(Vec<RR>),
    Loop,
}

impl Tree {
    pub fn new() -> Tree {
        Tree { roots: ROOTS.to_vec(), ..Default::default() }
    }
    /// Add a zone; the servers are found by [`Tree::link`].
    pub fn zone(&mut self, apex: &str, recs: Vec<RR>) -> &mut Zone {
        self.zones.push(Zone { apex: nm(apex), recs, ips: vec![], deleg_ttl: None, glue_ttl: None });
        self.zones.last_mut().unwrap()
    }
    /// A zone with its SOA, nameservers and further records from a short text:
    /// lines of owner (relative to the zone), type and data (absolute names).
    pub fn text(&mut self, apex: &str, ttl: u32, lines: &str) -> &mut Zone {
        let mut recs = vec![rr(apex, ttl, soa(&join("ns", apex), &join("admin", apex), [1, 2, 3, 4, 5]))];
        for l in lines.lines().map(|l| l.trim()).filter(|l| !l.is_empty()) {
            let w: Vec<&str> = l.split_whitespace().collect();
            assert!(!w[0].ends_with('.'), "owner {}", w[0]);
            let owner = if w[0] == "@" { apex.to_string() } else { join(w[0], apex) };
            let data = match w[1] {
                "A" => {
                    let ip: std::net::Ipv4Addr = w[2].parse().unwrap();
                    a(ip.octets())
                }
                "NS" => ns(w[2]),
                "CNAME" => cname(w[2]),
                "MX" => RData::Mx(w[2].parse().unwrap(), nm(w[3])),
                "TXT" => txts(&w[2..]),
                "PTR" => RData::Ptr(nm(w[2])),
                "HINFO" => RData::Hinfo(w[2].into(), w[3].into()),
                "WKS" => RData::Wks([192, 0, 2, 7], 6, vec![25, 80]),
                t => panic!("type {}", t),
            };
            recs.push(rr(&owner, ttl, data));
        }
        self.zone(apex, recs)
    }
    /// Find out which address serves which zone.
    pub fn link(mut self) -> Tree {
        for i in 0..self.zones.len() {
            let z = &self.zones[i];
            let mut ips = vec![];
            if z.apex.is_empty() {
                ips = self.roots.clone();
            } else {
                for r in &z.recs {
                    if let (true, RData::Ns(n)) = (name_eq(&r.owner, &z.apex), &r.data) {
                        ips.extend(self.addrs(n));
                    }
                }
            }
            self.zones[i].ips = ips;
        }
        self
    }
    pub fn addrs(&self, n: &Labels) -> Vec<Ip> {
        self.set(n, A).iter().map(|r| if let RData::A(x) = r.data { x } else { unreachable!() }).collect()
    }
    /// The zone which is authoritative for `n`.
    pub fn auth(&self, n: &Labels) -> Option<&Zone> {
        self.zones.iter().filter(|z| within(n, &z.apex)).max_by_key(|z| z.apex.len())
    }
    pub fn set(&self, n: &Labels, t: u16) -> Vec<RR> {
        self.auth(n).map_or(vec![], |z| z.recs.iter().filter(|r| name_eq(&r.owner, n) && r.data.rtype() == t).cloned().collect())
    }
    fn exists(&self, n: &Labels) -> bool {
        self.zones.iter().any(|z| z.recs.iter().any(|r| within(&r.owner, n)))
    }
    pub fn truth(&self, n: &Labels, t: u16) -> Truth {
        let mut al = vec![];
        let mut n = n.clone();
        for _ in 0..100 {
            let s = self.set(&n, t);
            if !s.is_empty() {
                return Truth::Found(al, s);
            }
            if t != CNAME {
                if let Some(c) = self.set(&n, CNAME).into_iter().next() {
                    if let RData::Cname(x) = &c.data {
                        n = x.clone();
                    }
                    al.push(c);
                    continue;
                }
            }
            return if self.exists(&n) { Truth::NoData(al) } else { Truth::Nx(al) };
        }
        Truth::Loop
    }

    /// The zones which can be reached from the root: some nameserver has an
    /// address in the referral, or its name is in a zone which can be reached.
    pub fn reachable(&self) -> Vec<Labels> {
        let mut r: Vec<Labels> = vec![vec![]];
        loop {
            let next = self.zones.iter().find(|z| {
                if r.contains(&z.apex) {
                    return false;
                }
                let parent = self.zones.iter().filter(|p| p.apex.len() < z.apex.len() && within(&z.apex, &p.apex)).max_by_key(|p| p.apex.len()).unwrap();
                let lim = if self.strict_glue { &z.apex } else { &parent.apex };
                r.contains(&parent.apex)
                    && z.recs.iter().any(|x| match &x.data {
                        RData::Ns(n) if name_eq(&x.owner, &z.apex) => !self.set(n, A).is_empty() && (within(n, lim) || self.auth(n).map_or(false, |a| r.contains(&a.apex))),
                        _ => false,
                    })
            });
            match next {
                Some(z) => r.push(z.apex.clone()),
                None => return r,
            }
        }
    }
    fn glue(&self, names: &[RR], parent: &Labels, ttl: Option<u32>) -> Vec<RR> {
        let mut v = vec![];
        for r in names {
            if let RData::Ns(n) | RData::Mx(_, n) = &r.data {
                if within(n, parent) {
                    for mut g in self.set(n, A) {
                        g.ttl = ttl.unwrap_or(g.ttl);
                        if !v.contains(&g) {
                            v.push(g);
                        }
                    }
                }
            }
        }
        v
    }
    fn hint(&self, z: &Zone, m: &mut Msg) {
        let nss: Vec<RR> = z.recs.iter().filter(|r| name_eq(&r.owner, &z.apex) && r.data.rtype() == NS).cloned().collect();
        for g in self.glue(&nss, &z.apex, None) {
            if !m.s[2].contains(&g) {
                m.s[2].push(g);
            }
        }
        m.s[1] = nss;
    }
    /// What the server at `ip` answers.
    pub fn respond(&self, ip: Ip, q: &Q) -> Msg {
        let mut m = Msg { h: Hdr { qr: true, ..Default::default() }, q: vec![q.clone()], ..Default::default() };
        let mine = |n: &Labels| self.zones.iter().filter(|z| z.ips.contains(&ip) && within(n, &z.apex)).max_by_key(|z| z.apex.len());
        let mut name = q.name.clone();
        for hop in 0..8 {
            let z = match mine(&name) {
                None => {
                    if hop == 0 {
                        m.h.rcode = 5;
                    }
                    break;
                }
                Some(z) => z,
            };
            let own = |mut r: RR| {
                if self.echo && name_eq(&r.owner, &name) {
                    r.owner = name.clone();
                }
                r
            };
            // a zone below this one which contains the name and is served elsewhere
            let cut = self.zones.iter().filter(|c| c.apex.len() > z.apex.len() && within(&name, &c.apex) && within(&c.apex, &z.apex)).min_by_key(|c| c.apex.len());
            if let Some(c) = cut {
                if hop == 0 || self.hints {
                    let mut nss: Vec<RR> = c.recs.iter().filter(|r| name_eq(&r.owner, &c.apex) && r.data.rtype() == NS).cloned().collect();
                    for r in &mut nss {
                        r.ttl = c.deleg_ttl.unwrap_or(r.ttl);
                    }
                    m.s[2] = self.glue(&nss, if self.strict_glue { &c.apex } else { &z.apex }, c.glue_ttl);
                    m.s[1] = nss;
                }
                break;
            }
            m.h.aa = true;
            let set: Vec<RR> = z.recs.iter().filter(|r| name_eq(&r.owner, &name) && r.data.rtype() == q.qtype).cloned().collect();
            if !set.is_empty() {
                if self.extras {
                    m.s[2] = self.glue(&set, &z.apex, None);
                }
                m.s[0].extend(set.into_iter().map(own));
                if self.hints && !(q.qtype == NS && name_eq(&name, &z.apex)) {
                    self.hint(z, &mut m);
                }
                break;
            }
            if let Some(c) = z.recs.iter().find(|r| name_eq(&r.owner, &name) && r.data.rtype() == CNAME) {
                m.s[0].push(own(c.clone()));
                if let (true, RData::Cname(t)) = (self.chase, &c.data) {
                    name = t.clone();
                    continue;
                }
                if self.hints {
                    self.hint(z, &mut m);
                }
                break;
            }
            if !self.bare {
                m.s[1].extend(z.recs.iter().filter(|r| r.data.rtype() == SOA).cloned());
            }
            if (hop == 0 || self.nx_chase) && !self.exists(&name) {
                m.h.rcode = 3;
            }
            break;
        }
        m
    }
}
pub fn join(rel: &str, apex: &str) -> String {
    if apex == "." {
        format!("{}.", rel)
    } else {
        format!("{}.{}", rel, apex)
    }
}

/// The datagram for `m`: at most 512 bytes, cut with the TC flag when needed.
pub fn datagram(mut m: Msg, id: u16) -> Vec<u8> {
    m.h.id = id;
    m.fix_counts();
    let mut b = encode(&m, true);
    while b.len() > 512 {
        if m.s[2].pop().is_none() {
            // the nameservers next to an answer are not required
            m.h.tc |= m.s[0].is_empty() || m.s[1].is_empty();
            if m.s[1].pop().is_none() {
                m.s[0].pop();
            }
        }
        m.fix_counts();
        b = encode(&m, true);
    }
    b
}

/// One upstream query as it was sent.
#[derive(Clone, Debug)]
pub struct Asked {
    pub at: u64,
    pub tid: usize,
    pub ip: Ip,
    pub from: SocketAddr,
    pub id: u16,
    pub h: Hdr,
    pub q: Q,
}
impl Asked {
    pub fn to(&self) -> SocketAddr {
        SocketAddr::new(IpAddr::from(self.ip), 53)
    }
    /// Send `b` from the server that was asked.
    pub fn reply(&self, b: &[u8]) {
        net::deliver(self.to(), self.from, b);
    }
    pub fn reply_later(&self, ns: u64, b: Vec<u8>) {
        let s = self.clone();
        rt::at(rt::now() + ns, move || {
            net::deliver(s.to(), s.from, &b);
        });
    }
}
pub type Log = Rc<RefCell<Vec<Asked>>>;

/// Let `f` play every server; it is told what is asked. Malformed queries of
/// the resolver are violations.
pub fn play(f: impl Fn(&Asked) + 'static) -> Log {
    let log: Log = Default::default();
    let l2 = log.clone();
    rt::k().net.upstream = Some(Rc::new(move |d: &Dgram| {
        if d.to.port() != 53 {
            return;
        }
        let ip = match d.to.ip() {
            IpAddr::V4(x) => x.octets(),
            _ => return,
        };
        let m = match decode_strict(&d.data) {
            Ok(m) => m,
            Err(e) => rt::fail("malformed upstream query", format!("{} in {}", e, hex(&d.data))),
        };
        if m.q.len() != 1 || m.h.qr || m.h.opcode != 0 || m.s.iter().any(|s| !s.is_empty()) || m.q[0].class != 1 {
            rt::fail("malformed upstream query", show(&m));
        }
        let x = Asked { at: d.at, tid: d.tid, ip, from: d.from, id: m.h.id, h: m.h.clone(), q: m.q[0].clone() };
        l2.borrow_mut().push(x.clone());
        f(&x);
    }));
    log
}
/// Let the servers of the tree answer honestly and at once.
pub fn honest(t: Rc<Tree>) -> Log {
    play(move |x| x.reply(&datagram(t.respond(x.ip, &x.q), x.id)))
}

/// Ask a handler one question; the reply must be the only one and well-formed.
pub fn lookup<H: ariadne_dns::shared::net::DnsHandler>(h: &H, name: &Labels, qtype: u16) -> Msg {
    let v = crate::zones::ask(h, &query_l(0x1234, name, qtype));
    if v.len() != 1 {
        rt::fail("number of replies", format!("{} replies to the query {} {}", v.len(), txt(name), type_name(qtype)));
    }
    match decode_strict(&v[0].0) {
        Ok(m) => m,
        Err(e) => rt::fail("malformed reply", format!("{} in the reply to the query {} {}: {}", e, txt(name), type_name(qtype), hex(&v[0].0))),
    }
}

/// Equal but for lifetimes, order and the case of owners.
fn bare(v: &[RR]) -> Vec<(Labels, u16, RData)> {
    let mut v: Vec<_> = v.iter().map(|r| (low(&r.owner), r.class, r.data.clone())).collect();
    v.sort();
    v
}
/// Does the reply tell the truth? The error names what is wrong.
pub fn judge(t: &Tree, name: &Labels, qtype: u16, m: &Msg) -> Result<&'static str, (&'static str, String)> {
    let q = format!("{} {}", txt(name), type_name(qtype));
    match t.truth(name, qtype) {
        Truth::Found(al, set) => {
            if m.h.rcode != 0 {
                return Err(("an existing record set is not found", format!("{}: response code {}", q, m.h.rcode)));
            }
            let k = al.len();
            let an = m.an();
            let ok = an.len() == k + set.len() && al.iter().zip(an).all(|(x, y)| bare(std::slice::from_ref(x)) == bare(std::slice::from_ref(y))) && bare(&set) == bare(&an[k..]);
            if !ok {
                return Err(("wrong answer", format!("{}: got {} instead of {} then {}", q, crate::zones::show_rrs(an), crate::zones::show_rrs(&al), crate::zones::show_rrs(&set))));
            }
            let orig = |r: &RR| t.zones.iter().flat_map(|z| [Some(u32::MAX), z.deleg_ttl, z.glue_ttl].into_iter().flatten().filter(|x| *x != u32::MAX).collect::<Vec<_>>()).chain(t.zones.iter().flat_map(|z| z.recs.iter()).filter(|o| name_eq(&o.owner, &r.owner) && o.data == r.data).map(|o| o.ttl)).max().unwrap_or(0);
            for r in an {
                if r.ttl > orig(r) {
                    return Err(("lifetime grows", format!("{}: {}", q, show_rr(r))));
                }
            }
            Ok("found")
        }
        Truth::Nx(al) => {
            if m.h.rcode != 3 {
                return Err(("a name which does not exist is not reported as such", format!("{}: response code {} {}", q, m.h.rcode, crate::zones::show_rrs(m.an()))));
            }
            // the aliases on the way may be left out
            if m.an().len() > al.len() || bare(m.an()) != bare(&al[..m.an().len()]) {
                return Err(("wrong answer", format!("{}: got {}", q, crate::zones::show_rrs(m.an()))));
            }
            Ok("name error")
        }
        Truth::NoData(al) => {
            // the project has no answer for this; it must not invent data
            if !m.an().is_empty() && bare(m.an()) != bare(&al) {
                return Err(("wrong answer", format!("{}: got {}", q, crate::zones::show_rrs(m.an()))));
            }
            Ok("no data")
        }
        Truth::Loop => {
            if m.h.rcode == 0 {
                return Err(("wrong answer", format!("{} is a loop: got {}", q, crate::zones::show_rrs(m.an()))));
            }
            Ok("loop")
        }
    }
}

/// A tree with every kind of delegation. `ttl` for the records of the zones,
/// `deleg` and `glue` for the referrals.
pub fn world(ttl: u32, deleg: Option<u32>, glue: Option<u32>) -> Tree {
    let mut t = Tree::new();
    t.text(".", ttl, "@ NS a.nic.net.");
    t.text(
        "net.",
        ttl,
        "@ NS a.nic.net.
         a.nic A 10.1.0.1",
    );
    t.text(
        "com.",
        ttl,
        "@ NS a.nic.net.
         @ NS b.nic.com.
         b.nic A 10.1.0.3",
    );
    t.text(
        "a.com.",
        ttl,
        "@ NS ns1.a.com.
         @ NS ns2.a.com.
         @ MX 10 mail.a.com.
         @ MX 20 mail.b.com.
         @ TXT one two
         ns1 A 10.2.0.1
         ns2 A 10.2.0.2
         ns3 A 10.2.0.3
         www A 10.9.0.1
         www A 10.9.0.2
         mail A 10.9.0.3
         in CNAME www.a.com.
         out CNAME www.b.com.
         long CNAME l2.b.com.
         nowhere CNAME nx.b.com.
         tosub CNAME www.sub.a.com.
         toup CNAME up.sub.a.com.
         toxa CNAME www.xa.com.
         loop CNAME loop.b.com.",
    );
    // served by a machine of its neighbour
    t.text(
        "b.com.",
        ttl,
        "@ NS ns3.a.com.
         www A 10.9.1.1
         mail A 10.9.1.2
         l2 CNAME l3.c.com.
         loop CNAME loop.a.com.",
    );
    // served by machines elsewhere, without addresses in the referral
    t.text(
        "c.com.",
        ttl,
        "@ NS ns.d.net.
         @ NS ns1.d.net.
         www A 10.9.2.1
         l3 CNAME www.d.net.",
    );
    t.text(
        "d.net.",
        ttl,
        "@ NS ns.d.net.
         ns A 10.3.0.1
         ns1 A 10.3.0.2
         www A 10.9.3.1
         www TXT hello",
    );
    // its name ends like a.com., without being in it
    t.text(
        "xa.com.",
        ttl,
        "@ NS ns.xa.com.
         ns A 10.2.0.9
         www A 10.9.4.1",
    );
    t.text(
        "sub.a.com.",
        ttl,
        "@ NS ns.sub.a.com.
         @ NS ns.deep.sub.a.com.
         ns A 10.2.0.5
         www A 10.9.5.1
         x.y.z A 10.9.5.2
         up CNAME out.a.com.",
    );
    t.text(
        "deep.sub.a.com.",
        ttl,
        "@ NS ns.deep.sub.a.com.
         ns A 10.2.0.6
         www A 10.9.6.1",
    );
    // each served by the other
    t.text(
        "e.com.",
        ttl,
        "@ NS ns.f.com.
         ns A 10.2.0.7
         www A 10.9.7.1",
    );
    t.text(
        "f.com.",
        ttl,
        "@ NS ns.e.com.
         ns A 10.2.0.8
         www A 10.9.8.1",
    );
    for z in &mut t.zones {
        z.deleg_ttl = deleg;
        z.glue_ttl = glue;
    }
    t.link()
}

/// A chain of `k` delegations below com., each zone served by one machine of
/// its own, and the name of the lowest zone.
pub fn chain(k: usize, ttl: u32, label: &str) -> (Tree, String) {
    let mut t = Tree::new();
    t.text(".", ttl, "@ NS a.root-servers.net.");
    t.text("com.", ttl, "@ NS ns.com.\nns A 10.1.0.1\nwww A 10.9.255.1");
    let mut apex = String::from("com.");
    for i in 0..k {
        apex = format!("{}{}.{}", label, i, apex);
        t.text(&apex, ttl, &format!("@ NS ns.{0}\nns A 10.3.{1}.{2}\nwww A 10.9.{1}.{2}\nup CNAME www.com.\nal CNAME www.{0}", apex, i / 200, 1 + i % 200));
    }
    (t.link(), apex)
}
