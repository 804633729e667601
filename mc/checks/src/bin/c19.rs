//! C19: a nameserver cannot influence names outside the zone it was asked about.
use ariadne_dns::resolver::*;
use checks::servers::*;
use checks::upstream::*;
use checks::wire::*;
use checks::{opts, rt, Check};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::time::Duration;

const EVIL: Ip = [6, 6, 6, 6];

/// Honest but for what the hostile zone's servers add.
fn tree() -> Tree {
    let mut t = Tree::new();
    t.text(".", 7200, "@ NS a.nic.net.");
    t.text("net.", 7200, "@ NS a.nic.net.\na.nic A 10.1.0.1");
    t.text("com.", 7200, "@ NS b.nic.com.\nb.nic A 10.1.0.3");
    t.text("d.net.", 3600, "@ NS ns.d.net.\nns A 10.3.0.1\nwww A 10.9.3.1\nads CNAME www.evil.com.");
    t.text("evil.com.", 3600, "@ NS ns.evil.com.\nns A 10.6.0.1\nwww A 10.9.6.1\nmail A 10.9.6.2\n@ MX 10 mail.evil.com.\n@ TXT text\nads CNAME www.sub.evil.com.");
    t.text("sub.evil.com.", 3600, "@ NS ns.sub.evil.com.\nns A 10.6.1.1\nwww A 10.9.6.3\n@ MX 10 www.sub.evil.com.");
    t.text("bank.com.", 3600, "@ NS ns.bank.com.\n@ MX 5 mail.bank.com.\nns A 10.2.0.1\nwww A 10.9.0.1\nmail A 10.9.0.2\nads CNAME www.evil.com.");
    // its nameserver is the bank's
    t.text("shop.net.", 3600, "@ NS ns.bank.com.\nwww A 10.9.5.1");
    // ends like the hostile zone, but is not in it
    t.text("xevil.com.", 3600, "@ NS ns.xevil.com.\nns A 10.2.1.1\nwww A 10.9.7.1");
    t.link()
}
const VICTIMS: &[(&str, u16)] = &[
    ("www.bank.com.", A),
    ("ns.bank.com.", A),
    ("bank.com.", NS),
    ("bank.com.", MX),
    ("www.shop.net.", A),
    ("www.xevil.com.", A),
    ("www.d.net.", A),
    ("www.evil.com.", A),
    ("ns.d.net.", A),
    ("b.nic.com.", A),
    ("com.", NS),
    ("net.", NS),
    ("nx.bank.com.", A),
];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Base {
    Honest,
    /// the queried name is an alias of a victim
    AliasOut,
    /// of another name in the hostile zone
    AliasIn,
    /// the part below the hostile zone is delegated to a victim's machine
    Refer(&'static str),
    Nx,
    Empty,
}
use Base::*;

/// A record for a victim, or a whole fake delegation.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Inj {
    Addr(&'static str),
    Ns(&'static str),
    NsGlued(&'static str),
    Alias(&'static str),
    Mx(&'static str),
    /// addresses of the machine named in the hostile zone's own delegation
    OwnGlue,
}
const INJ: &[Inj] = &[
    Inj::Addr("www.bank.com."),
    Inj::Addr("ns.bank.com."),
    Inj::NsGlued("bank.com."),
    Inj::Ns("bank.com."),
    Inj::Alias("www.bank.com."),
    Inj::NsGlued("com."),
    Inj::NsGlued("."),
    Inj::NsGlued("www.bank.com."),
    Inj::NsGlued("net."),
    Inj::Addr("b.nic.com."),
    Inj::Addr("a.nic.net."),
    Inj::Addr("www.d.net."),
    Inj::Addr("ns.d.net."),
    Inj::Addr("www.evil.com."),
    Inj::NsGlued("evil.com."),
    Inj::NsGlued("d.net."),
    Inj::NsGlued("xevil.com."),
    Inj::Addr("www.xevil.com."),
    Inj::Mx("bank.com."),
    Inj::Addr("mail.bank.com."),
    Inj::OwnGlue,
];

struct Plot {
    zone: Labels,
    base: Cell<Base>,
    inj: RefCell<Vec<(Inj, usize)>>,
    alias: Cell<&'static str>,
}
impl Plot {
    fn message(&self, t: &Tree, ip: Ip, q: &Q) -> Msg {
        let rec = |o: &Labels, d: RData| RR { owner: o.clone(), class: 1, ttl: 80000, data: d };
        let mut m = Msg { h: Hdr { qr: true, ..Default::default() }, q: vec![q.clone()], ..Default::default() };
        let z = &self.zone;
        let here = |l: &str| {
            let mut v = nm(&format!("{}.", l));
            v.extend(z.clone());
            v
        };
        if !within(&q.name, z) {
            // must not be asked for this
            m.h.aa = true;
            m.s[0].push(rec(&q.name, RData::A(EVIL)));
            return m;
        }
        match self.base.get() {
            Honest => m = t.respond(ip, q),
            AliasOut => {
                m.h.aa = true;
                m.s[0].push(rec(&q.name, RData::Cname(nm(self.alias.get()))));
            }
            AliasIn => {
                m.h.aa = true;
                m.s[0].push(rec(&q.name, RData::Cname(here("mail"))));
            }
            Refer(n) => {
                let own = if q.name.len() > z.len() { q.name[q.name.len() - z.len() - 1..].to_vec() } else { q.name.clone() };
                m.s[1].push(rec(&own, RData::Ns(nm(n))));
                m.s[2].push(rec(&nm(n), RData::A(EVIL)));
            }
            Nx => {
                m.h.aa = true;
                m.h.rcode = 3;
            }
            Empty => m.h.aa = true,
        }
        for (i, s) in self.inj.borrow().iter() {
            let me = here("ns");
            match *i {
                Inj::Addr(n) => m.s[*s].push(rec(&nm(n), RData::A(EVIL))),
                Inj::Ns(n) => m.s[*s].push(rec(&nm(n), RData::Ns(me))),
                Inj::NsGlued(n) => {
                    m.s[*s].push(rec(&nm(n), RData::Ns(me.clone())));
                    m.s[2].push(rec(&me, RData::A(EVIL)));
                }
                Inj::Alias(n) => m.s[*s].push(rec(&nm(n), RData::Cname(here("www")))),
                Inj::Mx(n) => m.s[*s].push(rec(&nm(n), RData::Mx(1, here("www")))),
                Inj::OwnGlue => m.s[*s].push(rec(&me, RData::A(EVIL))),
            }
        }
        m
    }
}
/// The servers of the zone `p` is about follow it, all others are honest.
fn stage(t: Rc<Tree>, p: Rc<Plot>) -> Log {
    let ips = t.zones.iter().find(|z| z.apex == p.zone).unwrap().ips.clone();
    play(move |x| {
        if x.ip == EVIL || ips.contains(&x.ip) {
            if !within(&x.q.name, &p.zone) {
                rt::fail("a hostile server is asked about a foreign name", format!("{} of {} is asked for {} {}; {}", std::net::Ipv4Addr::from(x.ip), txt(&p.zone), txt(&x.q.name), type_name(x.q.qtype), story(&p)));
            }
            return x.reply(&datagram(p.message(&t, x.ip, &x.q), x.id));
        }
        x.reply(&datagram(t.respond(x.ip, &x.q), x.id))
    })
}
fn story(p: &Plot) -> String {
    format!("the servers of {} answer {:?} (alias {}) with {:?}", txt(&p.zone), p.base.get(), p.alias.get(), p.inj.borrow())
}
/// What is said about foreign names must be true.
fn foreign(t: &Tree, p: &Plot, m: &Msg, what: &str) {
    for (i, s) in m.s.iter().enumerate() {
        for r in s {
            if !within(&r.owner, &p.zone) && !t.set(&r.owner, r.data.rtype()).iter().any(|x| x.data == r.data) {
                rt::fail("a record volunteered for a foreign name is served", format!("{} in section {} of the reply to {}: {}; {}", show_rr(r), i, what, show(m), story(p)));
            }
        }
    }
}
fn victim(t: &Tree, p: &Plot, h: &ResolverHandler, n: &str, ty: u16) {
    let name = nm(n);
    // the nameserver of shop.net. is in com.
    if within(&name, &p.zone) || n == "www.shop.net." && within(&nm("ns.bank.com."), &p.zone) {
        return;
    }
    // the truth about it may pass through the hostile zone
    let m = lookup(h, &name, ty);
    foreign(t, p, &m, n);
    if t.set(&name, CNAME).is_empty() {
        if let Err((s, d)) = judge(t, &name, ty, &m) {
            rt::fail(&format!("a foreign name is affected: {}", s), format!("{}; {}", d, story(p)));
        }
    } else if m.h.rcode == 0 && m.an().first().map_or(true, |r| r.data.rtype() != CNAME) {
        rt::fail("a foreign name is affected: wrong answer", format!("{}; {}", show(&m), story(p)));
    }
}

fn main() {
    let mut ck = Check::start("C19");
    let th = ck.thorough();
    ck.assume("all servers of the hostile zone are hostile, those of its parent zones are honest; names inside the hostile zone are its own affair");
    let bases: Vec<Base> = vec![Honest, AliasOut, Refer("ns.bank.com."), Refer("www.bank.com."), Nx, AliasIn, Empty, Refer("a.nic.net."), Refer("b.nic.com."), Refer("ns.evil.com."), Refer("ns.d.net.")];
    let run = move |zone: &'static str, first: &[(&'static str, u16)], bases: &[Base], count: usize, pre: bool, small: bool| {
        let t = Rc::new(tree());
        let p = Rc::new(Plot { zone: nm(zone), base: Cell::new(*rt::pick_of(bases)), inj: Default::default(), alias: Cell::new("www.bank.com.") });
        let inj: &[Inj] = if small { &INJ[..9] } else { INJ };
        let mut from = 0;
        for _ in 0..count {
            // none, or one more behind those there are
            let all = inj.len() * 3;
            let k = rt::pick(all - from + 1);
            if k == 0 {
                break;
            }
            let i = from + k - 1;
            p.inj.borrow_mut().push((inj[i / 3], i % 3));
            from = i + 1;
        }
        let (f, fty) = *rt::pick_of(first);
        if p.base.get() == AliasOut {
            // a name outside the hostile zone, with its own truth
            p.alias.set(*rt::pick_of(&["www.bank.com.", "www.d.net."]));
            if within(&nm(p.alias.get()), &p.zone) {
                rt::prune();
            }
        }
        let before = if pre { rt::pick(4) } else { 0 };
        let _log = stage(t.clone(), p.clone());
        let (_cache, rs) = rsv(ResolverParams { read_timeout: Duration::from_secs(1), ..Default::default() }, quiet());
        let h = ResolverHandler(rs);
        match before {
            0 => {}
            // known before, then perhaps expired
            k => {
                for (n, ty) in &VICTIMS[..4] {
                    victim(&t, &p, &h, n, *ty);
                }
                rt::sleep(Duration::from_secs([0, 3599, 3601][k - 1]));
            }
        }
        let m = lookup(&h, &nm(f), fty);
        foreign(&t, &p, &m, f);
        // an alias which leads out of the hostile zone leads to the truth
        if within(&nm(f), &p.zone) && p.base.get() == AliasOut && fty == A {
            let target = nm(p.alias.get());
            let own: Vec<_> = m.an().iter().filter(|r| name_eq(&r.owner, &target)).map(|r| r.data.clone()).collect();
            let aliased = m.an().first().map_or(false, |r| r.data.rtype() == CNAME);
            if m.h.rcode == 0 && aliased && own != t.set(&target, A).iter().map(|r| r.data.clone()).collect::<Vec<_>>() {
                rt::fail("a foreign name is affected: wrong answer", format!("{}; {}", show(&m), story(&p)));
            }
            rt::count("alias followed");
        }
        rt::count(match m.h.rcode {
            0 => "hostile name answered",
            2 => "hostile name: server failure",
            3 => "hostile name: name error",
            _ => "hostile name: other",
        });
        for (n, ty) in VICTIMS {
            victim(&t, &p, &h, n, *ty);
        }
        // when the real data has expired
        rt::sleep(Duration::from_secs(7201));
        for (n, ty) in &VICTIMS[..9] {
            victim(&t, &p, &h, n, *ty);
        }
        rt::sample(|| format!("{} then {} {} -> {}", story(&p), f, type_name(fty), show(&m)));
    };
    let evil: &[(&str, u16)] = &[("www.evil.com.", A), ("evil.com.", MX), ("a.b.evil.com.", A), ("ns.evil.com.", A), ("ads.bank.com.", A)];
    let b = bases.clone();
    ck.rt("a domain, one foreign record", opts(), move || run("evil.com.", evil, &b, 1, true, false));
    let b = bases.clone();
    ck.rt("a domain, two foreign records", opts().cap(ck.by(200.0, 2000.0)), move || {
        if th {
            run("evil.com.", evil, &b, 2, true, false)
        } else {
            run("evil.com.", &evil[..3], &b[..5], 2, false, true)
        }
    });
    let sub: &[(&str, u16)] = &[("www.sub.evil.com.", A), ("sub.evil.com.", MX), ("a.b.sub.evil.com.", A), ("ads.evil.com.", A)];
    let b = bases.clone();
    ck.rt("a subdomain, one foreign record", opts(), move || run("sub.evil.com.", sub, &b, 1, true, false));
    let tld: &[(&str, u16)] = &[("www.evil.com.", A), ("com.", NS), ("nx.com.", A), ("ads.d.net.", A)];
    let b = bases.clone();
    ck.rt("a top-level domain, one foreign record", opts(), move || run("com.", tld, &b, 1, true, false));
    let b = bases.clone();
    ck.rt("a top-level domain, two foreign records", opts().cap(ck.by(100.0, 1000.0)), move || {
        if th {
            run("com.", tld, &b, 2, false, false)
        } else {
            run("com.", &tld[..2], &b[..4], 2, false, true)
        }
    });
    if th {
        let b = bases.clone();
        ck.rt("a subdomain, two foreign records", opts().cap(2000.0), move || run("sub.evil.com.", sub, &b, 2, false, false));
        let b = bases.clone();
        ck.rt("a domain, three foreign records", opts().cap(3000.0), move || run("evil.com.", evil, &b[..4], 3, false, true));
    }
    ck.finish()
}
