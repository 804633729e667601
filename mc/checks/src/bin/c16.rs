//! C16: the resolver against a consistent tree, over all histories.
use ariadne_dns::resolver::*;
use checks::servers::*;
use checks::upstream::*;
use checks::wire::*;
use checks::{opts, rt, Check};
use std::rc::Rc;
use std::time::Duration;

fn conf() -> ResolverParams {
    ResolverParams::default()
}

const QUERIES: &[(&str, u16)] = &[
    ("www.a.com.", A),
    ("www.b.com.", A),
    ("www.c.com.", A),
    ("www.d.net.", A),
    ("www.xa.com.", A),
    ("www.sub.a.com.", A),
    ("www.deep.sub.a.com.", A),
    ("www.e.com.", A),
    ("www.f.com.", A),
    ("out.a.com.", A),
    ("long.a.com.", A),
    ("tosub.a.com.", A),
    ("a.com.", NS),
    ("ns1.a.com.", A),
    ("ns.e.com.", A),
    ("nx.a.com.", A),
    ("nx.com.", A),
    ("WWW.A.coM.", A),
    // the thorough tier adds these
    ("ns.f.com.", A),
    ("ns.d.net.", A),
    ("ns1.d.net.", A),
    ("c.com.", NS),
    ("sub.a.com.", NS),
    ("a.com.", MX),
    ("a.com.", TXT),
    ("www.d.net.", TXT),
    ("in.a.com.", A),
    ("up.sub.a.com.", A),
    ("toxa.a.com.", A),
    ("toup.a.com.", A),
    ("up.sub.a.com.", CNAME),
    ("nowhere.a.com.", A),
    ("loop.a.com.", A),
    ("www.a.com.", TXT),
    ("in.a.com.", CNAME),
    ("nx.sub.a.com.", TXT),
    ("b.nic.com.", A),
    ("com.", NS),
    (".", NS),
    ("com.", SOA),
    ("x.y.z.sub.a.com.", A),
    ("y.z.sub.a.com.", A),
    ("OUT.a.COM.", A),
    ("www.a.b.c.d.e.f.com.", A),
];
/// (zone records, delegations, addresses in referrals)
const TTLS: &[(u32, Option<u32>, Option<u32>)] = &[(3600, None, None), (60, Some(3600), Some(3600)), (3600, Some(3600), Some(60)), (3600, Some(60), Some(3600)), (60, Some(3600), Some(60)), (0, Some(3600), Some(3600)), (3600, Some(0), Some(0)), (1, Some(1), Some(2)), (u32::MAX, None, None)];
const WAITS: &[u64] = &[0, 61, 3601];

fn main() {
    let mut ck = Check::start("C16");
    let th = ck.thorough();
    ck.assume("the authoritative servers answer, with at most 512 bytes, and agree with each other");

    let step = |t: &Rc<Tree>, h: &ResolverHandler, log: &Log, name: &str, qt: u16, hist: &mut Vec<String>| {
        hist.push(format!("{} {}", name, type_name(qt)));
        log.borrow_mut().clear();
        let m = lookup(h, &nm(name), qt);
        match judge(t, &nm(name), qt, &m) {
            Ok(what) => rt::count(what),
            Err((sig, e)) => rt::fail(sig, format!("{}, after {}; upstream queries: {}", e, hist.join(", "), log.borrow().iter().map(|x| format!("{} {} to {}", txt(&x.q.name), type_name(x.q.qtype), std::net::Ipv4Addr::from(x.ip))).collect::<Vec<_>>().join(", "))),
        }
    };
    let history = |depth: usize, qs: &[(&str, u16)], ttls: &[(u32, Option<u32>, Option<u32>)], waits: &[u64], var: usize| {
        let (ttl, deleg, glue) = *rt::pick_of(ttls);
        let mut t = world(ttl, deleg, glue);
        t.chase = var & 1 != 0;
        t.extras = var & 2 != 0;
        t.echo = var & 4 != 0;
        t.hints = var & 8 != 0;
        t.bare = var & 16 != 0;
        t.nx_chase = var & 32 != 0;
        let t = Rc::new(t);
        let log = honest(t.clone());
        let (_cache, r) = rsv(conf(), quiet());
        let h = ResolverHandler(r);
        let mut hist = vec![format!("TTLs {} {:?} {:?}", ttl, deleg, glue)];
        for i in 0..depth {
            if i > 0 {
                let w = *rt::pick_of(waits);
                if w > 0 {
                    rt::sleep(Duration::new(w, 0));
                    hist.push(format!("{} s", w));
                }
            }
            let (n, qt) = *rt::pick_of(qs);
            step(&t, &h, &log, n, qt, &mut hist);
        }
        rt::sample(|| hist.join(", "));
    };

    ck.rt("one lookup, every variant of the tree", opts(), || {
        let var = rt::pick(64);
        history(1, QUERIES, TTLS, WAITS, var)
    });
    ck.rt("one lookup, every limit", opts(), || {
        let t = Rc::new(world(3600, None, None));
        let log = honest(t.clone());
        let c = ResolverParams { max_ns_queried: 1 + rt::pick(4), max_upd_retries: 1 + rt::pick(2), max_cname_redir: 4 + rt::pick(3), ..conf() };
        let (_cache, r) = rsv(c, quiet());
        let h = ResolverHandler(r);
        let (n, qt) = *rt::pick_of(QUERIES);
        step(&t, &h, &log, n, qt, &mut vec![]);
        rt::sample(|| format!("{} {}", n, type_name(qt)));
    });
    // sizes from what fits a datagram easily to what does not
    ck.rt("big record sets", opts(), || {
        let n = 1 + rt::pick(40);
        let mut t = world(3600, None, None);
        let z = t.zones.iter_mut().find(|z| z.apex == nm("a.com.")).unwrap();
        for i in 0..n {
            z.recs.push(rr("big.a.com.", 3600, a([10, 8, 0, i as u8])));
        }
        let t = Rc::new(t);
        let honest_size = datagram(t.respond([10, 2, 0, 1], &Q { name: nm("big.a.com."), qtype: A, class: 1 }), 1);
        let cut = decode_strict(&honest_size).map_or(false, |m| m.h.tc);
        let log = honest(t.clone());
        let (_cache, r) = rsv(conf(), quiet());
        let h = ResolverHandler(r);
        for _ in 0..2 {
            let m = lookup(&h, &nm("big.a.com."), A);
            if let Err((sig, e)) = judge(&t, &nm("big.a.com."), A, &m) {
                let sig = if cut && sig == "wrong answer" && m.h.rcode == 0 { "the part of a record set which fits a truncated upstream response is served as all of it" } else { sig };
                rt::fail(sig, format!("{} addresses: {}", n, e));
            }
        }
        let _ = log;
        rt::sample(|| format!("{} addresses", n));
    });
    // zones with many nameservers, names with many records
    ck.rt("many records of every kind", opts(), || {
        let n = *rt::pick_of(&[1, 2, 3, 4, 5, 7, 9]);
        let (ttl, deleg, glue) = *rt::pick_of(&[(3600, None, None), (3600, Some(60), Some(3600)), (60, Some(3600), Some(60))]);
        let mut s = String::new();
        for i in 0..n {
            s += &format!("@ NS n{0}.a.com.\n n{0} A 10.2.0.{0}\n www A 10.9.0.{0}\n www TXT t{0}\n www MX {0} n{0}.a.com.\n www PTR p{0}.a.com.\n", i + 1);
        }
        let mut t = Tree::new();
        t.text(".", 3600, "@ NS a.nic.com.");
        t.text("com.", 3600, "@ NS a.nic.com.\n a.nic A 10.1.0.1");
        let z = t.text("a.com.", ttl, &s);
        z.deleg_ttl = deleg;
        z.glue_ttl = glue;
        let mut t = t.link();
        let var = rt::pick(4);
        t.extras = var & 1 != 0;
        t.hints = var & 2 != 0;
        let t = Rc::new(t);
        let log = honest(t.clone());
        let (_cache, r) = rsv(conf(), quiet());
        let h = ResolverHandler(r);
        let last = format!("n{}.a.com.", n);
        let mut hist = vec![format!("{} of each, TTLs {} {:?} {:?}, variant {}", n, ttl, deleg, glue, var)];
        for i in 0..3 {
            if i > 0 && rt::pick_bool() {
                rt::sleep(Duration::new(61, 0));
                hist.push("61 s".into());
            }
            let (q, ty) = *rt::pick_of(&[("www.a.com.", A), ("www.a.com.", TXT), ("www.a.com.", MX), ("www.a.com.", PTR), ("a.com.", NS), (last.as_str(), A)]);
            step(&t, &h, &log, q, ty, &mut hist);
        }
        rt::sample(|| hist.join(", "));
    });
    // zones within zones
    ck.rt("chains of delegations", opts(), || {
        let k = 1 + rt::pick(61);
        let (mut t, apex) = chain(k, *rt::pick_of(&[3600, 1]), *rt::pick_of(&["z", ""]));
        let var = rt::pick(4);
        t.extras = var & 1 != 0;
        t.hints = var & 2 != 0;
        let t = Rc::new(t);
        let log = honest(t.clone());
        let (_cache, r) = rsv(conf(), quiet());
        let h = ResolverHandler(r);
        let mut hist = vec![format!("{} delegations, variant {}", k, var)];
        let first = rt::pick(4);
        for i in 0..3 {
            let q = ["www", "nx", "al", "up"][(first + i) % 4];
            step(&t, &h, &log, &format!("{}.{}", q, apex), A, &mut hist);
        }
        rt::sample(|| hist.join(", "));
    });
    // as many aliases as are allowed, and no more of them than there are
    ck.rt("chains of aliases", opts(), || {
        let n = *rt::pick_of(if th { &[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 20, 40, 60][..] } else { &[1usize, 2, 5, 9, 10, 12, 30][..] });
        let max = n.max(1) + rt::pick(2);
        let (zones, ttl) = (1 + rt::pick(3), *rt::pick_of(&[3600, 0]));
        let apex = |i: usize| ["a.com.", "b.com.", "d.net."][i % zones];
        let mut recs = vec!["@ NS ns".to_string(); zones];
        for (i, r) in recs.iter_mut().enumerate() {
            *r = format!("@ NS ns.{0}\n ns A 10.2.{1}.1\n", ["a.com.", "b.com.", "d.net."][i], i);
        }
        for i in 0..=n {
            recs[i % zones] += &if i == n { format!("n{} A 10.9.0.1\n n{} A 10.9.0.2\n", i, i) } else { format!("n{} CNAME n{}.{}\n", i, i + 1, apex(i + 1)) };
        }
        let mut t = Tree::new();
        t.text(".", 3600, "@ NS a.nic.com.");
        t.text("com.", 3600, "@ NS a.nic.com.\n a.nic A 10.1.0.1");
        t.text("net.", 3600, "@ NS a.nic.net.\n a.nic A 10.1.0.2");
        for (i, r) in recs.iter().enumerate() {
            t.text(["a.com.", "b.com.", "d.net."][i], ttl, r);
        }
        let mut t = t.link();
        let var = rt::pick(16);
        t.chase = var & 1 != 0 && n < 8;
        t.extras = var & 2 != 0;
        t.hints = var & 4 != 0;
        t.bare = var & 8 != 0;
        let t = Rc::new(t);
        let log = honest(t.clone());
        let (_cache, r) = rsv(ResolverParams { max_cname_redir: max, ..conf() }, quiet());
        let h = ResolverHandler(r);
        let mut hist = vec![format!("{} aliases in {} zones, at most {}, TTL {}, variant {}", n, zones, max, ttl, var)];
        for _ in 0..2 {
            let from = *rt::pick_of(&[0, n / 2, n - n.min(1)]);
            let qt = *rt::pick_of(&[A, TXT]);
            step(&t, &h, &log, &format!("n{}.{}", from, apex(from)), qt, &mut hist);
        }
        rt::sample(|| hist.join(", "));
    });
    // aliases of names which own every type, of the tops of zones, and of names which own nothing
    ck.rt("every type through an alias", opts(), || {
        let ttl = *rt::pick_of(&[3600, 60]);
        let mut t = Tree::new();
        t.text(".", ttl, "@ NS a.nic.com.");
        t.text("com.", ttl, "@ NS a.nic.com.\n a.nic A 10.1.0.1");
        t.text(
            "a.com.",
            ttl,
            "@ NS ns.a.com.
             ns A 10.2.0.1
             below.empty A 10.9.0.9
             in CNAME here.a.com.
             here A 10.9.0.1
             here HINFO cpu os
             here MX 10 m.a.com.
             here TXT t
             here PTR p.a.com.
             here WKS
             out CNAME there.b.com.
             top CNAME b.com.
             own CNAME a.com.
             low CNAME sub.a.com.
             none CNAME empty.a.com.
             none2 CNAME empty.b.com.
             twice CNAME top2.b.com.",
        );
        t.text(
            "b.com.",
            ttl,
            "@ NS ns.b.com.
             @ MX 10 m.b.com.
             @ HINFO cpu os
             ns A 10.2.0.2
             below.empty A 10.9.0.8
             top2 CNAME sub.a.com.
             there A 10.9.0.2
             there HINFO cpu os
             there MX 10 m.b.com.
             there TXT t
             there PTR p.b.com.
             there WKS",
        );
        t.text("sub.a.com.", ttl, "@ NS ns.sub.a.com.\n ns A 10.2.0.3\n @ TXT sub\n @ A 10.9.0.3");
        let mut t = t.link();
        let var = rt::pick(4);
        t.chase = var & 1 != 0;
        t.extras = var & 2 != 0;
        let t = Rc::new(t);
        let log = honest(t.clone());
        let (_cache, r) = rsv(conf(), quiet());
        let h = ResolverHandler(r);
        let mut hist = vec![format!("TTLs {}, variant {}", ttl, var)];
        for i in 0..2 {
            if i > 0 && rt::pick_bool() {
                rt::sleep(Duration::new(61, 0));
                hist.push("61 s".into());
            }
            let n = *rt::pick_of(&["in.a.com.", "out.a.com.", "top.a.com.", "own.a.com.", "low.a.com.", "none.a.com.", "none2.a.com.", "twice.a.com."]);
            let ty = *rt::pick_of(&[A, NS, CNAME, SOA, WKS, PTR, HINFO, MX, TXT]);
            step(&t, &h, &log, n, ty, &mut hist);
        }
        rt::sample(|| hist.join(", "));
    });
    // every choice of nameservers for four zones
    let trees = |singles: bool, depth: usize, ttls: &[(u32, Option<u32>, Option<u32>)], waits: &[u64], vars: &[usize]| {
        let hosts = ["ns.a.com.", "ns.b.com.", "ns.sub.a.com.", "ns.d.net.", "h.com."];
        let (ttl, deleg, glue) = *rt::pick_of(ttls);
        let mut lines: Vec<String> = vec![];
        for _ in 0..4 {
            let i = rt::pick(5);
            let mut l = format!("@ NS {}\n", hosts[i]);
            if !singles {
                let j = i + rt::pick(5 - i);
                if j > i {
                    l += &format!("@ NS {}\n", hosts[j]);
                }
            }
            lines.push(l);
        }
        let mut t = Tree::new();
        t.text(".", ttl, "@ NS a.nic.net.");
        t.text("net.", ttl, "@ NS a.nic.net.\n a.nic A 10.1.0.1");
        t.text("com.", ttl, "@ NS a.nic.net.\n h A 10.2.0.5");
        t.text("a.com.", ttl, &format!("{}ns A 10.2.0.1\n www A 10.9.0.1\n to CNAME www.d.net.\n tosub CNAME www.sub.a.com.", lines[0]));
        t.text("b.com.", ttl, &format!("{}ns A 10.2.0.2\n www A 10.9.0.2\n to CNAME www.sub.a.com.", lines[1]));
        t.text("sub.a.com.", ttl, &format!("{}ns A 10.2.0.3\n www A 10.9.0.3\n to CNAME www.b.com.", lines[2]));
        t.text("d.net.", ttl, &format!("{}ns A 10.2.0.4\n www A 10.9.0.4\n to CNAME www.a.com.", lines[3]));
        for z in t.zones.iter_mut().skip(3) {
            z.deleg_ttl = deleg;
            z.glue_ttl = glue;
        }
        let mut t = t.link();
        let var = *rt::pick_of(vars);
        t.strict_glue = var & 1 != 0;
        t.hints = var & 2 != 0;
        t.chase = var & 4 != 0;
        t.extras = var & 8 != 0;
        let reach = t.reachable();
        if !reach.iter().any(|z| z.len() == 2) {
            rt::prune();
        }
        let t = Rc::new(t);
        let log = honest(t.clone());
        let (_cache, r) = rsv(conf(), quiet());
        let h = ResolverHandler(r);
        let mut hist = vec![format!("TTLs {} {:?} {:?}, variant {}, nameservers {:?}", ttl, deleg, glue, var, lines)];
        let names = ["www.a.com.", "www.b.com.", "www.sub.a.com.", "www.d.net.", "to.a.com.", "to.b.com.", "to.sub.a.com.", "to.d.net.", "tosub.a.com."];
        let zones_of = |n: &Labels| {
            let mut v = vec![t.auth(n).unwrap().apex.clone()];
            for r in t.set(n, CNAME) {
                if let RData::Cname(x) = &r.data {
                    v.push(t.auth(x).unwrap().apex.clone());
                }
            }
            v
        };
        for i in 0..depth {
            if i > 0 {
                let w = *rt::pick_of(waits);
                if w > 0 {
                    rt::sleep(Duration::new(w, 0));
                    hist.push(format!("{} s", w));
                }
            }
            let n = *rt::pick_of(&names);
            if zones_of(&nm(n)).iter().all(|z| reach.contains(z)) {
                step(&t, &h, &log, n, A, &mut hist);
            } else {
                // nobody can find these; others may not suffer from the attempt
                hist.push(format!("{} A", n));
                let m = lookup(&h, &nm(n), A);
                rt::count("out of reach");
                if m.h.rcode == 0 {
                    if let Err((sig, e)) = judge(&t, &nm(n), A, &m) {
                        rt::fail(sig, format!("{}, after {}", e, hist.join(", ")));
                    }
                } else if m.h.rcode == 3 {
                    rt::fail("a name which exists is reported not to", format!("{}, after {}", n, hist.join(", ")));
                }
            }
        }
        rt::sample(|| hist.join(", "));
    };
    let few: &[(u32, Option<u32>, Option<u32>)] = &[(3600, None, None), (3600, Some(3600), Some(60)), (60, Some(3600), Some(3600)), (3600, Some(60), Some(3600))];
    let (nf, nv) = (ck.by(2, 4), ck.by(1, 2));
    ck.rt("every tree, one nameserver each", opts().cap(ck.by(200.0, 3000.0)), || trees(true, 2, &few[..nf], &[0, 61], &[0, 1]));
    if th {
        ck.rt("every tree, one nameserver each, every variant", opts().cap(3000.0), || trees(true, 2, few, WAITS, &(0..16).collect::<Vec<_>>()));
        ck.rt("every tree, one nameserver each, three lookups", opts().cap(3000.0), || trees(true, 3, few, &[0, 61], &[0, 1]));
    }
    ck.rt("every tree, up to two nameservers", opts().cap(ck.by(200.0, 3000.0)), || trees(false, 1, &few[..1], &[0], &[1, 0][..nv]));
    if th {
        ck.rt("every tree, up to two nameservers, two lookups", opts().cap(3000.0), || trees(false, 2, few, &[61], &[0, 1]));
    }
    // every graph of aliases over names which lie below, beside and textually inside one another
    let graphs = |k: usize, ttls: &[u32]| {
        let names = ["x.a.com.", "y.x.a.com.", "x.sub.a.com.", "x.b.com.", "x.a.com.b.com."];
        let ttl = *rt::pick_of(ttls);
        let mut zs: Vec<(&str, String)> = vec![("a.com.", "@ NS ns.a.com.\n ns A 10.2.0.1".into()), ("sub.a.com.", "@ NS ns.sub.a.com.\n ns A 10.2.0.2".into()), ("b.com.", "@ NS ns.b.com.\n ns A 10.2.0.3".into())];
        let mut shape = String::new();
        for (i, n) in names[..k].iter().enumerate() {
            let z = if n.ends_with("b.com.") { 2 } else if n.contains("sub") { 1 } else { 0 };
            let own = n.strip_suffix(zs[z].0).unwrap().trim_end_matches('.');
            match rt::pick(k + 2) {
                j if j < k => {
                    zs[z].1 += &format!("\n{} CNAME {}", own, names[j]);
                    shape += &format!("{} -> {}; ", n, names[j]);
                }
                j if j == k => {
                    zs[z].1 += &format!("\n{} A 10.9.0.{}", own, i + 1);
                    shape += &format!("{} exists; ", n);
                }
                _ => {}
            }
        }
        let mut t = Tree::new();
        t.text(".", ttl, "@ NS a.nic.com.");
        t.text("com.", ttl, "@ NS a.nic.com.\n a.nic A 10.1.0.1");
        for (z, l) in &zs {
            t.text(z, ttl, l);
        }
        let mut t = t.link();
        t.chase = rt::pick_bool();
        t.hints = rt::pick_bool();
        let t = Rc::new(t);
        let log = honest(t.clone());
        let (_cache, r) = rsv(conf(), quiet());
        let h = ResolverHandler(r);
        let mut hist = vec![format!("TTL {}, chase {}, hints {}, {}", ttl, t.chase, t.hints, shape)];
        let first = rt::pick(k);
        // one alias alone may be known before
        let alone = rt::pick(k + 1);
        if alone < k {
            step(&t, &h, &log, names[alone], CNAME, &mut hist);
        }
        for i in 0..k {
            step(&t, &h, &log, names[(first + i) % k], A, &mut hist);
        }
        rt::sample(|| hist.join(", "));
    };
    ck.rt("every graph of aliases", opts().cap(ck.by(200.0, 3000.0)), || graphs(4, &[3600, 0]));
    if th {
        ck.rt("every graph of aliases, five names", opts().cap(3000.0), || graphs(5, &[3600, 0]));
    }
    let ck_nfirst = 11;
    // the tree served by this project's own nameservers, one per zone; each
    // zone's machine may have its name in any zone
    let own = |nfirst: usize, waits: &[u64]| {
        let doms = ["a.com.", "b.com.", "sub.a.com.", "d.net.", "com."];
        let zs = ["a.com.", "b.com.", "sub.a.com.", "d.net."];
        let mut host = vec![];
        let mut extra: Vec<String> = vec![String::new(); 5];
        for (i, _) in zs.iter().enumerate() {
            let d = rt::pick(5);
            host.push(format!("n{}.{}", i, doms[d]));
            extra[d] += &format!("n{} A 10.2.0.{}\n", i, i + 1);
        }
        let mut t = Tree::new();
        t.text(".", 3600, "@ NS r.nic.net.");
        t.text("net.", 3600, "@ NS a.nic.net.\n a.nic A 10.1.0.1\n b.nic A 10.1.0.2");
        t.text("com.", 3600, &format!("@ NS b.nic.net.\n{}", extra[4]));
        for (i, (z, more)) in zs.iter().zip(["to CNAME www.d.net.\n tosub CNAME www.sub.a.com.", "to CNAME www.sub.a.com.", "to CNAME www.b.com.", "to CNAME www.a.com."]).enumerate() {
            t.text(z, 3600, &format!("@ NS {}\n www A 10.9.0.{}\n www TXT {}\n {}{}", host[i], i, i, extra[i], more));
        }
        let t = t.link();
        let reach = t.reachable();
        let children = |z: &Labels| -> Vec<&Zone> {
            t.zones.iter().filter(|c| c.apex.len() > z.len() && within(&c.apex, z) && !t.zones.iter().any(|m| m.apex.len() > z.len() && m.apex.len() < c.apex.len() && within(&c.apex, &m.apex) && within(&m.apex, z))).collect()
        };
        let mut servers = vec![];
        for z in &t.zones {
            let kids = children(&z.apex);
            let nss = |c: &Zone| -> Vec<RR> { c.recs.iter().filter(|r| name_eq(&r.owner, &c.apex) && r.data.rtype() == NS).cloned().collect() };
            let mut subs = vec![];
            for c in &kids {
                let mut recs = nss(c);
                for k in &kids {
                    for r in nss(k) {
                        if let RData::Ns(n) = &r.data {
                            if within(n, &c.apex) {
                                for a in t.set(n, A) {
                                    if !recs.contains(&a) {
                                        recs.push(a);
                                    }
                                }
                            }
                        }
                    }
                }
                subs.push((c.apex.clone(), recs));
            }
            let m = checks::zones::Model { top: z.apex.clone(), recs: z.recs.clone(), subs };
            match checks::zones::load_model(&m) {
                Ok(l) => servers.push((z.ips.clone(), ariadne_dns::nameserver::NameserverHandler(l))),
                Err(e) => rt::fail("a consistent zone does not load", format!("{}: {}", txt(&z.apex), e)),
            }
        }
        let t = Rc::new(t);
        let log = play(move |x| {
            for (ips, h) in &servers {
                if ips.contains(&x.ip) {
                    for (_, short) in checks::zones::ask(h, &query_l(x.id, &x.q.name, x.q.qtype)) {
                        x.reply(&short);
                    }
                }
            }
        });
        let (_cache, r) = rsv(conf(), quiet());
        let h = ResolverHandler(r);
        let names = ["www.a.com.", "to.b.com.", "www.d.net.", "www.sub.a.com.", "to.a.com.", "www.b.com.", "to.sub.a.com.", "to.d.net.", "tosub.a.com.", "nx.a.com.", "nx.sub.a.com."];
        let mut hist = vec![format!("nameservers {:?}", host)];
        let first = rt::pick(nfirst);
        let w = *rt::pick_of(waits);
        for i in 0..names.len() {
            let n = names[(first + i) % names.len()];
            let mut zs = vec![t.auth(&nm(n)).unwrap().apex.clone()];
            for r in t.set(&nm(n), CNAME) {
                if let RData::Cname(x) = &r.data {
                    zs.push(t.auth(x).unwrap().apex.clone());
                }
            }
            if zs.iter().all(|z| reach.contains(z)) {
                step(&t, &h, &log, n, A, &mut hist);
            }
            if i == 0 && w > 0 {
                rt::sleep(Duration::new(w, 0));
                hist.push(format!("{} s", w));
            }
        }
        rt::sample(|| hist.join(", "));
    };
    ck.rt("this project's nameservers", opts(), || own(ck_nfirst, &[0, 3601]));
    ck.rt("two lookups", opts(), || {
        let var = *rt::pick_of(&[0, 7, 63]);
        history(2, QUERIES, TTLS, WAITS, var)
    });
    let n3 = ck.by(18, QUERIES.len());
    let t3 = ck.by(6, TTLS.len());
    ck.rt("three lookups", opts().cap(ck.by(200.0, 3000.0)), || history(3, &QUERIES[..n3], &TTLS[..t3], WAITS, 9));
    if th {
        ck.rt("four lookups", opts().cap(3000.0), || history(4, &QUERIES[..16], &TTLS[1..5], &[0, 61], 0));
    }
    ck.finish()
}
