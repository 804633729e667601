//! C07: the nameserver answers exactly what the loaded zone dictates.
use ariadne_dns::nameserver::NameserverHandler;
use checks::wire::*;
use checks::zones::*;
use checks::{opts, rt, Check};
use vstd::mc;

fn name(s: &str) -> Labels {
    nm(s)
}

/// Names around the zone example.com. with the subzones a, b, a.b: every name of up to
/// two labels below the zone over a small alphabet, look-alikes and names outside.
fn names(top: &str) -> Vec<Labels> {
    let top = if top == "." { String::new() } else { top.to_string() };
    let ls = ["a", "b", "www", "ns", "xa", "A", "x-a", "wWw", "0"];
    let mut v = vec![name(&format!("{}.", top)), name("."), name("com."), name("org.")];
    if top.is_empty() {
        v.remove(0);
    }
    for l in ls {
        v.push(name(&format!("{}.{}.", l, top)));
        v.push(name(&format!("{}{}.", l, top)));
        v.push(name(&format!("{}.", l)));
        for m in ["a", "b", "ns", "www", "B"] {
            v.push(name(&format!("{}.{}.{}.", l, m, top)));
            v.push(name(&format!("{}.{}{}.", l, m, top)));
            v.push(name(&format!("{}.{}.x{}.", l, m, top)));
        }
        v.push(name(&format!("{}.a.b.{}.", l, top)));
        v.push(name(&format!("{}.www.www.{}.", l, top)));
    }
    v.push(name(&format!("{}.example.org.", top)));
    v.push(name(&top.to_uppercase()));
    let mut out: Vec<Labels> = vec![];
    for n in v {
        if !n.iter().any(|l| l.is_empty()) && !out.contains(&n) {
            out.push(n);
        }
    }
    out
}

fn ask_all(m: &Model, names: &[Labels], types: &[u16]) {
    let z = match load_model(m) {
        Ok(z) => z,
        Err(e) => rt::fail("consistent zone refused", format!("{} {}", e, describe(m))),
    };
    let h = NameserverHandler(z);
    for n in names {
        for t in types {
            mc::alive();
            let rd = (t & 1) == 1;
            let r = ask1(&h, n, *t, rd);
            match m.judge(n, *t, &r) {
                Ok(k) => rt::count(k),
                Err(e) => rt::fail(
                    &format!("answer: {}", e.split(':').next().unwrap()),
                    format!("query {} {}: {}; the reply is {}; the zone is {}", txt(n), type_name(*t), e, show(&r), describe(m)),
                ),
            }
            if r.h.id != 0x1234 || r.h.opcode != 0 || r.h.rd != rd || r.h.tc || r.h.z != 0 {
                rt::fail("header", format!("query {} {} with RD={}: the reply is {}", txt(n), type_name(*t), rd, show(&r)));
            }
        }
    }
    rt::sample(|| describe(m));
}

fn describe(m: &Model) -> String {
    if m.recs.len() + m.subs.iter().map(|s| s.1.len()).sum::<usize>() > 300 {
        return format!("{} with {} records and {} subzones", txt(&m.top), m.recs.len(), m.subs.len());
    }
    let mut s = format!("{} {}", txt(&m.top), show_rrs(&m.recs));
    for (t, r) in &m.subs {
        s += &format!(" sub {} {}", txt(t), show_rrs(r));
    }
    s
}

fn soa_of(top: &str) -> RR {
    rr(top, 300, soa("ns.example.org.", "admin.example.org.", [1, 2, 3, 4, 60]))
}

fn auth_menu(top: &str) -> Vec<Vec<RR>> {
    let at = |l: &str| if top == "." { format!("{}.", l) } else { format!("{}.{}", l, top) };
    vec![
        vec![rr(&at("www"), 100, a([1, 0, 0, 1])), rr(&at("WWW"), 200, a([1, 0, 0, 2]))],
        vec![rr(&at("www"), 100, cname(&at("0")))],
        vec![rr(&at("0"), 100, RData::Mx(5, nm(&at("www")))), rr(&at("0"), 100, txts(&["x y", ""]))],
        vec![rr(top, 100, a([1, 0, 0, 3])), rr(top, 100, txts(&["top"]))],
        vec![rr(&at("www.www"), 100, cname("elsewhere.org.")), rr(&at("a.www.www"), 90, RData::Ptr(nm("b.")))],
        vec![rr(&at("ns"), 100, a([1, 0, 0, 4])), rr(&at("ns"), 100, RData::Hinfo(b"c".to_vec(), b"o".to_vec())), rr(&at("xa"), 100, RData::Wks([1, 1, 1, 1], 6, vec![]))],
        // the same record twice, and many of them
        vec![rr(&at("xa"), 100, a([9, 9, 9, 9])), rr(&at("xa"), 100, a([9, 9, 9, 9])), rr(&at("0"), 70, cname(&at("www"))), rr(&at("0"), 71, cname(&at("ns")))],
    ]
}

/// A subzone with a choice of nameservers, and whatever glue these need from anyone.
fn sub_zones(top: &str, which: &[&str]) -> Vec<(Labels, Vec<RR>)> {
    let at = |l: &str| if top == "." { format!("{}.", l) } else { format!("{}.{}", l, top) };
    let mut subs: Vec<(Labels, Vec<RR>)> = which.iter().map(|w| (nm(&at(w)), vec![])).collect();
    let mut glue: Vec<RR> = vec![];
    let n = subs.len();
    for i in 0..n {
        let w = which[i];
        // which nameservers: inside, in the parent, outside, in the other subzone
        let k = 1 + rt::pick(15);
        for (bit, host) in [format!("ns.{}", at(w)), at("ns"), "ns.example.org.".to_string(), format!("x-a.{}", at(which[(i + 1) % n]))].iter().enumerate() {
            if k & (1 << bit) == 0 || (bit == 3 && n == 1) {
                continue;
            }
            subs[i].1.push(rr(&at(w), 100 + bit as u32, ns(host)));
            if bit == 0 || bit == 3 {
                // two nameservers may run on one machine
                let machine = if k == 15 { 0 } else { bit };
                glue.push(rr(host, 50 + bit as u32, a([2, i as u8, machine as u8, 1])));
                if bit == 0 {
                    glue.push(rr(host, 51, a([2, i as u8, bit as u8, 2])));
                }
            }
        }
        if subs[i].1.is_empty() {
            rt::prune();
        }
    }
    for g in glue {
        for s in &mut subs {
            if within(&g.owner, &s.0) {
                s.1.push(g.clone());
            }
        }
    }
    subs
}

fn main() {
    let mut ck = Check::start("C07");
    let few = [A, CNAME, MX, NS, SOA];
    let all = SUPPORTED;
    for top in ["example.com.", "com.", "."] {
        let qs = names(top);
        ck.pure(&format!("every set of records in the zone '{}'", top), opts().cap(120.0), || {
            let mut m = Model { top: nm(top), recs: vec![soa_of(top), rr(top, 100, ns("ns.example.org."))], subs: vec![] };
            for e in auth_menu(top) {
                if rt::pick_bool() {
                    m.recs.extend(e);
                }
            }
            ask_all(&m, &qs, &all);
        });
        let menus: &[&[&str]] = &[&["a"], &["a", "b"], &["b", "a"], &["a.b"], &["a.b", "a"], &["www"]];
        let thorough = ck.thorough();
        ck.pure(&format!("every delegation in the zone '{}'", top), opts().cap(240.0), || {
            let which = *rt::pick_of(menus);
            let subs = sub_zones(top, which);
            let mut m = Model { top: nm(top), recs: vec![soa_of(top), rr(top, 100, ns("ns.example.org."))], subs };
            let sets = if thorough { 1 << 7 } else { 4 };
            let set = if thorough { rt::pick(sets) } else { [0, 0x7f, 0x55, 0x2a][rt::pick(4)] };
            for (i, e) in auth_menu(top).into_iter().enumerate() {
                if set >> i & 1 == 1 {
                    m.recs.extend(e.into_iter().filter(|r| m.subs_of(&r.owner).is_empty()).collect::<Vec<_>>());
                }
            }
            ask_all(&m, &qs, if thorough { &all } else { &few });
        });
    }
    // three subzones, nested ones (either delegation is a fair answer)
    let qs = names("example.com.");
    ck.pure("three and nested delegations", opts(), || {
        let which = *rt::pick_of(&[&["a", "b", "www"][..], &["b", "a.b"], &["a.b", "b"]]);
        let nested = which.len() == 2;
        let top = "example.com.";
        let subs = if nested {
            which.iter().map(|w| (nm(&format!("{}.{}", w, top)), vec![rr(&format!("{}.{}", w, top), 100, ns(&format!("ns-{}.org.", w.len())))])).collect()
        } else {
            sub_zones(top, which)
        };
        let mut subs: Vec<(Labels, Vec<RR>)> = subs;
        // a nameserver within both, with addresses in both files
        let owner = *rt::pick_of(&["none", "b.example.com.", "a.b.example.com.", "both"]);
        if nested && owner != "none" {
            let host = "ns.a.b.example.com.";
            for (z, v) in &mut subs {
                if owner == "both" || txt(z) == owner {
                    v.push(rr(&txt(z), 100, ns(host)));
                }
                v.push(rr(host, 100, a([5, 0, 0, z.len() as u8])));
                v.push(rr(host, 100, a([5, 0, 1, z.len() as u8])));
            }
        } else if owner != "none" {
            rt::prune();
        }
        let m = Model { top: nm(top), recs: vec![soa_of(top), rr(top, 100, ns("ns.example.org."))], subs };
        ask_all(&m, &qs, &[A]);
    });
    ck.pure("large answers", opts(), || {
        let n = *rt::pick_of(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 29, 30, 31, 32, 33, 64, 65, 100, 255, 256, 1000, 3000]);
        let top = "example.com.";
        let mut m = Model { top: nm(top), recs: vec![soa_of(top), rr(top, 100, ns("ns.example.org."))], subs: vec![] };
        for i in 0..n {
            m.recs.push(rr("www.example.com.", 100, a([3, (i >> 16) as u8, (i >> 8) as u8, i as u8])));
        }
        let mut sub = vec![];
        for i in 0..n.min(900) {
            sub.push(rr("a.example.com.", 100, ns(&format!("n{}.a.example.com.", i))));
            sub.push(rr(&format!("n{}.a.example.com.", i), 100, a([4, 0, (i >> 8) as u8, i as u8])));
        }
        if rt::pick_bool() {
            // one nameserver, all the addresses
            sub.retain(|r| r.data.rtype() == A);
            for r in &mut sub {
                r.owner = nm("n.a.example.com.");
            }
            sub.push(rr("a.example.com.", 100, ns("n.a.example.com.")));
            m.recs.iter_mut().for_each(|r| if r.data.rtype() == A { r.data = RData::Mx(if let RData::A(d) = &r.data { d[3] as u16 } else { 0 }, nm(&format!("m{}.org.", txt(&r.owner).len()))) });
        }
        m.subs.push((nm("a.example.com."), sub));
        ask_all(&m, &[nm("www.example.com."), nm("x.a.example.com."), nm("example.com."), nm("y.example.com.")], &[A, NS, MX]);
    });
    ck.pure("more records than a reply can count", opts().mem(2000), || {
        let n = *rt::pick_of(&[65534usize, 65535, 65536, 65537, 65600, 131072, 131073]);
        let shape = rt::pick(3);
        let top = "example.com.";
        let ip = |i: usize| a([3, (i >> 16) as u8, (i >> 8) as u8, i as u8]);
        let mut m = Model { top: nm(top), recs: vec![soa_of(top), rr(top, 100, ns("ns.example.org."))], subs: vec![] };
        let mut sub = vec![rr("a.example.com.", 100, ns("n.a.example.com.")), rr("n.a.example.com.", 100, a([5; 4]))];
        match shape {
            0 => m.recs.extend((0..n).map(|i| rr("www.example.com.", 100, ip(i)))),
            1 => sub.extend((1..n).map(|i| rr("a.example.com.", 100, ns(&format!("n{}.org.", i))))),
            _ => sub.extend((1..n).map(|i| rr("n.a.example.com.", 100, ip(i)))),
        }
        m.subs.push((nm("a.example.com."), sub));
        let z = match load_model(&m) {
            Ok(z) => z,
            Err(e) => rt::fail("consistent zone refused", format!("{} with {} records, shape {}", e, n, shape)),
        };
        let q = if shape == 0 { "www.example.com." } else { "x.a.example.com." };
        let v = ask(&NameserverHandler(z), &query_l(7, &nm(q), A));
        let what = || format!("query {} A with {} records, shape {}", q, n, shape);
        if v.len() != 1 {
            rt::fail("number of replies", format!("{}: {}", what(), v.len()));
        }
        // none of this fits a reply: what is sent says so
        if v[0].0.len() <= 65535 {
            rt::fail("answer: records are missing", format!("{}: the whole reply takes {} bytes", what(), v[0].0.len()));
        }
        match decode_strict(&v[0].1) {
            Ok(r) if r.h.tc && r.h.rcode == 0 => {
                let fits = match shape {
                    0 => r.an().len() > 5 && r.an().iter().all(|x| name_eq(&x.owner, &nm(q)) && m.recs.iter().any(|w| w.data == x.data)),
                    1 => r.an().is_empty() && r.s[1].len() > 5 && r.s[1].iter().all(|x| m.subs[0].1.iter().any(|w| w.data == x.data)),
                    _ => r.an().is_empty() && r.s[1].len() == 1 && r.s[2].len() > 5 && r.s[2].iter().all(|x| m.subs[0].1.iter().any(|w| w.data == x.data)),
                };
                if !fits {
                    rt::fail("answer: records", format!("{}: the reply is {}", what(), show(&r)));
                }
            }
            Ok(r) => rt::fail("answer: records are missing", format!("{}: the reply is {}", what(), show(&r))),
            Err(e) => rt::fail("malformed reply", format!("{}: {}", what(), e)),
        }
        rt::sample(what);
    });
    ck.pure("many names, many delegations", opts(), || {
        let n = *rt::pick_of(&[2usize, 5, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000]);
        let top = "example.com.";
        let mut m = Model { top: nm(top), recs: vec![soa_of(top), rr(top, 100, ns("ns.example.org."))], subs: vec![] };
        let what = rt::pick(3);
        let mut qs = vec![nm("none.example.com.")];
        for i in 0..n {
            let ip = a([7, 0, (i >> 8) as u8, i as u8]);
            match what {
                // subzones; every second one has its nameserver in the one before
                0 if n <= 300 => {
                    let own = format!("s{}.example.com.", i);
                    let host = format!("n.s{}.example.com.", i - i % 2);
                    let mut v = vec![rr(&own, 100, ns(&host))];
                    if i % 2 == 0 {
                        v.push(rr(&host, 100, ip));
                    }
                    m.subs.push((nm(&own), v));
                    qs.push(nm(&format!("x.{}", own)));
                }
                // hosts
                1 => {
                    m.recs.push(rr(&format!("h{}.example.com.", i), 100, ip));
                    qs.push(nm(&format!("h{}.example.com.", i)));
                }
                // labels below each other
                2 if n <= 120 => {
                    let own = format!("{}example.com.", "a.".repeat(i));
                    m.recs.push(rr(&own, 100, ip));
                    qs.push(nm(&own));
                }
                _ => rt::prune(),
            }
        }
        if n > 300 {
            qs = [0, 1, 2, n / 2, n - 1, n].iter().map(|i| qs[*i].clone()).collect();
        }
        ask_all(&m, &qs, &[A]);
    });
    ck.assume("the type of a query is one of the nine supported ones; other types are checked under C11");
    ck.assume("where subzones nest, a referral to any of those containing the name is accepted");
    ck.finish()
}
