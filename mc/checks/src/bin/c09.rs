//! C09: inconsistent zones are refused, consistent ones load.
use checks::wire::*;
use checks::zones::*;
use checks::{opts, rt, Check};
use vstd::mc;

const TOP: &str = "example.com.";
const SUBS: [&str; 6] = ["a.example.com.", "b.example.com.", "c.example.com.", "x.d.example.com.", "e.example.com.", "f.example.com."];
const MIN: u32 = 60;

/// The reasons to refuse the zone; empty when it must load.
fn faults(entries: &[Vec<RR>], sub_min: u32) -> Vec<&'static str> {
    faults_below(&SUBS, entries, sub_min)
}

fn faults_below(names: &[&str], entries: &[Vec<RR>], sub_min: u32) -> Vec<&'static str> {
    let mut f = vec![];
    let subs = &entries[1..];
    let tops: Vec<Labels> = names[..subs.len()].iter().map(|s| nm(s)).collect();
    let top = nm(TOP);
    let mut min = MIN;
    match entries[0].first() {
        Some(RR { owner, data: RData::Soa(s), ttl, .. }) => {
            if *owner != top {
                f.push("SOA below the top node");
            }
            min = s.n[4];
            if *ttl < min {
                f.push("TTL of the SOA below the minimum");
            }
        }
        _ => f.push("no leading SOA"),
    }
    for (i, r) in entries[0].iter().enumerate() {
        if !within(&r.owner, &top) {
            f.push("name outside the zone");
        }
        if tops.iter().any(|t| within(&r.owner, t)) {
            f.push("name inside a subzone");
        }
        if r.ttl < min {
            f.push("TTL below the minimum");
        }
        if i > 0 && r.data.rtype() == SOA {
            f.push("second SOA");
        }
        if r.data.rtype() == NS && r.owner != top {
            f.push("NS below the top node");
        }
    }
    if !entries[0].iter().any(|r| r.data.rtype() == NS) {
        f.push("no NS");
    }
    for (i, s) in subs.iter().enumerate() {
        if !s.iter().any(|r| r.data.rtype() == NS) {
            f.push("no NS in a subzone");
        }
        for r in s {
            if !within(&r.owner, &tops[i]) {
                f.push("name outside the subzone");
            }
            if r.ttl < sub_min {
                f.push("TTL below the minimum of the subzone");
            }
            match &r.data {
                RData::Ns(host) => {
                    if r.owner != tops[i] {
                        f.push("NS below the top node of a subzone");
                    }
                    for (j, t) in tops.iter().enumerate() {
                        if within(host, t) && !subs[j].iter().any(|g| g.data.rtype() == A && g.owner == *host) {
                            f.push("nameserver without address");
                        }
                    }
                }
                RData::A(_) => {
                    if !subs.iter().flatten().any(|n| matches!(&n.data, RData::Ns(h) if *h == r.owner)) {
                        f.push("address of no nameserver");
                    }
                }
                _ => f.push("other record in a subzone"),
            }
        }
    }
    f
}

/// Write the files; directives and layouts stay plain here.
fn decide(entries: &[Vec<RR>], sub_min: u32) {
    decide_below(&SUBS, entries, sub_min)
}

fn decide_below(names: &[&str], entries: &[Vec<RR>], sub_min: u32) {
    let subs: Vec<SubSpec> = entries[1..].iter().zip(names).map(|(r, z)| SubSpec { zone: z.to_string(), file: plain_file(r), ttl: 100, min: sub_min }).collect();
    let main = plain_file(&entries[0]);
    let f = faults_below(names, entries, sub_min);
    verdict(load(TOP, 100, &main, &[], &subs).map(|_| ()), &f, || {
        if entries.iter().map(|e| e.len()).sum::<usize>() > 300 {
            return format!("a zone of {} records and {} subzones, the last of {} records", entries[0].len(), entries.len() - 1, entries.last().unwrap().len());
        }
        let mut s = show_rrs(&entries[0]);
        for (r, z) in entries[1..].iter().zip(names) {
            s += &format!(" sub {} {}", z, show_rrs(r));
        }
        s
    });
}

fn verdict(got: Result<(), String>, f: &[&'static str], shown: impl Fn() -> String) {
    mc::note(|| shown());
    match (got, f.is_empty()) {
        (Ok(()), false) => rt::fail(&format!("loaded with fault: {}", f[0]), format!("{} loads although: {}", shown(), f.join(", "))),
        (Err(e), true) => rt::fail("consistent zone refused", format!("{} is refused: {}", shown(), e)),
        (Ok(()), true) => rt::count("consistent zones loaded"),
        (Err(_), false) => rt::count(f[0]),
    }
    rt::sample(|| format!("{} {:?}", shown(), f));
}

fn soa_at(owner: &str, ttl: u32, min: u32) -> RR {
    rr(owner, ttl, soa("ns.example.org.", "x.", [1, 2, 3, 4, min]))
}

fn main() {
    let mut ck = Check::start("C09");
    let owners = [
        "example.com.",
        "www.example.com.",
        "x.www.example.com.",
        "EXAMPLE.com.",
        "a.example.com.",
        "x.a.example.com.",
        "xa.example.com.",
        "b.example.com.",
        "y.x.B.EXAMPLE.COM.",
        "example.org.",
        "notexample.com.",
        "com.",
        ".",
        "example.com.org.",
        "a.notexample.com.",
        "ns.example.org.",
        "ns.a.example.com.",
    ];
    let lower: Vec<String> = owners.iter().map(|o| o.to_lowercase()).collect();
    let datas = vec![a([1, 2, 3, 4]), ns("ns.example.org."), ns("ns.a.example.com."), cname("example.com."), RData::Mx(1, nm("out.org.")), RData::Ptr(nm("a.")), txts(&["t"]), RData::Hinfo(b"a".to_vec(), b"b".to_vec()), RData::Wks([1; 4], 17, vec![]), soa("m.", "r.", [1, 1, 1, 1, 1])];
    let ttls = [MIN, MIN - 1, 0, u32::MAX, MIN + 1];

    // One record anywhere in an otherwise consistent zone, with 0 to 2 subzones.
    ck.pure("one further record of any kind at any name", opts(), || {
        let n = rt::pick(3);
        let sn = vec![rr(SUBS[0], 100, ns("ns.example.org."))];
        let sn2 = vec![rr(SUBS[1], 100, ns("ns.example.org."))];
        let mut e = vec![vec![soa_at(TOP, 100, MIN), rr(TOP, 100, ns("ns.example.org."))]];
        if n > 0 {
            e.push(sn);
        }
        if n > 1 {
            e.push(sn2);
        }
        let mut r = rr(rt::pick_of(&lower), *rt::pick_of(&ttls), rt::pick_of(&datas).clone());
        r.class = 1;
        let file = rt::pick(n + 1);
        let at = rt::pick(e[file].len() + 1);
        e[file].insert(at, r);
        decide(&e, MIN);
    });
    // letter case makes no difference
    ck.pure("letter case of names", opts(), || {
        let o = rt::pick(owners.len());
        let sn = vec![rr(SUBS[0], 100, ns("ns.example.org.")), rr(SUBS[0], 100, ns("NS.A.example.com.")), rr("ns.a.EXAMPLE.com.", 100, a([1, 1, 1, 1]))];
        let mk = |o: &str| {
            let e = vec![vec![soa_at(*rt::pick_of(&["example.com.", "Example.COM."]), 100, MIN), rr("eXample.com.", 100, ns("ns.example.org.")), rr(o, 100, a([1, 2, 3, 4]))], sn.clone(), vec![rr("B.example.com.", 100, ns("ns.example.org."))]];
            e
        };
        let e = mk(owners[o]);
        let lowered: Vec<Vec<RR>> = e
            .iter()
            .map(|v| {
                v.iter()
                    .map(|r| {
                        let mut r = r.clone();
                        r.owner = low(&r.owner);
                        if let RData::Ns(h) = &r.data {
                            r.data = RData::Ns(low(h));
                        }
                        r
                    })
                    .collect()
            })
            .collect();
        let f = faults(&lowered, MIN);
        let subs: Vec<SubSpec> = e[1..].iter().zip(["A.example.com.", "b.Example.com."]).map(|(r, z)| SubSpec { zone: z.into(), file: plain_file(r), ttl: 100, min: MIN }).collect();
        verdict(load("EXAMPLE.com.", 100, &plain_file(&e[0]), &[], &subs).map(|_| ()), &f, || e.iter().map(|v| show_rrs(v)).collect::<Vec<_>>().join(" sub "));
    });
    // The start of the zone and its minimum.
    ck.pure("the leading SOA and the minimum", opts(), || {
        let menu = vec![
            soa_at(TOP, 100, 60),
            soa_at(TOP, 60, 60),
            soa_at(TOP, 59, 60),
            soa_at(TOP, 0, 0),
            soa_at(TOP, u32::MAX, u32::MAX),
            soa_at("www.example.com.", 100, 60),
            soa_at("com.", 100, 60),
            rr(TOP, 60, ns("n.org.")),
            rr(TOP, 59, ns("n.org.")),
            rr(TOP, 61, a([1; 4])),
            rr("www.example.com.", 60, ns("n.org.")),
            rr("www.example.com.", u32::MAX, a([1; 4])),
        ];
        let n = rt::pick(5);
        let e: Vec<RR> = (0..n).map(|_| rt::pick_of(&menu).clone()).collect();
        decide(&[e], 0);
    });
    // Every set of records over two subzones: nameservers of either, glue in either.
    let thorough = ck.thorough();
    ck.pure("every pair of subzones", opts().cap(ck.by(120.0, 600.0)), || {
        let hosts = ["ns.example.org.", "ns.example.com.", "ns.a.example.com.", "ns.b.example.com.", "a.example.com.", "xb.example.com."];
        let mut e = vec![vec![soa_at(TOP, 100, MIN), rr(TOP, 100, ns("ns.example.org."))]];
        for s in &SUBS[..2] {
            let mut v = vec![];
            for h in &hosts[..if thorough { 6 } else { 5 }] {
                if rt::pick_bool() {
                    v.push(rr(s, 60, ns(h)));
                }
            }
            let glue = if *s == SUBS[0] { ["ns.a.example.com.", "a.example.com.", "xns.a.example.com."] } else { ["ns.b.example.com.", "b.example.com.", "ns.ns.b.example.com."] };
            for g in glue {
                if rt::pick_bool() {
                    v.push(rr(g, 60, a([2, 2, 2, 2])));
                }
            }
            e.push(v);
        }
        decide(&e, MIN);
    });
    // Names in directives and names completed with an origin, at every place of the file.
    ck.pure("names in directives", opts(), || {
        let n = rt::pick(3);
        let subs: Vec<SubSpec> = SUBS[..n].iter().map(|z| SubSpec { zone: z.to_string(), file: format!("{} 100 IN NS ns.org.\n", z).into_bytes(), ttl: 100, min: 0 }).collect();
        let tops: Vec<Labels> = SUBS[..n].iter().map(|s| nm(s)).collect();
        let inside = |o: &str| within(&nm(o), &nm(TOP)) && !tops.iter().any(|t| within(&nm(o), t));
        let mut f = vec![];
        let mut main = String::from("example.com. 100 IN SOA a. b. 1 2 3 4 60\n@ 100 IN NS ns.org.\n");
        let mut inc = vec![("inc".to_string(), b"x 100 IN A 1.2.3.4\n".to_vec())];
        let o = rt::pick_of(&lower).as_str();
        match rt::pick(6) {
            0 => {
                main += &format!("$ORIGIN {}\n", o);
                if !inside(o) {
                    f.push("origin outside the zone");
                }
            }
            1 => {
                main += &format!("$INCLUDE inc {}\n", o);
                if !inside(o) {
                    f.push("origin of an included file outside the zone");
                }
            }
            2 => {
                // a relative origin
                main += "$INCLUDE inc a\n";
                if n > 0 {
                    f.push("origin of an included file in a subzone");
                }
            }
            3 => {
                // records of an included file
                inc[0].1 = format!("{} 100 IN A 1.2.3.4\n", o).into_bytes();
                main += "$INCLUDE inc\n";
                if !inside(o) {
                    f.push("name of an included file outside the zone");
                }
            }
            4 => {
                // a relative name which falls into a subzone
                main += "$ORIGIN example.com.\nx.b 100 IN A 1.2.3.4\n";
                if n > 1 {
                    f.push("relative name in a subzone");
                }
            }
            _ => {
                let t = *rt::pick_of(&ttls);
                inc[0].1 = match rt::pick(3) {
                    0 => format!("x {} IN A 1.2.3.4\n", t),
                    1 => format!("x IN {} NS ns.org.\n", t),
                    _ => format!("@ {} NS ns.org.\n", t),
                }
                .into_bytes();
                if inc[0].1.starts_with(b"x IN") {
                    f.push("NS below the top node in an included file");
                }
                main += "$INCLUDE inc\n";
                if t < 60 {
                    f.push("TTL below the minimum in an included file");
                }
            }
        }
        // all of that in a file which is included by others
        let head = main.find("@ 100").unwrap();
        let tail = main.split_off(head);
        let deep = *rt::pick_of(&[0, 1, 2, 3, 6]);
        let named = rt::pick_bool();
        if deep == 0 && named {
            rt::prune();
        }
        let line = |i: usize| format!("$INCLUDE deep{}{}\n", i, if named { " @" } else { "" });
        for i in 1..=deep {
            let next = if i == deep { tail.clone() } else { line(i + 1) };
            inc.push((format!("deep{}", i), next.into_bytes()));
        }
        main += &if deep == 0 { tail } else { line(1) };
        verdict(load(TOP, 100, main.as_bytes(), &inc, &subs).map(|_| ()), &f, || format!("{:?} include {:?} subzones {}", main, inc.iter().map(|f| String::from_utf8_lossy(&f.1)).collect::<Vec<_>>(), n));
    });
    // one fault at any place of a big zone
    ck.pure("one fault among many records", opts(), || {
        let mut e = vec![vec![soa_at(TOP, 100, MIN)]];
        for i in 0..14 {
            e[0].push(rr(TOP, 100, ns(&format!("ns{}.example.org.", i))));
            e[0].push(rr(&format!("n{}.example.com.", i), 100, a([1, 1, 1, i])));
        }
        let n = *rt::pick_of(&[0, 1, 3, 6]);
        for s in &SUBS[..n] {
            let mut v = vec![];
            for i in 0..10 {
                v.push(rr(s, 100, ns(&format!("ns{}.{}", i, if i % 3 == 0 { s } else { "example.org." }))));
                if i % 3 == 0 {
                    v.push(rr(&format!("ns{}.{}", i, s), 100, a([2, 1, 1, i])));
                }
            }
            e.push(v);
        }
        let file = rt::pick(n + 1);
        let at = rt::pick(e[file].len() + 1);
        let menu = [
            rr(TOP, 100, ns("more.example.org.")),
            rr("www.example.com.", 100, ns("more.example.org.")),
            rr("www.example.com.", MIN - 1, a([1; 4])),
            rr("example.org.", 100, a([1; 4])),
            rr(TOP, 100, soa("m.", "r.", [1, 1, 1, 1, 1])),
            rr("w.f.example.com.", 100, a([1; 4])),
            rr("w.c.example.com.", 100, txts(&["t"])),
            rr("w.e.example.com.", 100, a([1; 4])),
            rr("x.d.example.com.", 100, cname("a.")),
            rr("f.example.com.", 100, ns("other.f.example.com.")),
            rr("f.example.com.", 100, ns("ns3.a.example.com.")),
            rr("f.example.com.", 100, ns("ns4.a.example.com.")),
            rr("f.example.com.", MIN - 1, ns("ns.example.org.")),
            rr("a.example.com.", 100, ns("ns9.f.example.com.")),
            rr("a.example.com.", 100, ns("no.f.example.com.")),
            rr("ns0.f.example.com.", 100, ns("ns.example.org.")),
            rr("ns1.f.example.com.", 100, a([3; 4])),
            rr("ns9.f.example.com.", 100, a([3; 4])),
            rr("c.example.com.", 100, txts(&["t"])),
        ];
        let k = rt::pick(menu.len() + 2);
        if k < menu.len() {
            e[file].insert(at, menu[k].clone());
        } else if k == menu.len() && at < e[file].len() {
            e[file].remove(at);
        } else if k > menu.len() && at < e[file].len() {
            e[file][at].ttl = MIN - 1;
        }
        decide(&e, MIN);
    });
    // ... and of one with many records, nameservers or subzones
    ck.pure("one fault in a large zone", opts(), || {
        let n = *rt::pick_of(&[7usize, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 200, 255, 256, 257]);
        let shape = rt::pick(4);
        let at = *rt::pick_of(&[0, 1, n / 2, n - 2, n - 1]);
        let fault = rt::pick(8);
        let mut e = vec![vec![soa_at(TOP, 100, MIN), rr(TOP, 100, ns("ns.example.org."))]];
        let tops: Vec<String> = match shape {
            0 => vec!["s0.example.com.".to_string()],
            _ => (0..if shape == 1 { n } else { 2 }).map(|i| format!("s{}.example.com.", i)).collect(),
        };
        let names: Vec<&str> = tops.iter().map(|s| s.as_str()).collect();
        for t in &names {
            e.push(vec![rr(t, 100, ns(&format!("ns.{}", t))), rr(&format!("ns.{}", t), 100, a([3; 4]))]);
        }
        match shape {
            // records
            0 => (0..n).for_each(|i| e[0].push(rr(&format!("h{}.example.com.", i), 100, a([1; 4])))),
            // subzones, records besides
            1 => {}
            // nameservers with their addresses
            2 => {
                for i in 0..n {
                    e[1].push(rr(names[0], 100, ns(&format!("n{}.{}", i, names[0]))));
                    e[1].push(rr(&format!("n{}.{}", i, names[0]), 100, a([3; 4])));
                }
            }
            // nameservers with addresses given in the other subzone
            _ => {
                for i in 0..n {
                    e[1].push(rr(names[0], 100, ns(&format!("n{}.{}", i, names[1]))));
                    e[2].push(rr(&format!("n{}.{}", i, names[1]), 100, a([3; 4])));
                }
            }
        }
        // the record `at` places behind the leading ones of its kind, in its file
        let (file, k) = match shape {
            0 => (0, 2 + at),
            1 => (1 + at, 1),
            2 => (1, 2 + 2 * at + 1),
            _ => (2, 2 + at),
        };
        let top = if file == 0 { TOP } else { names[file - 1] };
        match fault {
            0 => {}
            1 => e[file][k].ttl = MIN - 1,
            2 => e[file][k].owner = nm("out.example.org."),
            3 => {
                e[file].remove(k);
            }
            4 => e[file][k] = rr(&format!("x.{}", top), 100, ns("ns.example.org.")),
            5 => e[file][k].owner = nm(names[names.len() - 1]),
            6 => e[file].insert(k, rr(top, 100, if file == 0 { soa("m.", "r.", [1; 5]) } else { txts(&["t"]) })),
            // of a nameserver which only the last subzone would know
            _ => {
                let host = format!("no.{}", names[names.len() - 1]);
                let f = if file == 0 { 1 } else { file };
                let t = names[f - 1];
                e[f].push(rr(t, 100, ns(&host)));
            }
        }
        decide_below(&names, &e, MIN);
    });
    // values which no record can hold
    ck.pure("impossible values", opts(), || {
        let l64 = "l".repeat(64);
        let s256 = "s".repeat(256);
        let long = format!("{}.{}.{}.{}.", "n".repeat(63), "n".repeat(63), "n".repeat(63), "n".repeat(62));
        let lines = [
            "w 100 IN MX 65536 m".to_string(),
            "w 100 IN MX 131072 m".into(),
            "w 100 IN MX -1 m".into(),
            "w 4294967296 IN A 1.2.3.4".into(),
            "w 18446744073709551716 IN A 1.2.3.4".into(),
            "w 100 IN A 256.1.1.1".into(),
            "w 100 IN A 1.1.1".into(),
            "w 100 IN A 1.1.1.1.1".into(),
            "w 100 IN A".into(),
            "w 100 IN WKS 1.2.3.4".into(),
            "w 100 IN WKS 1.2.3.256 TCP".into(),
            format!("{} 100 IN A 1.2.3.4", l64),
            format!("{} 100 IN A 1.2.3.4", "l.".repeat(128) + "l"),
            format!("w 100 IN CNAME {}", l64),
            format!("w 100 IN CNAME {}", long),
            format!("w 100 IN TXT {}", s256),
            format!("w 100 IN TXT \"{}\"", s256),
            format!("w 100 IN TXT a b {} c", s256),
            format!("w 100 IN HINFO {} b", s256),
            format!("w 100 IN HINFO a {}", s256),
            "w 100 IN TXT \\256".into(),
            "w 100 IN TXT \\999".into(),
            "w 100 IN TXT \"a".into(),
            "w 100 IN TXT ( a".into(),
            "w 100 IN TXT a )".into(),
            "-w 100 IN A 1.2.3.4".into(),
            "w- 100 IN A 1.2.3.4".into(),
            "w..x 100 IN A 1.2.3.4".into(),
            "w_x 100 IN A 1.2.3.4".into(),
            "w 100 IN CNAME a..b".into(),
            "w 100 IN CNAME -a".into(),
            "w 100 IN A 1.2.3.4 5.6.7.8".into(),
            "w 100 IN CNAME a b".into(),
            "w 100 IN MX 1 a b".into(),
            "w 100 IN NOTYPE a".into(),
            "w 100 CH A 1.2.3.4".into(),
        ];
        let l = rt::pick_of(&lines);
        // at the end, or before more records
        let more = if rt::pick_bool() { "v 100 IN A 1.2.3.4\n" } else { "" };
        let main = format!("example.com. 100 IN SOA a. b. 1 2 3 4 60\n@ 100 IN NS ns.org.\n{}\n{}", l, more);
        verdict(load(TOP, 100, main.as_bytes(), &[], &[]).map(|_| ()), &["a value no record can hold"], || format!("{:?}", main));
    });
    // supported values, the least and the greatest
    ck.pure("values at their limits", opts(), || {
        let long = |n: usize| nm(&format!("{}.{}.{}.{}.", "a".repeat(63), "b".repeat(63), "c".repeat(63), "d".repeat(n)));
        let deep = nm(&"a.".repeat(127));
        let s = |n: usize| "s".repeat(n).into_bytes();
        let mut data = vec![a([0; 4]), a([255; 4]), RData::Wks([0; 4], 6, vec![]), RData::Wks([255; 4], 17, vec![])];
        for n in [nm("."), nm("a."), long(1), long(60), long(61), deep] {
            data.extend([RData::Cname(n.clone()), RData::Ptr(n.clone()), RData::Mx(1, n)]);
        }
        for p in [0, 1, 255, 256, 32767, 32768, 65535] {
            data.push(RData::Mx(p, nm("m.org.")));
        }
        for n in [0, 1, 2, 63, 64, 127, 128, 191, 192, 253, 254, 255] {
            data.extend([RData::Txt(vec![s(n)]), RData::Txt(vec![s(1), s(n)]), RData::Hinfo(s(n), s(1)), RData::Hinfo(s(1), s(n))]);
        }
        for n in [2, 10, 255, 256, 257, 1000] {
            data.push(RData::Txt(vec![s(1); n]));
        }
        let r = rt::pick_of(&data).clone();
        let owner = rt::pick_of(&[nm(TOP), nm("w.example.com."), nm(&format!("{}.example.com.", "w".repeat(63))), nm(&format!("{}example.com.", "w.".repeat(121)))]).clone();
        let n = *rt::pick_of(&[0, 1, i32::MAX as u32, i32::MAX as u32 + 1, u32::MAX]);
        let e = vec![RR { owner: nm(TOP), class: 1, ttl: n, data: soa("m.", "r.", [n, n, n, n, 0]) }, rr(TOP, n, ns("ns.org.")), RR { owner, class: 1, ttl: n, data: r }];
        verdict(load(TOP, 100, &plain_file(&e), &[], &[]).map(|_| ()), &[], || show_rrs(&e));
    });
    // the TTL in force by omission is held to the minimum as well
    ck.pure("omitted TTLs against the minimum", opts(), || {
        let start = *rt::pick_of(&[0, 59, 60, 61, u32::MAX]);
        let soa_ttl = *rt::pick_of(&[None, Some(59), Some(60), Some(1000)]);
        let first = *rt::pick_of(&[None, Some(59), Some(60), Some(61)]);
        let s = |t: Option<u32>| t.map(|t| format!("{} ", t)).unwrap_or_default();
        let main = format!("@ IN {}SOA a. b. 1 2 3 4 60\n@ {}IN NS ns.org.\n A 1.2.3.4\n", s(soa_ttl), s(first));
        let sub_start = *rt::pick_of(&[59, 60]);
        let sub_first = *rt::pick_of(&[None, Some(59), Some(60)]);
        let sub_min = *rt::pick_of(&[0, 59, 60]);
        let sub = format!("@ {}NS ns.org.\n NS ns2.org.\n", s(sub_first));
        let mut f = vec![];
        if soa_ttl.unwrap_or(start) < 60 || first.or(soa_ttl).unwrap_or(start) < 60 {
            f.push("TTL below the minimum");
        }
        if sub_first.unwrap_or(sub_start) < sub_min {
            f.push("TTL below the minimum of the subzone");
        }
        let subs = [SubSpec { zone: SUBS[0].into(), file: sub.clone().into_bytes(), ttl: sub_start, min: sub_min }];
        verdict(load(TOP, start, main.as_bytes(), &[], &subs).map(|_| ()), &f, || format!("{:?} from {} sub {:?} from {} minimum {}", main, start, sub, sub_start, sub_min));
    });
    ck.assume("subzones lie inside the zone, are not nested, and every SOA has its class written");
    ck.finish()
}
