//! C05: domain names.
use ariadne_dns::shared::buffer::BitsBuf;
use ariadne_dns::shared::dns::Name;
use checks::wire::*;
use checks::{opts, rt, Check};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use vstd::mc;

fn text(s: &str) {
    mc::note(|| format!("{:?}", s));
    match (name_of_text(s), Name::from_string(s)) {
        (None, Ok(_)) => rt::fail("accepted", format!("{:?} ({} bytes) is no valid absolute name but accepted", s, s.len())),
        (Some(_), Err(e)) => rt::fail("rejected", format!("{:?} ({} bytes) is rejected: {:?}", s, s.len(), e)),
        (Some(l), Ok(n)) => {
            if labels_of(&n) != l {
                rt::fail("text", format!("{:?} becomes {:?}", s, n));
            }
            let mut w = vec![];
            put_name(&mut w, &l);
            if n.to_bytes() != w {
                rt::fail("wire form", format!("{:?} is encoded as {}", s, hex(&n.to_bytes())));
            }
            // and back
            w.extend_from_slice(&[1, 2, 3]);
            let mut buf = BitsBuf::from_raw_bytes(&w);
            match Name::from_bytes(&mut buf) {
                Ok(m) if m == n && labels_of(&m) == l && buf.read_pos() == 8 * (w.len() - 3) => {}
                r => rt::fail("wire round trip", format!("{:?} comes back as {:?}, read position {}", s, r, buf.read_pos())),
            }
            if format!("{}", n) != s || n.as_ref() as &str != s {
                rt::fail("display", format!("{:?} is shown as {}", s, n));
            }
            rt::count("valid");
        }
        (None, Err(_)) => rt::count("invalid"),
    }
    rt::sample(|| s.to_string());
}

fn wire(b: &[u8]) {
    mc::note_bytes(b);
    let mut o = Rd::new(b);
    let want = o.name();
    let mut buf = BitsBuf::from_raw_bytes(b);
    let got = Name::from_bytes(&mut buf);
    match (want, got) {
        (Err(e), Ok(n)) => rt::fail("wire accepted", format!("{} ({}) is read as {}", hex(b), e, n)),
        (Ok(l), Err(e)) if o.open.is_none() => rt::fail("wire rejected", format!("{} ({}) is rejected: {:?}", hex(b), txt(&l), e)),
        (Ok(l), Ok(n)) => {
            if labels_of(&n) != l {
                rt::fail("wire value", format!("{} is read as {}", hex(b), n));
            }
            if buf.read_pos() != 8 * o.p {
                rt::fail("wire position", format!("after {} the read position is {}", hex(b), buf.read_pos()));
            }
            rt::count("wire valid");
        }
        _ => rt::count("wire invalid"),
    }
}

fn hash(n: &Name) -> u64 {
    let mut h = DefaultHasher::new();
    n.hash(&mut h);
    h.finish()
}

fn pair(s: &str, t: &str) {
    mc::note(|| format!("{} {}", s, t));
    let (a, b) = (Name::from_string(s).unwrap(), Name::from_string(t).unwrap());
    let (la, lb) = (nm(s), nm(t));
    if (a == b) != name_eq(&la, &lb) {
        rt::fail("equality", format!("{} == {} is {}", s, t, a == b));
    }
    if a == b && hash(&a) != hash(&b) {
        rt::fail("hash", format!("{} and {} are equal but hash differently", s, t));
    }
    if a.is_in_zone(&b) != within(&la, &lb) {
        rt::fail("is_in_zone", format!("{} in zone {} is {}", s, t, a.is_in_zone(&b)));
    }
    if a.is_in_zone_root(&b) != name_eq(&la, &lb) {
        rt::fail("is_in_zone_root", format!("{} root of zone {} is {}", s, t, a.is_in_zone_root(&b)));
    }
    rt::sample(|| format!("{} {}", s, t));
    rt::count("pairs");
    // a map finds it
    let mut m = std::collections::HashMap::new();
    m.insert(a.clone(), 1);
    if m.contains_key(&b) != name_eq(&la, &lb) {
        rt::fail("map", format!("{} as a key for {}", t, s));
    }
}

fn main() {
    let mut ck = Check::start("C05");
    let alpha: Vec<char> = ck.by("aZ0-. _é".chars().collect(), "aZ09-. _é@*\\\0\u{7f}".chars().collect());
    let len = ck.by(6, 6);
    ck.pure("every short text", opts(), || {
        let n = rt::pick(len + 1);
        let s: String = (0..n).map(|_| *rt::pick_of(&alpha)).collect();
        text(&s);
    });
    ck.pure("every character at every place of a label", opts(), || {
        let c = char::from_u32(rt::pick(0x180) as u32).unwrap();
        for s in [
            format!("{}.", c),
            format!("a{}.", c),
            format!("{}a.", c),
            format!("a{}a.", c),
            format!("x.{}a.y.", c),
            format!("x.a{}.y.", c),
            format!("x.a{}b.y.", c),
            format!("x.y.a{}", c),
            format!("x{}", c),
            format!("{}", c),
        ] {
            text(&s);
        }
    });
    ck.pure("every label length and name length", opts(), || {
        let l = rt::pick(70);
        let k = rt::pick(if l == 0 { 3 } else { 300 / (l + 1) + 2 });
        let m = rt::pick(70);
        let dot = rt::pick_bool();
        let mut parts: Vec<String> = (0..k).map(|_| "n".repeat(l)).collect();
        parts.push("m".repeat(m));
        let mut s = parts.join(".");
        if dot {
            s.push('.');
        }
        text(&s);
        // the same labels on the wire
        if l < 64 && m < 64 {
            let mut b = vec![];
            for p in &parts {
                b.push(p.len() as u8);
                b.extend_from_slice(p.as_bytes());
            }
            b.push(0);
            b.extend_from_slice(&[7; 3]);
            wire(&b);
        }
    });
    ck.pure("an odd label in a name of many labels", opts(), || {
        let n = 1 + rt::pick(129);
        let at = rt::pick(n);
        let odd = *rt::pick_of(&["-", "", "_", "*", "9", "é", "b", "ab", "a-", "-a", " "]);
        let mut parts: Vec<&str> = vec!["a"; n];
        parts[at] = odd;
        text(&format!("{}.", parts.join(".")));
        let mut b = vec![];
        for p in &parts {
            b.push(p.len() as u8);
            b.extend_from_slice(p.as_bytes());
        }
        b.push(0);
        wire(&b);
    });
    ck.pure("very long texts", opts(), || {
        let n = *rt::pick_of(&[253usize, 254, 255, 256, 1000, 65535, 65536, 100_000]);
        let unit = rt::pick_of(&["a.", "ab.", "aaaaaaaaa.", "."]);
        let mut s = unit.repeat(n / unit.len() + 1);
        s.truncate(n);
        text(&s);
        s.push('.');
        text(&s);
    });
    let walpha: Vec<u8> = vec![0, 1, 2, 3, 0x40, 0x80, 0xc0, b'a', b'Z', b'-', b'.', 0xff];
    let wlen = ck.by(5, 6);
    ck.pure("every short wire form", opts(), || {
        let n = rt::pick(wlen + 1);
        let b: Vec<u8> = (0..n).map(|_| *rt::pick_of(&walpha)).collect();
        wire(&b);
    });

    // relations between names
    let mut labels: Vec<&str> = vec!["a", "A", "b", "aa", "ba", "a-a"];
    if ck.thorough() {
        labels.extend(["A-a", "0", "ab"]);
    }
    let mut all: Vec<String> = vec![".".into()];
    let mut level: Vec<String> = vec!["".into()];
    for _ in 0..3 {
        level = level.iter().flat_map(|s| labels.iter().map(move |l| format!("{}.{}", l, s))).collect();
        all.extend(level.iter().map(|s| if s.ends_with('.') { s.clone() } else { format!("{}.", s) }));
    }
    let all: Vec<String> = all.into_iter().map(|s| s.replace("..", ".")).collect();
    ck.pure("every pair of names", opts(), || {
        let s = rt::pick_of(&all);
        let t = rt::pick_of(&all);
        pair(s, t);
    });
    ck.pure("every pair of characters", opts(), || {
        let cs: Vec<char> = ('a'..='z').chain('A'..='Z').chain('0'..='9').chain(['-']).collect();
        let (c, d) = (*rt::pick_of(&cs), *rt::pick_of(&cs));
        pair(&format!("x{}x.", c), &format!("x{}x.", d));
        pair(&format!("w.x{}x.y.", c), &format!("x{}x.y.", d));
        if c != '-' && d != '-' {
            pair(&format!("{}.", c), &format!("{}.", d));
            pair(&format!("a.{}x.", c), &format!("{}x.", d));
            pair(&format!("a.x{}.", c), &format!("x{}.", d));
        }
    });
    ck.pure("long labels which differ at one place or in length", opts(), || {
        let l = 1 + rt::pick(63);
        let at = rt::pick(l + 1);
        let to = *rt::pick_of(&["y", "X", "", "xx"]);
        let mut base = "x".repeat(l);
        if l > 4 && rt::pick_bool() {
            // as the labels of internationalised names start
            base.replace_range(..4, "xn--");
        }
        let mut other = base.clone();
        if at < l {
            other.replace_range(at..at + 1, to);
        }
        if other.is_empty() || other.len() > 63 || other.ends_with('-') || base.ends_with('-') {
            rt::prune();
        }
        for (pre, post, zpost) in [("", "", ""), ("w.", "", ""), ("w.", "com.", "com."), ("", "com.", "COM."), ("w.", "com.", ""), ("", "", "com.")] {
            for (p, q) in [(&base, &other), (&other, &base)] {
                pair(&format!("{}{}.{}", pre, p, post), &format!("{}.{}", q, zpost));
                pair(&format!("{}{}.{}", pre, p, post), &format!("{}{}.{}", pre, q, zpost));
            }
        }
    });
    let depths: Vec<usize> = ck.by(vec![1, 2, 3, 4, 5, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 126, 127], (1..128).collect());
    ck.pure("many labels", opts(), || {
        let n = *rt::pick_of(&depths);
        let cut = rt::pick(n + 1);
        let odd = rt::pick(n + 1);
        let how = *rt::pick_of(&["b", "A"]);
        let name: Vec<&str> = (0..n).map(|_| "a").collect();
        let mut zone = name[cut..].to_vec();
        if odd < zone.len() {
            zone[odd] = how;
        } else if odd > zone.len() || how != "b" {
            rt::prune();
        }
        pair(&format!("{}.", name.join(".")), &format!("{}.", zone.join(".")));
        pair(&format!("{}.", zone.join(".")), &format!("{}.", name.join(".")));
    });
    let small: Vec<String> = all.iter().filter(|s| !s.contains('-') && s.matches('.').count() <= 2).cloned().collect();
    ck.pure("authoritative zone and sub zones", opts(), || {
        let n = rt::pick_of(&small);
        let z = rt::pick_of(&[".", "a.", "A.", "b.a.", "aa."]);
        let subs: Vec<&String> = (0..rt::pick(3)).map(|_| rt::pick_of(&small)).collect();
        let (name, zone) = (Name::from_string(n).unwrap(), Name::from_string(z).unwrap());
        let sn: Vec<Name> = subs.iter().map(|s| Name::from_string(s).unwrap()).collect();
        let want = within(&nm(n), &nm(z)) && !subs.iter().any(|s| within(&nm(n), &nm(s)));
        if name.is_only_in_auth_zone(&zone, &sn) != want {
            rt::fail("is_only_in_auth_zone", format!("{} in {} but not in {:?}: {}", n, z, subs, !want));
        }
        rt::sample(|| format!("{} {} {:?}", n, z, subs));
    });
    ck.finish()
}
