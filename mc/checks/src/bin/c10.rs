//! C10: any zone file loads or is refused cleanly, and what loads can be served.
use ariadne_dns::nameserver::NameserverHandler;
use checks::wire::*;
use checks::zones::*;
use checks::{opts, rt, Check};
use std::collections::BTreeSet;
use vstd::mc;

const HEAD: &str = "@ 100 IN SOA ns. m. 1 2 3 4 5\n@ NS ns.\n";

/// Load; when that succeeds ask for every record and check the replies.
fn load_and_serve(zone: &str, main: &[u8], inc: &[(String, Vec<u8>)], subs: &[SubSpec]) -> bool {
    let z = match load(zone, 100, main, inc, subs) {
        Ok(z) => z,
        Err(_) => {
            rt::count("refused");
            return false;
        }
    };
    rt::count("loaded");
    let (recs, sub_recs) = all_records(&z);
    let mut qs: BTreeSet<(Labels, u16)> = BTreeSet::new();
    for r in recs.iter().chain(sub_recs.iter().flatten()) {
        qs.insert((r.owner.clone(), r.data.rtype()));
    }
    let h = NameserverHandler(z);
    let outside = nm("nowhere.invalid.");
    for (n, t) in qs.iter().chain([(outside, A)].iter()) {
        let q = query_l(7, n, *t);
        let v = ask(&h, &q);
        if v.len() != 1 {
            rt::fail("number of replies", format!("{} replies to the query {} {}", v.len(), txt(n), type_name(*t)));
        }
        for b in [&v[0].0, &v[0].1] {
            if let Err(e) = decode_strict(b) {
                rt::fail("malformed reply", format!("{} in the reply to the query {} {}: {}{}", e, txt(n), type_name(*t), hex(b), mc::current_note()));
            }
        }
        if v[0].1.len() > 512 {
            rt::fail("long datagram", format!("a datagram of {} bytes for {} {}", v[0].1.len(), txt(n), type_name(*t)));
        }
    }
    true
}

fn go(main: &[u8]) -> bool {
    mc::note_bytes(main);
    load_and_serve("z.", main, &[("i".into(), b"q A 1.2.3.4\n".to_vec()), ("e".into(), vec![])], &[])
}
fn go_sub(sub: &[u8]) {
    mc::note_bytes(sub);
    load_and_serve("z.", HEAD.as_bytes(), &[], &[SubSpec { zone: "s.z.".into(), file: sub.to_vec(), ttl: 9, min: 3 }]);
}

const RICH: &str = "z. IN 123 SOA ns.z. \\a.admin. (\n 20 ; S\n 7200\n600 36 60 )\n@ IN 150 NS n\n\tNS @\nw TXT \"a \\\"b;\" c\\;d \\065(\n)\n$ORIGIN o.z.\n@ MX 1 x\n  HINFO A \"\"; c\n9 70 PTR a.b.\n$INCLUDE i p.z.\ny CNAME @\nw WKS 1.2.3.4 tcp smtp\n";

fn main() {
    let mut ck = Check::start("C10");
    let chars = ["a", ".", " ", "\t", "\n", "\r", "(", ")", ";", "\"", "\\", "$", "@", "0", "9", "-", "*", "\u{a0}", "\u{c}", "\u{b}", "\0", "é", "\u{2028}", "\u{feff}"];
    let n = ck.by(5, 6);
    ck.pure(&format!("every text of up to {} characters after a valid start", n), opts().mem(256).cap(400.0), || {
        let k = rt::pick(n + 1);
        let mut s = HEAD.to_string();
        for _ in 0..k {
            s += *rt::pick_of(&chars);
        }
        go(s.as_bytes());
        rt::sample(|| format!("{:?}", s));
    });
    for (name, before, after) in [
        ("as the data of a TXT record", "x TXT ", "\ny A 1.2.3.4\n"),
        ("as the owner of a record", "", " A 1.2.3.4\n"),
        ("as the data of a CNAME record", "x CNAME ", "\n"),
        ("before the type of a record", "x ", " A 1.2.3.4\n"),
        ("as the data of a HINFO record", "x HINFO ", ""),
        ("after a directive", "$ORIGIN ", "z.\nw A 1.2.3.4\n"),
        ("after an include directive", "$INCLUDE i", "\n"),
        ("in parentheses", "x A ( ", " ) 1.2.3.4\n"),
        ("as the data of a MX record", "x MX ", "\n"),
    ] {
        let n = ck.by(4, 5);
        ck.pure(&format!("every text of up to {} characters {}", n, name), opts().mem(256).cap(300.0), || {
            let k = rt::pick(n + 1);
            let mut s = HEAD.to_string() + before;
            for _ in 0..k {
                s += *rt::pick_of(&chars);
            }
            s += after;
            go(s.as_bytes());
            rt::sample(|| format!("{:?}", s));
        });
    }
    ck.pure("every short file", opts().mem(256).cap(300.0), || {
        let k = rt::pick(n + 1);
        let mut s = String::new();
        for _ in 0..k {
            s += *rt::pick_of(&chars);
        }
        go(s.as_bytes());
    });
    ck.pure("every short subzone file", opts().mem(256).cap(300.0), || {
        let k = rt::pick(n);
        let mut s = rt::pick_of(&["", "@ NS ns.\n", "@ NS ns\nns A 1.2.3.4\n"]).to_string();
        for _ in 0..k {
            s += *rt::pick_of(&chars);
        }
        go_sub(s.as_bytes());
    });
    let tokens = [
        "a", "z.", "@", "x.z.", "y.", ".", "..", "-", "_a", "IN", "CH", "*", "A", "NS", "CNAME", "SOA", "WKS", "PTR", "HINFO", "MX", "TXT", "AXFR", "NULL", "9", "0", "4294967295", "4294967296", "1.2.3.4", "1.2.3", "\"q r\"", "\"", "\\", "\\1", "\\256", "(", ")", ";", "$ORIGIN", "$INCLUDE", "$X", "\n", "\n ", "i", "e", "TCP", "udp",
    ];
    let m = ck.by(4, 5);
    ck.pure(&format!("every sequence of up to {} tokens", m), opts().mem(256).cap(500.0), || {
        let k = rt::pick(m + 1);
        let mut s = HEAD.to_string();
        s += *rt::pick_of(&["", " "]);
        for _ in 0..k {
            s += *rt::pick_of(&tokens);
            s += " ";
        }
        go(s.as_bytes());
        rt::sample(|| format!("{:?}", s));
    });
    ck.pure("every sequence of tokens at the start", opts().mem(256).cap(500.0), || {
        let k = rt::pick(m);
        let mut s = String::new();
        for _ in 0..k {
            s += *rt::pick_of(&tokens);
            s += " ";
        }
        s += *rt::pick_of(&["", "IN SOA a. b. 1 2 3 4 5\n@ NS n.\n", "1 2 3 4 5\n@ NS n."]);
        go(s.as_bytes());
    });
    ck.pure("every sequence of tokens in a subzone file", opts().mem(256).cap(500.0), || {
        let k = rt::pick(m + 1);
        let mut s = String::from("@ NS n.\n");
        for _ in 0..k {
            s += *rt::pick_of(&tokens[..35]);
            s += " ";
        }
        go_sub(s.as_bytes());
    });
    // a rich file with every change of one or two places
    let edits = ck.by(1, 2);
    ck.pure(&format!("a rich zone file with up to {} edits", edits), opts().mem(256).cap(600.0), || {
        let mut c: Vec<char> = RICH.chars().collect();
        let mut from = 0;
        let k = rt::pick(edits + 1);
        for _ in 0..k {
            let at = from + rt::pick(c.len() - from);
            match rt::pick(4) {
                0 => {
                    c.remove(at);
                }
                1 => {
                    let x = rt::pick_of(&chars).chars().next().unwrap();
                    c[at] = x;
                }
                2 => {
                    let x = rt::pick_of(&chars).chars().next().unwrap();
                    c.insert(at, x);
                }
                _ => c.truncate(at),
            }
            from = at.min(c.len().saturating_sub(1));
        }
        let s: String = c.into_iter().collect();
        let ok = go(s.as_bytes());
        if k == 0 && !ok {
            rt::fail("the file itself", format!("{:?} is refused", RICH));
        }
    });
    ck.pure("bytes which are not text", opts().mem(256), || {
        let at = rt::pick(RICH.len() + 1);
        let x = *rt::pick_of(&[&[0xff_u8][..], &[0xc3], &[0xe2, 0x82], &[0xf0, 0x9f], &[0x80], &[0], &[0xed, 0xa0, 0x80]]);
        let mut b = RICH.as_bytes().to_vec();
        for (i, y) in x.iter().enumerate() {
            b.insert(at + i, *y);
        }
        go(&b);
    });
    // every graph of files which include each other
    ck.pure("every graph of included files", opts().mem(512), || {
        let n = 3;
        let name = |i: usize| ["main", "f1", "f2", "f3"][i].to_string();
        let mut files = vec![];
        let mut main = vec![];
        for i in 0..=n {
            let mut s = if i == 0 { HEAD.to_string() } else { String::new() };
            let set = rt::pick(1 << (n + 1));
            let rec = format!("r{} A 1.2.3.{}\n", i, i);
            s += &rec;
            for j in 0..=n {
                if set >> j & 1 == 1 {
                    s += &format!("$INCLUDE {}\n", name(j));
                }
            }
            if i == 0 {
                main = s.into_bytes();
            } else {
                files.push((name(i), s.into_bytes()));
            }
        }
        mc::note(|| format!("{:?} {:?}", String::from_utf8_lossy(&main), files));
        load_and_serve("z.", &main, &files, &[]);
        if rt::k().fs.open != 0 {
            rt::fail("open files", format!("{} files are left open", rt::k().fs.open));
        }
    });
    // length limits of what can be written
    ck.pure("strings and names around their limits", opts().mem(512), || {
        let n = *rt::pick_of(&[0, 1, 254, 255, 256, 257, 300, 1000, 65535, 65536]);
        let x = "x".repeat(n);
        let s = match rt::pick(8) {
            0 => format!("a TXT \"{}\"\n", x),
            1 => format!("a TXT b{}\n", x),
            2 => format!("a HINFO \"{}\" o\n", x),
            3 => format!("a HINFO c \"{}\"\n", x),
            4 => format!("{} A 1.2.3.4\n", "x.".repeat(n)),
            5 => format!("a CNAME {}\n", "x.".repeat(n)),
            6 => format!("a TXT \"\" \"{}\"\n", x.replace('x', "\\200")),
            _ => format!("a{} A 1.2.3.4\n", x),
        };
        let s = HEAD.to_string() + &s;
        mc::note(|| format!("{} bytes: {:?}", s.len(), &s[..s.len().min(200)]));
        let ok = load_and_serve("z.", s.as_bytes(), &[], &[]);
        rt::sample(|| format!("{} bytes: {:?} loads: {}", s.len(), &s[..s.len().min(200)], ok));
    });
    ck.pure("many strings, many records, long lines", opts().mem(2048), || {
        let kind = rt::pick(12);
        let n = *rt::pick_of(&[0, 1, 2, 255, 256, 257, 1000, 65535, 65536, 100_000]);
        mc::note(|| format!("kind {} size {}", kind, n));
        let mut s = HEAD.to_string();
        match kind {
            0 => s += &format!("a TXT {}\n", "\"\" ".repeat(n)),
            1 => s += &format!("a TXT {}\n", format!("\"{}\" ", "y".repeat(255)).repeat(n.min(1000))),
            2 => s += &format!("a A 1.2.3.4 {}\n", "()".repeat(n)),
            3 => s += &format!("a A 1.2.3.4 {}\n", "( ) ".repeat(n)),
            4 => s += &format!("a A 1.2.3.4 (\n{} )\n", ")(;x\n".repeat(n)),
            5 => s += &"a A 1.2.3.4\n".repeat(n),
            6 => s += &format!("{}a A 1.2.3.4\n", ";\n".repeat(n)),
            7 => s += &format!("a A (1.2.3.4\n{})\n", " ;x\n".repeat(n)),
            8 => s += &format!("a {}A 1.2.3.4\n", " ".repeat(n)),
            9 => s += &format!("a A 1.2.3.4{}\n", "\n".repeat(n)),
            10 => s += &format!("a WKS 1.2.3.4 TCP {}\n", "smtp ".repeat(n)),
            _ => s += &"$ORIGIN z.\n$INCLUDE i\n".repeat(n.min(1000)),
        }
        load_and_serve("z.", s.as_bytes(), &[("i".into(), b"q A 1.2.3.4\n".to_vec())], &[]);
        rt::sample(|| format!("kind {} size {}", kind, n));
    });
    ck.assume("files are regular files: reading one terminates");
    ck.finish()
}
