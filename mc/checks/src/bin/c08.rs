//! C08: loading a zone serves exactly the records written in its files.
use checks::wire::*;
use checks::zones::*;
use checks::{opts, rt, Check};
use vstd::mc;

/// What a file says, before it is laid out.
#[derive(Clone, Debug)]
enum E {
    R(RR),
    Origin(&'static str),
    /// file name, origin, contents
    Inc(&'static str, Option<&'static str>, Vec<E>),
}

/// The layout of one file: each of these is a choice which usually takes the first value.
struct W {
    out: String,
    in_parens: bool,
    soa: bool,
}

const SEPS: [&str; 5] = [" ", "\t", "   ", " \t ", "\t\t"];
const TAILS: [&str; 7] = ["", " ", "\t", " ; a comment", ";x", " ; ( \" ) \\", "\t;$ORIGIN nowhere."];
const FILLERS: [&str; 7] = ["", "\n", "   \n", "; comment (\n", " \t ; \"\n", ";\n\n", "\r\n"];
const NLS: [&str; 2] = ["\n", "\r\n"];

impl W {
    fn sep(&mut self) {
        if self.in_parens {
            match rt::deviate(7) {
                0 => self.out += " ",
                1 => self.out += "\n",
                2 => self.out += "\t;comment)\n  ",
                3 => self.out += "\r\n\n\t",
                4 => self.out += "\n;x\n",
                5 => self.out += " \n \n ",
                _ => self.out += "  ",
            }
            return;
        }
        match rt::deviate(SEPS.len() + 3) {
            k if k < SEPS.len() => self.out += SEPS[k],
            k => {
                self.in_parens = true;
                self.out += [" ( ", " (", "(\n "][k - SEPS.len()];
            }
        }
    }
    /// End the entry: close the parentheses, add a comment, break the line.
    fn end(&mut self, last: bool) {
        if self.in_parens {
            self.in_parens = false;
            self.out += *rt::deviate_of(&[" )", ")", "\n)", " ; c )\n\t)", "\n\n ) "]);
        }
        self.out += *rt::deviate_of(&TAILS);
        if last && rt::deviate(2) == 1 {
            return;
        }
        self.out += *rt::deviate_of(&NLS);
        self.out += *rt::deviate_of(&FILLERS);
    }
    fn owner(&mut self, n: &Labels, origin: &Labels) {
        let abs = txt(n);
        let mut forms = vec![abs.clone()];
        if within(n, origin) {
            if n == origin {
                forms.push("@".into());
                forms.push("".into());
            } else {
                forms.push(txt(&n[..n.len() - origin.len()].to_vec()).trim_end_matches('.').to_string());
            }
        }
        let mut e = String::from("\\");
        if !abs.starts_with(|c: char| c.is_ascii_digit() || c == '.') {
            e += &abs;
            forms.push(e);
        }
        let f = rt::deviate_of(&forms).clone();
        self.out += &f;
    }
    fn data_name(&mut self, n: &Labels, origin: &Labels) {
        let abs = txt(n);
        let mut forms = vec![abs.clone()];
        if within(n, origin) {
            if n == origin {
                forms.push("@".into());
            } else {
                forms.push(txt(&n[..n.len() - origin.len()].to_vec()).trim_end_matches('.').to_string());
            }
        }
        let f = rt::deviate_of(&forms).clone();
        self.out += &f;
    }
    fn string(&mut self, b: &[u8]) {
        let s = String::from_utf8(b.to_vec()).unwrap();
        let mut forms = vec![quote(b)];
        // in quotes with every character escaped that may be
        forms.push(format!("\"{}\"", s.chars().map(|c| if c.is_ascii_digit() { c.to_string() } else { format!("\\{}", c) }).collect::<String>()));
        forms.push(format!("\"{}\"", s.bytes().map(|c| format!("\\{:03}", c)).collect::<String>()));
        if !s.is_empty() {
            // without quotes, special characters escaped
            let bare = |c: char| {
                if " \t\"();\\@$".contains(c) {
                    format!("\\{}", c)
                } else {
                    c.to_string()
                }
            };
            if !s.contains(|c| c == ' ' || c == '\t') {
                forms.push(s.chars().map(bare).collect());
                forms.push(s.bytes().map(|c| format!("\\{:03}", c)).collect::<String>());
            }
        }
        let f = rt::deviate_of(&forms).clone();
        self.out += &f;
    }
    fn record(&mut self, r: &RR, origin: &Labels, ttl: &mut u32, last: bool) {
        self.owner(&r.owner, origin);
        self.sep();
        // TTL and class in either order, either omitted
        let t = r.ttl.to_string();
        let same = *ttl == r.ttl;
        let mut forms: Vec<Vec<&str>> = vec![vec![&t, "IN"], vec!["IN", &t]];
        if !self.soa {
            forms.push(vec![&t]);
        }
        if same {
            forms.push(vec!["IN"]);
            if !self.soa {
                forms.push(vec![]);
            }
        }
        let f = rt::deviate_of(&forms).clone();
        for x in f {
            self.out += x;
            self.sep();
        }
        *ttl = r.ttl;
        self.out += &type_name(r.data.rtype());
        self.sep();
        match &r.data {
            RData::A(x) => self.out += &format!("{}.{}.{}.{}", x[0], x[1], x[2], x[3]),
            RData::Ns(n) | RData::Cname(n) => self.data_name(n, origin),
            RData::Ptr(n) => self.out += &txt(n),
            RData::Mx(p, n) => {
                self.out += &p.to_string();
                self.sep();
                self.data_name(n, origin)
            }
            RData::Hinfo(x, y) => {
                self.string(x);
                self.sep();
                self.string(y)
            }
            RData::Txt(v) => {
                for (i, s) in v.iter().enumerate() {
                    if i > 0 {
                        self.sep();
                    }
                    self.string(s)
                }
            }
            RData::Wks(x, p, _) => {
                self.out += &format!("{}.{}.{}.{}", x[0], x[1], x[2], x[3]);
                self.sep();
                self.out += if *p == 6 { *rt::deviate_of(&["TCP", "tcp"]) } else { *rt::deviate_of(&["UDP", "udp"]) };
                if rt::deviate(2) == 1 {
                    self.sep();
                    self.out += "smtp";
                    self.sep();
                    self.out += "http";
                }
            }
            RData::Soa(x) => {
                self.data_name(&x.m, origin);
                self.sep();
                self.data_name(&x.r, origin);
                for n in x.n {
                    self.sep();
                    self.out += &n.to_string();
                }
            }
            RData::Other(..) => unreachable!(),
        }
        self.end(last);
    }
}

/// Lay out the entries; returns the file and collects the included ones.
fn lay(es: &[E], origin: Labels, ttl: u32, soa_first: bool, files: &mut Vec<(String, Vec<u8>)>) -> String {
    let mut w = W { out: String::new(), in_parens: false, soa: false };
    let (mut origin, mut ttl) = (origin, ttl);
    w.out += *rt::deviate_of(&FILLERS);
    for (i, e) in es.iter().enumerate() {
        let last = i + 1 == es.len();
        match e {
            E::R(r) => {
                w.soa = soa_first && i == 0;
                w.record(r, &origin, &mut ttl, last);
                w.soa = false;
            }
            E::Origin(o) => {
                w.out += "$ORIGIN";
                w.sep();
                w.out += o;
                w.end(last);
                origin = nm(o);
            }
            E::Inc(f, o, es) => {
                w.out += "$INCLUDE";
                w.sep();
                w.out += f;
                let mut inner = origin.clone();
                if let Some(o) = o {
                    w.sep();
                    w.data_name(&nm(o), &origin);
                    inner = nm(o);
                }
                w.end(last);
                let mut more = vec![];
                let s = lay(es, inner, ttl, false, &mut more);
                files.push((f.to_string(), s.into_bytes()));
                files.extend(more);
            }
        }
    }
    w.out
}

fn records(es: &[E], out: &mut Vec<RR>) {
    for e in es {
        match e {
            E::R(r) => out.push(r.clone()),
            E::Inc(_, _, es) => records(es, out),
            _ => {}
        }
    }
}

fn run(top: &str, starting: u32, es: &[E], subs: &[(&str, u32, Vec<E>)]) {
    let mut files = vec![];
    let main = lay(es, nm(top), starting, true, &mut files);
    let specs: Vec<SubSpec> =
        subs.iter().map(|(z, t, es)| SubSpec { zone: z.to_string(), file: lay(es, nm(z), *t, false, &mut vec![]).into_bytes(), ttl: *t, min: 0 }).collect();
    let shown = || {
        let mut s = format!("{:?}", main);
        for (f, b) in &files {
            s += &format!(" file {} {:?}", f, String::from_utf8_lossy(b));
        }
        for p in &specs {
            s += &format!(" sub {} {:?}", p.zone, String::from_utf8_lossy(&p.file));
        }
        s
    };
    mc::note(|| shown());
    let z = match load(top, starting, main.as_bytes(), &files, &specs) {
        Ok(z) => z,
        Err(e) => rt::fail("legal file refused", format!("{} for {}", e, shown())),
    };
    let (got, gsubs) = all_records(&z);
    let mut want = vec![];
    records(es, &mut want);
    if sorted(&got) != sorted(&want) {
        diff(&got, &want, &shown());
    }
    for (i, (_, _, es)) in subs.iter().enumerate() {
        let mut want = vec![];
        records(es, &mut want);
        if sorted(&gsubs[i]) != sorted(&want) {
            diff(&gsubs[i], &want, &shown());
        }
    }
    rt::count("files loaded");
    rt::sample(|| shown());
}

fn diff(got: &[RR], want: &[RR], shown: &str) -> ! {
    let (g, w) = (sorted(got), sorted(want));
    let extra: Vec<RR> = g.iter().filter(|r| !w.contains(r)).cloned().collect();
    let missing: Vec<RR> = w.iter().filter(|r| !g.contains(r)).cloned().collect();
    rt::fail("records differ", format!("served but not written {}, written but not served {} (or a different number of copies), for {}", show_rrs(&extra), show_rrs(&missing), shown))
}

fn top_soa(z: &'static str, ttl: u32) -> E {
    E::R(rr(z, ttl, RData::Soa(Soa { m: nm(&format!("ns.{}", z.trim_start_matches('.'))), r: nm("admin.mail."), n: [20, 0, 600, u32::MAX, 5] })))
}
fn r(n: &str, ttl: u32, d: RData) -> E {
    E::R(rr(n, ttl, d))
}

fn stems() -> Vec<(&'static str, &'static str, u32, Vec<E>)> {
    let e = "example.com.";
    vec![
        ("plain", e, 100, vec![top_soa(e, 100), r(e, 100, ns("ns.example.com.")), r("ns.example.com.", 100, a([127, 0, 0, 1])), r("ns.example.com.", 200, a([255, 255, 255, 255]))]),
        (
            "aliases and mail",
            e,
            100,
            vec![
                top_soa(e, 100),
                r(e, 100, ns(e)),
                r("a.b.example.com.", 100, cname(e)),
                r(e, 70, RData::Mx(0, nm("example.com."))),
                r("m.example.com.", 70, RData::Mx(65535, nm("mx.example.com."))),
                r("c.example.com.", 70, cname("example.org.")),
                r("p.example.com.", 70, RData::Ptr(nm("x.example.org."))),
            ],
        ),
        (
            "strings",
            e,
            5,
            vec![
                top_soa(e, 5),
                r(e, 5, ns("ns.org.")),
                r("t.example.com.", 5, txts(&["plain", "two words", "semi;colon", "quo\"te"])),
                r("t.example.com.", 5, txts(&["(par)en", "", "back\\slash", "$ORIGIN", "@"])),
                r("h.example.com.", 6, RData::Hinfo(b"INTEL-386".to_vec(), b"Unix 7".to_vec())),
                r("h.example.com.", 6, RData::Hinfo(b"x".to_vec(), b"10".to_vec())),
                r("w.example.com.", 7, RData::Wks([1, 2, 3, 4], 6, vec![])),
                r("w.example.com.", 7, RData::Wks([1, 2, 3, 4], 17, vec![])),
            ],
        ),
        (
            "numbers as names and strings",
            e,
            100,
            vec![
                top_soa(e, 100),
                r(e, 100, ns("ns.org.")),
                r("10.example.com.", 100, RData::Ptr(nm("ten.org."))),
                r("007.example.com.", 100, cname("42.example.com.")),
                r("t.example.com.", 100, txts(&["42", "007", "4294967296", "-1"])),
                r("t.example.com.", 100, RData::Hinfo(b"386".to_vec(), b"95".to_vec())),
                r("m.example.com.", 100, RData::Mx(1, nm("8.example.com."))),
            ],
        ),
        (
            "origins",
            e,
            50,
            vec![
                top_soa(e, 50),
                r(e, 50, ns("ns.org.")),
                E::Origin("api.example.com."),
                r("api.example.com.", 60, a([1, 1, 1, 1])),
                r("www.api.example.com.", 60, cname("api.example.com.")),
                E::Origin("example.com."),
                r("example.com.", 60, a([1, 1, 1, 2])),
                E::Origin("x.api.example.com."),
                r("y.x.api.example.com.", 61, a([1, 1, 1, 3])),
                r("api.example.com.", 61, a([1, 1, 1, 4])),
            ],
        ),
        (
            "data relative to another origin",
            e,
            50,
            vec![
                top_soa(e, 50),
                r(e, 50, ns("ns.api.example.com.")),
                E::Origin("api.example.com."),
                r(e, 50, ns("n.x.api.example.com.")),
                r("m.api.example.com.", 60, RData::Mx(7, nm("mx.api.example.com."))),
                r("n.api.example.com.", 60, RData::Mx(7, nm("api.example.com."))),
                r("ns.api.example.com.", 60, a([1, 1, 1, 1])),
                r("n.x.api.example.com.", 60, a([1, 1, 1, 2])),
                r("t.api.example.com.", 60, txts(&["t", "api.example.com."])),
                r("p.api.example.com.", 60, RData::Ptr(nm("www.api.example.com."))),
                r("c.api.example.com.", 60, cname("example.com.")),
                E::Inc("f", Some("o.example.com."), vec![r("o.example.com.", 60, RData::Mx(8, nm("mx.o.example.com."))), r("c.o.example.com.", 60, cname("x.o.example.com."))]),
                r("m.api.example.com.", 60, RData::Mx(9, nm("mx2.api.example.com."))),
            ],
        ),
        (
            "times of nothing",
            e,
            9,
            vec![
                r(e, 9, RData::Soa(Soa { m: nm("0."), r: nm("0.0."), n: [0, 0, 0, 0, 0] })),
                r(e, 9, ns("ns.org.")),
                r("a.example.com.", 0, a([1, 1, 1, 1])),
                r("b.example.com.", 0, a([1, 1, 1, 2])),
                r("c.example.com.", 1, a([1, 1, 1, 3])),
                r("c.example.com.", 0, RData::Mx(0, nm("0."))),
                E::Inc("0", None, vec![r("0.example.com.", 0, a([0, 0, 0, 0])), r("0.example.com.", 10, a([0, 0, 0, 1]))]),
                r("d.example.com.", 10, a([1, 1, 1, 4])),
            ],
        ),
        (
            "included files",
            e,
            50,
            vec![
                top_soa(e, 50),
                r(e, 50, ns("ns.org.")),
                r("a.example.com.", 60, a([1, 1, 1, 1])),
                E::Inc("inc1", Some("in.example.com."), vec![r("in.example.com.", 60, a([2, 1, 1, 1])), r("b.in.example.com.", 90, a([2, 1, 1, 2])), E::Origin("z.example.com."), r("z.example.com.", 90, a([2, 2, 2, 2]))]),
                r("example.com.", 60, a([1, 1, 1, 2])),
                E::Inc("inc2", None, vec![r("c.example.com.", 60, a([3, 1, 1, 1]))]),
                r("d.example.com.", 60, a([1, 1, 1, 3])),
            ],
        ),
        (
            "nested included files",
            e,
            50,
            vec![
                top_soa(e, 50),
                r(e, 50, ns("ns.org.")),
                E::Origin("o.example.com."),
                r("o.example.com.", 70, a([1, 1, 1, 1])),
                E::Inc(
                    "dir/one",
                    Some("o.example.com."),
                    vec![
                        r("o.example.com.", 70, a([2, 1, 1, 1])),
                        E::Inc("two", Some("p.o.example.com."), vec![r("p.o.example.com.", 70, a([3, 1, 1, 1])), r("p.o.example.com.", 80, a([3, 1, 1, 2]))]),
                        r("q.o.example.com.", 70, a([2, 1, 1, 2])),
                        E::Inc("empty", None, vec![]),
                    ],
                ),
                r("o.example.com.", 70, txts(&["after"])),
                E::Inc("3", None, vec![E::Origin("example.com."), r("example.com.", 70, a([4, 1, 1, 1]))]),
                r("r.o.example.com.", 70, a([1, 1, 1, 3])),
            ],
        ),
        ("the root zone", ".", 100, vec![top_soa(".", 100), r(".", 100, ns("ns.")), r("com.", 100, a([1, 1, 1, 1])), r("a.com.", 90, cname("com.")), r(".", 90, RData::Mx(10, nm(".")))]),
        (
            "times",
            e,
            u32::MAX,
            vec![top_soa(e, 5), r(e, u32::MAX, ns("ns.org.")), r("a.example.com.", u32::MAX, a([0, 0, 0, 0])), r("a.example.com.", 5, a([0, 0, 0, 1])), r("b.example.com.", 5, a([0, 0, 0, 2])), r("c.example.com.", 2147483648, a([0, 0, 0, 2]))],
        ),
        (
            "sizes",
            e,
            100,
            vec![
                top_soa(e, 100),
                r(e, 100, ns("ns.org.")),
                r("t.example.com.", 100, txts(&[Box::leak("s".repeat(255).into_boxed_str()), Box::leak("q ".repeat(127).into_boxed_str()), "x"])),
                r("h.example.com.", 100, RData::Hinfo(vec![b'c'; 255], vec![b' '; 254])),
                r("m.example.com.", 100, RData::Txt((0..300).map(|i| format!("{:0w$}", i, w = 3 + i % 5).into_bytes()).collect())),
                r(Box::leak(format!("{}.example.com.", "l".repeat(63)).into_boxed_str()), 100, a([0, 255, 0, 255])),
                r(Box::leak(format!("{}example.com.", "a.".repeat(121)).into_boxed_str()), 100, cname(Box::leak(format!("{0}.{0}.{0}.{1}.", "n".repeat(63), "n".repeat(61)).into_boxed_str()))),
                r("x--1.0-9.example.com.", 100, RData::Mx(32768, nm("1-a.0.example.com."))),
            ],
        ),
        (
            "times from the SOA on",
            e,
            100,
            vec![top_soa(e, 3600), r(e, 3600, ns("ns.org.")), r(e, 100, a([0, 0, 0, 1])), r("a.example.com.", 100, a([0, 0, 0, 2]))],
        ),
    ]
}

fn main() {
    let mut ck = Check::start("C08");
    let depth = ck.by(2, 3);
    for (name, top, ttl, es) in stems() {
        // the long lists have too many places
        let depth = if name == "sizes" { depth - 1 } else { depth };
        ck.pure(&format!("{}: every layout which differs in up to {} places", name, depth), opts().env(depth).cap(240.0), || run(top, ttl, &es, &[]));
    }
    ck.pure(&format!("subzone files: every layout which differs in up to {} places", depth), opts().env(depth).cap(240.0), || {
        let e = "example.com.";
        let subs = vec![
            ("a.example.com.", 500, vec![r("a.example.com.", 500, ns("ns.a.example.com.")), r("ns.a.example.com.", 500, a([5, 0, 0, 1])), r("a.example.com.", 400, ns("a.example.com.")), r("a.example.com.", 400, a([5, 0, 0, 2]))]),
            ("b.example.com.", 7, vec![r("b.example.com.", 7, ns("out.org.")), r("b.example.com.", 8, ns("1.a.example.com.")), r("b.example.com.", 8, ns("ns.example.com."))]),
        ];
        let mut subs = subs;
        subs[0].2.push(r("1.a.example.com.", 400, a([5, 0, 0, 3])));
        run(e, 100, &[top_soa(e, 100), r(e, 100, ns("ns.org."))], &subs)
    });
    // all the ways to write one record, in full
    let one = ck.by(4, 6);
    ck.pure(&format!("one record: every layout which differs in up to {} places", one), opts().env(one).cap(ck.by(120.0, 900.0)), || {
        let e = "example.com.";
        let mut files = vec![];
        let soa = plain(&rr(e, 100, soa("n.", "a.", [1, 2, 3, 4, 5])));
        let nsr = plain(&rr(e, 100, ns("ns.org.")));
        let rec = match rt::pick(3) {
            0 => rr("a.example.com.", 100, a([1, 2, 3, 4])),
            1 => rr(e, 100, cname(e)),
            _ => rr("a.example.com.", 101, ns("b.example.com.")),
        };
        let mut w = W { out: String::new(), in_parens: false, soa: false };
        let mut ttl = 100;
        if rec.data.rtype() == NS {
            // as the nameserver of the zone itself, relative to another origin
            let rec = rr(e, 101, ns("b.example.com."));
            let _ = &mut files;
            w.record(&rec, &nm(e), &mut ttl, true);
            return finish(&format!("{}{}{}", soa, nsr, w.out), &[rr(e, 100, soa_d()), rr(e, 100, ns("ns.org.")), rec], &files);
        }
        w.record(&rec, &nm(e), &mut ttl, true);
        finish(&format!("{}{}{}", soa, nsr, w.out), &[rr(e, 100, soa_d()), rr(e, 100, ns("ns.org.")), rec], &files)
    });
    // large files, written plainly
    ck.pure("many of everything", opts(), || {
        let n = *rt::pick_of(&[1usize, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4096, 5000]);
        let mut want = vec![rr("example.com.", 100, soa_d()), rr("example.com.", 100, ns("ns.org."))];
        let mut text: String = want.iter().map(plain).collect();
        let mut files = vec![];
        let ip = |i: usize| a([9, (i >> 16) as u8, (i >> 8) as u8, i as u8]);
        let mut add = |text: &mut String, x: RR| {
            *text += &plain(&x);
            want.push(x);
        };
        match rt::pick(13) {
            0 => (0..n).for_each(|i| add(&mut text, rr("www.example.com.", 100, ip(i)))),
            1 => (0..n).for_each(|i| add(&mut text, rr(&format!("h{}.example.com.", i), 100, ip(i)))),
            2 => (0..n).for_each(|i| add(&mut text, rr("t.example.com.", 100, txts(&[&format!("t{}", i), "u"])))),
            3 => (0..n).for_each(|i| add(&mut text, rr("example.com.", 100, ns(&format!("n{}.org.", i))))),
            4 => (0..n).for_each(|i| add(&mut text, rr("m.example.com.", i as u32 + 5, RData::Mx(i as u16, nm("mx.org."))))),
            // lines without records, before and after
            5 => {
                text += &"; a comment\n\n   \n".repeat(n);
                add(&mut text, rr("a.example.com.", 100, ip(1)));
                text += &"\t; a comment\n".repeat(n);
            }
            // origins, one after the other
            6 => {
                for i in 0..n {
                    text += &format!("$ORIGIN o{}.example.com.\nx 100 IN A 9.9.{}.{}\n", i, i >> 8, i & 255);
                    want.push(rr(&format!("x.o{}.example.com.", i), 100, a([9, 9, (i >> 8) as u8, i as u8])));
                }
            }
            // files, one after the other
            7 => {
                for i in 0..n {
                    text += &format!("$INCLUDE f{} o{}\n", i, i);
                    files.push((format!("f{}", i), format!("@ 100 IN A 9.8.{}.{}", i >> 8, i & 255).into_bytes()));
                    want.push(rr(&format!("o{}.example.com.", i), 100, a([9, 8, (i >> 8) as u8, i as u8])));
                }
            }
            // the same file again and again
            8 => {
                files.push(("f".to_string(), b"x 100 IN A 9.9.9.9\n".to_vec()));
                for i in 0..n {
                    text += &format!("$INCLUDE f o{}\n", i);
                    want.push(rr(&format!("x.o{}.example.com.", i), 100, a([9, 9, 9, 9])));
                }
            }
            // files within each other
            9 if n < 99 => {
                text += "$INCLUDE f1\nend 100 IN A 9.9.9.0\n";
                want.push(rr("end.example.com.", 100, a([9, 9, 9, 0])));
                for i in 1..=n {
                    let next = if i < n { format!("$INCLUDE f{}\n", i + 1) } else { String::new() };
                    files.push((format!("f{}", i), format!("a{0} 100 IN A 9.9.1.{0}\n{1}b{0} 100 IN A 9.9.2.{0}\n", i, next).into_bytes()));
                    want.push(rr(&format!("a{}.example.com.", i), 100, a([9, 9, 1, i as u8])));
                    want.push(rr(&format!("b{}.example.com.", i), 100, a([9, 9, 2, i as u8])));
                }
            }
            // one record over many lines
            10 => {
                text += &format!("t 100 IN TXT (\n{}  z )\nlast 100 IN A 9.9.9.9\n", "  y ; of many\n\n".repeat(n));
                let mut v = vec!["y"; n];
                v.push("z");
                want.push(rr("t.example.com.", 100, txts(&v)));
                want.push(rr("last.example.com.", 100, a([9, 9, 9, 9])));
            }
            // far from the left
            11 => {
                text += &format!("a{0}100{0}IN{0}A{0}9.9.9.9{0}; end\nb 100 IN A 9.9.9.8\n", " \t".repeat(n));
                want.push(rr("a.example.com.", 100, a([9, 9, 9, 9])));
                want.push(rr("b.example.com.", 100, a([9, 9, 9, 8])));
            }
            // long comments
            12 => {
                text += &format!("a 100 IN A 9.9.9.9 ;{0}\n;{0}\nb 100 IN A 9.9.9.8\n", " \"(".repeat(n));
                want.push(rr("a.example.com.", 100, a([9, 9, 9, 9])));
                want.push(rr("b.example.com.", 100, a([9, 9, 9, 8])));
            }
            _ => rt::prune(),
        }
        finish(&text, &want, &files)
    });
    // lifetimes and origins, handed on from entry to entry and from file to
    // file: every sequence of kinds of entries
    let depth = ck.by(3, 4);
    ck.pure(&format!("every sequence of {} entries which hand on lifetimes and origins", depth), opts(), || {
        let mut want = vec![rr("example.com.", 100, soa_d()), rr("example.com.", 100, ns("ns.org."))];
        let mut files = vec![];
        let head: String = want.iter().map(plain).collect();
        let text = sequence(depth, true, nm("example.com."), 100, &mut 0, &mut want, &mut files);
        finish(&(head + &text), &want, &files)
    });
    ck.pure("every pair of types which hand on lifetimes", opts(), || {
        let e = "example.com.";
        let sub = rt::pick_bool();
        let datas = |i: u8| vec![a([9, 9, 9, i]), ns("ns.a.example.com."), ns(&format!("n{}.org.", i)), cname("x."), RData::Ptr(nm("x.")), RData::Mx(i as u16, nm("x.")), txts(&["5", "x"]), RData::Hinfo(b"7".to_vec(), b"os".to_vec()), RData::Wks([9, 9, 9, i], 6, vec![])];
        let mut v: Vec<RR> = if sub { vec![rr("a.example.com.", 500, ns("ns.a.example.com.")), rr("ns.a.example.com.", 500, a([9, 9, 9, 9]))] } else { vec![rr(e, 100, soa_d()), rr(e, 100, ns("ns.org."))] };
        let mut text: String = v.iter().map(plain).collect();
        let mut ttl = v[1].ttl;
        for i in 0..3 {
            let data = rt::pick_of(&if sub { datas(i)[..2].to_vec() } else { datas(i) }).clone();
            let zone_ns = data.rtype() == NS;
            let owner = match (sub, zone_ns) {
                (true, true) => "a.example.com.".to_string(),
                (true, false) => "ns.a.example.com.".to_string(),
                (false, true) => e.to_string(),
                _ => format!("h{}.{}", i, e),
            };
            if !sub && data == ns("ns.a.example.com.") || sub && zone_ns && v.iter().any(|r| r.data == data && i > 0 && r.owner == nm(&owner) && r.ttl == ttl) {
                rt::prune()
            }
            let given = rt::pick(3);
            ttl = if given == 0 { ttl } else { 200 + i as u32 };
            text += &format!("{} {}{} {}\n", owner, if given == 0 { String::new() } else if given == 1 { format!("{} ", ttl) } else { format!("IN {} ", ttl) }, type_name(data.rtype()), plain_data(&data));
            v.push(rr(&owner, ttl, data));
        }
        if !sub {
            return finish(&text, &v, &[]);
        }
        let top = vec![rr(e, 100, soa_d()), rr(e, 100, ns("ns.org."))];
        let main: String = top.iter().map(plain).collect();
        mc::note(|| format!("{:?}", text));
        match load(e, 100, main.as_bytes(), &[], &[SubSpec { zone: "a.example.com.".into(), file: text.clone().into_bytes(), ttl: 1000, min: 0 }]) {
            Ok(z) => {
                let got = all_records(&z).1;
                if sorted(&got[0]) != sorted(&v) {
                    diff(&got[0], &v, &format!("{:?}", text));
                }
            }
            Err(e) => rt::fail("legal file refused", format!("{} for subzone {:?}", e, text)),
        }
    });
    ck.assume("mnemonics of types and classes are written in upper case, PTR data as an absolute name, and the SOA with its class, as the program documents or requires");
    ck.assume("the services of WKS records are not compared (the program documents that it discards them when reading zone files)");
    ck.finish()
}

/// A sequence of entries: records with and without a lifetime, directives.
/// What is handed on into an included file does not come back out of it.
fn sequence(n: usize, outer: bool, origin: Labels, ttl: u32, id: &mut u8, want: &mut Vec<RR>, files: &mut Vec<(String, Vec<u8>)>) -> String {
    let (mut origin, mut ttl) = (origin, ttl);
    let mut text = String::new();
    for _ in 0..n {
        *id += 1;
        let under = |l: &str, o: &Labels| {
            let mut v = vec![l.as_bytes().to_vec()];
            v.extend(o.iter().cloned());
            v
        };
        match rt::pick(if outer { 7 } else { 4 }) {
            k @ 0..=2 => {
                // without, with a lifetime, and one as before
                if k > 0 {
                    ttl = if k == 1 { 200 + *id as u32 } else { 100 };
                    text += &format!("h{} {} A 9.9.9.{}\n", id, ttl, id);
                } else {
                    text += &format!("h{} A 9.9.9.{}\n", id, id);
                }
                want.push(RR { owner: under(&format!("h{}", id), &origin), class: 1, ttl, data: a([9, 9, 9, *id]) });
            }
            3 => {
                let o = if origin.len() > 2 { nm("example.com.") } else { under(&format!("o{}", id), &origin) };
                text += &format!("$ORIGIN {}\n", txt(&o));
                origin = o;
            }
            4 => {
                want.push(RR { owner: origin.clone(), class: 1, ttl, data: RData::Mx(*id as u16, under("mx", &origin)) });
                text += &format!("@ MX {} mx\n", id);
            }
            k => {
                let (f, o) = (format!("f{}", id), format!("i{}", id));
                text += &format!("$INCLUDE {}{}\n", f, if k == 5 { String::new() } else { format!(" {}", o) });
                let inner = if k == 5 { origin.clone() } else { under(&o, &origin) };
                let b = sequence(2, false, inner, ttl, id, want, files);
                files.push((f, b.into_bytes()));
            }
        }
    }
    text
}
fn soa_d() -> RData {
    soa("n.", "a.", [1, 2, 3, 4, 5])
}
fn finish(main: &str, want: &[RR], files: &[(String, Vec<u8>)]) {
    mc::note(|| format!("{:?}", main));
    match load("example.com.", 100, main.as_bytes(), files, &[]) {
        Ok(z) => {
            let (got, _) = all_records(&z);
            if sorted(&got) != sorted(want) {
                diff(&got, want, &format!("{:?}", main));
            }
        }
        Err(e) => rt::fail("legal file refused", format!("{} for {:?}", e, main)),
    }
    rt::sample(|| format!("{:?}", main));
}
