//! Messages used as starting points of enumerations.
use crate::wire::*;

pub fn long_label(n: usize, c: u8) -> Vec<u8> {
    vec![c; n]
}
/// A name whose wire form has exactly `n` octets.
pub fn name_of_len(n: usize) -> Labels {
    let mut v = vec![];
    let mut left = n - 1;
    while left > 0 {
        let mut l = left.min(64);
        if left - l == 1 {
            l -= 1;
        }
        v.push(vec![b'a'; l - 1]);
        left -= l;
    }
    assert_eq!(wire_len(&v), n);
    v
}

pub fn rdatas() -> Vec<RData> {
    vec![
        a([192, 0, 2, 1]),
        ns("ns1.example.com."),
        cname("x.y."),
        soa("ns.x.", "admin.x.", [1, 2, 3, 4, 5]),
        RData::Wks([10, 0, 0, 1], 6, vec![0, 25, 53]),
        RData::Wks([10, 0, 0, 1], 17, vec![]),
        RData::Ptr(nm("host.x.")),
        RData::Hinfo(b"CPU".to_vec(), b"os".to_vec()),
        RData::Mx(10, nm("mail.x.")),
        txts(&["hello", "", "w"]),
        txts(&["t"]),
    ]
}

pub fn msg(id: u16) -> Msg {
    Msg { h: Hdr { id, ..Default::default() }, ..Default::default() }
}
pub fn q(n: &str, t: u16) -> Q {
    Q { name: nm(n), qtype: t, class: 1 }
}
fn done(mut m: Msg) -> Msg {
    m.fix_counts();
    m
}

/// Well-formed messages, with and without compression.
pub fn messages() -> Vec<(String, Vec<u8>)> {
    let mut out: Vec<(String, Vec<u8>)> = vec![];
    let mut add = |n: &str, m: Msg| {
        let u = encode(&m, false);
        let c = encode(&m, true);
        if c != u {
            out.push((format!("{} (compressed)", n), c));
        }
        out.push((n.to_string(), u));
    };
    // queries
    let mut m = msg(0x1234);
    m.h.rd = true;
    m.q.push(q("www.ex.", A));
    add("query", done(m));
    let mut m = msg(1);
    m.q.push(q(".", NS));
    add("root query", done(m));
    let mut m = msg(2);
    m.q.push(q("w.x.", 28));
    add("AAAA query", done(m));
    let mut m = msg(3);
    m.q.push(q("w.x.", A));
    m.s[2].push(RR { owner: vec![], class: 4096, ttl: 0x8000, data: RData::Other(41, vec![0, 10, 0, 2, 1, 2]) });
    add("EDNS query", done(m));
    // one response for every type
    for (i, d) in rdatas().into_iter().enumerate() {
        let mut m = msg(0x100 + i as u16);
        m.h.qr = true;
        m.h.aa = i % 2 == 0;
        m.q.push(q("a.x.", d.rtype()));
        let name = format!("{} answer", type_name(d.rtype()));
        m.s[0].push(rr("a.x.", 300 + i as u32, d));
        add(&name, done(m));
    }
    // a referral with glue
    let mut m = msg(7);
    m.h.qr = true;
    m.q.push(q("a.b.x.", A));
    m.s[1].push(rr("b.x.", 100, ns("n.b.x.")));
    m.s[1].push(rr("b.x.", 100, ns("n.y.")));
    m.s[2].push(rr("n.b.x.", 0x7fffffff, a([1, 2, 3, 4])));
    m.s[2].push(rr("n.y.", 0xffffffff, a([255, 0, 0, 0])));
    add("referral", done(m));
    // mixed known and unknown types
    let mut m = msg(8);
    m.h.qr = true;
    m.h.ra = true;
    m.h.rcode = 3;
    m.q.push(q("a.x.", A));
    m.q.push(q("a.x.", 65));
    m.q.push(q("b.x.", TXT));
    m.s[0].push(rr("a.x.", 1, RData::Other(28, vec![0; 16])));
    m.s[0].push(rr("a.x.", 1, a([9, 9, 9, 9])));
    m.s[1].push(rr("x.", 1, RData::Other(43, vec![])));
    m.s[1].push(rr("x.", 1, soa("m.x.", "r.x.", [5, 4, 3, 2, 1])));
    m.s[2].push(rr("x.", 1, RData::Other(46, vec![0xc0, 0xff, 3])));
    m.s[2].push(rr("n.x.", 1, cname("o.x.")));
    add("mixed", done(m));
    out
}

/// Larger well-formed messages.
pub fn big_messages() -> Vec<(String, Vec<u8>)> {
    let mut out = vec![];
    let mut m = msg(9);
    m.h.qr = true;
    m.q.push(Q { name: name_of_len(255), qtype: A, class: 1 });
    m.s[0].push(RR { owner: name_of_len(255), class: 1, ttl: 0, data: RData::Cname(name_of_len(254)) });
    m.s[0].push(RR { owner: name_of_len(254), class: 1, ttl: 0, data: RData::Txt(vec![vec![b'z'; 255], vec![], vec![b'y'; 254]]) });
    m.s[1].push(RR { owner: vec![vec![b'a'; 63], vec![b'b'; 63]], class: 1, ttl: u32::MAX, data: RData::Hinfo(vec![b'q'; 255], vec![]) });
    m.s[2].push(rr("w.", 0, RData::Wks([1, 2, 3, 4], 255, vec![0, 7, 8, 1023, 65535])));
    m.fix_counts();
    out.push(("big".into(), encode(&m, false)));
    out.push(("big (compressed)".into(), encode(&m, true)));
    // 127 one-octet labels
    let mut m = msg(10);
    m.q.push(Q { name: vec![b"a".to_vec(); 127], qtype: MX, class: 1 });
    m.fix_counts();
    out.push(("127 labels".into(), encode(&m, false)));
    out
}

/// Texts of the given lengths (or a little less) with characters of every
/// width at every place.
pub fn texts(lens: &[usize]) -> Vec<String> {
    let mut v = vec![];
    for c in ["a", "\u{e9}", "\u{20ac}", "\u{1f600}", "\u{0}", "\u{1b}", "\"", "\\", "{", "%", "\n", "\u{7f}", "\u{300}"] {
        for pre in 0..4 {
            for n in lens {
                let mut t = "x".repeat(pre);
                while t.len() + c.len() <= *n {
                    t += c;
                }
                v.push(t);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Large requests: of many questions, with many records, with bytes behind
/// the end.
pub fn large() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for n in [600, 1100, 2100, 4200, 8300, 16500, 33000, 65535usize] {
        let mut b = query(9, "www.example.", A);
        b.resize(n, 7);
        v.push(b);
        let mut m = msg(10);
        m.h.rd = true;
        m.q.push(q("www.example.", A));
        let mut d = m.clone();
        let l = query(0, "www.example.", A).len() - 12;
        for _ in 1..(n - 12) / l {
            m.q.push(q("www.example.", A));
        }
        m.fix_counts();
        v.push(encode(&m, false));
        // records of an address each
        for i in 0..(n - 12 - l) / (l + 10) {
            d.s[2].push(rr("www.example.", 5, a([10, 0, (i / 256) as u8, i as u8])));
        }
        d.fix_counts();
        v.push(encode(&d, false));
    }
    v
}
