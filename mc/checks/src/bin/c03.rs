//! C03: encoding is well-formed and loses nothing.
use ariadne_dns::shared::dns::{Header, Message, Question, Record};
use checks::wire::*;
use checks::{corpus, opts, rt, Check};
use vstd::mc;

fn check(m: &Msg) {
    mc::note(|| show(m));
    let msg = to_message(m);
    let b = match msg.encode_to_bytes() {
        Ok(b) => b,
        Err(e) => rt::fail("encode error", format!("{:?} when encoding {}", e, show(m))),
    };
    match decode_strict(&b) {
        Err(e) => rt::fail(&format!("malformed: {}", e), format!("{} is encoded as {} ({})", show(m), hex(&b), e)),
        Ok(d) => {
            if d != *m {
                rt::fail("lossy", format!("{} is encoded as {}, which says {}", show(m), hex(&b), show(&d)))
            }
        }
    }
    match Message::decode_from_bytes(&b) {
        Err(e) => rt::fail("own decoder rejects", format!("{} is encoded as {} and rejected: {:?}", show(m), hex(&b), e)),
        Ok(d) => {
            if from_message(&d) != *m {
                rt::fail("round trip", format!("{} comes back as {}", show(m), show(&from_message(&d))))
            }
        }
    }
    rt::count(&format!("messages of {} bytes", (b.len() / 128) * 128));
    rt::sample(|| show(m));
}

fn names() -> Vec<Labels> {
    vec![vec![], nm("a."), nm("A-0.b."), vec![vec![b'q'; 63], vec![b'r'; 63]], corpus::name_of_len(254), corpus::name_of_len(255), vec![b"7".to_vec(); 127]]
}

fn datas() -> Vec<RData> {
    let mut v = corpus::rdatas();
    for n in names() {
        v.push(RData::Ns(n.clone()));
        v.push(RData::Cname(n.clone()));
        v.push(RData::Ptr(n.clone()));
        for p in [0, 255, 256, 65535] {
            v.push(RData::Mx(p, n.clone()));
        }
        for m in names() {
            v.push(RData::Soa(Soa { m: n.clone(), r: m, n: [0, 1 << 31, u32::MAX, 0x01020304, 0xff000000] }));
        }
    }
    for x in [[0; 4], [255; 4], [1, 2, 3, 4]] {
        v.push(RData::A(x));
    }
    let strings: Vec<Vec<u8>> = vec![vec![], b"x".to_vec(), b"a b\"c\\".to_vec(), "é".as_bytes().to_vec(), vec![b's'; 254], vec![b't'; 255]];
    for a in &strings {
        for b in &strings {
            v.push(RData::Hinfo(a.clone(), b.clone()));
            v.push(RData::Txt(vec![a.clone(), b.clone()]));
            for c in &strings {
                v.push(RData::Txt(vec![a.clone(), b.clone(), c.clone()]));
            }
        }
        v.push(RData::Txt(vec![a.clone()]));
        v.push(RData::Txt(vec![a.clone(); 100]));
        // the longest data which fits 16 bits
        v.push(RData::Txt(vec![vec![b'u'; 255]; 255]));
        v.push(RData::Txt([vec![vec![b'u'; 255]; 255], vec![vec![b'v'; 254]]].concat()));
    }
    v
}

fn main() {
    let mut ck = Check::start("C03");
    let ds = datas();
    let ns = names();
    ck.pure("every header", opts(), || {
        let mut m = corpus::msg(*rt::pick_of(&[0, 1, 0x8000, 0xff00, 0xffff]));
        m.h.qr = rt::pick_bool();
        m.h.aa = rt::pick_bool();
        m.h.tc = rt::pick_bool();
        m.h.rd = rt::pick_bool();
        m.h.ra = rt::pick_bool();
        m.h.z = rt::pick(8) as u8;
        m.h.rcode = rt::pick(6) as u8;
        if rt::pick_bool() {
            m.q.push(corpus::q("a.", MX));
        }
        m.fix_counts();
        check(&m);
    });
    ck.pure("every kind of record", opts(), || {
        let mut m = corpus::msg(5);
        let d = rt::pick_of(&ds).clone();
        let owner = rt::pick_of(&ns).clone();
        let ttl = *rt::pick_of(&[0, 1, 255, 256, 65536, 1 << 31, u32::MAX]);
        let s = rt::pick(3);
        let twice = rt::pick_bool();
        let r = RR { owner, class: 1, ttl, data: d };
        m.s[s].push(r.clone());
        if twice {
            m.s[s].push(r);
        }
        m.fix_counts();
        check(&m);
    });
    ck.pure("every question", opts(), || {
        let mut m = corpus::msg(6);
        for _ in 0..rt::pick(3) {
            m.q.push(Q { name: rt::pick_of(&ns).clone(), qtype: *rt::pick_of(&SUPPORTED), class: 1 });
        }
        m.fix_counts();
        check(&m);
    });
    let few = corpus::rdatas();
    let max = ck.by(3, 4);
    ck.pure("every arrangement of a few records", opts(), || {
        let mut m = corpus::msg(7);
        if rt::pick_bool() {
            m.q.push(corpus::q("b.c.", A));
        }
        let mut left = max;
        for s in 0..3 {
            let n = rt::pick(left + 1);
            left -= n;
            for _ in 0..n {
                m.s[s].push(rr(rt::pick_of(&["a.b.", "b."]), 77, rt::pick_of(&few).clone()));
            }
        }
        m.fix_counts();
        check(&m);
    });
    ck.pure("section sizes", opts(), || {
        let mut m = corpus::msg(8);
        let sizes = [0usize, 1, 255, 256, 300];
        for _ in 0..*rt::pick_of(&sizes) {
            m.q.push(corpus::q("a.", A));
        }
        for s in 0..3 {
            for i in 0..*rt::pick_of(&sizes) {
                m.s[s].push(rr("b.", i as u32, a([s as u8, 0, (i >> 8) as u8, i as u8])));
            }
        }
        m.fix_counts();
        check(&m);
    });
    ck.pure("very large sections", opts(), || {
        let mut m = corpus::msg(8);
        let n = *rt::pick_of(&[511usize, 512, 1023, 1024, 1025, 2047, 2048, 4096, 16383, 16384, 32767, 32768, 65535]);
        match rt::pick(4) {
            3 => m.q.extend((0..n).map(|_| corpus::q("a.", A))),
            s => m.s[s].extend((0..n).map(|i| rr("b.", i as u32, a([s as u8, 0, (i >> 8) as u8, i as u8])))),
        }
        m.fix_counts();
        check(&m);
    });
    ck.pure("every small set of ports", opts(), || {
        let mut ports: Vec<u32> = vec![];
        for p in [0, 1, 7, 8, 9, 15, 16, 53, 255, 256, 1023, 65528, 65535] {
            if rt::pick_bool() {
                ports.push(p);
            }
        }
        let mut m = corpus::msg(9);
        m.s[0].push(rr("w.", 1, RData::Wks([1, 2, 3, 4], *rt::pick_of(&[0, 6, 255]), ports.clone())));
        m.fix_counts();
        check(&m);
        // the order in which ports are listed does not matter
        let dup = rt::pick(4);
        if dup > 0 {
            // ... nor how often a port is listed
            if dup > 1 && !ports.is_empty() {
                let again = if dup == 2 { ports[0] } else { *ports.last().unwrap() };
                ports.push(again);
            } else {
                ports.reverse();
            }
            let mut e = Enc::new(false);
            e.rr(&m.s[0][0]);
            let mut rev = to_message(&m);
            if let Record::WKS { ports: p, .. } = &mut rev.answers[0] {
                *p = ports;
            }
            let b = rev.encode_to_bytes().unwrap();
            match decode_strict(&b) {
                Ok(d) if d == m => {}
                r => rt::fail("ports order", format!("ports of {} in reverse order: {:?}", show(&m), r.map(|m| show(&m)))),
            }
        }
    });
    ck.pure("pieces encoded on their own", opts(), || {
        // Question and Record encode the same way on their own
        use ariadne_dns::shared::buffer::BitsBuf;
        let d = rt::pick_of(&ds).clone();
        let r = RR { owner: rt::pick_of(&ns).clone(), class: 1, ttl: 9, data: d };
        let mut buf = BitsBuf::new();
        to_record(&r).encode_to_buf(&mut buf).unwrap();
        let b = buf.into_vec();
        match Record::decode_from_bytes(&b) {
            Ok(x) if from_record(&x) == r => {}
            x => rt::fail("record", format!("{} becomes {:?}", show_rr(&r), x)),
        }
        let q = Question { node: to_name(&r.owner), record_type: rtype_of(*rt::pick_of(&SUPPORTED)), class: ariadne_dns::shared::dns::Class::IN };
        let mut buf = BitsBuf::new();
        q.encode_to_buf(&mut buf).unwrap();
        let b = buf.into_vec();
        match Question::decode_from_bytes(&b) {
            Ok(x) if x.node == q.node && x.record_type == q.record_type => {}
            x => rt::fail("question", format!("{:?} becomes {:?}", q, x)),
        }
        let h = Header { id: 77, ..Default::default() };
        let mut buf = BitsBuf::new();
        h.encode_to_buf(&mut buf);
        match Header::decode_from_bytes(&buf.into_vec()) {
            Ok(x) if from_header(&x) == from_header(&h) => {}
            x => rt::fail("header", format!("{:?} becomes {:?}", h, x)),
        }
    });
    ck.finish()
}
