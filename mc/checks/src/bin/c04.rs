//! C04: the size-limited encoding.
use checks::wire::*;
use checks::{corpus, opts, rt, Check};
use vstd::mc;

/// The message with only the first `n` of its questions and records.
fn prefix(m: &Msg, n: usize) -> Msg {
    let mut left = n;
    let mut p = Msg { h: m.h.clone(), ..Default::default() };
    for q in m.q.iter().take(left) {
        p.q.push(q.clone());
    }
    left -= p.q.len();
    for s in 0..3 {
        for r in m.s[s].iter().take(left) {
            p.s[s].push(r.clone());
        }
        left -= p.s[s].len();
    }
    p.fix_counts();
    p
}

fn check(m: &Msg) {
    mc::note(|| show(m));
    let total = m.q.len() + m.s.iter().map(|s| s.len()).sum::<usize>();
    let size = |n: usize| to_message(&prefix(m, n)).encode_to_bytes().unwrap().len();
    let (mut lo, mut hi) = (0, total);
    while lo < hi {
        let mid = (lo + hi + 1) / 2;
        if size(mid) <= 512 {
            lo = mid
        } else {
            hi = mid - 1
        }
    }
    let mut want = prefix(m, lo);
    if lo < total {
        want.h.tc = true;
    }
    let b = match to_message(m).encode_to_bytes_trunc() {
        Ok(b) => b,
        Err(e) => rt::fail("encode error", format!("{:?} for {}", e, show(m))),
    };
    if b.len() > 512 {
        rt::fail("too long", format!("{} bytes for {}", b.len(), show(m)));
    }
    match decode_strict(&b) {
        Err(e) => rt::fail(&format!("malformed: {}", e), format!("{} of {}: {}", hex(&b), show(m), e)),
        Ok(d) => {
            if d != want {
                let f = if d.s != want.s || d.q != want.q {
                    "wrong records"
                } else if d.h.tc != want.h.tc {
                    "wrong truncation flag"
                } else {
                    "wrong header"
                };
                rt::fail(f, format!("{} should be cut to {} but is {}", show(m), show(&want), show(&d)));
            }
        }
    }
    rt::count(if lo == total { "complete" } else { "cut" });
    rt::count(&format!("cut in section {}", if lo < m.q.len() { 0 } else if lo < m.q.len() + m.s[0].len() { 1 } else if lo < m.q.len() + m.s[0].len() + m.s[1].len() { 2 } else if lo < total { 3 } else { 9 }));
    rt::sample(|| format!("{} bytes, {} of {} items", b.len(), lo, total));
}

/// A TXT record with `n` bytes of strings.
fn filler(owner: &str, n: usize) -> RR {
    let mut v = vec![];
    let mut left = n.max(1) - 1;
    loop {
        let l = left.min(255);
        v.push(vec![b'f'; l]);
        left -= l;
        if left == 0 {
            break;
        }
        left -= 1;
    }
    rr(owner, 1, RData::Txt(v))
}

fn main() {
    let mut ck = Check::start("C04");
    // one item of every size, at any place between small items
    ck.pure("a record of every size between small ones", opts(), || {
        let mut m = corpus::msg(3);
        m.h.qr = true;
        m.h.aa = true;
        m.h.tc = rt::pick_bool();
        for _ in 0..rt::pick(3) {
            m.q.push(corpus::q("q.x.", A));
        }
        let place = rt::pick(3);
        for s in 0..3 {
            for _ in 0..rt::pick(3) {
                m.s[s].push(rr("a.x.", 9, a([1, 2, 3, s as u8])));
            }
            if s == place {
                m.s[s].push(filler("f.", 1 + rt::pick(520)));
                if rt::pick_bool() {
                    m.s[s].push(rr(".", 9, a([1, 2, 3, 4])));
                }
            }
        }
        m.fix_counts();
        check(&m);
    });
    ck.pure("names of every length in up to four questions", opts(), || {
        let mut m = corpus::msg(4);
        let l = 3 + rt::pick(253);
        for _ in 0..rt::pick(5) {
            m.q.push(Q { name: corpus::name_of_len(l), qtype: TXT, class: 1 });
        }
        for s in 0..3 {
            for _ in 0..rt::pick(3) {
                m.s[s].push(rr("y.", 1, ns("z.")));
            }
        }
        m.fix_counts();
        check(&m);
    });
    // every record type straddling the limit
    let ds = corpus::rdatas();
    ck.pure("every type of record straddling the limit", opts(), || {
        let mut m = corpus::msg(5);
        m.q.push(corpus::q("q.x.", A));
        m.s[0].push(filler("f.", 380 + rt::pick(120)));
        let d = rt::pick_of(&ds).clone();
        let s = rt::pick(3);
        m.s[s].push(rr("a.b.", 1, d));
        if rt::pick_bool() {
            // a smaller record after the cut must not be taken
            m.s[2].push(rr(".", 1, a([0; 4])));
        }
        m.fix_counts();
        check(&m);
    });
    ck.pure("many small records", opts(), || {
        let mut m = corpus::msg(6);
        m.h.qr = true;
        let q = rt::pick(3);
        for _ in 0..q {
            m.q.push(corpus::q(*rt::pick_of(&["qq.", "q.x.y."]), A));
        }
        let step = rt::pick_of(&[(0usize, 9usize), (17, 3), (40, 11)]);
        for s in 0..3 {
            for i in 0..step.0 * (s % 2) + step.1 * rt::pick(5) {
                m.s[s].push(rr("b.", i as u32, a([s as u8, 0, 0, i as u8])));
            }
        }
        m.fix_counts();
        check(&m);
    });
    let sizes: Vec<usize> = ck.by(vec![1, 40, 150, 200, 233, 234, 235, 236, 400, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480], (1..520).step_by(7).collect());
    let three = ck.by(2, 3);
    ck.pure("several large records", opts(), || {
        let mut m = corpus::msg(7);
        m.q.push(corpus::q("q.", TXT));
        for _ in 0..three {
            let s = rt::pick(3);
            m.s[s].push(filler("f.", *rt::pick_of(&sizes)));
        }
        m.fix_counts();
        check(&m);
    });
    ck.pure("very large messages", opts(), || {
        let mut m = corpus::msg(8);
        m.q.push(corpus::q("q.", TXT));
        let n = *rt::pick_of(&[1usize, 40, 255, 256, 300, 2000]);
        let s = rt::pick(3);
        let d = rt::pick_of(&ds).clone();
        for _ in 0..n {
            m.s[s].push(rr("v.", 5, d.clone()));
        }
        m.fix_counts();
        check(&m);
    });
    ck.assume("sizes of prefixes are those of the full encoder, which C03 checks");
    ck.finish()
}
