//! The byte strings on which decoding is checked (C01: totality, C02: fidelity).
use crate::wire::*;
use crate::{corpus, opts, rt, Check};
use ariadne_dns::shared::dns::{Header, Message, Question, Record};
use vstd::mc;

/// Memory a single decode may hold at once.
const MEM_LIMIT: u64 = 256;

fn totality(b: &[u8]) {
    mc::note_bytes(b);
    let _ = Message::decode_from_bytes(b);
    let _ = Header::decode_from_bytes(b);
    if b.len() > 12 {
        let _ = Question::decode_from_bytes(&b[12..]);
        let _ = Record::decode_from_bytes(&b[12..]);
    }
}

fn fidelity(b: &[u8]) {
    mc::note_bytes(b);
    let want = decode(b);
    let got = Message::decode_from_bytes(b);
    match (&want.verdict, &got) {
        (Verdict::Bad(why), Ok(m)) => rt::fail(
            &format!("accepts:{}", why),
            format!("a malformed message ({}) is accepted: {} decoded as {}", why, hex(b), show(&from_message(m))),
        ),
        (Verdict::Unsupported(why), Ok(m)) => rt::fail(
            &format!("accepts-unsupported:{}", why),
            format!("unsupported {} is accepted: {} decoded as {}", why, hex(b), show(&from_message(m))),
        ),
        (Verdict::Good, Err(e)) if want.trailing == 0 => rt::fail(
            &format!("rejects:{}", format!("{:?}", e).chars().take(40).collect::<String>()),
            format!("a well-formed message is rejected with {:?}: {} which says {}", e, hex(b), show(&want.msg)),
        ),
        (_, Ok(m)) => {
            let g = from_message(m);
            if g != want.msg {
                rt::fail("differs", format!("{} says {} but is decoded as {}", hex(b), show(&want.msg), show(&g)));
            }
            rt::count("accepted");
        }
        (v, Err(_)) => rt::count(match v {
            Verdict::Bad(_) => "malformed, rejected",
            Verdict::Unsupported(_) => "unsupported, rejected",
            _ => "open, rejected",
        }),
    }
    // the header decoder on its own
    match (&want.header, Header::decode_from_bytes(b)) {
        (None, Ok(_)) => rt::fail("header", format!("a header is read from {}", hex(b))),
        (Some(h), Ok(g)) => {
            if from_header(&g) != *h {
                rt::fail("header", format!("header of {} is read as {:?}", hex(b), g))
            }
        }
        (Some(h), Err(e)) => {
            if h.opcode <= 2 && h.rcode <= 5 {
                rt::fail("header", format!("header of {} is rejected: {:?}", hex(b), e))
            }
        }
        (None, Err(_)) => {}
    }
}

fn query_with(rest: &[u8], counts: [u16; 4]) -> Vec<u8> {
    let mut v = vec![0xab, 0xcd, 0x01, 0x00];
    for c in counts {
        v.extend_from_slice(&c.to_be_bytes());
    }
    v.extend_from_slice(rest);
    v
}

pub fn run(id: &str) {
    let mut ck = Check::start(id);
    let test: fn(&[u8]) = if id == "C01" { totality } else { fidelity };
    let o = || opts().mem(MEM_LIMIT).cap(400.0);
    let msgs = corpus::messages();
    let big = corpus::big_messages();
    let all: Vec<(String, Vec<u8>)> = msgs.iter().chain(big.iter()).cloned().collect();

    ck.pure("corpus and every truncation", o(), || {
        let (n, b) = rt::pick_of(&all);
        let keep = b.len() - rt::pick(b.len() + 1);
        rt::sample(|| format!("{}: {} of {} bytes", n, keep, b.len()));
        test(&b[..keep]);
    });

    let quick = !ck.thorough();
    ck.pure("every single-byte change", o(), || {
        let (n, b) = rt::pick_of(&all);
        let i = rt::pick(b.len());
        let v = if quick && b.len() > 300 { *rt::pick_of(&[0u8, 1, 2, 0x3f, 0x40, 0x41, 0x80, 0xbf, 0xc0, 0xfe, 0xff]) } else { rt::pick(256) as u8 };
        let mut b = b.clone();
        b[i] = v;
        rt::sample(|| format!("{}: byte {} = {}", n, i, v));
        test(&b);
    });

    ck.pure("every removal or insertion of up to two bytes", o(), || {
        let (n, b) = rt::pick_of(&all);
        let i = rt::pick(b.len());
        let mut b = b.clone();
        match rt::pick(7) {
            0 => {
                b.remove(i);
            }
            1 => {
                let e = (i + 2).min(b.len());
                b.drain(i..e);
            }
            k => b.insert(i, [0, 1, 0xc0, b'a', 0xff][k - 2]),
        }
        rt::sample(|| format!("{}: shifted at {}", n, i));
        test(&b);
    });

    // two bytes at once, from values which matter to the grammar
    let vals: Vec<u8> = ck.by(vec![0, 1, 0x0c, 0x40, 0xc0, 0xff], vec![0, 1, 2, 3, 5, 6, 11, 12, 16, 28, 0x2d, 0x2e, 0x3f, 0x40, 0x80, 0xc0, 0xff]);
    ck.pure("every pair of byte changes", o(), || {
        let (n, b) = rt::pick_of(&msgs);
        let i = rt::pick(b.len());
        let j = rt::pick(b.len());
        if j <= i {
            rt::prune();
        }
        let mut b = b.clone();
        b[i] = *rt::pick_of(&vals);
        b[j] = *rt::pick_of(&vals);
        rt::sample(|| format!("{}: bytes {} and {}", n, i, j));
        test(&b);
    });

    ck.pure("every header", o(), || {
        let flags = rt::pick(65536) as u16;
        let body = rt::pick(3);
        let mut b = match body {
            0 => vec![],
            1 => query_with(&query(0, "w.x.", A)[12..], [1, 0, 0, 0]),
            _ => query_with(&query(0, "w.x.", 28)[12..], [1, 0, 0, 0]),
        };
        if b.is_empty() {
            b = query_with(&[], [0; 4]);
        }
        b[2..4].copy_from_slice(&flags.to_be_bytes());
        rt::sample(|| format!("flags {:04x}", flags));
        test(&b);
    });

    // section counts which do not match the contents
    let items: Vec<Vec<u8>> = {
        let mut e = vec![];
        for d in [a([1, 2, 3, 4]), RData::Other(28, vec![0; 3]), txts(&["x"])] {
            let mut enc = Enc::new(false);
            enc.rr(&rr("a.", 5, d));
            e.push(enc.out);
        }
        e
    };
    ck.pure("every combination of section counts", o(), || {
        let mut counts = [0u16; 4];
        for c in counts.iter_mut() {
            *c = *rt::pick_of(&[0, 1, 2, 3, 65535]);
        }
        let mut rest = vec![];
        for _ in 0..rt::pick(3) {
            rest.extend_from_slice(&query(0, "a.", *rt::pick_of(&[A, 28]))[12..]);
        }
        for _ in 0..rt::pick(4) {
            rest.extend_from_slice(rt::pick_of(&items));
        }
        let b = query_with(&rest, counts);
        rt::sample(|| format!("counts {:?}, {} bytes", counts, b.len()));
        test(&b);
    });

    // every record data length, for every type, with exactly matching, too few and too many bytes
    let lens: Vec<usize> = if ck.thorough() {
        (0..65536).collect()
    } else {
        // all short ones, and all around the multiples of 1024
        (0..65536).filter(|l| *l < 600 || l % 1024 < 8 || l % 1024 > 1018).collect()
    };
    ck.pure("every record data length", o(), || {
        let ds = corpus::rdatas();
        let d = rt::pick_of(&ds);
        let len = *rt::pick_of(&lens);
        let avail = rt::pick(4);
        let mut e = Enc::new(false);
        e.rr(&rr("a.", 5, d.clone()));
        let true_len = e.out.len() - 13;
        if avail == 1 && len > 3 * true_len {
            rt::prune();
        }
        let mut rest = e.out;
        rest[11..13].copy_from_slice(&(len as u16).to_be_bytes());
        match avail {
            // what the sender meant to write
            0 => {}
            // exactly as many bytes as claimed: the data is cut or padded with zeroes
            1 => rest.resize(13 + len, 0),
            // padded with single-letter strings
            2 => {
                while rest.len() < 13 + len {
                    rest.push(1);
                    rest.push(b'k');
                }
                rest.truncate((13 + len).max(0));
            }
            // more bytes than claimed
            _ => {
                rest.truncate(13 + true_len.min(len + 1));
                rest.resize(13 + len + 40, b'z');
            }
        }
        let b = query_with(&rest, [0, 1, 0, 0]);
        rt::sample(|| format!("{} with data length {} and {} bytes", type_name(d.rtype()), len, b.len()));
        test(&b);
    });

    // WKS bitmaps and TXT layouts in detail
    ck.pure("every short WKS bitmap", o(), || {
        let n = rt::pick(3);
        let mut rest = vec![1, b'a', 0, 0, 11, 0, 1, 0, 0, 0, 9];
        rest.extend_from_slice(&(5 + n as u16).to_be_bytes());
        rest.extend_from_slice(&[1, 2, 3, 4, 17]);
        for _ in 0..n {
            rest.push(rt::pick(256) as u8);
        }
        let b = query_with(&rest, [0, 1, 0, 0]);
        rt::sample(|| hex(&b));
        test(&b);
    });
    let alpha: &[u8] = &[0, 1, 2, 3, b'a', 0x80, 0xc3, 0xff];
    let maxlen = ck.by(5, 6);
    for t in [TXT, HINFO] {
        ck.pure(&format!("every short {} record data", type_name(t)), o(), || {
            let n = rt::pick(maxlen + 1);
            let len = rt::pick(maxlen + 2);
            let mut rest = vec![1, b'a', 0, 0, t as u8, 0, 1, 0, 0, 0, 9];
            rest.extend_from_slice(&(len as u16).to_be_bytes());
            for _ in 0..n {
                rest.push(*rt::pick_of(alpha));
            }
            let b = query_with(&rest, [0, 1, 0, 0]);
            rt::sample(|| hex(&b));
            test(&b);
        });
    }

    // names: every short byte string in the place of a question's name
    let alpha: Vec<u8> = ck.by(vec![0, 1, 2, 0x40, 0x80, 0xc0, 12, 13, b'a', b'-', b'.', 0xff], vec![0, 1, 2, 3, 0x3f, 0x40, 0x80, 0xc0, 11, 12, 13, 14, b'a', b'-', b'.', b'_', 0xc3, 0xff]);
    let n = 5;
    ck.pure("every short name", o(), || {
        let k = rt::pick(n + 1);
        let mut rest: Vec<u8> = (0..k).map(|_| *rt::pick_of(&alpha)).collect();
        match rt::pick(3) {
            0 => {}
            1 => rest.extend_from_slice(&[0, 1, 0, 1]),
            _ => rest.extend_from_slice(&[0, 0, 1, 0, 1]),
        }
        let b = query_with(&rest, [1, 0, 0, 0]);
        rt::sample(|| hex(&b));
        test(&b);
    });
    // every octet as a label's first, middle and last character, and as a label on its own
    ck.pure("every character in a label", o(), || {
        let c = rt::pick(256) as u8;
        let d = rt::pick(256) as u8;
        let rest = match rt::pick(4) {
            0 => vec![1, c, 1, d, 0, 0, 1, 0, 1],
            1 => vec![3, c, b'a', d, 0, 0, 1, 0, 1],
            2 => vec![4, b'a', c, d, b'b', 0, 0, 1, 0, 1],
            _ => vec![2, c, d, 1, b'x', 0, 0, 1, 0, 1],
        };
        let b = query_with(&rest, [1, 0, 0, 0]);
        rt::sample(|| hex(&b));
        test(&b);
    });
    ck.pure("every label and name length", o(), || {
        // `k` labels of length `l` and one of length `m`
        let l = rt::pick(65);
        let m = rt::pick(65);
        let k = rt::pick(if l == 0 { 2 } else { 260 / (l + 1) + 2 });
        let mut rest = vec![];
        for _ in 0..k {
            rest.push(l as u8);
            rest.resize(rest.len() + l, b'n');
        }
        rest.push(m as u8);
        rest.resize(rest.len() + m, b'm');
        rest.extend_from_slice(&[0, 0, 1, 0, 1]);
        let b = query_with(&rest, [1, 0, 0, 0]);
        rt::sample(|| format!("{} labels of {} and one of {}", k, l, m));
        test(&b);
    });

    // pointers: every target, in messages of several sizes
    ck.pure("every pointer target", o(), || {
        let size = *rt::pick_of(&[40usize, 300, 8190, 8200, 16300, 16420, 20000]);
        let target = rt::pick(16384);
        let kind = rt::pick(3);
        if kind == 2 && target > 60 && target < 8180 {
            rt::prune();
        }
        // header, a question with the pointer, an unknown record used as filler, holding names
        let mut rest = vec![0xc0 | (target >> 8) as u8, target as u8, 0, 1, 0, 1];
        rest.extend_from_slice(&[0, 0, 99, 0, 1, 0, 0, 0, 0]);
        let fill = size - 12 - rest.len() - 2;
        rest.extend_from_slice(&(fill as u16).to_be_bytes());
        let unit: &[u8] = match kind {
            0 => &[1, b'a', 1, b'b', 0],
            1 => &[0],
            _ => &[2, b'p', b'q', 0xc0, 31, 0],
        };
        for i in 0..fill {
            rest.push(unit[i % unit.len()]);
        }
        let b = query_with(&rest, [1, 0, 0, 1]);
        rt::sample(|| format!("pointer to {} in {} bytes", target, b.len()));
        test(&b);
    });
    ck.pure("every pointer graph over a few slots", o(), || {
        // four slots, each `label + pointer`, `pointer` or `label + end`; the question points to slot 0
        let n = rt::pick(4) + 1;
        let mut rest = vec![0xc0, 33, 0, 1, 0, 1, 0, 0, 99, 0, 1, 0, 0, 0, 0];
        let mut fill = vec![];
        let base = 12 + rest.len() + 2;
        for i in 0..n {
            match rt::pick(2 + 2 * (n + 1)) {
                0 => fill.extend_from_slice(&[1, b'a' + i as u8, 0, 0]),
                1 => fill.extend_from_slice(&[0, 0, 0, 0]),
                k => {
                    let t = base + 4 * ((k - 2) / 2);
                    if k % 2 == 0 {
                        fill.extend_from_slice(&[1, b'a' + i as u8, 0xc0, t as u8])
                    } else {
                        fill.extend_from_slice(&[0xc0, t as u8, 0xc0, t as u8])
                    }
                }
            }
        }
        rest[1] = base as u8;
        rest.extend_from_slice(&(fill.len() as u16).to_be_bytes());
        rest.extend_from_slice(&fill);
        let b = query_with(&rest, [1, 0, 0, 1]);
        rt::sample(|| hex(&b));
        test(&b);
    });
    ck.pure("backward pointer chains of every length", o(), || {
        let n = rt::pick(130);
        let labels = rt::pick_bool();
        let mut rest = vec![];
        let mut fill: Vec<u8> = vec![1, b'z', 0];
        let base = 12 + 11;
        let mut last = base;
        for _ in 0..n {
            let at = base + fill.len();
            if labels {
                fill.extend_from_slice(&[1, b'a']);
            }
            fill.extend_from_slice(&[0xc0 | (last >> 8) as u8, last as u8]);
            last = at;
        }
        rest.extend_from_slice(&[0, 0, 99, 0, 1, 0, 0, 0, 0]);
        rest.extend_from_slice(&(fill.len() as u16).to_be_bytes());
        rest.extend_from_slice(&fill);
        // an A record owned by the end of the chain
        rest.extend_from_slice(&[0xc0 | (last >> 8) as u8, last as u8, 0, 1, 0, 1, 0, 0, 0, 7, 0, 4, 1, 2, 3, 4]);
        let b = query_with(&rest, [0, 2, 0, 0]);
        rt::sample(|| format!("chain of {}", n));
        test(&b);
    });
    ck.pure("many records", o(), || {
        let item: &[&[u8]] = &[
            &[0, 0, 1, 0, 1],
            &[0, 0, 1, 0, 1, 0, 0, 0, 9, 0, 4, 1, 2, 3, 4],
            &[0, 0, 99, 0, 1, 0, 0, 0, 9, 0, 0],
            &[0, 0, 2, 0, 1, 0, 0, 0, 9, 0, 1, 0],
        ];
        let s = rt::pick(4);
        let it = if s == 0 { item[0] } else { item[1 + rt::pick(3)] };
        let max = (65535 - 12 - it.len()) / it.len();
        let n = (*rt::pick_of(&[9usize, 63, 99, 127, 200, 255, 256, 257, 500, 511, 512, 999, 1000, 1001, 1023, 1024, 2000, 2047, 2048, 4096, 5000, 8192, 13000])).min(max);
        let mut rest = vec![];
        for _ in 0..n {
            rest.extend_from_slice(it);
        }
        let mut counts = [0u16; 4];
        counts[s] = n as u16;
        let how = rt::pick(6);
        match how {
            0 => {}
            // one more or one less than there are
            1 => counts[s] += 1,
            2 => counts[s] -= 1,
            // cut short
            3 => rest.truncate(rest.len() - 1),
            // a last one of another kind
            4 => {
                rest.extend_from_slice(if s == 0 { &[1, b'a', 0, 0, 28, 0, 1] } else { &[1, b'a', 0, 0, 1, 0, 1, 0, 0, 0, 7, 0, 4, 4, 3, 2, 1] });
                counts[s] += 1;
            }
            // ... in the next section
            _ => {
                if s == 3 {
                    rt::prune();
                }
                rest.extend_from_slice(&[1, b'a', 0, 0, 1, 0, 1, 0, 0, 0, 7, 0, 4, 4, 3, 2, 1]);
                counts[s + 1] += 1;
            }
        }
        let b = query_with(&rest, counts);
        rt::sample(|| format!("{} of {:?} in section {}, variant {}", n, it, s, how));
        test(&b);
    });
    // names in record data, compressed against anything before them
    ck.pure("compressed names in every kind of record data", o(), || {
        let ds = corpus::rdatas();
        let d = rt::pick_of(&ds);
        let target = rt::pick(40);
        let off = rt::pick(3) as i32 - 1;
        let mut e = Enc::new(false);
        e.q(&corpus::q("ab.c.x.", A));
        let r = rr("x.", 5, d.clone());
        e.name(&r.owner);
        e.u16(d.rtype());
        e.u16(1);
        e.u32(5);
        let p = [0xc0, target as u8];
        let body: Vec<u8> = match d {
            RData::Ns(_) | RData::Cname(_) | RData::Ptr(_) => p.to_vec(),
            RData::Mx(..) => [vec![0, 3], vec![1, b'm'], p.to_vec()].concat(),
            RData::Soa(_) => [p.to_vec(), vec![2, b'h', b'm'], p.to_vec(), vec![7; 20]].concat(),
            _ => rt::prune(),
        };
        e.u16((body.len() as i32 + off) as u16);
        e.out.extend_from_slice(&body);
        let b = query_with(&e.out, [1, 1, 0, 0]);
        rt::sample(|| format!("{} pointing at {}", type_name(d.rtype()), target));
        test(&b);
    });
    if id == "C01" {
        ck.assume("one decode is given 256 MB of memory and 25 s of time before it counts as unbounded");
    } else {
        ck.assume("RFC 1035 does not settle forward pointers and messages with trailing bytes: either outcome is allowed, but an accepted message must say what its bytes say");
        ck.assume("character strings which are not UTF-8 and names with other characters than letters, digits and inner hyphens are not representable and must be rejected");
    }
    ck.finish()
}
