//! C06: the bit buffer against a plain list of bits.
use ariadne_dns::shared::buffer::BitsBuf;
use checks::{opts, rt, Check};
use vstd::mc;

#[derive(Clone, Hash, Debug)]
struct Model {
    bits: Vec<bool>,
    r: usize,
    w: usize,
}
impl Model {
    fn write(&mut self, v: u64, n: usize) {
        for i in (0..n).rev() {
            let b = (v >> i) & 1 == 1;
            if self.w < self.bits.len() {
                self.bits[self.w] = b
            } else {
                self.bits.push(b)
            }
            self.w += 1;
        }
    }
    fn read(&mut self, n: usize) -> Option<u64> {
        if self.r + n > self.bits.len() {
            return None;
        }
        let mut v = 0;
        for _ in 0..n {
            v = v * 2 + self.bits[self.r] as u64;
            self.r += 1;
        }
        Some(v)
    }
    fn bytes(&self) -> Vec<u8> {
        let mut v = vec![0u8; (self.bits.len() + 7) / 8];
        for (i, b) in self.bits.iter().enumerate() {
            if *b {
                v[i / 8] |= 0x80 >> (i % 8)
            }
        }
        v
    }
}

fn eq<T: PartialEq + std::fmt::Debug>(op: &str, got: T, want: T) {
    if got != want {
        rt::fail(&op.split(' ').next().unwrap().to_string(), format!("{}: got {:?}, expected {:?}", op, got, want));
    }
}

fn positions(last: usize) -> Vec<usize> {
    let mut v: Vec<usize> = [0, 1, 3, 7, 8, 9, 12, 15, 16, 17, last.saturating_sub(9), last.saturating_sub(8), last.saturating_sub(1), last]
        .into_iter()
        .filter(|p| *p <= last)
        .collect();
    v.sort();
    v.dedup();
    v
}

fn step(b: &mut BitsBuf, m: &mut Model, widths: &[u8], log: &mut String) {
    let op = rt::pick(9);
    let name;
    match op {
        0 => {
            let n = *rt::pick_of(widths);
            let v = *rt::pick_of(&[0xffu8, 0x00, 0xa5]);
            name = format!("write_bits({:#x}, {})", v, n);
            b.write_bits(v, n);
            m.write(v as u64 & ((1 << n) - 1), n as usize);
        }
        1 => {
            let n = *rt::pick_of(widths);
            name = format!("read_bits({})", n);
            eq(&name, b.read_bits(n).map(|x| x as u64), m.read(n as usize));
        }
        2 => {
            let p = *rt::pick_of(&positions(m.bits.len()));
            name = format!("set_read_pos({})", p);
            b.set_read_pos(p);
            m.r = p;
        }
        3 => {
            let p = *rt::pick_of(&positions(m.bits.len()));
            name = format!("set_write_pos({})", p);
            b.set_write_pos(p);
            m.w = p;
        }
        4 => {
            let mut ps = positions(m.bits.len());
            ps.push(m.bits.len() + 5);
            let p = *rt::pick_of(&ps);
            name = format!("truncate({})", p);
            b.truncate(p);
            if p < m.bits.len() {
                m.bits.truncate(p);
                m.r = m.r.min(p);
                m.w = m.w.min(p);
            }
        }
        5 => match rt::pick(4) {
            0 => {
                name = "write_u8".into();
                b.write_u8(0x5a);
                m.write(0x5a, 8);
            }
            1 => {
                name = "write_u16".into();
                b.write_u16(0x8001);
                m.write(0x8001, 16);
            }
            2 => {
                name = "write_u32".into();
                b.write_u32(0xdeadbeef);
                m.write(0xdeadbeef, 32);
            }
            _ => {
                name = "write_bytes".into();
                b.write_bytes(&[0xff, 0x01, 0x80]);
                m.write(0xff0180, 24);
            }
        },
        6 => match rt::pick(3) {
            0 => {
                name = "read_u8".into();
                eq(&name, b.read_u8().map(|x| x as u64), m.read(8));
            }
            1 => {
                name = "read_u16".into();
                eq(&name, b.read_u16().map(|x| x as u64), m.read(16));
            }
            _ => {
                name = "read_u32".into();
                eq(&name, b.read_u32().map(|x| x as u64), m.read(32));
            }
        },
        7 => {
            name = "read_bytes::<3>".into();
            let got = b.read_bytes::<3>().map(|x| x.iter().fold(0u64, |a, b| a * 256 + *b as u64));
            eq(&name, got, m.read(24));
        }
        _ => {
            let n = *rt::pick_of(&[0usize, 1, 2, 5]);
            name = format!("read_bytes_vec({})", n);
            let got = b.read_bytes_vec(n);
            eq(&format!("{} length", name), got.as_ref().map(|v| v.len()), if m.r + 8 * n <= m.bits.len() { Some(n) } else { None });
            eq(&name, got.map(|x| x.iter().fold(0u64, |a, b| a * 256 + *b as u64)), m.read(8 * n));
        }
    }
    log.push_str(&name);
    log.push_str("; ");
    mc::note(|| log.clone());
    eq(&format!("read_pos after {}", log), b.read_pos(), m.r);
    eq(&format!("write_pos after {}", log), b.write_pos(), m.w);
    rt::state(rt::hash_of(m));
}

fn finish(mut b: BitsBuf, m: &Model, log: &str) {
    b.set_read_pos(0);
    for (i, want) in m.bits.iter().enumerate() {
        eq(&format!("contents: bit {} after {}", i, log), b.read_bits(1), Some(*want as u8));
    }
    eq(&format!("end after {}", log), b.read_bits(1), None);
    eq(&format!("into_vec after {}", log), b.into_vec(), m.bytes());
    rt::sample(|| log.to_string());
}

fn start() -> (BitsBuf, Model, String) {
    let init: &[&[u8]] = &[&[], &[0xc3], &[0x00, 0xff], &[0xa5, 0x5a, 0x99]];
    let k = rt::pick(init.len() + 1);
    if k == 0 {
        return (BitsBuf::new(), Model { bits: vec![], r: 0, w: 0 }, "new; ".into());
    }
    let b = init[k - 1];
    let bits: Vec<bool> = b.iter().flat_map(|x| (0..8).rev().map(move |i| (x >> i) & 1 == 1)).collect();
    let n = bits.len();
    (BitsBuf::from_raw_bytes(b), Model { bits, r: 0, w: n }, format!("from {:02x?}; ", b))
}

fn main() {
    let mut ck = Check::start("C06");
    let all: Vec<u8> = (1..=8).collect();
    let d = ck.by(3, 4);
    ck.pure("every operation sequence, all widths", opts().cap(600.0), || {
        let (mut b, mut m, mut log) = start();
        for _ in 0..d {
            step(&mut b, &mut m, &all, &mut log);
        }
        finish(b, &m, &log);
    });
    let d = ck.by(4, 5);
    ck.pure("longer operation sequences, a few widths", opts().cap(600.0), || {
        let (mut b, mut m, mut log) = start();
        for _ in 0..d {
            step(&mut b, &mut m, &[3, 8], &mut log);
        }
        finish(b, &m, &log);
    });
    // every cursor offset x width x previous contents, over the whole width of two bytes
    ck.pure("every overwrite at every offset", opts(), || {
        let old = *rt::pick_of(&[0x00u8, 0xff, 0x5a]);
        let at = rt::pick(24);
        let n = 1 + rt::pick(8) as u8;
        let v = rt::pick(256) as u8;
        let mut b = BitsBuf::from_raw_bytes(&[old, old, old]);
        let bits: Vec<bool> = (0..24).map(|i| (old >> (7 - i % 8)) & 1 == 1).collect();
        let mut m = Model { bits, r: 0, w: at };
        b.set_write_pos(at);
        b.write_bits(v, n);
        m.write(v as u64 & ((1 << n) - 1), n as usize);
        eq("write_pos", b.write_pos(), m.w);
        let back = rt::pick(2);
        if back == 1 {
            b.set_read_pos(at);
            m.r = at;
            eq("read_bits back", b.read_bits(n).map(|x| x as u64), m.read(n as usize));
        }
        finish(b, &m, &format!("{:02x} at {} width {} value {:02x}", old, at, n, v));
    });
    // lengths around the limits of counters
    ck.pure("large buffers", opts(), || {
        let n = *rt::pick_of(&[31usize, 32, 33, 63, 64, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 4096, 8191, 8192, 8193, 16384, 65535, 65536, 65537]);
        let w = 1 + rt::pick(8) as u8;
        let how = rt::pick(4);
        let at = 8 * n - rt::pick(10);
        let bytes: Vec<u8> = (0..n).map(|i| (i * 37 + i / 256) as u8).collect();
        let log = format!("{} bytes, width {}, {} at bit {}", n, w, ["write", "read", "cut and write", "grow"][how], at);
        let bits = |b: &[u8]| -> Vec<bool> { b.iter().flat_map(|x| (0..8).rev().map(move |i| (x >> i) & 1 == 1)).collect() };
        let mut b = BitsBuf::from_raw_bytes(&bytes);
        let mut m = Model { bits: bits(&bytes), r: 0, w: 8 * n };
        match how {
            0 => {
                b.set_write_pos(at);
                m.w = at;
                b.write_bits(0xa7, w);
                m.write(0xa7 & ((1 << w) - 1), w as usize);
            }
            1 => {
                b.set_read_pos(at);
                m.r = at;
                for _ in 0..3 {
                    eq("read_bits", b.read_bits(w).map(|x| x as u64), m.read(w as usize));
                }
            }
            2 => {
                b.set_write_pos(at);
                b.truncate(at);
                m.w = at;
                m.bits.truncate(at);
                m.r = m.r.min(at);
                b.write_bits(0x5a, w);
                m.write(0x5a & ((1 << w) - 1), w as usize);
            }
            _ => {
                b = BitsBuf::new();
                m = Model { bits: vec![], r: 0, w: 0 };
                let mut i = 0usize;
                while m.w < at {
                    b.write_bits(i as u8, w);
                    m.write((i as u8) as u64 & ((1u64 << w) - 1), w as usize);
                    i += 1;
                }
            }
        }
        eq("write_pos", b.write_pos(), m.w);
        mc::alive();
        finish(b, &m, &log);
    });
    let lens = [0usize, 1, 31, 32, 33, 127, 128, 255, 256, 257, 511, 512, 513, 1024, 4095, 4096, 4097, 8192, 16384, 65534, 65535, 65536, 65537];
    ck.pure("many bytes at once", opts(), || {
        let n = *rt::pick_of(&lens);
        let off = rt::pick(10);
        let long: Vec<u8> = (0..70_000usize).map(|i| (i * 37 + i / 256) as u8).collect();
        let bit = |i: usize| (long[i / 8] >> (7 - i % 8)) & 1;
        let byte = |at: usize| (0..8).fold(0u8, |v, i| v * 2 + bit(at + i));
        let log = format!("{} bytes at bit {}", n, off);
        let what = rt::pick(3);
        if what < 2 {
            // reading, with and without room
            let have = if what == 0 { long.len() } else { n + 1 };
            let mut b = BitsBuf::from_raw_bytes(&long[..have]);
            let off = off.min(8 * have);
            b.set_read_pos(off);
            let fits = off + 8 * n <= 8 * have;
            let got = b.read_bytes_vec(n);
            let want: Option<Vec<u8>> = if fits { Some((0..n).map(|i| byte(off + 8 * i)).collect()) } else { None };
            if got != want {
                rt::fail("read_bytes_vec", format!("{} of {}: {:?} bytes instead of {:?}, or other ones", log, have, got.map(|v| v.len()), want.map(|v| v.len())));
            }
            if fits {
                eq("read_pos", b.read_pos(), off + 8 * n);
                if off + 8 * n + 8 <= 8 * have {
                    eq("read_u8 behind", b.read_u8(), Some(byte(off + 8 * n)));
                }
            }
            eq("write_pos", b.write_pos(), 8 * have);
        } else {
            // writing behind `off` bits
            let mut b = BitsBuf::new();
            for i in 0..off {
                b.write_bits((i & 1) as u8, 1);
            }
            b.write_bytes(&long[..n]);
            eq("write_pos", b.write_pos(), off + 8 * n);
            b.set_read_pos(off);
            for i in 0..n {
                if b.read_u8() != Some(long[i]) {
                    rt::fail("write_bytes", format!("{}: byte {} is wrong", log, i));
                }
            }
            b.set_read_pos(0);
            for i in 0..off {
                eq("read_bits before", b.read_bits(1), Some((i & 1) as u8));
            }
            eq("length", b.into_vec().len(), (off + 8 * n + 7) / 8);
        }
        mc::alive();
        rt::sample(|| log.clone());
    });
    ck.pure("cursors beyond the end", opts(), || {
        // documented to panic; nothing else may change
        let n = rt::pick(4);
        let mut b = BitsBuf::from_raw_bytes(&vec![0xabu8; n]);
        let over = 1 + rt::pick(9);
        let w = rt::pick_bool();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if w { b.set_write_pos(8 * n + over) } else { b.set_read_pos(8 * n + over) }));
        if r.is_ok() {
            rt::fail("cursor", format!("a cursor was set {} bits beyond the end", over));
        }
        eq("cursors", (b.read_pos(), b.write_pos()), (0, 8 * n));
    });
    ck.finish()
}
