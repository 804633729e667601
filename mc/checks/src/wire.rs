//! An independent reading of RFC 1035: message decoder and encoder used as the
//! oracle. Shares no code and no representation with the program.
use ariadne_dns::shared::dns;
use std::fmt::Write;

pub type Labels = Vec<Vec<u8>>;

pub const A: u16 = 1;
pub const NS: u16 = 2;
pub const CNAME: u16 = 5;
pub const SOA: u16 = 6;
pub const WKS: u16 = 11;
pub const PTR: u16 = 12;
pub const HINFO: u16 = 13;
pub const MX: u16 = 15;
pub const TXT: u16 = 16;
pub const SUPPORTED: [u16; 9] = [A, NS, CNAME, SOA, WKS, PTR, HINFO, MX, TXT];
/// Types named by RFC 1035 which the project documents as not supported.
pub const KNOWN_UNSUPPORTED: [u16; 11] = [3, 4, 7, 8, 9, 10, 14, 252, 253, 254, 255];

pub fn type_name(t: u16) -> String {
    match t {
        1 => "A".into(),
        2 => "NS".into(),
        5 => "CNAME".into(),
        6 => "SOA".into(),
        11 => "WKS".into(),
        12 => "PTR".into(),
        13 => "HINFO".into(),
        15 => "MX".into(),
        16 => "TXT".into(),
        t => format!("TYPE{}", t),
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Soa {
    pub m: Labels,
    pub r: Labels,
    pub n: [u32; 5],
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum RData {
    A([u8; 4]),
    Ns(Labels),
    Cname(Labels),
    Soa(Soa),
    /// ports in ascending order
    Wks([u8; 4], u8, Vec<u32>),
    Ptr(Labels),
    Hinfo(Vec<u8>, Vec<u8>),
    Mx(u16, Labels),
    Txt(Vec<Vec<u8>>),
    Other(u16, Vec<u8>),
}
impl RData {
    pub fn rtype(&self) -> u16 {
        match self {
            RData::A(_) => A,
            RData::Ns(_) => NS,
            RData::Cname(_) => CNAME,
            RData::Soa(_) => SOA,
            RData::Wks(..) => WKS,
            RData::Ptr(_) => PTR,
            RData::Hinfo(..) => HINFO,
            RData::Mx(..) => MX,
            RData::Txt(_) => TXT,
            RData::Other(t, _) => *t,
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct RR {
    pub owner: Labels,
    pub class: u16,
    pub ttl: u32,
    pub data: RData,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Q {
    pub name: Labels,
    pub qtype: u16,
    pub class: u16,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Hdr {
    pub id: u16,
    pub qr: bool,
    pub opcode: u8,
    pub aa: bool,
    pub tc: bool,
    pub rd: bool,
    pub ra: bool,
    pub z: u8,
    pub rcode: u8,
    pub counts: [u16; 4],
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Msg {
    pub h: Hdr,
    pub q: Vec<Q>,
    pub s: [Vec<RR>; 3],
}
impl Msg {
    pub fn an(&self) -> &Vec<RR> {
        &self.s[0]
    }
    pub fn ns(&self) -> &Vec<RR> {
        &self.s[1]
    }
    pub fn ar(&self) -> &Vec<RR> {
        &self.s[2]
    }
    pub fn fix_counts(&mut self) {
        self.h.counts = [self.q.len() as u16, self.s[0].len() as u16, self.s[1].len() as u16, self.s[2].len() as u16];
    }
    pub fn with_counts(mut self) -> Self {
        self.fix_counts();
        self
    }
    pub fn counts_match(&self) -> bool {
        self.h.counts == [self.q.len() as u16, self.s[0].len() as u16, self.s[1].len() as u16, self.s[2].len() as u16]
    }
}

// ------------------------------------------------------------------- names

/// Text to labels (no validation, '.' is the separator).
pub fn nm(s: &str) -> Labels {
    if s == "." {
        return vec![];
    }
    s.trim_end_matches('.').split('.').map(|l| l.as_bytes().to_vec()).collect()
}
pub fn txt(l: &Labels) -> String {
    if l.is_empty() {
        return ".".into();
    }
    let mut s = String::new();
    for x in l {
        for &c in x {
            if c.is_ascii_graphic() && c != b'.' {
                s.push(c as char)
            } else {
                write!(s, "\\{:03}", c).unwrap()
            }
        }
        s.push('.');
    }
    s
}
pub fn low(l: &Labels) -> Labels {
    l.iter().map(|x| x.to_ascii_lowercase()).collect()
}
pub fn name_eq(a: &Labels, b: &Labels) -> bool {
    low(a) == low(b)
}
/// Is `n` equal to or below `zone`?
pub fn within(n: &Labels, zone: &Labels) -> bool {
    n.len() >= zone.len() && low(&n[n.len() - zone.len()..].to_vec()) == low(zone)
}
pub fn wire_len(l: &Labels) -> usize {
    1 + l.iter().map(|x| x.len() + 1).sum::<usize>()
}
pub fn label_ok(l: &[u8]) -> bool {
    !l.is_empty()
        && l.len() <= 63
        && l.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'-')
        && l[0] != b'-'
        && l[l.len() - 1] != b'-'
}
/// The names this project accepts: letters, digits and inner hyphens.
pub fn name_ok(l: &Labels) -> bool {
    wire_len(l) <= 255 && l.iter().all(|x| label_ok(x))
}

/// The labels a text stands for, if it is a valid absolute name.
pub fn name_of_text(s: &str) -> Option<Labels> {
    if s == "." {
        return Some(vec![]);
    }
    let body = s.strip_suffix('.')?;
    let l: Labels = body.split('.').map(|x| x.as_bytes().to_vec()).collect();
    if name_ok(&l) {
        Some(l)
    } else {
        None
    }
}

// ------------------------------------------------------------------- decoder

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Verdict {
    /// structurally wrong, or a value which no supported message can carry
    Bad(&'static str),
    /// RFC 1035 does not settle whether such a message is acceptable
    Open(&'static str),
    /// well-formed, but with a type, class, opcode or response code which is
    /// documented as not supported
    Unsupported(&'static str),
    Good,
}

pub struct Decoded {
    pub verdict: Verdict,
    /// the contents, unless the verdict is Bad; records of unknown type are left out
    pub msg: Msg,
    /// number of unknown items left out
    pub skipped: usize,
    /// bytes after the last record
    pub trailing: usize,
    /// the header, if it could be read
    pub header: Option<Hdr>,
    /// something unsupported was met, whatever the verdict
    pub unsupported: bool,
}

pub struct Rd<'a> {
    pub b: &'a [u8],
    pub p: usize,
    pub open: Option<&'static str>,
    pub unsup: Option<&'static str>,
}
type Res<T> = Result<T, &'static str>;

impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Rd { b, p: 0, open: None, unsup: None }
    }
    fn take(&mut self, n: usize) -> Res<&'a [u8]> {
        if self.b.len() - self.p < n {
            return Err("truncated");
        }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    fn u8(&mut self) -> Res<u8> {
        Ok(self.take(1)?[0])
    }
    fn u16(&mut self) -> Res<u16> {
        let x = self.take(2)?;
        Ok(u16::from(x[0]) * 256 + u16::from(x[1]))
    }
    fn u32(&mut self) -> Res<u32> {
        let x = self.take(4)?;
        Ok(x.iter().fold(0u32, |a, b| a * 256 + u32::from(*b)))
    }
    pub fn name(&mut self) -> Res<Labels> {
        let mut out: Labels = vec![];
        let mut pos = self.p;
        let mut end = None;
        let mut visited = std::collections::BTreeSet::new();
        let mut jumps = 0;
        loop {
            let l = *self.b.get(pos).ok_or("truncated name")? as usize;
            match l >> 6 {
                0 => {
                    pos += 1;
                    if l == 0 {
                        break;
                    }
                    let lab = self.b.get(pos..pos + l).ok_or("truncated label")?;
                    out.push(lab.to_vec());
                    if wire_len(&out) > 255 {
                        return Err("long name");
                    }
                    pos += l;
                }
                3 => {
                    let lo = *self.b.get(pos + 1).ok_or("truncated pointer")? as usize;
                    let target = (l & 0x3f) * 256 + lo;
                    if end.is_none() {
                        end = Some(pos + 2);
                    }
                    if !visited.insert(pos) {
                        return Err("pointer cycle");
                    }
                    if target >= self.b.len() {
                        return Err("dangling pointer");
                    }
                    if target >= pos {
                        self.open = Some("forward pointer");
                    }
                    jumps += 1;
                    if jumps > 15 {
                        self.open = Some("more than 15 pointers");
                    }
                    pos = target;
                }
                _ => return Err("reserved label type"),
            }
        }
        self.p = end.unwrap_or(pos);
        if !name_ok(&out) {
            return Err("characters not allowed in names");
        }
        Ok(out)
    }
    fn chstr(&mut self) -> Res<Vec<u8>> {
        let n = self.u8()? as usize;
        let s = self.take(n)?.to_vec();
        if std::str::from_utf8(&s).is_err() {
            return Err("string not UTF-8");
        }
        Ok(s)
    }
    fn question(&mut self) -> Res<Option<Q>> {
        let name = self.name()?;
        let qtype = self.u16()?;
        let class = self.u16()?;
        if KNOWN_UNSUPPORTED.contains(&qtype) {
            self.unsup = Some("type");
        } else if !SUPPORTED.contains(&qtype) {
            return Ok(None);
        } else if class != 1 {
            self.unsup = Some(if [2, 3, 4, 255].contains(&class) { "class" } else { "unknown class" });
        }
        Ok(Some(Q { name, qtype, class }))
    }
    fn rr(&mut self) -> Res<Option<RR>> {
        let owner = self.name()?;
        let t = self.u16()?;
        let class = self.u16()?;
        let ttl = self.u32()?;
        let len = self.u16()? as usize;
        if self.b.len() - self.p < len {
            return Err("record data truncated");
        }
        let end = self.p + len;
        if KNOWN_UNSUPPORTED.contains(&t) {
            self.unsup = Some("type");
            let d = self.take(len)?.to_vec();
            return Ok(Some(RR { owner, class, ttl, data: RData::Other(t, d) }));
        }
        if !SUPPORTED.contains(&t) {
            self.take(len)?;
            return Ok(None);
        }
        if class != 1 {
            self.unsup = Some(if [2, 3, 4, 255].contains(&class) { "class" } else { "unknown class" });
        }
        let data = match t {
            A => RData::A(self.take(4)?.try_into().unwrap()),
            NS => RData::Ns(self.name()?),
            CNAME => RData::Cname(self.name()?),
            PTR => RData::Ptr(self.name()?),
            SOA => {
                let m = self.name()?;
                let r = self.name()?;
                let mut n = [0; 5];
                for x in &mut n {
                    *x = self.u32()?;
                }
                RData::Soa(Soa { m, r, n })
            }
            WKS => {
                let a = self.take(4)?.try_into().unwrap();
                let proto = self.u8()?;
                if self.p > end {
                    return Err("record data length");
                }
                let bits = self.take(end - self.p)?;
                if bits.len() > 8192 {
                    self.open = Some("more than 65536 ports");
                }
                let mut ports = vec![];
                for (i, b) in bits.iter().enumerate() {
                    for j in 0..8 {
                        if b & (0x80 >> j) != 0 {
                            ports.push((i * 8 + j) as u32)
                        }
                    }
                }
                RData::Wks(a, proto, ports)
            }
            HINFO => RData::Hinfo(self.chstr()?, self.chstr()?),
            MX => RData::Mx(self.u16()?, self.name()?),
            TXT => {
                let mut v = vec![];
                if len == 0 {
                    return Err("TXT without a string");
                }
                while self.p < end {
                    v.push(self.chstr()?);
                }
                RData::Txt(v)
            }
            _ => unreachable!(),
        };
        if self.p != end {
            return Err("record data length");
        }
        Ok(Some(RR { owner, class, ttl, data }))
    }
}

pub fn decode(b: &[u8]) -> Decoded {
    let mut d = Decoded { verdict: Verdict::Good, msg: Msg::default(), skipped: 0, trailing: 0, header: None, unsupported: false };
    let mut r = Rd::new(b);
    let res = (|| -> Res<()> {
        let id = r.u16()?;
        let f = r.u16()?;
        let mut counts = [0; 4];
        for c in &mut counts {
            *c = r.u16()?;
        }
        let bit = |n: u32| (f >> (15 - n)) & 1 == 1;
        let h = Hdr {
            id,
            qr: bit(0),
            opcode: ((f >> 11) & 15) as u8,
            aa: bit(5),
            tc: bit(6),
            rd: bit(7),
            ra: bit(8),
            z: ((f >> 4) & 7) as u8,
            rcode: (f & 15) as u8,
            counts,
        };
        if h.opcode != 0 {
            r.unsup = Some("opcode");
        }
        if h.rcode > 5 {
            r.unsup = Some("response code");
        }
        d.header = Some(h.clone());
        d.msg.h = h;
        for _ in 0..counts[0] {
            match r.question()? {
                Some(q) => d.msg.q.push(q),
                None => d.skipped += 1,
            }
        }
        for s in 0..3 {
            for _ in 0..counts[s + 1] {
                match r.rr()? {
                    Some(q) => d.msg.s[s].push(q),
                    None => d.skipped += 1,
                }
            }
        }
        Ok(())
    })();
    d.trailing = b.len() - r.p.min(b.len());
    d.unsupported = r.unsup.is_some();
    d.verdict = match res {
        Err(e) => Verdict::Bad(e),
        Ok(()) => match (r.unsup, r.open) {
            (Some(e), _) => Verdict::Unsupported(e),
            (_, Some(e)) => Verdict::Open(e),
            _ => Verdict::Good,
        },
    };
    d.msg.fix_counts();
    d
}

/// Decode a message which must be entirely well-formed (used on bytes the program sends).
pub fn decode_strict(b: &[u8]) -> Result<Msg, String> {
    let d = decode(b);
    if d.trailing != 0 && !matches!(d.verdict, Verdict::Bad(_)) {
        return Err(format!("{} bytes after the end of the message", d.trailing));
    }
    match d.verdict {
        Verdict::Good => Ok(d.msg),
        // a reply may echo an unsupported operation code
        Verdict::Unsupported("opcode") if d.header.as_ref().map_or(false, |h| h.rcode <= 5) => Ok(d.msg),
        v => Err(format!("{:?}", v)),
    }
}

// ------------------------------------------------------------------- encoder

pub fn put_name(out: &mut Vec<u8>, n: &Labels) {
    for l in n {
        out.push(l.len() as u8);
        out.extend_from_slice(l);
    }
    out.push(0);
}
/// Standard compression: the longest suffix already written (at an offset below 2^14).
pub fn put_name_c(out: &mut Vec<u8>, n: &Labels, seen: &mut Vec<(Labels, usize)>) {
    for i in 0..n.len() {
        let suf = n[i..].to_vec();
        if let Some((_, p)) = seen.iter().find(|(s, _)| *s == suf) {
            out.push(0xc0 | (*p >> 8) as u8);
            out.push(*p as u8);
            return;
        }
        if out.len() < 0x4000 {
            seen.push((suf, out.len()));
        }
        out.push(n[i].len() as u8);
        out.extend_from_slice(&n[i]);
    }
    out.push(0);
}

pub struct Enc {
    pub out: Vec<u8>,
    pub compress: bool,
    seen: Vec<(Labels, usize)>,
}
impl Enc {
    pub fn new(compress: bool) -> Self {
        Enc { out: vec![], compress, seen: vec![] }
    }
    pub fn u16(&mut self, v: u16) {
        self.out.extend_from_slice(&v.to_be_bytes())
    }
    pub fn u32(&mut self, v: u32) {
        self.out.extend_from_slice(&v.to_be_bytes())
    }
    pub fn name(&mut self, n: &Labels) {
        if self.compress {
            put_name_c(&mut self.out, n, &mut self.seen)
        } else {
            put_name(&mut self.out, n)
        }
    }
    fn chstr(&mut self, s: &[u8]) {
        self.out.push(s.len() as u8);
        self.out.extend_from_slice(s);
    }
    pub fn header(&mut self, h: &Hdr) {
        self.u16(h.id);
        let f = (h.qr as u16) << 15
            | (h.opcode as u16) << 11
            | (h.aa as u16) << 10
            | (h.tc as u16) << 9
            | (h.rd as u16) << 8
            | (h.ra as u16) << 7
            | (h.z as u16) << 4
            | h.rcode as u16;
        self.u16(f);
        for c in h.counts {
            self.u16(c)
        }
    }
    pub fn q(&mut self, q: &Q) {
        self.name(&q.name);
        self.u16(q.qtype);
        self.u16(q.class);
    }
    pub fn rr(&mut self, r: &RR) {
        self.name(&r.owner);
        self.u16(r.data.rtype());
        self.u16(r.class);
        self.u32(r.ttl);
        let at = self.out.len();
        self.u16(0);
        match &r.data {
            RData::A(a) => self.out.extend_from_slice(a),
            RData::Ns(n) | RData::Cname(n) | RData::Ptr(n) => self.name(n),
            RData::Soa(s) => {
                self.name(&s.m);
                self.name(&s.r);
                for x in s.n {
                    self.u32(x)
                }
            }
            RData::Wks(a, p, ports) => {
                self.out.extend_from_slice(a);
                self.out.push(*p);
                let n = ports.iter().max().map_or(0, |m| *m as usize / 8 + 1);
                let mut bm = vec![0u8; n];
                for p in ports {
                    bm[*p as usize / 8] |= 0x80 >> (p % 8);
                }
                self.out.extend_from_slice(&bm);
            }
            RData::Hinfo(a, b) => {
                self.chstr(a);
                self.chstr(b)
            }
            RData::Mx(p, n) => {
                self.u16(*p);
                self.name(n)
            }
            RData::Txt(v) => {
                for s in v {
                    self.chstr(s)
                }
            }
            RData::Other(_, d) => self.out.extend_from_slice(d),
        }
        let len = (self.out.len() - at - 2) as u16;
        self.out[at..at + 2].copy_from_slice(&len.to_be_bytes());
    }
}

pub fn encode(m: &Msg, compress: bool) -> Vec<u8> {
    let mut e = Enc::new(compress);
    e.header(&m.h);
    for q in &m.q {
        e.q(q)
    }
    for s in &m.s {
        for r in s {
            e.rr(r)
        }
    }
    e.out
}

pub fn query(id: u16, name: &str, qtype: u16) -> Vec<u8> {
    query_l(id, &nm(name), qtype)
}
pub fn query_l(id: u16, name: &Labels, qtype: u16) -> Vec<u8> {
    let mut m = Msg { h: Hdr { id, rd: true, ..Default::default() }, ..Default::default() };
    m.q.push(Q { name: name.clone(), qtype, class: 1 });
    m.fix_counts();
    encode(&m, false)
}

// ------------------------------------------------------------------- conversions

pub fn labels_of(n: &dns::Name) -> Labels {
    let s: &str = n.as_ref();
    if s == "." {
        return vec![];
    }
    let s = s.strip_suffix('.').unwrap_or(s);
    s.split('.').map(|l| l.as_bytes().to_vec()).collect()
}
pub fn to_name(l: &Labels) -> dns::Name {
    let mut s = String::new();
    for x in l {
        s.push_str(std::str::from_utf8(x).unwrap());
        s.push('.');
    }
    if s.is_empty() {
        s.push('.');
    }
    dns::Name::from_string(&s).unwrap_or_else(|e| panic!("valid name {} rejected: {:?}", s, e))
}
fn class_num(c: &dns::Class) -> u16 {
    use dns::Class::*;
    match c {
        IN => 1,
        CS => 2,
        CH => 3,
        HS => 4,
        WC => 255,
    }
}
pub fn type_num(t: dns::RecordType) -> u16 {
    use dns::RecordType as T;
    match t {
        T::A => 1,
        T::NS => 2,
        T::MD => 3,
        T::MF => 4,
        T::CNAME => 5,
        T::SOA => 6,
        T::MB => 7,
        T::MG => 8,
        T::MR => 9,
        T::NULL => 10,
        T::WKS => 11,
        T::PTR => 12,
        T::HINFO => 13,
        T::MINFO => 14,
        T::MX => 15,
        T::TXT => 16,
        T::AXFR => 252,
        T::MAILB => 253,
        T::MAILA => 254,
        T::WC => 255,
    }
}
pub fn rtype_of(t: u16) -> dns::RecordType {
    use dns::RecordType as T;
    match t {
        1 => T::A,
        2 => T::NS,
        5 => T::CNAME,
        6 => T::SOA,
        11 => T::WKS,
        12 => T::PTR,
        13 => T::HINFO,
        15 => T::MX,
        16 => T::TXT,
        _ => panic!("type {}", t),
    }
}
pub fn from_record(r: &dns::Record) -> RR {
    use dns::Record::*;
    let b = |s: &String| s.as_bytes().to_vec();
    let data = match r {
        A { address, .. } => RData::A(*address),
        NS { name, .. } => RData::Ns(labels_of(name)),
        CNAME { name, .. } => RData::Cname(labels_of(name)),
        SOA { ns_name, ml_name, serial, refresh, retry, expire, minimum, .. } => {
            RData::Soa(Soa { m: labels_of(ns_name), r: labels_of(ml_name), n: [*serial, *refresh, *retry, *expire, *minimum] })
        }
        WKS { address, protocol, ports, .. } => {
            let mut p: Vec<u32> = ports.clone();
            p.sort();
            p.dedup();
            RData::Wks(*address, *protocol, p)
        }
        PTR { name, .. } => RData::Ptr(labels_of(name)),
        HINFO { cpu, os, .. } => RData::Hinfo(b(cpu), b(os)),
        MX { priority, name, .. } => RData::Mx(*priority, labels_of(name)),
        TXT { txts, .. } => RData::Txt(txts.iter().map(b).collect()),
    };
    RR { owner: labels_of(r.node()), class: class_num(r.class()), ttl: *r.ttl(), data }
}
pub fn to_record(r: &RR) -> dns::Record {
    use dns::Record as R;
    let node = to_name(&r.owner);
    let class = match r.class {
        1 => dns::Class::IN,
        c => panic!("class {}", c),
    };
    let ttl = r.ttl;
    let s = |b: &Vec<u8>| String::from_utf8(b.clone()).unwrap();
    let mut e = Enc::new(false);
    e.rr(r);
    let data_len = (e.out.len() - wire_len(&r.owner) - 10) as u16;
    match &r.data {
        RData::A(a) => R::A { node, class, ttl, data_len, address: *a },
        RData::Ns(n) => R::NS { node, class, ttl, data_len, name: to_name(n) },
        RData::Cname(n) => R::CNAME { node, class, ttl, data_len, name: to_name(n) },
        RData::Ptr(n) => R::PTR { node, class, ttl, data_len, name: to_name(n) },
        RData::Soa(x) => R::SOA {
            node,
            class,
            ttl,
            data_len,
            ns_name: to_name(&x.m),
            ml_name: to_name(&x.r),
            serial: x.n[0],
            refresh: x.n[1],
            retry: x.n[2],
            expire: x.n[3],
            minimum: x.n[4],
        },
        RData::Wks(a, p, ports) => R::WKS { node, class, ttl, data_len, address: *a, protocol: *p, ports: ports.clone() },
        RData::Hinfo(c, o) => R::HINFO { node, class, ttl, data_len, cpu: s(c), os: s(o) },
        RData::Mx(p, n) => R::MX { node, class, ttl, data_len, priority: *p, name: to_name(n) },
        RData::Txt(v) => R::TXT { node, class, ttl, data_len, txts: v.iter().map(s).collect() },
        RData::Other(t, _) => panic!("type {}", t),
    }
}
pub fn from_header(h: &dns::Header) -> Hdr {
    use dns::{OpCode as O, RespCode as R};
    Hdr {
        id: h.id,
        qr: h.query_resp,
        opcode: match h.op_code {
            O::STD => 0,
            O::INV => 1,
            O::STS => 2,
        },
        aa: h.auth_answer,
        tc: h.truncated,
        rd: h.recursion_desired,
        ra: h.recursion_available,
        z: h.z,
        rcode: match h.resp_code {
            R::NoError => 0,
            R::FormErr => 1,
            R::ServFail => 2,
            R::NxDomain => 3,
            R::NotImp => 4,
            R::Refused => 5,
        },
        counts: [h.questions_count, h.answers_count, h.authorities_count, h.additionals_count],
    }
}
pub fn to_header(h: &Hdr) -> dns::Header {
    use dns::{OpCode as O, RespCode as R};
    dns::Header {
        id: h.id,
        query_resp: h.qr,
        op_code: match h.opcode {
            0 => O::STD,
            1 => O::INV,
            _ => O::STS,
        },
        auth_answer: h.aa,
        truncated: h.tc,
        recursion_desired: h.rd,
        recursion_available: h.ra,
        z: h.z,
        resp_code: match h.rcode {
            0 => R::NoError,
            1 => R::FormErr,
            2 => R::ServFail,
            3 => R::NxDomain,
            4 => R::NotImp,
            _ => R::Refused,
        },
        questions_count: h.counts[0],
        answers_count: h.counts[1],
        authorities_count: h.counts[2],
        additionals_count: h.counts[3],
    }
}
pub fn from_message(m: &dns::Message) -> Msg {
    Msg {
        h: from_header(&m.header),
        q: m.questions.iter().map(|q| Q { name: labels_of(&q.node), qtype: type_num(q.record_type), class: class_num(&q.class) }).collect(),
        s: [
            m.answers.iter().map(from_record).collect(),
            m.authorities.iter().map(from_record).collect(),
            m.additionals.iter().map(from_record).collect(),
        ],
    }
}
pub fn to_message(m: &Msg) -> dns::Message {
    dns::Message {
        header: to_header(&m.h),
        questions: m.q.iter().map(|q| dns::Question { node: to_name(&q.name), record_type: rtype_of(q.qtype), class: dns::Class::IN }).collect(),
        answers: m.s[0].iter().map(to_record).collect(),
        authorities: m.s[1].iter().map(to_record).collect(),
        additionals: m.s[2].iter().map(to_record).collect(),
    }
}

pub fn show_rr(r: &RR) -> String {
    format!("{} {} {} {}", txt(&r.owner), r.ttl, type_name(r.data.rtype()), show_data(&r.data))
}
pub fn show_data(d: &RData) -> String {
    let s = |b: &Vec<u8>| {
        if b.len() > 24 {
            format!("\"{}..\"({} bytes)", String::from_utf8_lossy(&b[..12]), b.len())
        } else {
            format!("{:?}", String::from_utf8_lossy(b))
        }
    };
    match d {
        RData::A(a) => format!("{}.{}.{}.{}", a[0], a[1], a[2], a[3]),
        RData::Ns(n) | RData::Cname(n) | RData::Ptr(n) => txt(n),
        RData::Soa(x) => format!("{} {} {:?}", txt(&x.m), txt(&x.r), x.n),
        RData::Wks(a, p, ports) => format!("{:?} {} {:?}", a, p, ports),
        RData::Hinfo(a, b) => format!("{} {}", s(a), s(b)),
        RData::Mx(p, n) => format!("{} {}", p, txt(n)),
        RData::Txt(v) => v.iter().map(s).collect::<Vec<_>>().join(" "),
        RData::Other(_, d) => format!("{:?}", d),
    }
}
pub fn show(m: &Msg) -> String {
    let h = &m.h;
    let mut s = format!(
        "id={:04x}{} op={}{}{}{}{} z={} rcode={} counts={:?}",
        h.id,
        if h.qr { " QR" } else { "" },
        h.opcode,
        if h.aa { " AA" } else { "" },
        if h.tc { " TC" } else { "" },
        if h.rd { " RD" } else { "" },
        if h.ra { " RA" } else { "" },
        h.z,
        h.rcode,
        h.counts
    );
    for q in &m.q {
        write!(s, " ?[{} {} {}]", txt(&q.name), type_name(q.qtype), q.class).unwrap();
    }
    for (i, n) in ["AN", "NS", "AR"].iter().enumerate() {
        for r in m.s[i].iter().take(8) {
            write!(s, " {}[{}]", n, show_rr(r)).unwrap();
        }
        if m.s[i].len() > 8 {
            write!(s, " {}[.. {} records]", n, m.s[i].len()).unwrap();
        }
    }
    s
}
pub fn hex(b: &[u8]) -> String {
    if b.len() > 300 {
        return format!("{}..({} bytes)", hex(&b[..150]), b.len());
    }
    let d = b"0123456789abcdef";
    b.iter().flat_map(|x| [d[(x >> 4) as usize] as char, d[(x & 15) as usize] as char]).collect()
}

// ------------------------------------------------------------------- building blocks

pub fn rr(owner: &str, ttl: u32, data: RData) -> RR {
    RR { owner: nm(owner), class: 1, ttl, data }
}
pub fn a(x: [u8; 4]) -> RData {
    RData::A(x)
}
pub fn ns(n: &str) -> RData {
    RData::Ns(nm(n))
}
pub fn cname(n: &str) -> RData {
    RData::Cname(nm(n))
}
pub fn soa(m: &str, r: &str, n: [u32; 5]) -> RData {
    RData::Soa(Soa { m: nm(m), r: nm(r), n })
}
pub fn txts(v: &[&str]) -> RData {
    RData::Txt(v.iter().map(|s| s.as_bytes().to_vec()).collect())
}
