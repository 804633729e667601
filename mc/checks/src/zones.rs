//! Zones: a model of what a nameserver must answer, a writer of zone files and
//! a way to load and query the program's own.
use crate::wire::*;
use ariadne_dns::nameserver::{parse_zone_files, ManagedZone, NameserverHandler, ParsingParams, SubParsingParams};
use ariadne_dns::shared::dns;
use ariadne_dns::shared::net::{DnsRead, DnsReadResult, DnsWrite};
use std::cell::RefCell;
use std::rc::Rc;
use vstd::rt;

pub struct SubSpec {
    pub zone: String,
    pub file: Vec<u8>,
    pub ttl: u32,
    pub min: u32,
}

/// Load zone files with the program's loader.
pub fn load(zone: &str, ttl: u32, main: &[u8], includes: &[(String, Vec<u8>)], subs: &[SubSpec]) -> Result<ManagedZone, String> {
    vstd::fs::set_file("main", main);
    for (p, b) in includes {
        vstd::fs::set_file(p, b);
    }
    let mut sub_zones = vec![];
    for (i, s) in subs.iter().enumerate() {
        let path = format!("sub{}", i);
        vstd::fs::set_file(&path, &s.file);
        sub_zones.push(SubParsingParams { file_path: path, zone: dns::Name::from_string(&s.zone).unwrap(), starting_ttl: s.ttl, min_ttl: s.min });
    }
    let p = ParsingParams { file_path: "main".into(), zone: dns::Name::from_string(zone).unwrap(), starting_ttl: ttl, sub_zones };
    parse_zone_files(p).map_err(|e| format!("{:?}", e))
}

/// Every record of the loaded zones: the authoritative ones and those of each subzone.
pub fn all_records(z: &ManagedZone) -> (Vec<RR>, Vec<Vec<RR>>) {
    let of = |z: &ariadne_dns::nameserver::Zone| {
        let mut v = vec![];
        for t in SUPPORTED {
            for r in z.get_all_of_type(rtype_of(t)) {
                v.push(from_record(r));
            }
        }
        v.sort();
        v
    };
    (of(&z.auth_zone), z.sub_zones.iter().map(|s| of(s)).collect())
}

// ------------------------------------------------------------------- queries without a network

struct Req(Vec<u8>);
impl DnsRead for Req {
    fn read(self) -> DnsReadResult {
        match dns::Message::decode_from_bytes(&self.0) {
            Ok(m) => DnsReadResult::FullMessage(m),
            Err(e) => match dns::Header::decode_from_bytes(&self.0) {
                Ok(h) => DnsReadResult::HeaderOnly(h, e),
                Err(eh) => DnsReadResult::ParseErr(e, eh),
            },
        }
    }
}
#[derive(Clone, Default)]
struct Resp(Rc<RefCell<Vec<(Vec<u8>, Vec<u8>)>>>);
impl DnsWrite for Resp {
    fn reply(self, m: dns::Message) -> std::io::Result<()> {
        let full = m.encode_to_bytes().unwrap();
        let short = m.encode_to_bytes_trunc().unwrap();
        self.0.borrow_mut().push((full, short));
        Ok(())
    }
}

/// The replies (complete, and as cut for a datagram) to one request.
pub fn ask<H: ariadne_dns::shared::net::DnsHandler>(h: &H, req: &[u8]) -> Vec<(Vec<u8>, Vec<u8>)> {
    let r = Resp::default();
    h.handle_request(Req(req.to_vec()), r.clone());
    let v = std::mem::take(&mut *r.0.borrow_mut());
    v
}

/// Ask one question; the reply must be the only one and well-formed.
pub fn ask1(h: &NameserverHandler, name: &Labels, qtype: u16, rd: bool) -> Msg {
    let mut q = query_l(0x1234, name, qtype);
    q[2] = if rd { 1 } else { 0 };
    let v = ask(h, &q);
    if v.len() != 1 {
        rt::fail("number of replies", format!("{} replies to the query {} {}", v.len(), txt(name), type_name(qtype)));
    }
    match decode_strict(&v[0].0) {
        Ok(m) => m,
        Err(e) => rt::fail("malformed reply", format!("{} in the reply to the query {} {}: {}", e, txt(name), type_name(qtype), hex(&v[0].0))),
    }
}

// ------------------------------------------------------------------- the model

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub top: Labels,
    /// all the authoritative records, the SOA included
    pub recs: Vec<RR>,
    pub subs: Vec<(Labels, Vec<RR>)>,
}

pub fn sorted(v: &[RR]) -> Vec<RR> {
    let mut v: Vec<RR> = v
        .iter()
        .map(|r| {
            let mut r = r.clone();
            r.owner = low(&r.owner);
            r
        })
        .collect();
    v.sort();
    v
}
fn set(v: &[RR]) -> Vec<RR> {
    let mut v = sorted(v);
    v.dedup();
    v
}
pub fn show_rrs(v: &[RR]) -> String {
    format!("{{{}}}", v.iter().map(show_rr).collect::<Vec<_>>().join(", "))
}

impl Model {
    pub fn subs_of(&self, name: &Labels) -> Vec<usize> {
        (0..self.subs.len()).filter(|i| within(name, &self.subs[*i].0)).collect()
    }
    fn of(recs: &[RR], name: &Labels, t: u16) -> Vec<RR> {
        recs.iter().filter(|r| name_eq(&r.owner, name) && r.data.rtype() == t).cloned().collect()
    }
    /// Does this reply to a query of a supported type say what the zone dictates?
    pub fn judge(&self, name: &Labels, qtype: u16, m: &Msg) -> Result<&'static str, String> {
        let want = |what: &str, got: &[RR], exp: &[RR]| {
            let (g, e) = (sorted(got), sorted(exp));
            if g != e {
                Err(format!("{}: {} instead of {}", what, show_rrs(&g), show_rrs(&e)))
            } else {
                Ok(())
            }
        };
        let code = |c: u8, aa: bool| {
            if m.h.rcode != c {
                Err(format!("response code {} instead of {}", m.h.rcode, c))
            } else if m.h.aa != aa && c != 5 {
                Err(format!("authoritative bit {} instead of {}", m.h.aa, aa))
            } else {
                Ok(())
            }
        };
        if !m.h.qr {
            return Err("not marked as a response".into());
        }
        if m.q != vec![Q { name: name.clone(), qtype, class: 1 }] {
            return Err("the question is not the one asked".into());
        }
        if !within(name, &self.top) {
            code(5, false)?;
            want("answers", m.an(), &[])?;
            want("authorities", m.ns(), &[])?;
            want("additionals", m.ar(), &[])?;
            return Ok("outside");
        }
        let subs = self.subs_of(name);
        if !subs.is_empty() {
            let mut first = None;
            for i in subs {
                let (top, recs) = &self.subs[i];
                let r = (|| {
                    code(0, false)?;
                    want("answers", m.an(), &[])?;
                    let ns = Self::of(recs, top, NS);
                    want("authorities", m.ns(), &ns)?;
                    let mut glue = vec![];
                    for n in &ns {
                        if let RData::Ns(host) = &n.data {
                            for (_, r) in &self.subs {
                                glue.extend(Self::of(r, host, A));
                            }
                        }
                    }
                    if set(m.ar()) != set(&glue) {
                        return Err(format!("additionals: {} instead of {}", show_rrs(&set(m.ar())), show_rrs(&set(&glue))));
                    }
                    Ok(())
                })();
                match r {
                    Ok(()) => return Ok("referral"),
                    Err(e) => first = Some(first.unwrap_or(e)),
                }
            }
            return Err(format!("referral: {}", first.unwrap()));
        }
        let exact = Self::of(&self.recs, name, qtype);
        let cn = Self::of(&self.recs, name, CNAME);
        if !exact.is_empty() || !cn.is_empty() {
            code(0, true)?;
            want("answers", m.an(), if exact.is_empty() { &cn } else { &exact })?;
            want("authorities", m.ns(), &[])?;
            want("additionals", m.ar(), &[])?;
            return Ok(if exact.is_empty() { "alias" } else { "answer" });
        }
        code(3, true)?;
        want("answers", m.an(), &[])?;
        want("authorities", m.ns(), &Self::of(&self.recs, &self.top, SOA))?;
        want("additionals", m.ar(), &[])?;
        Ok("name error")
    }
}

// ------------------------------------------------------------------- writing zone files plainly

pub fn quote(b: &[u8]) -> String {
    let mut s = String::from("\"");
    for c in String::from_utf8(b.to_vec()).unwrap().chars() {
        if c == '"' || c == '\\' {
            s.push('\\');
        }
        s.push(c);
    }
    s.push('"');
    s
}
pub fn plain_data(d: &RData) -> String {
    match d {
        RData::A(a) => format!("{}.{}.{}.{}", a[0], a[1], a[2], a[3]),
        RData::Ns(n) | RData::Cname(n) | RData::Ptr(n) => txt(n),
        RData::Soa(x) => format!("{} {} {} {} {} {} {}", txt(&x.m), txt(&x.r), x.n[0], x.n[1], x.n[2], x.n[3], x.n[4]),
        RData::Wks(a, p, _) => format!("{}.{}.{}.{} {} smtp", a[0], a[1], a[2], a[3], if *p == 6 { "TCP" } else { "UDP" }),
        RData::Hinfo(a, b) => format!("{} {}", quote(a), quote(b)),
        RData::Mx(p, n) => format!("{} {}", p, txt(n)),
        RData::Txt(v) => v.iter().map(|s| quote(s)).collect::<Vec<_>>().join(" "),
        RData::Other(..) => unreachable!(),
    }
}
pub fn plain(r: &RR) -> String {
    format!("{} {} IN {} {}\n", txt(&r.owner), r.ttl, type_name(r.data.rtype()), plain_data(&r.data))
}
pub fn plain_file(v: &[RR]) -> Vec<u8> {
    v.iter().map(plain).collect::<String>().into_bytes()
}

/// Load a model from plainly written files.
pub fn load_model(m: &Model) -> Result<ManagedZone, String> {
    let subs: Vec<SubSpec> = m.subs.iter().map(|(t, r)| SubSpec { zone: txt(t), file: plain_file(r), ttl: 500, min: 0 }).collect();
    load(&txt(&m.top), 1000, &plain_file(&m.recs), &[], &subs)
}
