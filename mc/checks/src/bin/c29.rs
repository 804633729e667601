//! C29: a program which refuses to start says where its files are wrong, and
//! one which starts shows on request what it has read.
use checks::conf::*;
use checks::{opts, rt, Check};
use std::rc::Rc;

/// The lines of a file, and which of them each entry has.
#[derive(Default, Clone)]
struct Doc {
    lines: Vec<String>,
    at: Vec<(usize, usize)>,
}
impl Doc {
    fn gap(&mut self, g: usize) {
        match g {
            0 => {}
            1 => self.lines.push("".into()),
            2 => self.lines.push("; a comment".into()),
            3 => self.lines.extend(["   ".into(), " ; \"quoted\" ( ".into(), "".into()]),
            _ => self.lines.extend((0..300).map(|i| if i % 2 == 0 { "".into() } else { format!("; {}", i) })),
        }
    }
    fn entry(&mut self, e: &[String]) {
        self.at.push((self.lines.len() + 1, self.lines.len() + e.len()));
        self.lines.extend(e.iter().cloned());
    }
    fn store(&self, path: &str, last: &str) {
        let mut b = (self.lines.join("\n") + last).into_bytes();
        b.iter_mut().filter(|b| **b == 1).for_each(|b| *b = 0xff);
        vstd::fs::set_file(path, &b);
    }
}
/// How an entry is spread over lines.
fn spread(e: &str, style: usize) -> Vec<String> {
    let words: Vec<&str> = e.split(' ').collect();
    let directive = e.starts_with('$');
    match style {
        _ if directive || words.len() < 2 => vec![format!("{} ; directive", e)],
        0 => vec![e.to_string()],
        1 => vec![format!("{} ; and a comment (", e)],
        2 => {
            let k = words.len() - 1;
            vec![format!("{} ( ; \"", words[..k].join(" ")), format!("   {} ; )", words[k]), ")".into()]
        }
        _ => {
            let mut v = vec![format!("{} (", words[0])];
            for w in &words[1..] {
                v.push("".into());
                v.push(format!("  {}", w));
            }
            v.push("; the end".into());
            v.push(" )".into());
            v
        }
    }
}

const FILES: [&str; 4] = ["/zone/main.db", "/zone/included.db", "/zone/deep.db", "/zone/sub.db"];
/// Entries of the four files, each with what its record looks like in a log.
fn good(f: usize) -> Vec<(&'static str, &'static [&'static str])> {
    match f {
        0 => vec![
            ("example. IN 123 SOA ns.example. admin.example. 11 12 13 14 15", &["admin.example."]),
            ("example. NS ns.example.", &["ns.example."]),
            ("ns.example. 500 A 192.0.2.53", &["ns.example.", "192?0?2?53"]),
            ("www.example. A 192.0.2.1", &["www.example.", "192?0?2?1"]),
            ("$INCLUDE /zone/included.db inc.example.", &[]),
            ("mail.example. IN 77 MX 5 www.example.", &["mail.example.", "www.example."]),
            ("$ORIGIN org.example.", &[]),
            ("host CNAME www.example.", &["host.org.example.", "www.example."]),
        ],
        1 => vec![
            ("a1 A 192.0.2.101", &["a1.inc.example.", "192?0?2?101"]),
            ("$INCLUDE /zone/deep.db", &[]),
            ("a2 TXT words", &["a2.inc.example.", "words"]),
            ("a3 PTR a1.inc.example.", &["a3.inc.example.", "a1.inc.example."]),
        ],
        2 => vec![("d1 HINFO cpu os", &["d1.inc.example.", "cpu"]), ("d2 A 192.0.2.202", &["d2.inc.example.", "192?0?2?202"])],
        _ => vec![
            ("sub.example. 3600 NS ns.sub.example.", &["sub.example.", "ns.sub.example."]),
            ("ns.sub.example. A 192.0.2.99", &["ns.sub.example.", "192?0?2?99"]),
            ("ns.sub.example. 4000 A 192.0.2.98", &["ns.sub.example.", "192?0?2?98"]),
        ],
    }
}
/// What is wrong with an entry; those about sub.example. are for subzone files.
const FAULTS: &[(&str, &str)] = &[
    ("unknown type", "x.example. NONE 192.0.2.1"),
    ("unknown type of a sub name", "x.sub.example. NONE 192.0.2.1"),
    ("bad address", "x.example. A 192.0.2.256"),
    ("bad address of a sub name", "ns.sub.example. A 192.0.2"),
    ("no data", "x.example. A"),
    ("no data in a subzone", "sub.example. NS"),
    ("no type", "x.example."),
    ("no type in a subzone", "sub.example."),
    ("too much", "x.example. A 192.0.2.1 192.0.2.2"),
    ("too much in a subzone", "ns.sub.example. A 192.0.2.1 192.0.2.2"),
    ("outside of the zone", "x.elsewhere. A 192.0.2.1"),
    ("bad name", "-x-.example. A 192.0.2.1"),
    ("bad name of a subzone", "-x-.sub.example. A 192.0.2.1"),
    ("bad name in the data", "sub.example. NS bad_-.sub.example."),
    ("class", "sub.example. CH NS ns.sub.example."),
    ("second SOA", "x.example. SOA a.example. b.example. 1 2 3 4 5"),
    ("quote", "x.example. TXT \"never ends"),
    ("quoted owner", "\"x.example.\" A 192.0.2.1"),
    ("escape", "x.example. TXT bad\\"),
    ("escape of no character", "x.example. TXT bad\\999"),
    ("close", "x.example. A 192.0.2.1 )"),
    ("close at the start", ") x.example. A 192.0.2.1"),
    ("open twice", "x.example. ( A ( 192.0.2.1"),
    ("open", "x.example. A ( 192.0.2.1"),
    ("directive", "$NOTHING example."),
    ("directive in a record", "x.example. $ORIGIN example."),
    ("relative origin", "$ORIGIN relative"),
    ("origin outside", "$ORIGIN elsewhere."),
    ("origin without a name", "$ORIGIN"),
    ("include without a file", "$INCLUDE"),
    ("include with too much", "$INCLUDE /zone/deep.db inc.example. 5"),
    ("include outside", "$INCLUDE /zone/deep.db elsewhere."),
    ("include in a subzone", "$INCLUDE /zone/deep.db sub.example."),
    ("MX without a number", "x.example. MX www.example. www.example."),
    ("MX beyond", "x.example. MX 65536 www.example."),
    ("low lifetime", "ns.sub.example. 9 A 192.0.2.97"),
    // the byte 1 stands for one which is no text
    ("no text", "x.example. TXT bad\x01"),
    ("no text at the start", "\x01.sub.example. A 192.0.2.97"),
    ("other type in a subzone", "ns.sub.example. TXT words"),
];

/// All numbers which a report gives as a line.
fn lines_of(s: &str) -> Vec<usize> {
    let low = s.to_lowercase();
    let num = |t: &str| -> Option<usize> {
        let t = t.trim_start_matches(|c: char| c == ':' || c == ' ' || c == '#' || c == '=');
        let d: String = t.chars().take_while(|c| c.is_ascii_digit()).collect();
        d.parse().ok()
    };
    let v: Vec<usize> = low.match_indices("line").filter_map(|(i, _)| num(&low[i + 4..])).collect();
    if !v.is_empty() {
        return v;
    }
    low.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect()
}
/// Whether a word, with ? for any separator between numbers, is in the text.
fn shows(text: &str, w: &str) -> bool {
    if w.contains('?') {
        let n: Vec<&str> = w.split('?').collect();
        let t: Vec<&str> = text.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).collect();
        return t.windows(n.len()).any(|x| x == n);
    }
    let w = w.trim_end_matches('.');
    text.to_lowercase().match_indices(w).any(|(i, _)| {
        let b = text.as_bytes();
        let left = i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'.' || b[i - 1] == b'-');
        let right = b.get(i + w.len()).map_or(true, |c| !c.is_ascii_alphanumeric() && *c != b'-');
        left && right
    })
}

fn conf(level: &str) {
    let mut j = nameserver();
    j.str("log_level", level).str("zone.file", FILES[0]).set("zone.sub_zones", subs(&[sub("sub.example.", FILES[3], 1000, 10)]));
    j.store("conf");
    rt::k().capture_logs = true;
}
fn reports(l: log::Level) -> Vec<String> {
    rt::k().logs.iter().filter(|x| x.0 == l).map(|x| x.1.clone()).collect()
}
/// The program ends with an error status and reports `what`.
fn refused(args: &[&str], what: &str, judge: Rc<dyn Fn(&[String]) -> Result<(), String>>) -> ! {
    let end = {
        let what = what.to_string();
        move |how: String| -> ! {
            if let Err(e) = judge(&reports(log::Level::Error)) {
                rt::fail("report", format!("{} ({}): reports {:?}; {}", e, what, reports(log::Level::Error), how));
            }
            rt::sample(|| format!("{}: {:?}", what, reports(log::Level::Error)));
            rt::finish(rt::End::Done)
        }
    };
    let e2 = end.clone();
    rt::k().on_exit = Some(Rc::new(move |c| {
        e2(format!("status {}", c));
    }));
    let t = start(NAMESERVER, args);
    rt::settle();
    if !rt::is_done(t) {
        // C09 and C23 say what is to be refused
        rt::count("not refused");
        rt::prune();
    }
    end("no status".into())
}

/// The report names the file and one of the lines.
fn located(f: usize, range: (usize, usize)) -> Rc<dyn Fn(&[String]) -> Result<(), String>> {
    Rc::new(move |r: &[String]| {
        if !r.iter().any(|t| t.contains(FILES[f])) {
            return Err(format!("the file {} is not named", FILES[f]));
        }
        let t: Vec<&String> = r.iter().filter(|t| t.contains(FILES[f])).collect();
        if !t.iter().any(|t| lines_of(&t[t.rfind(FILES[f]).unwrap() + FILES[f].len()..]).iter().any(|n| (range.0..=range.1).contains(n))) {
            return Err(format!("no line of {} to {} is named", range.0, range.1));
        }
        Ok(())
    })
}
/// Every record is in the log with its line.
fn all_shown(docs: &[Doc], what: &str) {
    let shown: Vec<String> = reports(log::Level::Debug);
    for k in 0..4 {
        for (i, (e, words)) in good(k).into_iter().enumerate() {
            if words.is_empty() {
                continue;
            }
            let hits: Vec<&String> = shown.iter().filter(|t| words.iter().all(|w| shows(t, w))).collect();
            if hits.is_empty() {
                rt::fail("a record is not shown", format!("{:?} is in no line of the log ({}): {:#?}", e, what, shown));
            }
            let (a, b) = docs[k].at[i];
            let soa = k == 0 && i == 0;
            if !soa && !hits.iter().any(|t| lines_of(t).iter().any(|n| (a..=b).contains(n))) {
                rt::fail("a record is shown with another line", format!("{:?} has the lines {} to {} of {} ({}): {:?}", e, a, b, FILES[k], what, hits));
            }
        }
    }
    rt::sample(|| format!("{}: {} lines", what, shown.len()));
}

fn main() {
    let mut ck = Check::start("C29");
    ck.assume("log lines at the level error are shown at every configurable log level");
    let th = ck.thorough();

    ck.rt("one faulty entry", opts(), || {
        let f = rt::pick(4);
        let entries: Vec<(&str, &[&str])> = good(f);
        let (name, text) = *rt::pick_of(FAULTS);
        // which files the fault is for
        let subname = text.contains("sub.example.");
        if f != 3 && subname && name != "include in a subzone" || f == 3 && !subname && !text.starts_with('$') && !["outside of the zone"].contains(&name) && text.starts_with("x.example") {
            rt::prune();
        }
        if f != 3 && name == "include in a subzone" {
            rt::prune();
        }
        let first = if f == 0 { 1 } else { 0 };
        let pos = first + rt::pick(entries.len() + 1 - first);
        // a line is read before the entry before it has ended
        let unread = text.contains('\u{1}');
        if unread && f == 0 && pos == 1 {
            rt::prune();
        }
        let replace = rt::pick_bool();
        let gap = rt::pick(if th { 5 } else { 4 });
        let style = rt::pick(4);
        let cut = rt::pick_bool();
        for k in 0..4 {
            let mut d = Doc::default();
            let mut range = (0, 0);
            for (i, e) in good(k).into_iter().map(Some).chain(std::iter::once(None)).enumerate() {
                d.gap(if k == f { gap } else { 0 });
                if k == f && i == pos {
                    d.entry(&[text.to_string()]);
                    range = *d.at.last().unwrap();
                    if unread && i > 0 {
                        range.0 = d.at[d.at.len() - 2].0;
                    }
                    if cut {
                        break;
                    }
                    if replace {
                        continue;
                    }
                }
                if let Some((e, _)) = e {
                    d.entry(&spread(e, if k == f { style } else { 0 }));
                }
            }
            d.store(FILES[k], if cut { "" } else { "\n" });
            if k == f {
                if text.contains('(') {
                    range.1 = d.lines.len().max(range.1);
                }
                rt::k().logs.clear();
                RANGE.with(|r| r.set(range));
            }
        }
        let range = RANGE.with(|r| r.get());
        conf("Error");
        let what = format!("{} as entry {} of {}, lines {:?}", name, pos, FILES[f], range);
        refused(
            &["conf"],
            &what,
            located(f, range),
        );
    });

    ck.rt("the starting SOA", opts(), || {
        let text = *rt::pick_of(&[
            "example. IN 123 SOA ns.example.",
            "example. IN 123 SOA ns.example. admin.example. 11 12 13 14",
            "example. IN 123 SOA ns.example. admin.example. 11 12 13 14 x",
            "example. IN 123 SOA ns.example. admin.example. 11 12 13 14 15 16",
            "example. IN 123 SOA ns.example. admin.example. 11 12 13 14 4294967296",
            "www.example. A 192.0.2.1",
            "other. IN 123 SOA ns.example. admin.example. 11 12 13 14 15",
            "example. IN 123 SOA -x- admin.example. 11 12 13 14 15",
            "example. IN 123 SOA ns.example. admin.example. ( 11 12 13 14 15",
            "example. IN 123 SOA ns.example. admin.example. 11 12 13 14 15 )",
            "$NOTHING",
            "$ORIGIN example.",
            "$INCLUDE /zone/included.db",
            "\"example.\" IN 123 SOA ns.example. admin.example. 11 12 13 14 15",
        ]);
        let gap = rt::pick(4);
        let alone = rt::pick_bool();
        for k in 0..4 {
            let mut d = Doc::default();
            for (i, (e, _)) in good(k).into_iter().enumerate() {
                if k == 0 && i == 0 {
                    d.gap(gap);
                    d.entry(&[text.to_string()]);
                } else if k != 0 || !alone {
                    d.entry(&spread(e, 0));
                }
            }
            d.store(FILES[k], "\n");
        }
        conf("Error");
        refused(&["conf"], &format!("{} to start with", text), Rc::new(move |r: &[String]| if r.iter().any(|t| shows(t, "soa") || t.contains(FILES[0])) { Ok(()) } else { Err("neither the SOA record nor the file is named".into()) }));
    });

    ck.rt("missing files", opts(), || {
        let f = rt::pick(4);
        let empty = rt::pick_bool() && f == 0;
        for k in 0..4 {
            let mut d = Doc::default();
            for (e, _) in good(k) {
                d.entry(&spread(e, 0));
            }
            if k != f {
                d.store(FILES[k], "\n");
            } else if empty {
                vstd::fs::set_file(FILES[k], b"");
            }
        }
        conf("Error");
        // a missing included file is reported with the file that includes it
        let names: Vec<&str> = match f {
            1 => vec![FILES[0], FILES[1]],
            2 => vec![FILES[1], FILES[2]],
            _ => vec![FILES[f]],
        };
        refused(
            &["conf"],
            &format!("{} {}", FILES[f], if empty { "is empty" } else { "is missing" }),
            Rc::new(move |r: &[String]| if r.iter().any(|t| empty || names.iter().any(|n| t.contains(n))) { Ok(()) } else { Err(format!("none of {:?} is named", names)) }),
        );
    });

    ck.rt("zones which do not hold together", opts(), || {
        // the file which lacks an entry, or has one too many; the zone to be named
        let cases: Vec<(usize, Option<usize>, &str, &str)> = vec![
            (0, Some(1), "", "example"),
            (0, None, "www.example. NS ns.example.", "example"),
            (3, Some(0), "", "sub.example"),
            (3, None, "ns.sub.example. NS ns.sub.example.", "sub.example"),
            (3, None, "sub.example. NS ns2.sub.example.", "sub.example"),
            (3, None, "other.sub.example. A 192.0.2.3", "sub.example"),
        ];
        let (f, without, more, zone) = *rt::pick_of(&cases);
        for k in 0..4 {
            let mut d = Doc::default();
            for (i, (e, _)) in good(k).into_iter().enumerate() {
                if k == f && without == Some(i) {
                    continue;
                }
                d.entry(&spread(e, 0));
            }
            if k == f && !more.is_empty() {
                d.entry(&[more.into()]);
            }
            d.store(FILES[k], "\n");
        }
        conf("Error");
        let zone = zone.to_string();
        refused(&["conf"], &format!("{} without {:?}, with {:?}", FILES[f], without, more), Rc::new(move |r: &[String]| if r.iter().any(|t| shows(t, &zone) || t.contains(FILES[f])) { Ok(()) } else { Err(format!("{} is not named", zone)) }));
    });

    ck.rt("configurations", opts(), || {
        let mut j = nameserver();
        match rt::pick(9) {
            0 => vstd::fs::set_file("conf", b"{"),
            1 => j.set("udp_server.port", "65536").store("conf"),
            2 => j.set("udp_server.threads", 0).store("conf"),
            3 => j.str("tcp_server.address", "nowhere").store("conf"),
            4 => j.str("zone.zone", "relative").store("conf"),
            5 => j.remove("tcp_server.port").store("conf"),
            6 => j.str("log_level", "Loud").store("conf"),
            7 => j.set("tcp_server.write_timeout", 0).store("conf"),
            _ => {}
        }
        let args: &[&str] = *rt::pick_of(&[&["conf"] as &[&str], &[], &["conf", "conf"]]);
        rt::k().capture_logs = true;
        refused(args, "unusable configuration", Rc::new(|r: &[String]| if r.iter().any(|t| !t.trim().is_empty()) { Ok(()) } else { Err("nothing is reported".into()) }));
    });

    // the number of a line may be a large one
    let far: &[usize] = &[98, 99, 126, 127, 128, 254, 255, 256, 257, 510, 998, 999, 1000, 1023, 4095, 9999, 32766, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 65999, 99999, 131071];
    ck.rt("far lines", opts().steps(50_000_000).mem(2000), || {
        let f = rt::pick(4);
        let n = *rt::pick_of(far);
        let comments = rt::pick_bool();
        let what_is_there = rt::pick(4);
        let mut docs = vec![];
        let mut range = (0, 0);
        for k in 0..4 {
            let mut d = Doc::default();
            let last = good(k).len() - 1;
            for (i, (e, _)) in good(k).into_iter().enumerate() {
                if k == f && i == last {
                    d.lines.extend((0..n).map(|_| if comments { "; words (".to_string() } else { "".to_string() }));
                    if what_is_there > 0 {
                        d.entry(&[[if f == 3 { "ns.sub.example. A 192.0.2" } else { "x.example. NONE 192.0.2.1" }, "$NOTHING example.", ") x"][what_is_there - 1].to_string()]);
                        range = *d.at.last().unwrap();
                    }
                }
                d.entry(&spread(e, if what_is_there == 0 { 3 } else { 0 }));
            }
            d.store(FILES[k], "\n");
            docs.push(d);
        }
        let what = format!("{} lines before the last entry of {}, case {}", n, FILES[f], what_is_there);
        if what_is_there > 0 {
            conf("Error");
            refused(&["conf"], &what, located(f, range));
        }
        conf("Debug");
        start(NAMESERVER, &["conf"]);
        rt::settle();
        if rt::k().net.bound_log.is_empty() {
            rt::fail("does not start", format!("{}: {:?}", what, rt::k().logs));
        }
        all_shown(&docs, &what);
    });

    ck.rt("records are shown", opts(), || {
        let gap = rt::pick(5);
        let style = rt::pick(4);
        let cut = rt::pick_bool();
        let level = *rt::pick_of(&["Debug", "Trace", "Info", "Error"]);
        let mut docs = vec![];
        for k in 0..4 {
            let mut d = Doc::default();
            for (e, _) in good(k) {
                d.gap(gap);
                d.entry(&spread(e, style));
            }
            d.store(FILES[k], if cut { "" } else { "\n" });
            docs.push(d);
        }
        conf(level);
        start(NAMESERVER, &["conf"]);
        rt::settle();
        let what = format!("level {}, gaps {}, style {}", level, gap, style);
        if rt::k().net.bound_log.is_empty() {
            rt::fail("does not start", format!("{}: {:?}", what, rt::k().logs));
        }
        if level != "Debug" && level != "Trace" {
            rt::count("not shown");
            return;
        }
        all_shown(&docs, &what);
    });
    ck.finish();
}
thread_local! {
    static RANGE: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) };
}
