//! Properties about others: programs that break the rules, that only read or
//! only write, that send over bad networks, that build cards or embed photos.
use crate::canon;
use crate::damage::{self, Gateway};
use crate::disk::*;
use crate::gen::{self, Cfg};
use crate::peer::{self, Line};
use crate::props::{check, describe, fl, good as props_good, items, loose, render, same, save, seen, show, single, strict, terminate, w};
use crate::shm::{add, chance, count, draw, event, note, shm, FAULT, SCHED, WORK};
use crate::sys::{call, violate};
use crate::{sched, *};
use base64::Engine as _;
use vcard4::parameter::*;
use vcard4::property::*;
use vcard4::{Vcard, VcardBuilder};

fn fpick<T: Copy>(list: &[T]) -> T {
    list[fl(list.len())]
}

// ------------------------------------------------------------------ C14

/// What becomes of a broken rule.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Level {
    /// Strict reading refuses the card, loose reading goes on without the line.
    Line,
    /// Strict reading refuses the card, loose reading does not.
    Strict,
    /// All refuse the card.
    Card,
    /// Readers of whole texts refuse the card.
    Whole,
}

/// A property that breaks no rule by itself.
const GOOD: &[(&str, &str)] = &[
    ("SOURCE", "http://example.com/a.vcf"),
    ("KIND", "group"),
    ("XML", "<a/>"),
    ("FN", "Another Name"),
    ("N", "a;b;c;d;e"),
    ("NICKNAME", "Jim"),
    ("PHOTO", "http://example.com/a.jpg"),
    ("BDAY", "19850412"),
    ("ANNIVERSARY", "20090808"),
    ("GENDER", "M"),
    ("ADR", ";;1 Street;Town;;12345;Land"),
    ("TEL", "tel:+1-555"),
    ("EMAIL", "a@example.com"),
    ("IMPP", "xmpp:a@example.com"),
    ("LANG", "en"),
    ("TZ", "Raleigh/North America"),
    ("GEO", "geo:1.0,2.0"),
    ("TITLE", "Boss"),
    ("ROLE", "Lead"),
    ("LOGO", "http://example.com/l.png"),
    ("ORG", "Company;Unit"),
    ("MEMBER", "urn:uuid:03a0e51f-d1aa-4385-8a53-e29025acd8af"),
    ("RELATED", "urn:uuid:f81d4fae-7dec-11d0-a765-00a0c91e6bf6"),
    ("CATEGORIES", "a,b"),
    ("NOTE", "a note"),
    ("PRODID", "-//A//B"),
    ("REV", "19951031T222710Z"),
    ("SOUND", "http://example.com/s.ogg"),
    ("UID", "urn:uuid:4fbe8971-0bc3-424c-9c26-36c3e1eff6b1"),
    ("CLIENTPIDMAP", "1;urn:uuid:53e374d9-337e-4727-8803-a1e9c14e0556"),
    ("URL", "http://example.com/"),
    ("KEY", "http://example.com/k.pgp"),
    ("FBURL", "http://example.com/b"),
    ("CALADRURI", "mailto:a@example.com"),
    ("CALURI", "http://example.com/c"),
    ("X-OTHER", "anything"),
    ("x-b-2", "goes"),
];
const ONCE: &[&str] = &["KIND", "N", "BDAY", "ANNIVERSARY", "GENDER", "PRODID", "REV", "UID"];
const NO_TYPE: &[&str] =
    &["SOURCE", "KIND", "XML", "N", "BDAY", "ANNIVERSARY", "GENDER", "MEMBER", "PRODID", "REV", "UID", "CLIENTPIDMAP"];
const URIS: &[&str] =
    &["SOURCE", "IMPP", "GEO", "LOGO", "MEMBER", "SOUND", "URL", "FBURL", "CALADRURI", "CALURI"];
const NO_URI: &[&str] = &["not a uri", "", "/path", "a/b", "http", "1a:b", "#frag", ":x", "a b:c"];
const PARAMS: &[&str] = &["LANGUAGE=en", "PREF=1", "ALTID=1", "PID=1.1", "CALSCALE=gregorian", "X-P=1", "SORT-AS=a", "ALTID=\"a;b:c\""];
const BAD_DATES: &[&str] = &["20201301", "20200230", "20210229", "2020-13-01", "2020-02-30", "--1301", "--0230", "---32", "soon", "", "2020010", "+20200101", "+2020-01-01", "-20200101", "-2020-01-01", "-0412", "-011201", "-0-1", "-01-011", "--W01", "--W011", "--+1", "--0+10", "20200100", "---2", "--041", "--4", "-----", "--00", "202001"];
const BAD_TIMES: &[&str] = &["250000", "106000", "1060", "102261", "noon", "", "1", "102", "10220", "1022001", "102200+9900", "102200+0060", "102200+1", "102200ZZ", "102200Z-0500", "1022Z+01", "102200+0100Z", "10 22", "-", "--", "---", "--Z", "-Z", "-+01", "--+0100", "---05", "--0+05", "10+01+02", "10-01+02", "10+01-02", "1022+0100+0100", "-22+01-01", "T"];

fn days(year: usize, month: usize) -> usize {
    match month {
        2 if year % 4 == 0 && (year % 100 != 0 || year % 400 == 0) => 29,
        2 => 28,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

/// Is this what the grammar of RFC 6350 allows, where `0` stands for a digit?
/// (the forms of ISO 8601 it leaves out count as allowed: nobody has to refuse them)
fn date_shape(s: &str) -> bool {
    matches!(s, "00000000" | "0000-00-00" | "0000-00" | "000000" | "0000" | "0000-000" | "--0000" | "--00" | "--00-00" | "---00") || s.contains(['W', '.'])
}

fn time_shape(s: &str) -> bool {
    let end = s.trim_start_matches('-').find(['+', '-', 'Z']).map_or(s.len(), |i| i + s.len() - s.trim_start_matches('-').len());
    let (t, z) = s.split_at(end);
    let digits = matches!(t, "00" | "0000" | "000000" | "-00" | "-0000" | "--00");
    s.contains([':', '.', 'T']) || (digits && matches!(z, "" | "Z" | "+00" | "-00" | "+0000" | "-0000"))
}

fn timestamp_shape(s: &str) -> bool {
    let Some((d, t)) = s.split_once('T') else { return false };
    s.contains(':') || (matches!(d, "00000000" | "0000-00-00") && !t.starts_with('-') && time_shape(t))
}

/// A good form after one to three changes, such that it is no good form any
/// more; its digits are as good as they can be, to leave the form to blame.
fn bent(forms: &[&str], alphabet: &str, allowed: fn(&str) -> bool) -> String {
    let letters: Vec<char> = alphabet.chars().collect();
    for _ in 0..20 {
        let mut s: Vec<char> = fpick(forms).chars().collect();
        for _ in 0..1 + fl(3) {
            let at = fl(s.len() + 1);
            match fl(4) {
                0 if at < s.len() => {
                    s.remove(at);
                }
                1 if at < s.len() => s[at] = letters[fl(letters.len())],
                2 if at < s.len() => {
                    // Twice the same
                    let end = (at + 1 + fl(3)).min(s.len());
                    let again = s[at..end].to_vec();
                    s.splice(end..end, again);
                }
                _ => s.insert(at, letters[fl(letters.len())]),
            }
        }
        let shape: String = s.iter().collect();
        if !allowed(&shape) {
            let fill = fpick(&["0", "1", "10"]);
            let mut n = 0;
            return shape.chars().map(|c| if c == '0' { n += 1; fill.as_bytes()[n % fill.len()] as char } else { c }).collect();
        }
    }
    String::new()
}

fn bad_date() -> String {
    if fl(2) > 0 {
        return bent(&["00000000", "0000-00-00", "0000-00", "0000", "--0000", "--00", "---00"], "0-+TZ: ", date_shape);
    }
    if fl(3) > 0 {
        return fpick(BAD_DATES).into();
    }
    let (year, month) = (1500 + fl(1000), 1 + fl(12));
    let sep = fpick(&["", "-"]);
    match fl(5) {
        4 => format!("{year}{sep}{month:02}{sep}{:02}T{}", 1 + fl(28), fpick(&["", "10", "1022", "102200", "102200Z", "25", "x"])),
        0 => format!("{year}{sep}{:02}{sep}{:02}", 13 + fl(87), 1 + fl(28)),
        1 => format!("--{month:02}{:02}", days(0, month) + 1 + fl(60)),
        2 => format!("---{:02}", 32 + fl(68)),
        _ => format!("{year}{sep}{month:02}{sep}{:02}", days(year, month) + 1 + fl(3)),
    }
}

fn bad_time() -> String {
    if fl(2) > 0 {
        return bent(&["00", "0000", "000000", "000000Z", "0000-0000", "00+00", "-0000", "-00", "--00Z", "--00"], "0-+Z ", time_shape);
    }
    if fl(3) > 0 {
        return fpick(BAD_TIMES).into();
    }
    let zone = fpick(&["", "Z", "-0500", "+01"]);
    match fl(3) {
        0 => format!("{:02}{:02}{:02}{zone}", 25 + fl(75), fl(60), fl(60)),
        1 => format!("{:02}{:02}{zone}", fl(24), 60 + fl(40)),
        _ => format!("{:02}{:02}{:02}{zone}", fl(24), fl(60), 61 + fl(39)),
    }
}

/// A value that is not of its type, or hardly.
pub fn bad_value() -> String {
    match fl(6) {
        0 => bad_date(),
        1 => bad_time(),
        2 => bent(&["00000000T000000", "00000000T00Z", "00000000T0000-0000"], "0-+TZ ", |_| false),
        3 => bent(&["00000000T000000", "00000000T000000Z", "00000000T000000-00", "00000000T000000+0000"], "0-+TZ ", |_| false),
        4 => bent(&["+00", "-0000", "Z"], "0-+Z: ", |_| false),
        _ => fpick(&["abc", "1.5", "", "9223372036854775808", "1 2", "0x1", "--1", "nan", "-inf", "1e400", "+5", "TRUE", "yes", ":", "a:", "a b:c", "1;", "0;urn:x", "+1;urn:x"]).to_string(),
    }
}

fn good(name: &str) -> String {
    GOOD.iter().find(|g| g.0.eq_ignore_ascii_case(name)).expect("listed").1.to_string()
}

fn recase(s: &str) -> String {
    match fl(4) {
        0 | 1 => s.to_string(),
        2 => s.to_ascii_lowercase(),
        _ => s.chars().map(|c| if fl(2) == 0 { c.to_ascii_lowercase() } else { c }).collect(),
    }
}

const TEXTS: &[&str] = &["FN", "N", "NICKNAME", "EMAIL", "TITLE", "ROLE", "ORG", "CATEGORIES", "NOTE", "PRODID", "X-OTHER", "XML", "TZ"];

/// Escapes, other scripts, what parameters and groups are made of.
fn rich_text() -> String {
    const PIECES: &[&str] = &[
        "a", "b c", "\\,", "\\;", "\\n", "\\N", "\\\\", "ß", "日本", "👩‍👩‍👧", "é", "\"", ":", "=", ".", "x", "  ", "\t", "BEGIN:VCARD", "c\\nd", "'", "^n",
    ];
    let n = [1, 2, 4, 9, 40][fl(5)];
    let mut s: String = (0..n).map(|_| fpick(PIECES)).collect();
    s.insert(0, 'w');
    s
}

/// Insert at any place but the very end.
fn insert(v: &mut String, c: char) {
    let places: Vec<usize> = v.char_indices().map(|(i, _)| i).collect();
    v.insert(places[fl(places.len())], c);
}

struct Parts {
    name: String,
    params: Vec<String>,
    value: String,
}

impl Parts {
    fn new(name: &str) -> Parts {
        let value = if TEXTS.contains(&name) && fl(4) == 0 { rich_text() } else { good(name) };
        Parts { name: recase(name), params: Vec::new(), value }
    }

    fn any() -> Parts {
        Parts::new(fpick(GOOD).0)
    }

    fn with(mut self, p: String) -> Parts {
        self.params.push(p);
        self
    }

    fn value(mut self, v: &str) -> Parts {
        self.value = v.into();
        self
    }

    /// Add what breaks nothing, and put it together.
    fn line(mut self) -> String {
        for _ in 0..[0, 0, 0, 1, 2][fl(5)] {
            let p = fpick(PARAMS);
            let key = p.split('=').next().unwrap();
            let taken = self.params.iter().any(|q| q.to_uppercase().starts_with(key));
            if !taken && !(key == "PID" && self.name.eq_ignore_ascii_case("CLIENTPIDMAP")) {
                let at = fl(self.params.len() + 1);
                self.params.insert(at, p.to_string());
            }
        }
        let group = fpick(&["", "", "", "g.", "item-1."]);
        let params: String = self.params.iter().map(|p| format!(";{p}")).collect();
        format!("{group}{}{params}:{}", self.name, self.value)
    }
}

fn quote_or_not(v: &str) -> String {
    if fl(3) == 0 {
        format!("\"{v}\"")
    } else {
        v.to_string()
    }
}

/// A line that breaks a rule.
fn broken_line() -> (&'static str, Level, String) {
    let key = |k: &str, v: &str| format!("{}={}", recase(k), quote_or_not(v));
    let x = |t: &str, v: &str| {
        Parts { name: fpick(&["X-A", "x-date"]).into(), params: vec![key("VALUE", t)], value: v.into() }.line()
    };
    let list = |goods: &[&str], bad: &str| -> String {
        let mut v: Vec<&str> = (0..[0, 0, 1, 2][fl(4)]).map(|_| fpick(goods)).collect();
        v.insert(fl(v.len() + 1), bad);
        v.join(",")
    };
    match fl(32) {
        0 => {
            let big = (101 + fl(70_000)).to_string();
            let v = fpick(&[&big[..], "0", "101", "256", "255", "102", "-1", "1000", "abc", "", "1.5", "1e1", "99999999999999999999", "1 ", "0x10", "357", "+1", "+100"]);
            ("PREF is an integer from 1 to 100", Level::Line, Parts::any().with(key("PREF", v)).line())
        }
        1 => {
            let t = fpick(&["home", "WORK", "x-foo", "cell,voice", "friend", "other"]);
            ("TYPE is not for this property", Level::Line, Parts::new(fpick(NO_TYPE)).with(key("TYPE", t)).line())
        }
        2 => {
            let p = Parts::any();
            let p = if p.name.eq_ignore_ascii_case("ADR") { Parts::new("NOTE") } else { p };
            ("LABEL is for addresses", Level::Line, p.with(format!("{}=\"a label\"", recase("LABEL"))).line())
        }
        3 => ("PID is not for client PID maps", Level::Line, Parts::new("CLIENTPIDMAP").with(key("PID", fpick(&["1", "1.1", "2.1,3.1"]))).line()),
        4 => {
            let bad = list(&["1", "1.1", "20.3"], fpick(&["a", "", "1.x", ".5", "x.1", "1.", "-1", "1.2.3", "1,5.", "99999999999999999999", "+1", "1.+2", "+1.1"]));
            let p = Parts::any();
            let p = if p.name.eq_ignore_ascii_case("CLIENTPIDMAP") { Parts::new("TEL") } else { p };
            ("PID is malformed", Level::Line, p.with(key("PID", &bad)).line())
        }
        5 => {
            let v = fpick(&["0;urn:x:y", "1", "1;", "x;urn:x:y", ";urn:x:y", "-1;urn:x:y", "1;not a uri", "1.5;urn:x:y", "", "urn:x:y;1", "1,urn:x:y", "99999999999999999999;urn:x:y", "+1;urn:x:y"]);
            ("CLIENTPIDMAP is a positive number and a URI", Level::Line, Parts::new("CLIENTPIDMAP").value(v).line())
        }
        6 => {
            let v = fpick(&["binary", "vcard", "phone-number", "", "texts", "ur", "x-foo", "date time"]);
            // Members make a card of another kind invalid
            let p = Parts::any();
            let p = if p.name.eq_ignore_ascii_case("MEMBER") { Parts::new("URL") } else { p };
            ("unknown VALUE", Level::Strict, p.with(key("VALUE", v)).line())
        }
        7 => {
            let t = fpick(&["date", "time", "date-time", "date-and-or-time", "timestamp", "boolean", "integer", "float", "utc-offset", "language-tag"]);
            ("VALUE is text or uri", Level::Line, Parts::new(fpick(&["TEL", "RELATED", "UID", "KEY"])).with(key("VALUE", &recase(t))).line())
        }
        8 => {
            let t = fpick(&["date", "time", "date-time", "date-and-or-time", "timestamp", "boolean", "integer", "float", "language-tag"]);
            ("VALUE is text, uri or utc-offset", Level::Line, Parts::new("TZ").with(key("VALUE", &recase(t))).line())
        }
        9 => {
            let t = fpick(&["uri", "boolean", "integer", "float", "utc-offset", "language-tag", "date", "time", "date-time", "timestamp"]);
            let v = fpick(&["19850412", "19850412", "T102200", "19850412T102200", "19850412T102200Z", "http://example.com/", "1", "true", "en", "-0500"]);
            ("VALUE is text or date-and-or-time", Level::Line, Parts::new(fpick(&["BDAY", "ANNIVERSARY"])).with(key("VALUE", &recase(t))).value(v).line())
        }
        10 => {
            let p = Parts::new(fpick(&["TEL", "RELATED", "UID", "KEY", "TZ", "X-OTHER"])).with(key("VALUE", "uri"));
            ("the value is not a URI", Level::Line, p.value(fpick(NO_URI)).line())
        }
        11 => ("the value is not a URI", Level::Line, Parts::new(fpick(URIS)).value(fpick(NO_URI)).line()),
        12 => {
            let bad = fpick(&["abc", "1.5", "", "9223372036854775808", "1 2", "0x1", "--1", "1;2", "one", "1_000", "\u{661}", "+", "-", "1e3", "1."]);
            ("not an integer", Level::Line, x("integer", &list(&["1", "-5"], bad)))
        }
        13 => ("not a float", Level::Line, x("float", &list(&["1.5", "-5"], fpick(&["abc", "", "1.5.5", "1;5", "--1", "1 2", "1_0.5", "0x1p3", "e5", "1e", ".", "-", "1.5f"])))),
        14 => ("not a boolean", Level::Line, x("boolean", fpick(&["yes", "1", "", "t", "truefalse", "true ", "true,false", "no"]))),
        15 => ("not a date", Level::Line, x("date", &list(&["20200101", "--0412"], &bad_date()))),
        16 => ("not a time", Level::Line, x("time", &list(&["102200", "10"], &bad_time()))),
        17 => {
            let bad = match fl(6) {
                4 => format!("20200101T{}T{}", fpick(&["", "10", "102200", "102200Z"]), fpick(&["", "10", "102200", "x"])),
                5 => bent(&["00000000T000000", "00000000T00Z", "00000000T0000-0000"], "0-+TZ ", |s| s.split_once('T').is_some_and(|(d, t)| date_shape(d) && time_shape(t))),
                0 => format!("{}T102200", bad_date()),
                1 => format!("20200101T{}", bad_time()),
                _ => fpick(&["20200101", "T102200", "20200101 102200", "20200101102200", "now", ""]).to_string(),
            };
            ("not a date-time", Level::Line, x("date-time", &list(&["20200101T102200"], &bad)))
        }
        18 => {
            let bad = match fl(2) {
                0 => bent(&["00000000T000000", "00000000T000000Z", "00000000T000000-00", "00000000T000000+0000"], "0-+TZ ", timestamp_shape),
                _ => fpick(&["20200101", "20200101T", "20201301T102200", "20200230T102200Z", "20200101T250000Z", "20200101T106000Z", "T102200", "2020T102200", "now", "", "20200101T102200X", "20200101T102200+", "+20200101T102200Z", "-20200101T102200", "+20200101T102200-05", "-00010101T000000Z"]).to_string(),
            };
            let bad = &bad[..];
            if fl(2) == 0 {
                ("not a timestamp", Level::Line, x("timestamp", &list(&["20200101T102200Z"], bad)))
            } else {
                ("not a timestamp", Level::Line, Parts::new("REV").value(bad).line())
            }
        }
        19 => {
            let bad = match fl(2) {
                0 => bent(&["+00", "-0000", "Z"], "0-+Z: ", |s| matches!(s, "Z" | "+00" | "-00" | "+0000" | "-0000") || s.contains(':')),
                _ => fpick(&["abc", "05", "0500", "", "+", "-", "+5", "+050", "+0060", "-05:0", "+9900", "+05000", "UTC"]).to_string(),
            };
            let bad = &bad[..];
            if fl(2) == 0 {
                ("not a UTC offset", Level::Line, x("utc-offset", bad))
            } else {
                ("not a UTC offset", Level::Line, Parts::new("TZ").with(key("VALUE", "utc-offset")).value(bad).line())
            }
        }
        20 => {
            let bad = match fl(3) {
                0 => format!("T{}", bad_time()),
                // Without a date it would be a time
                1 => format!("{}T102200", Some(bad_date()).filter(|d| !d.is_empty()).unwrap_or("20200230".into())),
                _ => fpick(&["20201301", "TT102200", "TT10", "T1T0", "20200230", "2020-13-01", "--1301", "---32", "soon", "", "20200100", "19850230", "---2", "--041"]).to_string(),
            };
            let bad = list(&["20200101", "T102200", "20200101T102200"], &bad);
            if fl(3) == 0 {
                ("not a date or time", Level::Line, x("date-and-or-time", &bad))
            } else {
                let mut p = Parts::new(fpick(&["BDAY", "ANNIVERSARY"]));
                if fl(2) == 0 {
                    p = p.with(key("VALUE", "date-and-or-time"));
                }
                ("not a date or time", Level::Line, p.value(&bad).line())
            }
        }
        21 => {
            let v = fpick(&["geo:1,2", "http://example.com/"]);
            let p = if fl(2) == 0 { format!("{}={v}", recase("GEO")) } else { format!("{}=\"{}\"", recase("GEO"), fpick(NO_URI)) };
            ("the GEO parameter is a quoted URI", Level::Line, Parts::any().with(p).line())
        }
        22 => {
            // What opens must close, and nothing follows
            let p = fpick(&["ALTID=\"a", "LANGUAGE=\"en", "SORT-AS=\"a,b", "X-P=\"", "ALTID=\"a\"b", "X-P=\"a\"\"", "ALTID=a\"b", "ALTID=a\"", "CALSCALE=\"a\" "]);
            let mut g = Parts::any();
            g.params.push(p.into());
            g.value = g.value.replace('"', "");
            // No other parameters: they could close it
            ("quotes are around a whole parameter value", Level::Line, format!("{};{}:{}", g.name, p, g.value))
        }
        23 => {
            // Not at the very end, where it would be part of the line end
            let c = fpick(&['\u{1}', '\u{0}', '\u{8}', '\u{b}', '\u{c}', '\u{1b}', '\u{1f}', '\u{7f}', '\r']);
            let p = Parts::new(fpick(&["NOTE", "FN", "EMAIL", "ORG", "CATEGORIES", "X-OTHER", "TITLE", "N", "ADR", "TZ", "URL", "NICKNAME", "ROLE", "PRODID", "XML"]));
            let mut v = p.value.clone();
            insert(&mut v, c);
            ("no control characters", Level::Line, p.value(&v).line())
        }
        24 => {
            let c = fpick(&['\u{1}', '\u{0}', '\u{8}', '\u{b}', '\u{c}', '\u{1b}', '\u{7f}', '\r']);
            let v = fpick(&["a{}b", "{}b", "a{}", "a\\n{}b", "ß{}", "日{}本", "long long long long long{}", "a\\,{}b", "^n{}b"]).replace("{}", &c.to_string());
            ("no control characters", Level::Line, Parts::any().with(format!("{}={}", fpick(&["ALTID", "X-P", "SORT-AS", "CALSCALE"]), quote_or_not(&v))).line())
        }
        25 if fl(6) == 0 => {
            let l = fpick(&["VERSION:2.1", "VERSION:5.0", "g.VERSION:4.0", "VERSION;X-P=1:4.0", "VERSION;VALUE=text:4.0", "VERSION: 4.0", "version:4", "VERSION:", "item1.version:3.0"]);
            ("VERSION is not among the properties", Level::Line, l.to_string())
        }
        25 => {
            let n = fpick(&["FOO", "NOTES", "BDAYX", "MAILER", "AGENT", "LABEL", "CLASS", "NAME", "SORT-STRING", "PROFILE", "XFOO", "EXPERTISE-", "T", "F", "N-", "iana-token"]);
            let name = format!("{}{}", fpick(&["", "", "g."]), recase(n));
            let p = fpick(&["", "", ";PREF=1", ";ALTID=\"a:b\""]);
            ("unknown property", Level::Line, format!("{name}{p}:{}", fpick(&["x", "", "http://a/"])))
        }
        26 => {
            let p = fpick(&["FOO=1", "XP=1", "INDEX=1", "LEVEL=expert", "TYPES=home", "LANG=en", "DERIVED=true", "ALT-ID=1", "g.TZ=1", "g.TYPE=home", "item1.GEO=\"geo:1,2\"", "X=1", "X-=1", "-=1", "g.X-P=1"]);
            ("unknown parameter", Level::Line, Parts::any().with(recase(p)).line())
        }
        27 => {
            let mut g = Parts::any();
            g.value = "x".into();
            let n = &g.name;
            let l = match fl(9) {
                0 => n.clone(),
                1 => format!("{n}=x"),
                2 => format!("{n};ALTID:x"),
                3 => format!("{n};ALTID=1"),
                4 => format!("{n};:x"),
                5 => format!("{n};=1:x"),
                6 => format!("{n};;ALTID=1:x"),
                7 => format!("{n};ALTID"),
                _ => format!("{n} :x"),
            };
            ("a line has a name and a value", Level::Line, l)
        }
        28 => {
            let v = fpick(&["latin1", "ISO-8859-1", "UTF-16", "us-ascii", "", "UTF-8,UTF-16", "UTF-7", "UTF-32", "utf8", "UTF-88", "XUTF-8", "UTF-"]);
            ("the only charset is UTF-8", Level::Line, Parts::any().with(key("CHARSET", v)).line())
        }
        29 => match fl(3) {
            0 => ("unknown kind", Level::Line, Parts::new("KIND").value(fpick(&["banana", "", "groups", "x", "individual,group", "individual "])).line()),
            1 => ("unknown sex", Level::Line, Parts::new("GENDER").value(fpick(&["X", "MF", "male", "Z;it", "1", ",M"])).line()),
            _ => {
                let v = fpick(&["", "a", "a;b", ";;;;;", ";;a\\;b;c;d;e", "a,b,c,d,e,f,g"]);
                ("an address has seven parts", Level::Line, Parts::new("ADR").value(v).line())
            }
        },
        30 if cfg!(feature = "full") && fl(3) == 0 => {
            let tag = fpick(&["e", "en us", "en_US", "", "en-", "-en", "123", "abcdefghi", "en--US", "x", "a-b", "en-a", "de-419-DE", "é", "en-US-en-US-toolong123"]);
            match fl(4) {
                0 => ("not a language tag", Level::Line, Parts::any().with(key("LANGUAGE", tag)).line()),
                1 => ("not a language tag", Level::Line, Parts::new("LANG").value(tag).line()),
                2 => ("not a language tag", Level::Line, x("language-tag", tag)),
                _ => {
                    let v = fpick(&["text", "/plain", "", "a b/c", "text/plain;a", "text//plain", "text/pl ain", "text/plain;a=b;c"]);
                    ("not a media type", Level::Line, Parts::any().with(format!("{}=\"{v}\"", recase("MEDIATYPE"))).line())
                }
            }
        }
        30 => {
            // A blank is part of a value, and no value of a type has one
            let pad = |v: &str| {
                let b = fpick(&[" ", "\t", "  ", " \t", "\u{a0}", "\u{feff}", "\u{2003}"]);
                match fl(3) {
                    0 => format!("{v}{b}"),
                    1 => format!("{b}{v}{b}"),
                    _ => format!("{b}{v}"),
                }
            };
            let typed = [
                ("integer", "1"), ("integer", "-20"), ("float", "1.5"), ("float", "7"), ("boolean", "true"), ("boolean", "FALSE"), ("date", "20200101"),
                ("date", "--0412"), ("time", "102200"), ("time", "10"), ("date-time", "20200101T102200"), ("timestamp", "20200101T102200Z"),
                ("utc-offset", "+0100"), ("utc-offset", "-05"), ("date-and-or-time", "20200101"), ("date-and-or-time", "T1022"), ("uri", "http://a/b"),
            ];
            let l = match fl(3) {
                0 => {
                    let (t, v) = typed[fl(typed.len())];
                    match t {
                        "boolean" | "utc-offset" | "uri" => x(t, &pad(v)),
                        _ => x(t, &list(&[v], &pad(v))),
                    }
                }
                1 => {
                    let (n, v) = [
                        ("KIND", "individual"), ("KIND", "Org"), ("GENDER", "M"), ("GENDER", "o"), ("REV", "20200101T102200Z"), ("BDAY", "19850412"), ("ANNIVERSARY", "T10"),
                        ("URL", "http://a/b"), ("IMPP", "a:b"), ("CLIENTPIDMAP", "1;a:b"), ("SOURCE", "a:b"),
                    ][fl(11)];
                    Parts::new(n).value(&pad(v)).line()
                }
                _ => {
                    let (k, v) = [("PREF", "1"), ("PREF", "100"), ("PID", "1"), ("PID", "2.1"), ("CHARSET", "UTF-8"), ("GEO", "geo:1,2")][fl(6)];
                    let p = Parts::any();
                    let p = if p.name.eq_ignore_ascii_case("CLIENTPIDMAP") { Parts::new("TEL") } else { p };
                    p.with(format!("{}=\"{}\"", recase(k), pad(v))).line()
                }
            };
            ("blanks around a value", Level::Line, l)
        }
        _ => {
            if fl(2) == 0 {
                // A name or a group with a character no name is made of
                let mut p = Parts::any();
                if fl(4) == 0 {
                    // Letters that fold to those of a name, but are not
                    if fl(3) == 0 {
                        p.name = fpick(&["X-k", "k.NOTE", "s.TZ", "as.geo", "X-SKYPE", "k.X-A"]).into();
                    }
                    let alike = |s: &str| s.replace(['k', 'K'], "\u{212a}").replace(['s', 'S'], "\u{17f}");
                    let name = alike(&p.name);
                    if name == p.name {
                        p = p.with(alike(fpick(&["SORT-AS=a", "sort-as=a", "CHARSET=utf-8", "CALSCALE=gregorian", "X-K=1", "X-S=1", "x-ask=1"])));
                        let params = p.params.len();
                        p.params.swap(0, params - 1);
                        return ("a parameter has letters, digits and hyphens", Level::Line, p.line());
                    }
                    p.name = name;
                    return ("a name has letters, digits and hyphens", Level::Line, p.line());
                }
                let at = loop {
                    let at = fl(p.name.len() + 1);
                    if p.name.is_char_boundary(at) {
                        break at;
                    }
                };
                let c = fpick(&["_", "/", "+", "*", "@", "é", "\"", "=", "'", "~", "|", "\\", ",", "#", "(", "\u{212a}", "\u{17f}", "_9", " "]);
                p.name.insert_str(at, if at == 0 && c == " " { "_" } else { c });
                return ("a name has letters, digits and hyphens", Level::Line, p.line());
            }
            let l = fpick(&[":x", ".FN:x", "=x", ";ALTID=1:x", "\"FN\":x", "1;2;3", "F N:x", "FN,:x", "-", ";", "g.:x", "FN_:x", "\\n:x", "é:x"]);
            ("a line starts with a name", Level::Line, l.to_string())
        }
    }
}

/// A frame around no properties, as some program writes it.
struct Base {
    blocks: Vec<String>,
    card: Vcard,
}

impl Base {
    fn draw(cfg: &Cfg, g: &Gateway) -> Base {
        let card = cfg.card();
        let text = if chance(WORK, 1, 2) { render(&card) } else { peer::write(&card) };
        Base { blocks: damage::blocks(&g.pass(&text)).into_iter().filter(|b| !b.trim().is_empty()).collect(), card }
    }

    fn text(&self) -> String {
        self.blocks.concat()
    }

    /// Where a property may stand.
    fn place(&self) -> usize {
        2 + fl(self.blocks.len() - 2)
    }
}

fn named(block: &str, name: &str) -> bool {
    let l = damage::logical(block).concat();
    let full = l.split([':', ';']).next().unwrap_or("").to_string();
    full.rsplit('.').next().unwrap_or("").eq_ignore_ascii_case(name)
}

pub fn c14() {
    let cfg = Cfg::draw().small();
    let gateway = Gateway::draw();
    for _ in 0..1 + w(3) {
        broken(&cfg, &gateway);
    }
    // The rules for cards that were not read
    let mut c = cfg.card();
    check();
    if let Err(e) = call("validate", || c.validate()) {
        violate("refused", &format!("validate refuses a card that keeps the rules: {e}; {}", canon::clip(&format!("{c:?}"))));
    }
    let what = match fl(3) {
        0 => {
            c.formatted_name.clear();
            "without a formatted name"
        }
        k => {
            for _ in 0..1 + fl(2) {
                c.member.push(UriProperty { group: None, value: gen::uri(), parameters: None });
            }
            if k == 1 {
                c.kind = None;
                "with members but without a kind"
            } else {
                let value = fpick(&[0, 1, 2]);
                let value = [Kind::Individual, Kind::Org, Kind::Location][value].clone();
                c.kind = Some(KindProperty { group: None, value, parameters: None });
                "with members of something else than a group"
            }
        }
    };
    count(R_CARD);
    if call("validate", || c.validate()).is_ok() {
        violate("accepted", &format!("validate accepts a card {what}: {}", canon::clip(&format!("{c:?}"))));
    }
    let text = render(&c);
    whole_refused(&text, what);
    let got = items(&text, true);
    if got.len() == 1 && got[0].is_ok() {
        same("changed", "iterating over a card that does not keep the rules", &c, got[0].as_ref().unwrap(), &text);
    }
}

fn whole_refused(text: &str, what: &str) {
    check();
    for (reader, r) in [("parse", strict(text)), ("parse_loose", loose(text))] {
        if r.is_ok() {
            violate("accepted", &format!("{reader} accepts a card {what}: {}", canon::clip(&format!("{text:?}"))));
        }
    }
}

fn broken(cfg: &Cfg, g: &Gateway) {
    let mut base = Base::draw(cfg, g);
    let mut want = base.card.clone();
    let end = g.line_end();
    let mut alone = false;
    let (what, level) = match fl(10) {
        0 => {
            // A property that may occur only once
            let name = fpick(ONCE);
            let line = Parts::new(name).line();
            let at = match base.blocks.iter().position(|b| named(b, name)) {
                Some(at) => at,
                None => {
                    let at = base.place();
                    base.blocks.insert(at, g.pass(&format!("{line}{end}")));
                    match strict(&base.text()) {
                        Ok(c) if c.len() == 1 => want = c.into_iter().next().unwrap(),
                        // Not a group any more, perhaps
                        _ => return,
                    }
                    at
                }
            };
            let again = if fl(2) == 0 { base.blocks[at].clone() } else { g.pass(&format!("{}{end}", Parts::new(name).line())) };
            let to = at + 1 + fl(base.blocks.len() - 1 - at);
            base.blocks.insert(to, again);
            count(R_LINE);
            ("may occur only once", Level::Line)
        }
        1 => {
            count(R_CARD);
            let version = |v: &str| format!("{}{end}", v);
            match fl(13) {
                8 => {
                    let l = fpick(&[
                        "BEGIN", "BEGIN:", "VCARD", "BEGIN:VCALENDAR", "BEGIN:VCARD3", "END:VCARD", "VERSION:4.0", "VERSION:3.0", "FN", "X-A", "TZ", ";", ":", "\"", "=",
                        "BEGIN;X-P=1:VCARD", "BEGIN=VCARD", "-BEGIN:VCARD", "BEGIN :VCARD", "g.BEGIN:VCARD", "FN:a", "BEGIN:VCARD ", "BEGIN:VCARD;", "BEGIN: VCARD",
                        "\\n", "é", "\u{feff}BEGIN:VCARD", "x", "LABEL", " BEGIN:VCARD", "\tBEGIN:VCARD",
                    ]);
                    alone = l.starts_with([' ', '\t']);
                    base.blocks[0] = version(l);
                    ("that does not begin as a card does", Level::Card)
                }
                9 => {
                    base.blocks[1] = version(fpick(&[
                        "VERSION", "VERSION;X-P=1:4.0", "FN", "X-A:1", "X-A", "TZ", "geo", ";", "VERSION=4.0", "g.VERSION:4.0", "END:VCARD", "BEGIN:VCARD", "4.0", "VERSION :4.0",
                        "VERSION: 4.0", "VERSION:4.0 ", "VERSION:4.0;", "VERSION:4.0x", " VERSION:4.0", "", "\\,", "PREF", "VERSION:3.0,4.0",
                    ]));
                    ("with something else for a version", Level::Card)
                }
                10 => {
                    base.blocks.remove(1);
                    base.blocks[0] = version(fpick(&["BEGIN:VCARD VERSION:4.0", "BEGIN:VCARD;VERSION:4.0", "BEGIN:VCARD:VERSION:4.0", "BEGIN:VCARDVERSION:4.0", "BEGIN:VCARD\"VERSION:4.0"]));
                    ("with two lines in one", Level::Card)
                }
                11 => {
                    let last = base.blocks.len() - 1;
                    base.blocks[last] = version(fpick(&[
                        "END", "END:", "END:VCALENDAR", "END;X-P=1:VCARD", "END=VCARD", "-END:VCARD", "g.END:VCARD", " END:VCARD", "END :VCARD", "END: VCARD", "X-END:VCARD", "\tEND:VCARD",
                        "END:VCAR", "ND:VCARD", "BEGIN:VCARD", "VERSION:4.0", "\"END:VCARD\"", "X-P;END:VCARD", "NOTE;ALTID=END:VCARD",
                    ]));
                    ("without an end", Level::Card)
                }
                12 => {
                    let last = base.blocks.len() - 1;
                    base.blocks[last] = version(fpick(&["END:VCARDX", "END:VCARD X", "END:VCARD ", "END:VCARD;", "END:VCARD:", "END:VCARD\"", "END:VCARD=", "END:VCARD\rx", "END:VCARDEND:VCARD", "END:VCARDFN:a"]));
                    ("with junk behind its end", Level::Whole)
                }
                0 => {
                    base.blocks.remove(1);
                    ("without a version", Level::Card)
                }
                1 => {
                    base.blocks[1] = version(fpick(&["VERSION:2.1", "VER\u{17f}ION:4.0", "ver\u{17f}ion:3.0", "VERSION:2.0", "VERSION:1.0", "VERSION:6.0", "VERSION:3.1", "VERSION:4.1", "VERSION:4x0", "VERSION:3,0", "VERSION:0.0", "VERSION:5.0", "VERSION:4", "VERSION:", "VERSION:4.0.1", "VERSION:44.0", "VERSION:4.00"]));
                    ("with a foreign version", Level::Card)
                }
                2 => {
                    let at = base.place();
                    base.blocks.insert(at, version(fpick(&["VERSION:4.0", "VERSION:3.0"])));
                    ("with a misplaced version", Level::Card)
                }
                3 => {
                    if base.blocks.len() < 4 {
                        return;
                    }
                    let to = 2 + fl(base.blocks.len() - 3);
                    let v = base.blocks.remove(1);
                    base.blocks.insert(to, v);
                    ("that does not start with its version", Level::Card)
                }
                4 => {
                    let at = base.place();
                    base.blocks.insert(at, version("BEGIN:VCARD"));
                    ("that begins twice", Level::Card)
                }
                5 => {
                    base.blocks.remove(0);
                    ("that does not begin", Level::Card)
                }
                6 => {
                    // As long as a name is left it is a card
                    base.blocks.retain(|b| !named(b, "FN"));
                    ("without a formatted name", Level::Whole)
                }
                _ => {
                    if want.member.is_empty() {
                        let at = base.place();
                        base.blocks.insert(at, g.pass(&format!("MEMBER:{}{end}", good("MEMBER"))));
                    }
                    base.blocks.retain(|b| !named(b, "KIND"));
                    if fl(2) == 0 {
                        let at = base.place();
                        base.blocks.insert(at, g.pass(&format!("KIND:{}{end}", fpick(&["individual", "org", "location"]))));
                    }
                    ("with members of something else than a group", Level::Whole)
                }
            }
        }
        _ => {
            count(R_LINE);
            let (what, level, line) = broken_line();
            note(|| format!("{what}: {line:?}"));
            let mut block = format!("{line}{end}");
            // Others would take these for line ends
            if !line.contains(|c: char| c.is_control()) && !line.is_empty() {
                block = g.fold(&line);
            }
            let at = base.place();
            base.blocks.insert(at, block);
            (what, level)
        }
    };
    let text = base.text();
    // Healthy cards around it
    let mut before: Vec<Vcard> = (0..[0, 0, 1, 2][w(4) as usize]).map(|_| cfg.card()).collect();
    let after: Vec<Vcard> = (0..[0, 0, 1, 2][w(4) as usize]).map(|_| cfg.card()).collect();
    if alone {
        before.clear();
    }
    let stream = |text: &str| -> String {
        let mut s: String = before.iter().map(|c| render(c)).collect();
        s.push_str(text);
        s.extend(after.iter().map(|c| render(c)));
        s
    };
    let all = stream(&text);
    show("broken", &all);
    seen(EV_TEXT, &all);
    check();
    let fail = |class: &str, reader: &str, got: &str| -> ! {
        violate(class, &format!("{reader}: {what} ({level:?}): {got}; text {}", canon::clip(&format!("{all:?}"))))
    };
    if strict(&all).is_ok() {
        fail("accepted", "parse", "accepted");
    }
    if level == Level::Card || level == Level::Whole {
        if loose(&all).is_ok() {
            fail("accepted", "parse_loose", "accepted");
        }
        if level == Level::Card && before.is_empty() && single(&all).is_ok() {
            fail("accepted", "try_from", "accepted");
        }
        return;
    }
    if before.is_empty() && single(&all).is_ok() {
        fail("accepted", "try_from", "accepted");
    }
    let got = items(&all, true);
    let cards = props_good(&got);
    let healthy: Vec<&Vcard> = before.iter().chain(&after).collect();
    if got.iter().all(|r| r.is_ok()) {
        fail("accepted", "iter", "no error");
    }
    if cards.len() != healthy.len() || cards.iter().zip(&healthy).any(|(a, b)| canon::diff(a, b).is_some()) {
        fail("changed", "iter", &format!("does not return just the other cards: {}", describe(&got)));
    }
    match loose(&all) {
        Err(e) => fail("refused", "parse_loose", &e),
        Ok(cards) => {
            if cards.len() != healthy.len() + 1 {
                fail("changed", "parse_loose", &format!("{} cards", cards.len()));
            }
            let mut wanted = healthy.clone();
            wanted.insert(before.len(), &want);
            for (i, (a, b)) in wanted.iter().zip(&cards).enumerate() {
                if i == before.len() && level == Level::Strict {
                    continue;
                }
                if let Some(d) = canon::diff(a, b) {
                    fail("changed", "parse_loose", &d);
                }
            }
        }
    }
}

// ------------------------------------------------------------------ C15

fn text_property(value: String) -> TextProperty {
    TextProperty { group: None, value, parameters: None }
}

fn uri_property(value: vcard4::Uri) -> UriProperty {
    UriProperty { group: None, value, parameters: None }
}

/// Text that nobody takes for a URI.
fn phone(cfg: &Cfg) -> String {
    cfg.text().replace(':', "")
}

fn on_date(d: vcard4::Date) -> DateTimeOrTextProperty {
    DateTimeOrTextProperty::DateTime(DateAndOrTimeProperty { group: None, value: vec![DateAndOrTime::Date(d)], parameters: None })
}

/// A builder and what should come out of it.
fn build(cfg: &Cfg, ops: u32) -> (Vcard, Vcard) {
    let name = cfg.text();
    let mut m = Vcard::default();
    m.formatted_name.push(text_property(name.clone()));
    let mut b = call("VcardBuilder::new", || VcardBuilder::new(name));
    // Histories that come back to the same property
    let favourite = w(36);
    macro_rules! step {
        ($f:ident($v:expr) $m:ident => $e:expr) => {{
            let $m = $v;
            note(|| format!("thread {} calls {}({:?})", sched::tid(), stringify!($f), $m));
            let arg = $m.clone();
            b = call(concat!("VcardBuilder::", stringify!($f)), || b.$f(arg));
            $e
        }};
    }
    macro_rules! text {
        ($f:ident, $field:ident) => {
            step!($f(cfg.text()) v => m.$field.push(text_property(v)))
        };
    }
    macro_rules! uri {
        ($f:ident, $field:ident) => {
            step!($f(gen::uri()) v => m.$field.push(uri_property(v)))
        };
    }
    for _ in 0..ops {
        count(C_BUILD);
        event(sched::tid(), EV_OP, 0, 0);
        match if w(3) == 2 { favourite } else { w(36) } {
            0 => step!(kind([Kind::Individual, Kind::Group, Kind::Org, Kind::Location][w(4) as usize].clone()) v =>
                m.kind = Some(KindProperty { group: None, value: v, parameters: None })),
            1 => uri!(source, source),
            2 => text!(xml, xml),
            3 => text!(formatted_name, formatted_name),
            4 => step!(name([cfg.text(), cfg.text(), cfg.text(), cfg.text(), cfg.text()]) v =>
                m.name = Some(TextListProperty { group: None, value: v.to_vec(), parameters: None, delimiter: TextListDelimiter::SemiColon })),
            5 => text!(nickname, nickname),
            6 => step!(photo(gen::uri()) v => m.photo.push(TextOrUriProperty::Uri(uri_property(v)))),
            7 => step!(birthday(vcard4::Date::from(gen::date())) v => m.bday = Some(on_date(v))),
            8 => step!(anniversary(vcard4::Date::from(gen::date())) v => m.anniversary = Some(on_date(v))),
            9 => {
                let sexes = [("M", Sex::Male), ("F", Sex::Female), ("O", Sex::Other), ("N", Sex::NotApplicable), ("U", Sex::Unknown), ("", Sex::None)];
                let (word, sex) = sexes[w(6) as usize].clone();
                let identity = (w(2) == 1).then(|| cfg.text());
                if w(5) == 4 {
                    let wrong = ["X", "male", "MM", "Q;it"][w(4) as usize];
                    b = call("VcardBuilder::gender", || b.gender(wrong));
                } else {
                    let s = identity.as_ref().map_or(word.to_string(), |i| format!("{word};{i}"));
                    note(|| format!("gender({s:?})"));
                    b = call("VcardBuilder::gender", || b.gender(&s));
                    m.gender = Some(GenderProperty { group: None, value: Gender { sex, identity }, parameters: None });
                }
            }
            10 => {
                let part = || (w(3) > 0).then(|| cfg.text()).filter(|t| !t.is_empty());
                let a = DeliveryAddress {
                    po_box: part(),
                    extended_address: part(),
                    street_address: part(),
                    locality: part(),
                    region: part(),
                    postal_code: part(),
                    country_name: part(),
                };
                step!(address(a) v => m.address.push(AddressProperty { group: None, value: v, parameters: None }))
            }
            11 => step!(telephone(phone(cfg)) v => m.tel.push(TextOrUriProperty::Text(text_property(v)))),
            12 => text!(email, email),
            13 => uri!(impp, impp),
            14 => {
                let v = gen::tag();
                b = call("VcardBuilder::lang", || b.lang(v.parse().unwrap()));
                m.lang.push(LanguageProperty { group: None, value: v.parse().unwrap(), parameters: None });
            }
            15 => step!(timezone(cfg.text()) v => m.timezone.push(TimeZoneProperty::Text(text_property(v)))),
            16 => uri!(geo, geo),
            17 => text!(title, title),
            18 => text!(role, role),
            19 => uri!(logo, logo),
            20 => step!(org((0..1 + w(4)).map(|_| cfg.text()).collect::<Vec<_>>()) v =>
                m.org.push(TextListProperty { group: None, value: v, parameters: None, delimiter: TextListDelimiter::SemiColon })),
            21 => uri!(member, member),
            22 => step!(related(gen::uri()) v => m.related.push(TextOrUriProperty::Uri(uri_property(v)))),
            23 => step!(categories((0..1 + w(4)).map(|_| cfg.text()).collect::<Vec<_>>()) v =>
                m.categories.push(TextListProperty { group: None, value: v, parameters: None, delimiter: TextListDelimiter::Comma })),
            24 => text!(note, note),
            25 => step!(prod_id(cfg.text()) v => m.prod_id = Some(text_property(v))),
            26 => step!(rev(gen::date_time()) v => m.rev = Some(DateTimeProperty { group: None, value: v, parameters: None })),
            27 => uri!(sound, sound),
            28 => step!(uid(gen::uri()) v => m.uid = Some(TextOrUriProperty::Uri(uri_property(v)))),
            29 => uri!(url, url),
            30 => step!(key(gen::uri()) v => m.key.push(TextOrUriProperty::Uri(uri_property(v)))),
            31 => uri!(fburl, fburl),
            32 => uri!(cal_adr_uri, cal_adr_uri),
            33 => uri!(cal_uri, cal_uri),
            34 => {
                // A value that has to be escaped, several times
                let v = ["a;b", "a,b", "a\\nb\\", "a\nb", ";", ","][w(6) as usize].to_string();
                step!(note(v) v => m.note.push(text_property(v)))
            }
            _ => {
                sched::point();
            }
        }
    }
    let card = call("VcardBuilder::finish", || b.finish());
    (card, m)
}

/// Save a card where writes are short and interrupted but do not fail, unless
/// the disk is too small.
fn save_small(file: &mut SimFile, card: &Vcard) -> bool {
    if render(card).len() + file.contents().len() > shm().files[file.id].cap as usize {
        return false;
    }
    count(C_SAVE);
    save(file, &[card], w(5)).expect("only short and interrupted writes");
    true
}

fn builder_client(id: usize, cfg: &Cfg, faults: Faults, rounds: u32, ops: u32) {
    let mut file = SimFile::new(id, faults);
    let mut valid = Vec::new();
    for _ in 0..rounds {
        let (card, model) = build(cfg, w(ops));
        same("built", "the builder", &model, &card, "");
        let fine = !model.formatted_name.is_empty()
            && (model.member.is_empty() || model.kind.as_ref().is_some_and(|k| k.value == Kind::Group));
        let r = call("validate", || card.validate());
        check();
        if r.is_ok() != fine {
            violate("validated", &format!("validate gives {r:?} for {}", canon::clip(&format!("{model:?}"))));
        }
        if !save_small(&mut file, &card) {
            break;
        }
        valid.push((model, fine));
    }
    let text = damage::text(file.contents());
    let got = items(&text, true);
    check();
    if got.len() != valid.len() || got.iter().any(|r| r.is_err()) {
        violate("refused", &format!("{} cards were built and saved, reading gives {}; text {}", valid.len(), describe(&got), canon::clip(&format!("{text:?}"))));
    }
    for (a, b) in valid.iter().zip(&got) {
        same("changed", "a card that was built, saved and read", &a.0, b.as_ref().unwrap(), &text);
    }
    let r = strict(&text);
    if r.is_ok() != valid.iter().all(|v| v.1) && !valid.is_empty() {
        violate("validated", &format!("parse gives {:?}; text {}", r.map(|c| c.len()), canon::clip(&format!("{text:?}"))));
    }
}

pub fn c15() {
    let mut cfg = Cfg::draw();
    if w(4) > 0 {
        cfg = cfg.small();
    }
    let threads = 1 + w(3) as usize;
    let ops = [3, 8, 20, 60][w(4) as usize];
    let rounds = 1 + w(3);
    let faults = Faults { eio: 0, flush: 0, ..Faults::draw() };
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for id in 0..threads {
        let cfg = &cfg;
        tasks.push(Box::new(move || builder_client(id, cfg, faults, rounds, ops)));
    }
    sched::run(draw(SCHED, sched::rates()), 1 << 20, tasks);
}

// ------------------------------------------------------------------ C16

struct Photo {
    property: TextOrUriProperty,
    /// None: not a photo to decode, Some(None): not decodable
    bytes: Option<Option<Vec<u8>>>,
}

fn extension(t: &str) -> TypeParameter {
    TypeParameter::Extension(t.into())
}

fn photo(long: u32, damaged: bool) -> Photo {
    let bytes: Vec<u8> = {
        let n = match w(6) {
            0 => 0,
            1 => 1 + w(3),
            2 => 57 * (1 + w(3)),
            3 => w(200),
            4 => w(2000),
            _ => w(long),
        };
        let mode = w(4);
        (0..n).map(|i| match mode {
            0 => w(256) as u8,
            1 => 0xff,
            2 => i as u8,
            // Base64 of this has many + and /
            _ => [0xfb, 0xff, 0xbe][w(3) as usize],
        }).collect()
    };
    let mut text = base64::engine::general_purpose::STANDARD.encode(&bytes);
    let mut p = Parameters::default();
    let jpeg = ["JPEG", "jpeg", "Jpeg", "jPEG"][w(4) as usize];
    let mut types = vec![extension(jpeg)];
    for _ in 0..[0, 0, 1, 2][w(4) as usize] {
        types.push([TypeParameter::Home, TypeParameter::Work, extension("PNG"), extension("JPEG")][w(4) as usize].clone());
    }
    let encoding = ["ENCODING", "encoding", "Encoding"][w(3) as usize].to_string();
    let mut extensions = vec![(encoding.clone(), vec!["b".to_string()])];
    for i in 0..[0, 0, 1, 2][w(4) as usize] {
        extensions.push((format!("X-P{i}"), vec!["a".into(), "b".into()]));
    }
    if w(3) == 2 {
        p.pref = Some(1 + w(100) as u8);
    }
    if w(4) == 3 {
        p.alt_id = Some("b;JPEG".into());
    }
    let group = (w(4) == 3).then(|| "item1".to_string());
    let mut decoded = Some(Some(bytes.clone()));
    if damaged {
        // Text that is no base64
        match fl(5) {
            0 => text.insert(fl(text.len() + 1), fpick(&['*', '-', '_', ' ', 'é', '=', '\n', ':', ';', ','])),
            1 => text.push_str(fpick(&["A", "=", "==", "A=", "AAA"])),
            2 if text.len() > 3 => {
                text.truncate(text.len() - 1 - fl(2));
            }
            3 if text.len() > 4 => {
                text.insert_str(4, "====");
            }
            _ => text.push('!'),
        }
        // The damage may leave base64
        let again = base64::engine::general_purpose::STANDARD.decode(&text);
        decoded = Some(again.ok());
        count(D_REPLACE);
    }
    if w(3) == 2 {
        decoded = None;
        match w(8) {
            0 => types = vec![extension("PNG"), extension("gif")],
            1 => types = vec![extension(["JPEGS", "JPE", "JPG2000", ""][w(4) as usize])],
            2 => types.clear(),
            3 => extensions[0].1 = vec![["8bit", "bb", "quoted-printable", "", "a"][w(5) as usize].to_string()],
            4 => extensions.clear(),
            5 => extensions = vec![("X-ENCODING".into(), vec!["b".into()])],
            6 => {
                p.types = Some(types);
                p.extensions = Some(extensions);
                let property = TextOrUriProperty::Uri(UriProperty { group, value: gen::uri(), parameters: Some(p) });
                return Photo { property, bytes: None };
            }
            _ => {
                // No parameters, or none of these
                let parameters = (p != Parameters::default()).then_some(p);
                return Photo { property: TextOrUriProperty::Text(TextProperty { group, value: text, parameters }), bytes: None };
            }
        }
    }
    // They may stand anywhere among others
    if types.len() > 1 && w(2) == 0 {
        let n = w(types.len() as u32) as usize;
        types.rotate_left(n);
    }
    if extensions.len() > 1 && w(2) == 0 {
        let n = w(extensions.len() as u32) as usize;
        extensions.rotate_left(n);
    }
    p.types = (!types.is_empty()).then_some(types);
    p.extensions = (!extensions.is_empty()).then_some(extensions);
    if text.contains(':') {
        p.value = Some(ValueType::Text);
    }
    let parameters = (p != Parameters::default()).then_some(p);
    Photo { property: TextOrUriProperty::Text(TextProperty { group, value: text, parameters }), bytes: decoded }
}

fn decode(what: &str, c: &Vcard, photos: &[Photo], text: &str) {
    check();
    let got = call("parse_photo_jpeg", || c.parse_photo_jpeg());
    let want: Option<Vec<&Vec<u8>>> = photos.iter().filter_map(|p| p.bytes.as_ref()).map(|b| b.as_ref()).collect();
    let bad = match (&got, &want) {
        (Ok(got), Some(want)) => got.len() != want.len() || got.iter().zip(want).any(|(a, b)| a != *b),
        (Err(_), None) => false,
        _ => true,
    };
    if bad {
        let sizes = |l: Vec<usize>| format!("{l:?}");
        violate(
            "decoded",
            &format!(
                "{what}: decoding gives {}, embedded were {}; photos {}; text {}",
                got.map_or_else(|e| format!("an error ({e})"), |v| format!("photos of {} bytes", sizes(v.iter().map(|b| b.len()).collect()))),
                want.map_or("invalid base64".into(), |v| format!("photos of {} bytes", sizes(v.iter().map(|b| b.len()).collect()))),
                canon::clip(&format!("{:?}", photos.iter().map(|p| &p.property).collect::<Vec<_>>())),
                canon::clip(&format!("{text:?}")),
            ),
        );
    }
}

fn photo_client(id: usize, cfg: &Cfg, long: u32, faults: Faults, damaged: bool) {
    let n = w(6);
    let at = if damaged { fl(n as usize + 1) } else { n as usize };
    let photos: Vec<Photo> = (0..n as usize).map(|i| photo(long, i == at)).collect();
    let mut c = cfg.card();
    c.photo = photos.iter().map(|p| p.property.clone()).collect();
    decode("a card that was built", &c, &photos, "");
    // Save it beside others and read it back
    let mut file = SimFile::new(id, faults);
    let other = cfg.card();
    let how = w(5);
    count(C_SAVE);
    let mut saved = false;
    for _ in 0..4 {
        if save(&mut file, &[&other, &c], how).is_ok() {
            saved = true;
            break;
        }
        // A part may be there, the whole comes after it
        if !terminate(&mut file) {
            return;
        }
    }
    if saved {
        let text = damage::text(file.contents());
        let got = items(&text, true);
        let cards = props_good(&got);
        let Some(last) = cards.last() else {
            violate("refused", &format!("a card with photos was saved, reading gives {}", describe(&got)));
        };
        decode("a card that was saved and read", last, &photos, &text);
    }
    // Others pass it on
    let mut text = if w(2) == 0 { render(&c) } else { peer::write(&c) };
    for _ in 0..fl(3) {
        count(G_PASS);
        text = Gateway::draw().pass(&text);
    }
    show("passed on", &text);
    let read = match w(4) {
        0 => strict(&text).map(|mut c| c.remove(0)),
        1 => loose(&text).map(|mut c| c.remove(0)),
        2 => single(&text),
        _ => items(&text, w(2) == 0).remove(0),
    };
    match read {
        Ok(c) => decode("a card that was passed on", &c, &photos, &text),
        Err(e) => violate("refused", &format!("reading a card with photos gives {e}; text {}", canon::clip(&format!("{text:?}")))),
    }
}

pub fn c16() {
    let mut cfg = Cfg::draw().small();
    cfg.secret = false;
    let threads = 1 + w(3) as usize;
    let long = [100, 3000, 20_000][w(3) as usize];
    let faults = Faults::draw();
    let damaged = fl(3) == 2;
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for id in 0..threads {
        let cfg = &cfg;
        tasks.push(Box::new(move || photo_client(id, cfg, long, faults, damaged)));
    }
    sched::run(draw(SCHED, sched::rates()), 1 << 20, tasks);
}

// ------------------------------------------------------------------ C17

/// How lines differ.
fn differ(a: &[Line], b: &[Line]) -> Option<String> {
    if a == b {
        return None;
    }
    if a.len() != b.len() {
        return Some(format!("{} properties instead of {}", b.len(), a.len()));
    }
    a.iter().zip(b).find(|(a, b)| a != b).map(|(a, b)| format!("{} instead of {}", canon::clip(&format!("{b:?}")), canon::clip(&format!("{a:?}"))))
}

/// A peer that insists on the format reads what the library wrote.
fn peer_reads(what: &str, text: &str, cards: &[Vec<Line>]) {
    check();
    count(P_READ);
    match peer::read(text) {
        Err(e) => violate("format", &format!("{what} is not as the format demands: {e}; text {}", canon::clip(&format!("{text:?}")))),
        Ok(got) => {
            if got.len() != cards.len() {
                violate("format", &format!("{what} has {} cards instead of {}; text {}", got.len(), cards.len(), canon::clip(&format!("{text:?}"))));
            }
            for (want, got) in cards.iter().zip(&got) {
                if let Some(d) = differ(&peer::ordered(want), &peer::ordered(got)) {
                    violate("meaning", &format!("{what} means something else to others: {d}; text {}", canon::clip(&format!("{text:?}"))));
                }
            }
        }
    }
}

fn writer_client(id: usize, cfg: &Cfg, faults: Faults, rounds: u32) {
    let mut file = SimFile::new(id, faults);
    let mut saved = Vec::new();
    for _ in 0..rounds {
        let mut card = cfg.card();
        // Edited or read cards are written like new ones
        if w(4) == 3 {
            let mut other = card.clone();
            cfg.edit(&mut other);
            if call("validate", || other.validate()).is_ok() && w(2) == 0 {
                card = other;
            }
        }
        let text = render(&card);
        show("written", &text);
        let lines = peer::lines(&card);
        peer_reads("a rendered card", &text, std::slice::from_ref(&lines));
        if w(3) == 2 {
            if let Ok(back) = items(&peer::write(&card), true).remove(0) {
                peer_reads("a card that was read from others", &render(&back), std::slice::from_ref(&lines));
            }
        }
        if !save_small(&mut file, &card) {
            break;
        }
        saved.push(lines);
    }
    let text = damage::text(file.contents());
    peer_reads("a file of cards", &text, &saved);
}

pub fn c17() {
    let cfg = Cfg::draw();
    let threads = 1 + w(3) as usize;
    let rounds = 1 + w(3);
    let faults = Faults { eio: 0, flush: 0, ..Faults::draw() };
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for id in 0..threads {
        let cfg = &cfg;
        tasks.push(Box::new(move || writer_client(id, cfg, faults, rounds)));
    }
    sched::run(draw(SCHED, sched::rates()), 1 << 20, tasks);
}

// ------------------------------------------------------------------ C18

fn sequence(c: &Vcard) -> Option<i64> {
    let last = c.extensions.last()?;
    match &last.value {
        AnyProperty::Integer(v) if last.name == "X-SEQ" && v.len() == 1 => Some(v[0]),
        _ => None,
    }
}

fn sequence_of(l: &[Line]) -> Option<i64> {
    match &l.iter().rev().find(|l| l.name == "X-SEQ")?.value {
        peer::Value::Integers(v) if v.len() == 1 => Some(v[0]),
        _ => None,
    }
}

fn stamp(c: &Vcard, seq: i64) -> Vcard {
    let mut c = c.clone();
    let mut p = Parameters::default();
    p.value = Some(ValueType::Integer);
    c.extensions.push(ExtensionProperty {
        name: "X-SEQ".into(),
        group: None,
        value: AnyProperty::Integer(vec![seq]),
        parameters: Some(p),
    });
    c
}

/// What a node knows about a card: all nodes but the peers keep cards.
#[derive(Clone)]
enum Known {
    Card(Vcard),
    Lines(Vec<Line>),
}

impl Known {
    fn seq(&self) -> Option<i64> {
        match self {
            Known::Card(c) => sequence(c),
            Known::Lines(l) => sequence_of(l),
        }
    }
}

struct Message {
    to: usize,
    /// Cards for the next node or acknowledgements for the one before
    text: Option<String>,
    acks: Vec<i64>,
    delay: u32,
}

/// A chain of programs that pass address books on, every second one foreign.
struct Node {
    foreign: bool,
    /// Where a library node keeps its cards
    file: Option<usize>,
    faults: Faults,
    have: Vec<Known>,
    acked: Vec<i64>,
    /// Does nothing until then
    stalled: u32,
    timer: u32,
}

impl Node {
    fn has(&self, seq: i64) -> bool {
        self.have.iter().any(|k| k.seq() == Some(seq))
    }

    /// Read what arrives as this program does. Nothing when it is torn.
    fn read(&self, text: &str) -> Option<Vec<Known>> {
        if self.foreign {
            count(P_READ);
            return peer::read_foreign(text).ok().map(|v| v.into_iter().map(Known::Lines).collect());
        }
        let cards = match w(4) {
            0 => strict(text).ok()?,
            1 => loose(text).ok()?,
            k => {
                let got = items(text, k == 2);
                if got.iter().any(|r| r.is_err()) {
                    return None;
                }
                got.into_iter().filter_map(|r| r.ok()).collect()
            }
        };
        Some(cards.into_iter().map(Known::Card).collect())
    }

    fn write(&self, k: &Known) -> String {
        match k {
            Known::Card(c) => render(c),
            Known::Lines(l) => {
                count(P_WRITE);
                peer::write_card(l.clone())
            }
        }
    }

    /// Keep what is new, on the disk when there is one. True when it is safe.
    fn keep(&mut self, k: Known) -> bool {
        if let (Some(id), Known::Card(c)) = (self.file, &k) {
            let mut file = SimFile::new(id, self.faults);
            if !terminate(&mut file) {
                return false;
            }
            count(C_SAVE);
            if save(&mut file, &[c], w(5)).is_err() {
                terminate(&mut file);
                return false;
            }
            count(C_ACK);
        }
        self.have.push(k);
        true
    }

    /// Come back with what the disk has.
    fn restart(&mut self) {
        let Some(id) = self.file else { return };
        count(M_RESTART);
        lose_tails();
        shm().lives += 1;
        let mut text = damage::text(SimFile::new(id, self.faults).contents());
        if !text.ends_with('\n') {
            text.push_str("\r\n");
        }
        let got = items(&text, true);
        count(C_RECOVER);
        let durable: Vec<i64> = self.have.iter().filter_map(|k| k.seq()).collect();
        self.have.clear();
        self.acked.clear();
        for c in got.into_iter().flatten() {
            // Damage may have hit a save that failed, its card is not new
            if let Some(seq) = sequence(&c) {
                if !self.has(seq) {
                    self.have.push(Known::Card(c));
                }
            }
        }
        check();
        if let Some(lost) = durable.iter().find(|s| !self.has(**s)) {
            violate("lost", &format!("card {lost} was acknowledged to the sender and is gone after a restart; disk {}", canon::clip(&format!("{text:?}"))));
        }
    }
}

fn network(cfg: &Cfg) {
    let total = 1 + w(6) as i64;
    let cards: Vec<Vcard> = (0..total).map(|s| stamp(&cfg.card(), s)).collect();
    for c in &cards {
        note(|| format!("sent: {c:?}"));
    }
    let hops = 2 + w(3) as usize;
    let first_foreign = w(2) == 1;
    let mut nodes: Vec<Node> = (0..hops)
        .map(|i| {
            let foreign = (i % 2 == 0) == first_foreign;
            Node {
                foreign,
                file: (!foreign && i > 0).then_some(i / 2),
                faults: Faults::draw(),
                have: Vec::new(),
                acked: Vec::new(),
                stalled: 0,
                timer: 0,
            }
        })
        .collect();
    nodes[0].have = cards.iter().map(|c| if first_foreign { Known::Lines(peer::lines(c)) } else { Known::Card(c.clone()) }).collect();
    let mut queue: Vec<Message> = Vec::new();
    let noise = 20 + fl(60) as u32;
    let (loss, dup, tear, slow, stall, crash) = {
        let r = || [0, 4, 8, 20][fl(4)];
        (r(), r(), r(), r(), r() * 2, r() * 3)
    };
    let hit = |k: usize| k > 0 && chance(FAULT, 1, k as u32);
    let batch = 1 + w(3) as usize;
    let mut step = 0;
    loop {
        let faulty = step < noise;
        step += 1;
        event(0, EV_OP, step as u64, queue.len() as u64);
        let done = nodes.last().unwrap().have.len() as i64 == total && nodes[..hops - 1].iter().all(|n| n.acked.len() as i64 == total || n.have.len() as i64 == total);
        if done && !faulty {
            break;
        }
        // Once faults stop everything arrives within a bounded number of steps
        if step > noise + 40 * (total as u32 + 2) * hops as u32 {
            violate(
                "stuck",
                &format!(
                    "{} steps after the last fault {} of {total} cards have arrived: {}",
                    step - noise,
                    nodes.last().unwrap().have.len(),
                    nodes.iter().map(|n| format!("{}{}", if n.foreign { "foreign " } else { "" }, n.have.len())).collect::<Vec<_>>().join(", ")
                ),
            );
        }
        if faulty && hit(crash) {
            let i = fl(hops);
            if i > 0 {
                nodes[i].restart();
            }
        }
        if faulty && hit(stall) {
            let i = fl(hops);
            nodes[i].stalled = step + 1 + fl(20) as u32;
            count(M_STALL);
        }
        for n in nodes.iter_mut() {
            if !faulty {
                n.stalled = 0;
                n.faults = Faults::default();
            }
            n.timer = n.timer.saturating_sub(1);
        }
        // Send what is not acknowledged
        for i in 0..hops - 1 {
            let n = &mut nodes[i];
            if n.timer > 0 || n.stalled > step {
                continue;
            }
            let open: Vec<Known> = n.have.iter().filter(|k| !n.acked.contains(&k.seq().unwrap())).take(batch).cloned().collect();
            if open.is_empty() {
                continue;
            }
            n.timer = 6;
            let mut text: String = open.iter().map(|k| n.write(k)).collect();
            if fl(3) == 2 {
                count(G_PASS);
                text = Gateway::draw().pass(&text);
            }
            show("message", &text);
            queue.push(Message { to: i + 1, text: Some(text), acks: Vec::new(), delay: 0 });
        }
        // Deliver one message
        if queue.is_empty() {
            continue;
        }
        let at = if faulty { fl(queue.len()) } else { 0 };
        if at > 0 {
            count(M_REORDER);
        }
        if faulty && hit(slow) && queue[at].delay < 3 {
            queue[at].delay += 1;
            count(M_DELAY);
            continue;
        }
        let mut m = queue.remove(at);
        if faulty && hit(loss) || nodes[m.to].stalled > step {
            count(M_LOSS);
            continue;
        }
        if faulty && hit(dup) {
            count(M_DUP);
            queue.push(Message { to: m.to, text: m.text.clone(), acks: m.acks.clone(), delay: 0 });
        }
        let Some(text) = &mut m.text else {
            for a in m.acks {
                let n = &mut nodes[m.to];
                if !n.acked.contains(&a) && n.has(a) {
                    n.acked.push(a);
                }
            }
            continue;
        };
        if faulty && hit(tear) && text.len() > 1 {
            count(M_TORN);
            let mut raw = std::mem::take(text).into_bytes();
            let keep = if fl(2) == 0 { raw.len().saturating_sub(1 + fl(30)) } else { fl(raw.len()) };
            raw.truncate(keep);
            *text = damage::text(&raw);
        }
        let n = &mut nodes[m.to];
        let Some(read) = n.read(text) else {
            if faulty {
                continue;
            }
            violate("refused", &format!("a message that arrived whole is refused by node {} ({}): {}", m.to, if n.foreign { "foreign" } else { "library" }, canon::clip(&format!("{text:?}"))));
        };
        let mut acks = Vec::new();
        for k in read {
            let Some(seq) = k.seq() else {
                violate("changed", &format!("a card lost its number on the way; text {}", canon::clip(&format!("{text:?}"))));
            };
            check();
            // Whoever has it compares
            let want = &cards[seq.clamp(0, total - 1) as usize];
            let d = match &k {
                Known::Card(c) => canon::diff(want, c),
                Known::Lines(l) => differ(&peer::ordered(&peer::lines(want)), &peer::ordered(l)),
            };
            if let Some(d) = d {
                violate("changed", &format!("hop {}: {d}; text {}", m.to, canon::clip(&format!("{text:?}"))));
            }
            if n.has(seq) || n.keep(k) {
                acks.push(seq);
            }
        }
        queue.push(Message { to: m.to - 1, text: None, acks, delay: 0 });
    }
    add(M_SENT, total as u64);
    // Exactly once
    for n in &nodes {
        let mut seqs: Vec<i64> = n.have.iter().filter_map(|k| k.seq()).collect();
        seqs.sort();
        if seqs != (0..total).collect::<Vec<_>>() {
            violate("lost", &format!("a node ends with cards {seqs:?} of {total}"));
        }
    }
}

pub fn c18() {
    let mut cfg = Cfg::draw();
    if w(3) > 0 {
        cfg = cfg.small();
    }
    if w(3) == 2 {
        return network(&cfg.small());
    }
    let cards = cfg.cards(3);
    count(P_WRITE);
    let mut text: String = cards.iter().map(peer::write).collect();
    for _ in 0..fl(3) {
        count(G_PASS);
        text = Gateway::draw().pass(&text);
    }
    show("written by others", &text);
    seen(EV_TEXT, &text);
    let compare = |what: &str, got: Result<Vec<Vcard>, String>| {
        check();
        match got {
            Err(e) => violate("refused", &format!("{what}: {e}; text {}", canon::clip(&format!("{text:?}")))),
            Ok(got) => {
                if got.len() != cards.len() {
                    violate("changed", &format!("{what}: {} cards instead of {}; text {}", got.len(), cards.len(), canon::clip(&format!("{text:?}"))));
                }
                for (a, b) in cards.iter().zip(&got) {
                    same("changed", what, a, b, &text);
                }
            }
        }
    };
    compare("iter strict", items(&text, true).into_iter().collect());
    compare("iter loose", items(&text, false).into_iter().collect());
    compare("parse", strict(&text));
    compare("parse_loose", loose(&text));
    match single(&text) {
        Ok(c) => same("changed", "try_from", &cards[0], &c, &text),
        Err(e) => violate("refused", &format!("try_from: {e}; text {}", canon::clip(&format!("{text:?}")))),
    }
}
