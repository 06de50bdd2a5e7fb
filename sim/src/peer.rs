//! Another program that speaks vCard. It shares no code with the library:
//! it has its own idea of what a card means as text, its own writer with the
//! freedoms the format leaves, and its own reader that insists on the format.
use crate::shm::{chance, draw, FAULT};
use unicode_segmentation::UnicodeSegmentation;
use vcard4::parameter::*;
use vcard4::property::*;
use vcard4::time::{OffsetDateTime, Time, UtcOffset};
use vcard4::{Date, DateTime, Vcard};

/// A date, a time or both.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Moment {
    pub date: Option<(i32, u8, u8)>,
    pub time: Option<(u8, u8, u8)>,
    /// Minutes east of UTC
    pub zone: i32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Value {
    Text(String),
    /// Texts with a delimiter in between
    List(char, Vec<String>),
    Uri(String),
    Word(String),
    Moments(Kind, Vec<Moment>),
    Offset(i32),
    Integers(Vec<i64>),
    /// As bits
    Floats(Vec<u64>),
    Boolean(bool),
    Gender(String, Option<String>),
    PidMap(u64, String),
}

/// Which form of dates and times a property takes.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Date,
    Time,
    DateTime,
    DateAndOrTime,
    Timestamp,
}

/// One property as both sides understand it.
#[derive(Clone, Debug, PartialEq)]
pub struct Line {
    pub group: Option<String>,
    pub name: String,
    /// Values per key. TYPE is normalised, TZ says what it holds.
    pub params: Vec<(String, Vec<String>)>,
    pub value: Value,
}

// ------------------------------------------------------------------ meaning of a card

fn zone(o: UtcOffset) -> i32 {
    let (h, m, _) = o.as_hms();
    h as i32 * 60 + m as i32
}

fn day(d: vcard4::time::Date) -> (i32, u8, u8) {
    (d.year(), d.month() as u8, d.day())
}

fn of_date(d: &Date) -> Moment {
    let d: vcard4::time::Date = (*d.as_ref()).into();
    Moment { date: Some(day(d)), time: None, zone: 0 }
}

fn of_time(t: &(Time, UtcOffset)) -> Moment {
    Moment { date: None, time: Some((t.0.hour(), t.0.minute(), t.0.second())), zone: zone(t.1) }
}

fn of_date_time(d: &DateTime) -> Moment {
    let o: OffsetDateTime = d.clone().into();
    Moment { date: Some(day(o.date())), time: Some((o.hour(), o.minute(), o.second())), zone: zone(o.offset()) }
}

fn of_either(d: &DateAndOrTime) -> Moment {
    match d {
        DateAndOrTime::Date(d) => of_date(d),
        DateAndOrTime::DateTime(d) => of_date_time(d),
        DateAndOrTime::Time(t) => of_time(t),
    }
}

const PHONES: [&str; 7] = ["text", "voice", "fax", "cell", "video", "pager", "textphone"];
const RELATIONS: [&str; 20] = [
    "contact", "acquaintance", "friend", "met", "co-worker", "colleague", "co-resident", "neighbor", "child", "parent", "sibling", "spouse",
    "kin", "muse", "crush", "date", "sweetheart", "me", "agent", "emergency",
];

fn type_word(t: &TypeParameter) -> String {
    match t {
        TypeParameter::Home => "home".into(),
        TypeParameter::Work => "work".into(),
        TypeParameter::Telephone(t) => PHONES[match t {
            TelephoneType::Text => 0,
            TelephoneType::Voice => 1,
            TelephoneType::Fax => 2,
            TelephoneType::Cell => 3,
            TelephoneType::Video => 4,
            TelephoneType::Pager => 5,
            TelephoneType::TextPhone => 6,
        }]
        .into(),
        TypeParameter::Related(r) => RELATIONS[match r {
            RelatedType::Contact => 0,
            RelatedType::Acquaintance => 1,
            RelatedType::Friend => 2,
            RelatedType::Met => 3,
            RelatedType::CoWorker => 4,
            RelatedType::Colleague => 5,
            RelatedType::CoResident => 6,
            RelatedType::Neighbor => 7,
            RelatedType::Child => 8,
            RelatedType::Parent => 9,
            RelatedType::Sibling => 10,
            RelatedType::Spouse => 11,
            RelatedType::Kin => 12,
            RelatedType::Muse => 13,
            RelatedType::Crush => 14,
            RelatedType::Date => 15,
            RelatedType::Sweetheart => 16,
            RelatedType::Me => 17,
            RelatedType::Agent => 18,
            RelatedType::Emergency => 19,
        }]
        .into(),
        TypeParameter::Extension(s) => format!("X-{s}"),
    }
}

/// Words that mean something as a TYPE.
fn known_type(s: &str) -> bool {
    let l = s.to_lowercase();
    l == "home" || l == "work" || PHONES.contains(&&l[..]) || RELATIONS.contains(&&l[..])
}

/// What a word of a TYPE parameter means.
fn read_type(s: &str) -> String {
    match s.get(..2) {
        Some(x) if x.eq_ignore_ascii_case("x-") => format!("X-{}", &s[2..]),
        _ if known_type(s) => s.to_lowercase(),
        _ => format!("X-{s}"),
    }
}

fn value_word(v: &ValueType) -> &'static str {
    match v {
        ValueType::Text => "text",
        ValueType::Uri => "uri",
        ValueType::Date => "date",
        ValueType::Time => "time",
        ValueType::DateTime => "date-time",
        ValueType::DateAndOrTime => "date-and-or-time",
        ValueType::Timestamp => "timestamp",
        ValueType::Boolean => "boolean",
        ValueType::Integer => "integer",
        ValueType::Float => "float",
        ValueType::UtcOffset => "utc-offset",
        ValueType::LanguageTag => "language-tag",
    }
}

fn of_params(p: Option<&Parameters>) -> Vec<(String, Vec<String>)> {
    let mut out: Vec<(String, Vec<String>)> = Vec::new();
    let Some(p) = p else { return out };
    let mut one = |key: &str, v: Option<String>| {
        if let Some(v) = v {
            out.push((key.into(), vec![v]));
        }
    };
    one("LANGUAGE", p.language.as_ref().map(|v| v.to_string()));
    one("VALUE", p.value.as_ref().map(|v| value_word(v).to_string()));
    one("PREF", p.pref.map(|v| v.to_string()));
    one("ALTID", p.alt_id.clone());
    one("MEDIATYPE", p.media_type.as_ref().map(|v| v.to_string()));
    one("CALSCALE", p.calscale.clone());
    one("GEO", p.geo.as_ref().map(|v| v.to_string()));
    one(
        "TZ",
        p.timezone.as_ref().map(|t| match t {
            TimeZoneParameter::Text(t) => format!("text {t}"),
            TimeZoneParameter::Uri(u) => format!("uri {u}"),
            TimeZoneParameter::UtcOffset(o) => format!("offset {}", zone(*o)),
        }),
    );
    one("LABEL", p.label.clone());
    if let Some(v) = &p.pid {
        let pid = |p: &Pid| p.source.map_or(format!("{}", p.local), |s| format!("{}.{}", p.local, s));
        out.push(("PID".into(), v.iter().map(pid).collect()));
    }
    if let Some(v) = &p.types {
        out.push(("TYPE".into(), v.iter().map(type_word).collect()));
    }
    if let Some(v) = &p.sort_as {
        out.push(("SORT-AS".into(), v.clone()));
    }
    for (k, v) in p.extensions.iter().flatten() {
        out.push((k.clone(), v.clone()));
    }
    out
}

fn line(group: &Option<String>, name: &str, p: &Option<Parameters>, value: Value) -> Line {
    Line { group: group.clone(), name: name.into(), params: of_params(p.as_ref()), value }
}

/// The properties of a card.
pub fn lines(c: &Vcard) -> Vec<Line> {
    let mut out = Vec::new();
    macro_rules! texts {
        ($($f:ident $n:literal),*) => { $( for p in &c.$f { out.push(line(&p.group, $n, &p.parameters, Value::Text(p.value.clone()))); } )* };
    }
    macro_rules! uris {
        ($($f:ident $n:literal),*) => { $( for p in &c.$f { out.push(line(&p.group, $n, &p.parameters, Value::Uri(p.value.to_string()))); } )* };
    }
    macro_rules! either {
        ($($f:ident $n:literal),*) => { $( for p in &c.$f { out.push(match p {
            TextOrUriProperty::Text(p) => line(&p.group, $n, &p.parameters, Value::Text(p.value.clone())),
            TextOrUriProperty::Uri(p) => line(&p.group, $n, &p.parameters, Value::Uri(p.value.to_string())),
        }); } )* };
    }
    macro_rules! moments {
        ($($f:ident $n:literal),*) => { $( if let Some(p) = &c.$f { out.push(match p {
            DateTimeOrTextProperty::Text(p) => line(&p.group, $n, &p.parameters, Value::Text(p.value.clone())),
            DateTimeOrTextProperty::DateTime(p) => line(&p.group, $n, &p.parameters,
                Value::Moments(Kind::DateAndOrTime, p.value.iter().map(of_either).collect())),
        }); } )* };
    }
    uris!(source "SOURCE");
    if let Some(p) = &c.kind {
        let word = match p.value {
            vcard4::property::Kind::Individual => "individual",
            vcard4::property::Kind::Group => "group",
            vcard4::property::Kind::Org => "org",
            vcard4::property::Kind::Location => "location",
        };
        out.push(line(&p.group, "KIND", &p.parameters, Value::Word(word.into())));
    }
    texts!(xml "XML", formatted_name "FN");
    if let Some(p) = &c.name {
        out.push(line(&p.group, "N", &p.parameters, Value::List(';', p.value.clone())));
    }
    texts!(nickname "NICKNAME");
    either!(photo "PHOTO");
    moments!(bday "BDAY", anniversary "ANNIVERSARY");
    if let Some(p) = &c.gender {
        let sex = match p.value.sex {
            Sex::None => "",
            Sex::Male => "M",
            Sex::Female => "F",
            Sex::Other => "O",
            Sex::NotApplicable => "N",
            Sex::Unknown => "U",
        };
        out.push(line(&p.group, "GENDER", &p.parameters, Value::Gender(sex.into(), p.value.identity.clone())));
    }
    uris!(url "URL");
    for p in &c.address {
        let a = &p.value;
        let parts = [&a.po_box, &a.extended_address, &a.street_address, &a.locality, &a.region, &a.postal_code, &a.country_name];
        out.push(line(&p.group, "ADR", &p.parameters, Value::List(';', parts.iter().map(|p| p.as_deref().unwrap_or("").to_string()).collect())));
    }
    texts!(title "TITLE", role "ROLE");
    uris!(logo "LOGO");
    for p in &c.org {
        out.push(line(&p.group, "ORG", &p.parameters, Value::List(';', p.value.clone())));
    }
    uris!(member "MEMBER");
    either!(related "RELATED", tel "TEL");
    texts!(email "EMAIL");
    uris!(impp "IMPP");
    for p in &c.lang {
        out.push(line(&p.group, "LANG", &p.parameters, Value::Text(p.value.to_string())));
    }
    for p in &c.timezone {
        out.push(match p {
            TimeZoneProperty::Text(p) => line(&p.group, "TZ", &p.parameters, Value::Text(p.value.clone())),
            TimeZoneProperty::Uri(p) => line(&p.group, "TZ", &p.parameters, Value::Uri(p.value.to_string())),
            TimeZoneProperty::UtcOffset(p) => line(&p.group, "TZ", &p.parameters, Value::Offset(zone(p.value))),
        });
    }
    uris!(geo "GEO");
    for p in &c.categories {
        out.push(line(&p.group, "CATEGORIES", &p.parameters, Value::List(',', p.value.clone())));
    }
    texts!(note "NOTE");
    if let Some(p) = &c.prod_id {
        out.push(line(&p.group, "PRODID", &p.parameters, Value::Text(p.value.clone())));
    }
    if let Some(p) = &c.rev {
        out.push(line(&p.group, "REV", &p.parameters, Value::Moments(Kind::Timestamp, vec![of_date_time(&p.value)])));
    }
    uris!(sound "SOUND");
    either!(uid "UID");
    for p in &c.client_pid_map {
        out.push(line(&p.group, "CLIENTPIDMAP", &p.parameters, Value::PidMap(p.value.source, p.value.uri.to_string())));
    }
    either!(key "KEY");
    uris!(fburl "FBURL", cal_adr_uri "CALADRURI", cal_uri "CALURI");
    for p in &c.extensions {
        let value = match &p.value {
            AnyProperty::Text(v) => Value::Text(v.clone()),
            AnyProperty::Integer(v) => Value::Integers(v.clone()),
            AnyProperty::Float(v) => Value::Floats(v.iter().map(|f| f.to_bits()).collect()),
            AnyProperty::Boolean(v) => Value::Boolean(*v),
            AnyProperty::Date(v) => Value::Moments(Kind::Date, v.iter().map(of_date).collect()),
            AnyProperty::DateTime(v) => Value::Moments(Kind::DateTime, v.iter().map(of_date_time).collect()),
            AnyProperty::Time(v) => Value::Moments(Kind::Time, v.iter().map(of_time).collect()),
            AnyProperty::DateAndOrTime(v) => Value::Moments(Kind::DateAndOrTime, v.iter().map(of_either).collect()),
            AnyProperty::Timestamp(v) => Value::Moments(Kind::Timestamp, v.iter().map(of_date_time).collect()),
            AnyProperty::Language(v) => Value::Text(v.to_string()),
            AnyProperty::UtcOffset(v) => Value::Offset(zone(*v)),
            AnyProperty::Uri(v) => Value::Uri(v.to_string()),
        };
        out.push(line(&p.group, &p.name, &p.parameters, value));
    }
    out
}

/// Put lines in an order that does not depend on the order of properties with
/// different names and of parameters with different keys.
pub fn ordered(lines: &[Line]) -> Vec<Line> {
    let mut out = lines.to_vec();
    for l in &mut out {
        l.name = l.name.to_uppercase();
        for p in &mut l.params {
            p.0 = p.0.to_uppercase();
        }
        l.params.sort_by(|a, b| a.0.cmp(&b.0));
        // A peer cannot tell a URI from text that is written the same way
        if let Value::Uri(u) = &l.value {
            l.value = Value::Text(u.clone());
        }
        if let Value::Moments(k, _) = &mut l.value {
            *k = Kind::DateTime;
        }
    }
    out.sort_by(|a, b| a.name.cmp(&b.name));
    out
}

// ------------------------------------------------------------------ reader

/// The lines of a text that keeps to the format: CRLF line ends, no control
/// characters, 75 octets per line, folds between user-perceived characters.
fn unfold(text: &str) -> Result<Vec<String>, String> {
    let mut out: Vec<String> = Vec::new();
    let mut folds: Vec<Vec<usize>> = Vec::new();
    for l in text.split_inclusive('\n') {
        let l = l.strip_suffix("\r\n").ok_or_else(|| format!("a line does not end with CRLF: {l:?}"))?;
        if let Some(c) = l.chars().find(|c| c.is_ascii_control() && *c != '\t') {
            return Err(format!("control character {c:?} in line {l:?}"));
        }
        let folded = l.starts_with([' ', '\t']);
        if l.len() > 75 {
            let rest = if folded { &l[1..] } else { l };
            if rest.graphemes(true).count() > 1 {
                return Err(format!("a line of {} octets: {l:?}", l.len()));
            }
        }
        if l.is_empty() {
            return Err("an empty line".into());
        }
        if folded {
            let at = out.last().ok_or("a fold before the first line")?.len();
            folds.last_mut().unwrap().push(at);
            out.last_mut().unwrap().push_str(&l[1..]);
        } else {
            out.push(l.to_string());
            folds.push(Vec::new());
        }
    }
    for (l, f) in out.iter().zip(&folds) {
        if f.is_empty() {
            continue;
        }
        let starts: Vec<usize> = l.grapheme_indices(true).map(|(i, _)| i).collect();
        if let Some(at) = f.iter().find(|at| starts.binary_search(at).is_err()) {
            return Err(format!("a fold at {at} splits a character of {l:?}"));
        }
    }
    Ok(out)
}

/// Undo escapes. Where a delimiter is given split at those not escaped, else
/// commas must be escaped.
fn split(raw: &str, delimiter: Option<char>, commas: bool) -> Result<Vec<String>, String> {
    let mut out = vec![String::new()];
    let mut it = raw.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            out.last_mut().unwrap().push(match it.next() {
                Some('n' | 'N') => '\n',
                Some(c @ ('\\' | ',' | ';')) => c,
                c => return Err(format!("unknown escape {c:?} in {raw:?}")),
            });
        } else if Some(c) == delimiter {
            out.push(String::new());
        } else if c == ',' && !commas {
            return Err(format!("a comma is not escaped in {raw:?}"));
        } else {
            out.last_mut().unwrap().push(c);
        }
    }
    Ok(out)
}

fn text(raw: &str) -> Result<String, String> {
    Ok(split(raw, None, false)?.remove(0))
}

fn number(s: &str, digits: usize) -> Result<u8, String> {
    if s.len() == digits && s.bytes().all(|b| b.is_ascii_digit()) {
        s.parse().map_err(|_| format!("not a number: {s:?}"))
    } else {
        Err(format!("not {digits} digits: {s:?}"))
    }
}

fn read_zone(s: &str) -> Result<i32, String> {
    let sign = match s.bytes().next() {
        None => return Ok(0),
        Some(b'Z') if s.len() == 1 => return Ok(0),
        Some(b'+') => 1,
        Some(b'-') => -1,
        _ => return Err(format!("not a zone: {s:?}")),
    };
    let h = number(s.get(1..3).unwrap_or(""), 2)? as i32;
    let m = if s.len() == 3 { 0 } else { number(&s[3..], 2)? as i32 };
    Ok(sign * (h * 60 + m))
}

fn read_date(s: &str) -> Result<(i32, u8, u8), String> {
    let bad = || format!("not a date: {s:?}");
    if !s.is_ascii() {
        return Err(bad());
    }
    match s.len() {
        8 if s.bytes().all(|b| b.is_ascii_digit()) => {
            Ok((s[..4].parse().map_err(|_| bad())?, number(&s[4..6], 2)?, number(&s[6..], 2)?))
        }
        4 if !s.starts_with('-') => Ok((number(&s[..2], 2)? as i32 * 100 + number(&s[2..], 2)? as i32, 1, 1)),
        7 if &s[4..5] == "-" => Ok((number(&s[..2], 2)? as i32 * 100 + number(&s[2..4], 2)? as i32, number(&s[5..], 2)?, 1)),
        6 if s.starts_with("--") => Ok((0, number(&s[2..4], 2)?, number(&s[4..], 2)?)),
        5 if s.starts_with("---") => Ok((0, 1, number(&s[3..], 2)?)),
        4 => Ok((0, number(s.strip_prefix("--").ok_or_else(bad)?, 2)?, 1)),
        _ => Err(bad()),
    }
}

fn read_time(s: &str) -> Result<((u8, u8, u8), i32), String> {
    let bad = || format!("not a time: {s:?}");
    if !s.is_ascii() {
        return Err(bad());
    }
    let (skip, rest) = match s {
        _ if s.starts_with("--") => (2, &s[2..]),
        _ if s.starts_with('-') => (1, &s[1..]),
        _ => (0, s),
    };
    let end = rest.find(['+', '-', 'Z']).unwrap_or(rest.len());
    let (digits, z) = rest.split_at(end);
    let mut hms = [0u8; 3];
    let parts = digits.len() / 2;
    if digits.len() % 2 != 0 || parts == 0 || skip + parts > 3 {
        return Err(bad());
    }
    for i in 0..parts {
        hms[skip + i] = number(&digits[2 * i..2 * i + 2], 2)?;
    }
    Ok(((hms[0], hms[1], hms[2]), read_zone(z)?))
}

fn read_moment(s: &str, kind: Kind) -> Result<Moment, String> {
    let both = |s: &str| -> Result<Moment, String> {
        let (d, t) = s.split_once('T').ok_or_else(|| format!("no time in {s:?}"))?;
        let (time, zone) = read_time(t)?;
        Ok(Moment { date: Some(read_date(d)?), time: Some(time), zone })
    };
    match kind {
        Kind::Date => Ok(Moment { date: Some(read_date(s)?), time: None, zone: 0 }),
        Kind::Time => read_time(s).map(|(t, zone)| Moment { date: None, time: Some(t), zone }),
        // Always complete
        Kind::Timestamp if s.find('T') != Some(8) || s.find(['Z', '+', '-']).unwrap_or(s.len()) != 15 => Err(format!("not a timestamp: {s:?}")),
        Kind::DateTime | Kind::Timestamp => both(s),
        Kind::DateAndOrTime => match s.find('T') {
            Some(0) => read_moment(&s[1..], Kind::Time),
            Some(_) => both(s),
            None => read_moment(s, Kind::Date),
        },
    }
}

fn read_moments(raw: &str, kind: Kind) -> Result<Value, String> {
    Ok(Value::Moments(kind, raw.split(',').map(|s| read_moment(s, kind)).collect::<Result<_, _>>()?))
}

fn uri(raw: &str) -> Result<String, String> {
    let scheme = raw.split(':').next().unwrap_or("");
    let first = scheme.starts_with(|c: char| c.is_ascii_alphabetic());
    if !first || scheme.len() == raw.len() || raw.contains([' ', '\\', '"']) {
        return Err(format!("not a URI: {raw:?}"));
    }
    Ok(raw.to_string())
}

fn read_value(name: &str, value_type: Option<&str>, raw: &str) -> Result<Value, String> {
    Ok(match (name, value_type) {
        ("SOURCE" | "URL" | "LOGO" | "MEMBER" | "IMPP" | "GEO" | "SOUND" | "FBURL" | "CALADRURI" | "CALURI", _) => Value::Uri(uri(raw)?),
        ("KIND", _) => Value::Word(raw.into()),
        ("N" | "ORG" | "ADR", _) => Value::List(';', split(raw, Some(';'), false)?),
        ("CATEGORIES", _) => Value::List(',', split(raw, Some(','), true)?),
        ("XML" | "FN" | "NICKNAME" | "TITLE" | "ROLE" | "EMAIL" | "NOTE" | "PRODID" | "LANG", _) => Value::Text(text(raw)?),
        ("GENDER", _) => {
            let mut parts = split(raw, Some(';'), false)?;
            match (parts.len(), parts.pop()) {
                (1, Some(sex)) => Value::Gender(sex, None),
                (2, identity) => Value::Gender(parts.remove(0), identity),
                _ => return Err(format!("not a gender: {raw:?}")),
            }
        }
        ("CLIENTPIDMAP", _) => {
            let (n, u) = raw.split_once(';').ok_or_else(|| format!("no URI in {raw:?}"))?;
            Value::PidMap(n.parse().map_err(|_| format!("not a number: {n:?}"))?, uri(u)?)
        }
        ("REV", _) => read_moments(raw, Kind::Timestamp)?,
        ("BDAY" | "ANNIVERSARY", Some("text")) => Value::Text(text(raw)?),
        ("BDAY" | "ANNIVERSARY", _) => read_moments(raw, Kind::DateAndOrTime)?,
        (_, Some("uri")) => Value::Uri(uri(raw)?),
        ("PHOTO" | "RELATED" | "TEL" | "UID" | "KEY", None) if uri(raw).is_ok() => Value::Uri(raw.into()),
        (_, None | Some("text")) => Value::Text(text(raw)?),
        // The value of these is text or a URI whatever the type says
        ("PHOTO", _) => if uri(raw).is_ok() { Value::Uri(raw.into()) } else { Value::Text(text(raw)?) },
        // The designator Z is for times, and a sign comes first
        (_, Some("utc-offset")) if raw.starts_with(['+', '-']) => Value::Offset(read_zone(raw)?),
        (_, Some("utc-offset")) => return Err(format!("not an offset: {raw:?}")),
        (_, Some("integer")) => {
            Value::Integers(raw.split(',').map(|s| s.parse::<i64>().map_err(|_| format!("not an integer: {s:?}"))).collect::<Result<_, _>>()?)
        }
        (_, Some("float")) => Value::Floats(
            raw.split(',')
                .map(|s| match s.parse::<f64>() {
                    Ok(f) if s.trim_start_matches(['+', '-']).split('.').all(|d| !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit())) => Ok(f.to_bits()),
                    _ => Err(format!("not a float: {s:?}")),
                })
                .collect::<Result<_, _>>()?,
        ),
        (_, Some("boolean")) => Value::Boolean(match &raw.to_lowercase()[..] {
            "true" => true,
            "false" => false,
            _ => return Err(format!("not a boolean: {raw:?}")),
        }),
        (_, Some("date")) => read_moments(raw, Kind::Date)?,
        (_, Some("time")) => read_moments(raw, Kind::Time)?,
        (_, Some("date-time")) => read_moments(raw, Kind::DateTime)?,
        (_, Some("timestamp")) => read_moments(raw, Kind::Timestamp)?,
        (_, Some("date-and-or-time")) => read_moments(raw, Kind::DateAndOrTime)?,
        (_, Some("language-tag")) => Value::Text(text(raw)?),
        (_, Some(t)) => return Err(format!("unknown type {t:?}")),
    })
}

fn read_line(l: &str) -> Result<Line, String> {
    let end = l.find([':', ';']).ok_or_else(|| format!("no value in {l:?}"))?;
    let (full, mut rest) = l.split_at(end);
    let (group, name) = match full.split_once('.') {
        Some((g, n)) => (Some(g.to_string()), n),
        None => (None, full),
    };
    let token = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-');
    if !token(name) || !group.as_deref().is_none_or(token) {
        return Err(format!("bad name in {l:?}"));
    }
    let mut params: Vec<(String, Vec<String>)> = Vec::new();
    while let Some(r) = rest.strip_prefix(';') {
        let eq = r.find('=').ok_or_else(|| format!("a parameter without value in {l:?}"))?;
        let (key, r) = (&r[..eq], &r[eq + 1..]);
        if !token(key) {
            return Err(format!("bad parameter name in {l:?}"));
        }
        let quoted = r.starts_with('"');
        let (raw, r) = if quoted {
            let close = r[1..].find('"').ok_or_else(|| format!("a quote is not closed in {l:?}"))?;
            (&r[1..close + 1], &r[close + 2..])
        } else {
            let mut skip = false;
            let end = r
                .char_indices()
                .find(|(_, c)| {
                    if skip {
                        skip = false;
                        return false;
                    }
                    skip = *c == '\\';
                    matches!(c, ':' | ';' | '"')
                })
                .map_or(r.len(), |(i, _)| i);
            r.split_at(end)
        };
        if !r.starts_with([':', ';']) {
            return Err(format!("a parameter does not end in {l:?}"));
        }
        rest = r;
        let value = split(raw, None, true)?.remove(0);
        let upper = key.to_uppercase();
        let list = || value.split(',').map(|s| s.to_string());
        let values: Vec<String> = match &upper[..] {
            "TYPE" => list().map(|s| read_type(&s)).collect(),
            "PID" | "SORT-AS" => list().collect(),
            "VALUE" => vec![value.to_lowercase()],
            "TZ" if quoted => vec![format!("uri {value}")],
            "TZ" => vec![read_zone(&value).ok().filter(|_| !value.is_empty()).map_or(format!("text {value}"), |z| format!("offset {z}"))],
            "GEO" if !quoted => return Err(format!("GEO is not quoted in {l:?}")),
            "LANGUAGE" | "PREF" | "ALTID" | "MEDIATYPE" | "CALSCALE" | "GEO" | "LABEL" => vec![value],
            _ if upper.starts_with("X-") || upper == "ENCODING" => list().collect(),
            _ => return Err(format!("unknown parameter in {l:?}")),
        };
        if !upper.starts_with("X-") && params.iter().any(|p| p.0 == upper) {
            if upper != "ENCODING" {
                return Err(format!("repeated parameter in {l:?}"));
            }
        }
        params.push((key.into(), values));
    }
    let raw = rest.strip_prefix(':').ok_or_else(|| format!("no value in {l:?}"))?;
    let value_type = params.iter().find(|p| p.0.eq_ignore_ascii_case("VALUE")).map(|p| p.1[0].clone());
    let value = read_value(&name.to_uppercase(), value_type.as_deref(), raw)?;
    Ok(Line { group, name: name.into(), params, value })
}

/// The cards of a text that keeps to the format.
pub fn read(text: &str) -> Result<Vec<Vec<Line>>, String> {
    cards(unfold(text)?, false)
}

/// The cards of a text that gateways rewrote.
pub fn read_foreign(text: &str) -> Result<Vec<Vec<Line>>, String> {
    let lines = crate::damage::logical(text).into_iter().filter(|l| !l.is_empty()).collect();
    let mut out = cards(lines, true)?;
    for l in out.iter_mut().flatten() {
        if !private(&l.name) {
            l.name = l.name.to_uppercase();
        }
        for p in &mut l.params {
            if !private(&p.0) {
                p.0 = p.0.to_uppercase();
            }
        }
    }
    Ok(out)
}

/// The case of these is kept.
fn private(name: &str) -> bool {
    name.get(..2).is_some_and(|p| p.eq_ignore_ascii_case("x-")) || name.eq_ignore_ascii_case("ENCODING")
}

fn cards(lines: Vec<String>, any_case: bool) -> Result<Vec<Vec<Line>>, String> {
    let is = |l: &str, want: &str| l == want || any_case && l.eq_ignore_ascii_case(want);
    let mut cards = Vec::new();
    let mut it = lines.into_iter();
    while let Some(l) = it.next() {
        if !is(&l, "BEGIN:VCARD") || !it.next().is_some_and(|l| is(&l, "VERSION:4.0")) {
            return Err(format!("a card starts with {l:?}"));
        }
        let mut card = Vec::new();
        loop {
            match it.next() {
                None => return Err("a card without end".into()),
                Some(l) if is(&l, "END:VCARD") => break,
                Some(l) => card.push(read_line(&l)?),
            }
        }
        cards.push(card);
    }
    Ok(cards)
}

// ------------------------------------------------------------------ writer

fn f(k: u32) -> u32 {
    draw(FAULT, k)
}

/// Letter case without meaning.
fn recase(s: &str) -> String {
    match f(5) {
        0..=2 => s.to_string(),
        3 => s.chars().map(|c| if f(2) == 0 { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
        _ => {
            let swap = |c: char| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
            s.chars().map(swap).collect()
        }
    }
}

fn newline() -> &'static str {
    if f(3) == 2 {
        "\\N"
    } else {
        "\\n"
    }
}

/// `free`: characters that may be escaped or not.
fn escape(s: &str, must: &[char], free: &[char]) -> String {
    let mut out = String::new();
    // The same habit for all of a value, or none
    let habit = f(3);
    for c in s.chars() {
        if c == '\n' {
            out.push_str(newline());
            continue;
        }
        let may = free.contains(&c) && (habit == 1 || habit == 2 && f(2) == 1);
        if c == '\\' || must.contains(&c) || may {
            out.push('\\');
        }
        out.push(c);
    }
    out
}

fn write_zone(z: i32) -> String {
    let (h, m) = (z.abs() / 60, z.abs() % 60);
    let sign = if z < 0 { '-' } else { '+' };
    match (f(4), z) {
        (1, 0) => "Z".into(),
        (2, 0) => String::new(),
        (3, 0) => "-0000".into(),
        (1, _) if m == 0 => format!("{sign}{h:02}"),
        _ => format!("{sign}{h:02}{m:02}"),
    }
}

fn write_date((y, m, d): (i32, u8, u8), reduced: bool) -> String {
    match (f(6), y, m, d) {
        (1, ..) => format!("{y:04}-{m:02}-{d:02}"),
        (2, _, 1, 1) if reduced => format!("{y:04}"),
        (2..=3, _, _, 1) if reduced => format!("{y:04}-{m:02}"),
        (4, 0, _, 1) if reduced => format!("--{m:02}"),
        (4, 0, ..) => format!("--{m:02}{d:02}"),
        (5, 0, 1, _) => format!("---{d:02}"),
        _ => format!("{y:04}{m:02}{d:02}"),
    }
}

fn write_time((h, m, s): (u8, u8, u8), truncated: bool) -> String {
    match (f(6), h, m, s) {
        (1, ..) => format!("{h:02}:{m:02}:{s:02}"),
        (2, _, _, 0) => format!("{h:02}{m:02}"),
        (3, _, 0, 0) => format!("{h:02}"),
        (4, 0, _, 0) if truncated && m > 0 && f(2) == 1 => format!("-{m:02}"),
        (4, 0, ..) if truncated => format!("-{m:02}{s:02}"),
        (5, 0, 0, _) if truncated => format!("--{s:02}"),
        _ => format!("{h:02}{m:02}{s:02}"),
    }
}

fn write_moment(m: &Moment, kind: Kind) -> String {
    if kind == Kind::Timestamp {
        let ((y, mo, d), (h, mi, s)) = (m.date.unwrap(), m.time.unwrap());
        return format!("{y:04}{mo:02}{d:02}T{h:02}{mi:02}{s:02}{}", write_zone(m.zone));
    }
    match (m.date, m.time) {
        (Some(d), None) => write_date(d, true),
        (Some(d), Some(t)) => format!("{}T{}{}", write_date(d, false), write_time(t, false), write_zone(m.zone)),
        (None, Some(t)) => {
            format!("{}{}{}", if kind == Kind::DateAndOrTime { "T" } else { "" }, write_time(t, true), write_zone(m.zone))
        }
        (None, None) => String::new(),
    }
}

fn plus() -> &'static str {
    if f(4) == 3 {
        "+"
    } else {
        ""
    }
}

fn write_float(bits: u64) -> String {
    let v = f64::from_bits(bits);
    let mut s = format!("{v}");
    match f(4) {
        1 if s.contains('.') => s.push('0'),
        1 => s.push_str(".0"),
        2 if !s.starts_with('-') => s.insert(0, '+'),
        _ => {}
    }
    s
}

fn joined<T>(v: &[T], each: impl Fn(&T) -> String) -> String {
    v.iter().map(each).collect::<Vec<_>>().join(",")
}

fn write_value(v: &Value) -> String {
    match v {
        // Not every program escapes commas
        Value::Text(s) => escape(s, &[], &[',', ';']),
        Value::List(';', v) => v.iter().map(|s| escape(s, &[';'], &[','])).collect::<Vec<_>>().join(";"),
        Value::List(_, v) => joined(v, |s| escape(s, &[','], &[';'])),
        Value::Uri(s) | Value::Word(s) => s.clone(),
        Value::Moments(kind, v) => joined(v, |m| write_moment(m, *kind)),
        Value::Offset(z) => {
            let s = write_zone(*z);
            if s.is_empty() {
                "+00".into()
            } else {
                s
            }
        }
        Value::Integers(v) => joined(v, |i| format!("{}{i}", if *i < 0 { "" } else { plus() })),
        Value::Floats(v) => joined(v, |b| write_float(*b)),
        Value::Boolean(b) => recase(if *b { "true" } else { "false" }),
        Value::Gender(sex, None) => sex.clone(),
        Value::Gender(sex, Some(id)) => format!("{sex};{}", escape(id, &[], &[',', ';'])),
        Value::PidMap(n, u) => format!("{n};{u}"),
    }
}

/// A parameter value, in quotes where that is necessary or for no reason.
fn quoted(s: &str) -> String {
    let s = escape(s, &[], &[]);
    if s.contains([':', ';']) || f(3) == 2 {
        format!("\"{s}\"")
    } else {
        s
    }
}

fn write_params(params: &[(String, Vec<String>)]) -> String {
    let mut out: Vec<String> = Vec::new();
    // A program may add this to everything
    if f(12) == 11 {
        out.push(format!(";{}=UTF-8", recase("CHARSET")));
    }
    // Other keys in any order, equal ones in theirs
    let mut left: Vec<&(String, Vec<String>)> = params.iter().collect();
    while !left.is_empty() {
        let at = if f(3) == 2 { f(left.len() as u32) as usize } else { 0 };
        let at = if private(&left[at].0) { left.iter().position(|p| private(&p.0)).unwrap() } else { at };
        let (key, values) = left.remove(at);
        let k = if private(key) { key.clone() } else { recase(key) };
        match &key[..] {
            "TYPE" => {
                let words: Vec<String> = values
                    .iter()
                    .map(|v| match v.strip_prefix("X-") {
                        Some(x) => {
                            let bare = !x.is_empty() && !known_type(x) && !x.get(..2).is_some_and(|p| p.eq_ignore_ascii_case("x-"));
                            match f(3) {
                                1 if bare => x.to_string(),
                                2 => format!("x-{x}"),
                                _ => v.clone(),
                            }
                        }
                        None => recase(v),
                    })
                    .collect();
                let mut from = 0;
                while from < words.len() {
                    let n = if f(3) == 2 { 1 + f((words.len() - from) as u32) as usize } else { words.len() - from };
                    out.push(format!(";{k}={}", quoted(&words[from..from + n].join(","))));
                    from += n;
                }
            }
            "VALUE" => out.push(format!(";{k}={}", quoted(&recase(&values[0])))),
            "GEO" => out.push(format!(";{k}=\"{}\"", values[0])),
            "TZ" => {
                let v = &values[0];
                out.push(if let Some(t) = v.strip_prefix("text ") {
                    format!(";{k}={}", escape(t, &[';'], &[]))
                } else if let Some(u) = v.strip_prefix("uri ") {
                    format!(";{k}=\"{u}\"")
                } else {
                    let z = write_zone(v[7..].parse().unwrap());
                    format!(";{k}={}", if z.is_empty() { "Z" } else { &z })
                });
            }
            _ => out.push(format!(";{k}={}", quoted(&values.join(",")))),
        }
    }
    out.concat()
}

pub fn write_line(l: &Line) -> String {
    let mut s = String::new();
    if let Some(g) = &l.group {
        s.push_str(g);
        s.push('.');
    }
    if private(&l.name) {
        s.push_str(&l.name);
    } else {
        s.push_str(&recase(&l.name));
    }
    s.push_str(&write_params(&l.params));
    s.push(':');
    s.push_str(&write_value(&l.value));
    s
}

/// The lines of a card as this program writes them, without frame.
pub fn write_lines(lines: Vec<Line>) -> Vec<String> {
    // Names in any order, properties with the same name in theirs
    let mut queues: Vec<Vec<Line>> = Vec::new();
    for l in lines {
        match queues.last_mut() {
            Some(q) if q[0].name == l.name || private(&l.name) && private(&q[0].name) => q.push(l),
            _ => queues.push(vec![l]),
        }
    }
    let mut out = Vec::new();
    let mix = f(3) == 2;
    while !queues.is_empty() {
        let at = if mix { f(queues.len() as u32) as usize } else { 0 };
        out.push(write_line(&queues[at].remove(0)));
        if queues[at].is_empty() {
            queues.remove(at);
        }
    }
    out
}

pub fn framed(lines: &[String]) -> String {
    let mut s = format!("{}\r\n{}\r\n", recase("BEGIN:VCARD"), recase(if chance(FAULT, 1, 5) { "VERSION:3.0" } else { "VERSION:4.0" }));
    for l in lines {
        s.push_str(l);
        s.push_str("\r\n");
    }
    s.push_str(&recase("END:VCARD"));
    s.push_str("\r\n");
    s
}

/// A card as this program writes it.
pub fn write(c: &Vcard) -> String {
    write_card(lines(c))
}

pub fn write_card(lines: Vec<Line>) -> String {
    framed(&write_lines(lines))
}
