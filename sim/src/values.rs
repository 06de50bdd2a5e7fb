//! Values that programs keep on their own instead of in cards.
use crate::canon::clip;
use crate::damage::{self, Gateway};
use crate::disk::*;
use crate::gen::{self, Cfg};
use crate::props::{align, check, fl, loose, remember, saves, seen, show, strict, w};
use crate::shm::{self, count, draw, event, hash_bytes, note, shm, FAULT, SCHED, WORK};
use crate::sys::{self, call, violate};
use crate::{exchange, sched, *};
use std::fmt::{Debug, Display};
use std::io::{BufWriter, Read as _, Write as _};
use std::str::FromStr;
use vcard4::helper::*;
use vcard4::parameter::*;
use vcard4::property::*;
use vcard4::{Date, DateTime, Uri, Vcard};

/// What a parser made of a text: the value in full, or that there is none.
type Read = Result<String, String>;

/// A value that can be displayed, with all that it holds.
struct Drawn {
    shown: Box<dyn Display>,
    full: String,
}

fn drawn<T: Display + Debug + 'static>(v: T) -> Drawn {
    Drawn { full: format!("{v:?}"), shown: Box::new(v) }
}

/// A displayed value whose parser returns only what is inside.
fn listed<T: Display + 'static>(v: T, inside: &dyn Debug) -> Drawn {
    Drawn { full: format!("{inside:?}"), shown: Box::new(v) }
}

fn parsed<T: FromStr + Debug>(s: &str) -> Read
where
    T::Err: Display,
{
    s.parse::<T>().map(|v| format!("{v:?}")).map_err(|e| e.to_string())
}

fn helped<T: Debug>(f: fn(&str) -> vcard4::Result<T>, s: &str) -> Read {
    f(s).map(|v| format!("{v:?}")).map_err(|e| e.to_string())
}

fn few<T: Clone>(f: impl FnMut() -> T) -> Vec<T> {
    gen::many(1 + [0, 0, 1, 2, 5][w(5) as usize], f)
}

/// Moments to any precision: they are kept in full where they stand alone.
fn precise() -> DateTime {
    let t: vcard4::time::OffsetDateTime = gen::date_time().into();
    match w(3) {
        0 => t,
        1 => t.replace_millisecond([1, 10, 100, 500, 999][w(5) as usize]).unwrap(),
        _ => t.replace_nanosecond(w(1_000_000_000)).unwrap(),
    }
    .into()
}

fn number() -> u64 {
    [0, 1, 9, 10, 255, 256, u32::MAX as u64 + 1, u64::MAX][w(8) as usize]
}

pub struct Kept {
    name: &'static str,
    draw: fn(&Cfg) -> Drawn,
    read: fn(&str) -> Read,
}

/// Every public type that is displayed and parsed.
const KEPT: &[Kept] = &[
    Kept { name: "date", draw: |_| drawn(Date::from(gen::date())), read: parsed::<Date> },
    Kept { name: "date and time", draw: |_| drawn(precise()), read: parsed::<DateTime> },
    Kept {
        name: "date of a moment",
        draw: |_| {
            let v = precise();
            Drawn { full: format!("{:?}", Date::from(v.as_ref().date())), shown: Box::new(v) }
        },
        read: parsed::<Date>,
    },
    Kept { name: "date or time", draw: |_| drawn(gen::date_and_or_time()), read: parsed::<DateAndOrTime> },
    Kept { name: "offset", draw: |_| drawn(UtcOffsetProperty::from(gen::offset())), read: parsed::<UtcOffsetProperty> },
    Kept {
        name: "kind",
        draw: |_| drawn([Kind::Individual, Kind::Group, Kind::Org, Kind::Location][w(4) as usize].clone()),
        read: parsed::<Kind>,
    },
    Kept { name: "sex", draw: |c| drawn(c.gender().sex.clone()), read: parsed::<Sex> },
    Kept { name: "gender", draw: |c| drawn(c.gender()), read: parsed::<Gender> },
    Kept { name: "address", draw: |c| drawn(c.delivery()), read: parsed::<DeliveryAddress> },
    Kept {
        name: "PID map",
        draw: |_| drawn(ClientPidMap { source: number().max(1), uri: gen::uri() }),
        read: parsed::<ClientPidMap>,
    },
    Kept { name: "PID", draw: |_| drawn(Pid::new(number(), (w(2) == 0).then(number))), read: parsed::<Pid> },
    Kept { name: "type", draw: |c| drawn(c.type_param()), read: parsed::<TypeParameter> },
    Kept {
        name: "type of a telephone",
        draw: |c| loop {
            if let TypeParameter::Telephone(t) = &c.type_param() {
                return drawn(t.clone());
            } else if w(8) == 0 {
                return drawn(TelephoneType::Pager);
            }
        },
        read: parsed::<TelephoneType>,
    },
    Kept {
        name: "relation",
        draw: |c| loop {
            if let TypeParameter::Related(t) = &c.type_param() {
                return drawn(t.clone());
            } else if w(8) == 0 {
                return drawn(RelatedType::Muse);
            }
        },
        read: parsed::<RelatedType>,
    },
    Kept {
        name: "type of a value",
        draw: |_| drawn(TYPES[w(TYPES.len() as u32) as usize].0.clone()),
        read: parsed::<ValueType>,
    },
    Kept { name: "URI", draw: |_| drawn(gen::uri()), read: parsed::<Uri> },
    Kept {
        name: "URI of a property",
        draw: |_| {
            let u = gen::uri();
            Drawn { full: format!("{:?}", UriProperty::from(u.clone())), shown: Box::new(u) }
        },
        read: |s| UriProperty::try_from(s).map(|v| format!("{v:?}")).map_err(|e| e.to_string()),
    },
    Kept {
        name: "timestamp of a property",
        draw: |_| {
            let v = gen::date_time();
            listed(DateTimeProperty::from(v.clone()), &v)
        },
        read: |s| helped(parse_timestamp, s),
    },
    Kept {
        name: "dates",
        draw: |_| {
            let v = few(|| Date::from(gen::date()));
            listed(AnyProperty::Date(v.clone()), &v)
        },
        read: |s| helped(dates, s),
    },
    Kept {
        name: "dates and times",
        draw: |_| {
            let v = few(gen::date_time);
            listed(AnyProperty::DateTime(v.clone()), &v)
        },
        read: |s| helped(parse_date_time_list, s),
    },
    Kept {
        name: "times",
        draw: |_| {
            let v = few(|| (gen::time(), gen::offset()));
            listed(AnyProperty::Time(v.clone()), &v)
        },
        read: |s| helped(parse_time_list, s),
    },
    Kept {
        name: "dates or times",
        draw: |_| {
            let v = few(gen::date_and_or_time);
            listed(AnyProperty::DateAndOrTime(v.clone()), &v)
        },
        read: |s| helped(parse_date_and_or_time_list, s),
    },
    Kept {
        name: "timestamps",
        draw: |_| {
            let v = few(gen::date_time);
            listed(AnyProperty::Timestamp(v.clone()), &v)
        },
        read: |s| helped(parse_timestamp_list, s),
    },
    Kept {
        name: "integers",
        draw: |_| {
            let v = few(gen::integer);
            listed(AnyProperty::Integer(v.clone()), &v)
        },
        read: |s| helped(parse_integer_list, s),
    },
    Kept {
        name: "floats",
        draw: |_| {
            let v = few(gen::float);
            listed(AnyProperty::Float(v.clone()), &v)
        },
        read: |s| helped(parse_float_list, s),
    },
    Kept {
        name: "boolean",
        draw: |_| {
            let v = w(2) == 0;
            listed(AnyProperty::Boolean(v), &v)
        },
        read: |s| helped(parse_boolean, s),
    },
    Kept {
        name: "offset of an extension",
        draw: |_| {
            let v = gen::offset();
            listed(AnyProperty::UtcOffset(v), &v)
        },
        read: |s| helped(parse_utc_offset, s),
    },
    Kept {
        name: "date of a property",
        draw: |_| {
            let v: Vec<DateAndOrTime> = few(gen::date_and_or_time);
            listed(DateAndOrTimeProperty { group: None, value: v.clone(), parameters: None }, &v)
        },
        read: |s| helped(parse_date_and_or_time_list, s),
    },
];

const TYPES: &[(ValueType, &str)] = &[
    (ValueType::Text, "a"),
    (ValueType::Uri, "urn:a:b"),
    (ValueType::Date, "20200101"),
    (ValueType::Time, "102200"),
    (ValueType::DateTime, "20200101T102200"),
    (ValueType::DateAndOrTime, "20200101"),
    (ValueType::Timestamp, "20200101T102200Z"),
    (ValueType::Boolean, "true"),
    (ValueType::Integer, "1"),
    (ValueType::Float, "1.5"),
    (ValueType::UtcOffset, "-0500"),
    (ValueType::LanguageTag, "en"),
];

/// A value parser, and where a card has such a value.
struct Twin {
    name: &'static str,
    read: fn(&str) -> Read,
    line: fn(&str) -> String,
    get: fn(&Vcard) -> Option<String>,
    /// Stands in a parameter
    param: bool,
}

macro_rules! extension {
    ($name:literal, $read:expr, $type:literal, $variant:ident) => {
        Twin {
            name: $name,
            read: $read,
            line: |s| format!("X-A;VALUE={}:{s}", $type),
            get: |c| match c.extensions.first().map(|x| &x.value) {
                Some(AnyProperty::$variant(v)) => Some(format!("{v:?}")),
                _ => None,
            },
            param: false,
        }
    };
}

macro_rules! field {
    ($name:literal, $read:expr, $line:expr, $get:expr) => {
        Twin { name: $name, read: $read, line: $line, get: $get, param: false }
    };
}

/// Dates of the helpers are those of another library.
fn dates(s: &str) -> vcard4::Result<Vec<Date>> {
    Ok(parse_date_list(s)?.into_iter().map(|d| d.into()).collect())
}

/// One value of a list: the same as the list of it.
fn one<T: Debug>(f: fn(&str) -> vcard4::Result<T>, s: &str) -> Read {
    f(s).map(|v| format!("{:?}", [v])).map_err(|e| e.to_string())
}

fn once(c: Option<&DateTimeOrTextProperty>) -> Option<String> {
    match c {
        Some(DateTimeOrTextProperty::DateTime(p)) => Some(format!("{:?}", p.value)),
        _ => None,
    }
}

const TWINS: &[Twin] = &[
    extension!("parse_date_list", |s| helped(dates, s), "date", Date),
    extension!("parse_time_list", |s| helped(parse_time_list, s), "time", Time),
    extension!("parse_date_time_list", |s| helped(parse_date_time_list, s), "date-time", DateTime),
    extension!("parse_date_and_or_time_list", |s| helped(parse_date_and_or_time_list, s), "date-and-or-time", DateAndOrTime),
    extension!("parse_timestamp_list", |s| helped(parse_timestamp_list, s), "timestamp", Timestamp),
    extension!("parse_integer_list", |s| helped(parse_integer_list, s), "integer", Integer),
    extension!("parse_float_list", |s| helped(parse_float_list, s), "float", Float),
    extension!("parse_boolean", |s| helped(parse_boolean, s), "boolean", Boolean),
    extension!("parse_utc_offset", |s| helped(parse_utc_offset, s), "utc-offset", UtcOffset),
    extension!("Uri", parsed::<Uri>, "uri", Uri),
    extension!("parse_date", |s| if s.contains(',') { helped(dates, s) } else { one(|s| Ok(Date::from(parse_date(s)?)), s) }, "date", Date),
    extension!("parse_time", |s| if s.contains(',') { helped(parse_time_list, s) } else { one(parse_time, s) }, "time", Time),
    extension!("parse_date_time", |s| if s.contains(',') { helped(parse_date_time_list, s) } else { one(parse_date_time, s) }, "date-time", DateTime),
    extension!("DateAndOrTime", |s| if s.contains(',') { helped(parse_date_and_or_time_list, s) } else { one(DateAndOrTime::from_str, s) }, "date-and-or-time", DateAndOrTime),
    extension!("parse_timestamp", |s| if s.contains(',') { helped(parse_timestamp_list, s) } else { one(parse_timestamp, s) }, "timestamp", Timestamp),
    field!("parse_timestamp of REV", |s| helped(parse_timestamp, s), |s| format!("REV:{s}"), |c| c.rev.as_ref().map(|p| format!("{:?}", p.value))),
    field!("date of BDAY", |s| helped(parse_date_and_or_time_list, s), |s| format!("BDAY:{s}"), |c| once(c.bday.as_ref())),
    field!("date of ANNIVERSARY", |s| helped(parse_date_and_or_time_list, s), |s| format!("ANNIVERSARY;VALUE=date-and-or-time:{s}"), |c| once(
        c.anniversary.as_ref()
    )),
    field!("UtcOffsetProperty", parsed::<UtcOffsetProperty>, |s| format!("TZ;VALUE=utc-offset:{s}"), |c| match c.timezone.first() {
        Some(TimeZoneProperty::UtcOffset(p)) => Some(format!("{:?}", UtcOffsetProperty::from(p.value))),
        _ => None,
    }),
    field!("Kind", parsed::<Kind>, |s| format!("KIND:{s}"), |c| c.kind.as_ref().map(|p| format!("{:?}", p.value))),
    field!("Gender", parsed::<Gender>, |s| format!("GENDER:{s}"), |c| c.gender.as_ref().map(|p| format!("{:?}", p.value))),
    field!("DeliveryAddress", parsed::<DeliveryAddress>, |s| format!("ADR:{s}"), |c| c.address.first().map(|p| format!("{:?}", p.value))),
    field!("ClientPidMap", parsed::<ClientPidMap>, |s| format!("CLIENTPIDMAP:{s}"), |c| c.client_pid_map.first().map(|p| format!("{:?}", p.value))),
    field!("UriProperty", |s| UriProperty::try_from(s).map(|v| format!("{:?}", v.value)).map_err(|e| e.to_string()), |s| format!("URL:{s}"), |c| c
        .url
        .first()
        .map(|p| format!("{:?}", p.value))),
    field!("Uri of SOURCE", parsed::<Uri>, |s| format!("SOURCE:{s}"), |c| c.source.first().map(|p| format!("{:?}", p.value))),
    Twin {
        name: "Pid",
        read: parsed::<Pid>,
        line: |s| format!("NOTE;PID={s}:x"),
        get: |c| Some(format!("{:?}", c.note.first()?.parameters.as_ref()?.pid.as_ref()?.first()?)),
        param: true,
    },
    Twin {
        name: "TypeParameter",
        read: parsed::<TypeParameter>,
        line: |s| format!("EMAIL;TYPE={s}:x"),
        get: |c| Some(format!("{:?}", c.email.first()?.parameters.as_ref()?.types.as_ref()?.first()?)),
        param: true,
    },
    Twin {
        name: "ValueType",
        read: parsed::<ValueType>,
        line: |s| {
            let v = s.parse::<ValueType>().ok().and_then(|t| TYPES.iter().find(|k| k.0 == t)).map_or("x", |k| k.1);
            format!("X-A;VALUE={s}:{v}")
        },
        get: |c| Some(format!("{:?}", c.extensions.first()?.parameters.as_ref()?.value.as_ref()?)),
        param: true,
    },
];

/// What is like the values of a parser.
fn like(twin: &str) -> &'static str {
    match twin {
        "parse_date_list" | "parse_date" => "dates",
        "parse_time_list" | "parse_time" => "times",
        "parse_date_time_list" | "parse_date_time" => "dates and times",
        "parse_timestamp_list" | "parse_timestamp" | "parse_timestamp of REV" => "timestamps",
        "parse_integer_list" => "integers",
        "parse_float_list" => "floats",
        "parse_boolean" => "boolean",
        "parse_utc_offset" | "UtcOffsetProperty" => "offset",
        "Uri" | "UriProperty" | "Uri of SOURCE" => "URI",
        "Kind" => "kind",
        "Gender" => "gender",
        "DeliveryAddress" => "address",
        "ClientPidMap" => "PID map",
        "Pid" => "PID",
        "TypeParameter" => "type",
        "ValueType" => "type of a value",
        _ => "dates or times",
    }
}

/// A text that a value parser might be given.
fn any_text(cfg: &Cfg, t: &Twin) -> String {
    let like = KEPT.iter().find(|k| w(2) == 0 && k.name == like(t.name));
    let mut s = match w(8) {
        _ if like.is_some() => like.map_or(String::new(), |k| (k.draw)(cfg).shown.to_string()),
        0 => gen::value_text(),
        1 => {
            let k = &KEPT[w(KEPT.len() as u32) as usize];
            (k.draw)(cfg).shown.to_string()
        }
        2 => exchange::bad_value(),
        3 => ["M;x", "N", "F;", "X", "m", "group", "Group", "org", "individual", "location ", "1;urn:x", "01;urn:x:y", "1.2", "1.", ".1", "+1", "1.+2", "home", "HOME", "x-foo", "X-", "Cell", "SPOUSE", "uri", "Date-And-Or-Time", "utc-offset", "TEXT", "texts"][w(28) as usize].into(),
        4 => format!("{},{}", gen::value_text(), gen::value_text()),
        5 => format!("{},{}", gen::date_form(), gen::date_form()),
        6 => format!("{},{}", gen::time_form(), gen::time_form()),
        _ => (0..w(9)).map(|_| [";", "a", "\\;", "\\\\", "\\,", ",", "\\n", "\\N", "\\x", ";;", "b c", "é"][w(12) as usize]).collect(),
    };
    if fl(3) == 2 && !s.is_empty() {
        let mut d = s.into_bytes();
        damage::damage(&mut d, 2);
        s = damage::text(&d);
    }
    if w(12) == 0 {
        s.insert(if w(2) == 0 { 0 } else { s.len() }, [' ', '+', '-', ',', '0', 'T'][w(6) as usize]);
    }
    s.retain(|c| !c.is_control() && c != '\u{feff}' && c != '\u{fffd}');
    s
}

/// The parsers of values and the readers of cards are each other's oracle.
fn agree(cfg: &Cfg) {
    let t = &TWINS[w(TWINS.len() as u32) as usize];
    let s = any_text(cfg, t);
    // Parameters have quotes, and values other escapes
    if t.param && (s.is_empty() || s.contains([',', ';', ':', '"', '\\', ' '])) || t.name != "DeliveryAddress" && s.contains('\\') {
        return;
    }
    let own = call(t.name, || (t.read)(&s));
    let line = (t.line)(&s);
    let text = Gateway::draw().pass(&format!("BEGIN:VCARD\r\nVERSION:4.0\r\nFN:a\r\n{line}\r\nEND:VCARD\r\n"));
    seen(EV_TEXT, &text);
    let card = strict(&text).map(|c| (t.get)(&c[0]));
    check();
    let fine = match (&own, &card) {
        (Ok(a), Ok(Some(b))) => a == b,
        (Err(_), Err(_)) => true,
        _ => false,
    };
    if !fine {
        violate("twins", &format!("{} of {s:?} gives {}, the line {line:?} in a card {}", t.name, clip(&format!("{own:?}")), clip(&format!("{card:?}"))));
    }
    if t.name == "ValueType" {
        return;
    }
    let card = loose(&text).map(|c| (t.get)(&c[0]));
    if card.as_ref().ok() != Some(&own.clone().ok()) {
        violate("twins", &format!("{} of {s:?} gives {}, the line {line:?} in a card read loosely {}", t.name, clip(&format!("{own:?}")), clip(&format!("{card:?}"))));
    }
}

// Records: start, kind, value, end and a line break. A record without its end
// is one that was cut off.
const START: u8 = 1;
const MID: u8 = 2;
const END: u8 = 3;

fn id_of(kind: usize, full: &str) -> u64 {
    shm::mix(kind as u64, hash_bytes(3, full.as_bytes()))
}

/// The values that are stored in a file, read by their own parsers.
fn stored(raw: &[u8]) -> Vec<(usize, Read, String)> {
    let mut out = Vec::new();
    for part in raw.split(|b| *b == START).skip(1) {
        let Some(end) = part.iter().position(|b| *b == END) else { continue };
        let body = &part[..end];
        let Some(mid) = body.iter().position(|b| *b == MID) else { continue };
        if body.contains(&0) {
            continue;
        }
        let Ok(kind) = damage::text(&body[..mid]).parse::<usize>() else { continue };
        let text = damage::text(&body[mid + 1..]);
        let Some(k) = KEPT.get(kind) else { continue };
        let r = call(k.name, || (k.read)(&text));
        out.push((kind, r, text));
    }
    out
}

fn recover(id: usize, faults: Faults) {
    let mut file = SimFile::new(id, Faults { eio: 0, ..faults });
    let mut raw = Vec::new();
    file.read_to_end(&mut raw).expect("reading is retried");
    count(C_RECOVER);
    let got = stored(&raw);
    let found: Vec<u64> = got.iter().map(|(k, r, _)| r.as_ref().map_or(0, |v| id_of(*k, v))).collect();
    event(sched::tid(), EV_READ, found.iter().fold(7, |a, b| shm::mix(a, *b)), found.len() as u64);
    let idx = saves(id);
    let s = shm();
    let saved: Vec<(u64, bool)> = idx.iter().map(|i| (s.ledger[*i].card, s.ledger[*i].state == 2)).collect();
    check();
    for (k, r, text) in &got {
        let known = r.as_ref().is_ok_and(|v| saved.iter().any(|s| s.0 == id_of(*k, v)));
        if !known {
            violate("changed", &format!("a {} that was stored as {text:?} came back as {}", KEPT[*k].name, clip(&format!("{r:?}"))));
        }
    }
    match align(&found, &saved) {
        Some(m) => {
            if s.files[id].durable == s.files[id].len {
                for j in m {
                    s.ledger[idx[j]].state = 2;
                }
            }
        }
        None => {
            show("disk after restart", &damage::text(&raw));
            violate("lost", &format!("{} of {} stored values were acknowledged, {} came back or not in order", saved.iter().filter(|s| s.1).count(), saved.len(), got.len()));
        }
    }
}

fn put(file: &mut SimFile, kind: usize, v: &Drawn, how: u32) -> std::io::Result<()> {
    call("displaying a value", || {
        file.write_all(&[START])?;
        match how {
            0 => write!(file, "{kind}\u{2}{}\u{3}", v.shown)?,
            1 => file.write_all(format!("{kind}\u{2}{}\u{3}", v.shown).as_bytes())?,
            _ => {
                let size = [1, 16, 64, 512][fl(4)];
                let mut b = BufWriter::with_capacity(size, &mut *file);
                write!(b, "{kind}\u{2}{}\u{3}", v.shown)?;
                b.flush()?;
            }
        }
        file.write_all(b"\n")?;
        file.flush()
    })
}

fn keeper(id: usize, cfg: &Cfg, faults: Faults, crash: Option<usize>, ops: u32) {
    let mut file = SimFile::new(id, faults);
    file.crash_after = crash;
    for _ in 0..ops {
        if w(3) == 2 {
            agree(cfg);
            continue;
        }
        let kind = w(KEPT.len() as u32) as usize;
        let v = (KEPT[kind].draw)(cfg);
        note(|| format!("thread {id} stores a {}: {}", KEPT[kind].name, v.full));
        // At once, without a disk
        let text = call("displaying a value", || v.shown.to_string());
        let back = call(KEPT[kind].name, || (KEPT[kind].read)(&text));
        check();
        if back.as_ref() != Ok(&v.full) {
            violate("changed", &format!("a {} is displayed as {text:?}, which is read as {} instead of {}", KEPT[kind].name, clip(&format!("{back:?}")), clip(&v.full)));
        }
        let e = remember(id_of(kind, &v.full), id, 1);
        count(C_SAVE);
        match put(&mut file, kind, &v, w(3)) {
            Ok(()) => {
                count(C_ACK);
                shm().ledger[e].state = 2;
                event(sched::tid(), EV_ACK, e as u64, 0);
            }
            Err(e) => note(|| format!("thread {id}: storing failed: {e}")),
        }
    }
}

fn life(last: bool, threads: usize, cfg: &Cfg) {
    let faults = Faults::draw();
    for id in 0..threads {
        recover(id, faults);
    }
    if last {
        return;
    }
    let crash = if draw(FAULT, 4) > 0 { Some((fl(threads), fl([60, 600, 4000][fl(3)]))) } else { None };
    if draw(FAULT, 6) == 5 {
        for f in shm().files.iter_mut().take(threads) {
            f.cap = (f.len + draw(FAULT, 1000)).min(f.cap);
        }
    }
    let ops = 2 + w(14);
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for id in 0..threads {
        let c = crash.and_then(|c| (c.0 == id).then_some(c.1));
        tasks.push(Box::new(move || keeper(id, cfg, faults, c, ops)));
    }
    sched::run(draw(SCHED, sched::rates()), 1 << 20, tasks);
}

pub fn c19() {
    let threads = 1 + w(3) as usize;
    let lives = 1 + w(3);
    let cfg = Cfg::draw().small();
    for k in 0..=lives {
        shm().lives += 1;
        shm().scratch[0] = 0;
        shm().entropy = shm::mix(k as u64, draw(FAULT, u32::MAX) as u64);
        let status = sys::fork_run(|| life(k == lives, threads, &cfg));
        if shm().scratch[0] == 1 && status == 9 << 8 {
            lose_tails();
        } else if status != 0 {
            sys::pass_on(status);
        }
    }
    let _ = WORK;
}
