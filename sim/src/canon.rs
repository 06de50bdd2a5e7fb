//! A card as a list of properties that can be compared one by one.
use vcard4::parameter::*;
use vcard4::property::*;
use vcard4::{DateTime, Vcard};

/// Name and full content of one property.
pub type Prop = (&'static str, String);

/// Parameters that hold nothing are no parameters: text has no form for them.
fn plain(text: String) -> String {
    static EMPTY: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    let empty = EMPTY.get_or_init(|| format!("Some({:?})", Parameters::default()));
    if text.contains(&empty[..]) {
        text.replace(&empty[..], "None")
    } else {
        text
    }
}

macro_rules! each {
    ($c:expr, $out:expr, many: $($m:ident),*; one: $($o:ident),*) => {{
        // Fails to build when a field is added so that none is forgotten
        $( for p in $c.$m.iter() { $out.push((stringify!($m), plain(format!("{:?}", p)))); } )*
        $( if let Some(p) = &$c.$o { $out.push((stringify!($o), plain(format!("{:?}", p)))); } )*
    }};
}

/// Every property of a card, in order per name.
pub fn props(c: &Vcard) -> Vec<Prop> {
    let mut out: Vec<Prop> = Vec::new();
    each!(c, out,
        many: source, xml, formatted_name, nickname, photo, url, address, tel, email, impp, lang,
              title, role, logo, org, member, related, timezone, geo, categories, note, sound,
              client_pid_map, key, fburl, cal_adr_uri, cal_uri, extensions;
        one: kind, name, bday, anniversary, gender, prod_id, rev, uid);
    out
}

/// The same as field names.
pub const ONCE_FIELDS: [&str; 8] = ["kind", "name", "bday", "anniversary", "gender", "prod_id", "rev", "uid"];

pub const ONCE: [&str; 8] = ["KIND", "N", "BDAY", "ANNIVERSARY", "GENDER", "PRODID", "REV", "UID"];

pub fn hash(c: &Vcard) -> u64 {
    let mut h = 0;
    for (n, v) in props(c) {
        h = crate::shm::hash_bytes(crate::shm::hash_bytes(h, n.as_bytes()), v.as_bytes());
    }
    h
}

/// First difference between two cards, if any.
pub fn diff(a: &Vcard, b: &Vcard) -> Option<String> {
    let (pa, pb) = (props(a), props(b));
    if pa == pb {
        return None;
    }
    for (x, y) in pa.iter().zip(pb.iter()) {
        if x != y {
            return Some(format!("{} {} != {} {}", x.0, clip(&x.1), y.0, clip(&y.1)));
        }
    }
    Some(format!(
        "{} properties != {} properties, first extra: {}",
        pa.len(),
        pb.len(),
        clip(&format!("{:?}", if pa.len() > pb.len() { &pa[pb.len()] } else { &pb[pa.len()] }))
    ))
}

pub fn clip(s: &str) -> String {
    if s.chars().count() <= 400 {
        s.to_string()
    } else {
        let head: String = s.chars().take(300).collect();
        format!("{head}... ({} bytes)", s.len())
    }
}

/// Remove the sub-second part of every time.
pub fn truncate(c: &mut Vcard) {
    fractions(c, &mut |_| 0)
}

/// Change the sub-second part of every time.
pub fn fractions(c: &mut Vcard, f: &mut dyn FnMut(u32) -> u32) {
    type To<'a> = &'a mut dyn FnMut(u32) -> u32;
    fn dt(d: &mut DateTime, f: To) {
        let o: vcard4::time::OffsetDateTime = d.clone().into();
        *d = o.replace_nanosecond(f(o.nanosecond())).unwrap().into();
    }
    fn time(t: &mut vcard4::time::Time, f: To) {
        *t = t.replace_nanosecond(f(t.nanosecond())).unwrap();
    }
    fn dat(v: &mut [DateAndOrTime], f: To) {
        for d in v {
            match d {
                DateAndOrTime::DateTime(d) => dt(d, f),
                DateAndOrTime::Time((t, _)) => time(t, f),
                DateAndOrTime::Date(_) => {}
            }
        }
    }
    for p in [&mut c.bday, &mut c.anniversary].into_iter().flatten() {
        if let DateTimeOrTextProperty::DateTime(p) = p {
            dat(&mut p.value, f);
        }
    }
    if let Some(r) = &mut c.rev {
        dt(&mut r.value, f);
    }
    for e in &mut c.extensions {
        match &mut e.value {
            AnyProperty::DateTime(v) | AnyProperty::Timestamp(v) => v.iter_mut().for_each(|d| dt(d, f)),
            AnyProperty::Time(v) => v.iter_mut().for_each(|t| time(&mut t.0, f)),
            AnyProperty::DateAndOrTime(v) => dat(v, f),
            _ => {}
        }
    }
}

/// Visit every text that must be wiped when the card is dropped.
pub fn secrets(c: &Vcard, f: &mut dyn FnMut(&String)) {
    fn list(v: &[String], f: &mut dyn FnMut(&String)) {
        v.iter().for_each(f);
    }
    fn params(p: &Option<Parameters>, f: &mut dyn FnMut(&String)) {
        let Some(p) = p else { return };
        #[cfg(not(feature = "full"))]
        {
            p.language.iter().for_each(&mut *f);
            p.media_type.iter().for_each(&mut *f);
        }
        p.alt_id.iter().for_each(&mut *f);
        p.calscale.iter().for_each(&mut *f);
        p.label.iter().for_each(&mut *f);
        for t in p.types.iter().flatten() {
            if let TypeParameter::Extension(s) = t {
                f(s);
            }
        }
        list(p.sort_as.as_deref().unwrap_or_default(), f);
        if let Some(TimeZoneParameter::Text(s)) = &p.timezone {
            f(s);
        }
        for (n, v) in p.extensions.iter().flatten() {
            f(n);
            list(v, f);
        }
    }
    macro_rules! base {
        ($p:expr) => {{
            $p.group.iter().for_each(&mut *f);
            params(&$p.parameters, f);
        }};
    }
    fn text(p: &TextProperty, f: &mut dyn FnMut(&String)) {
        p.group.iter().for_each(&mut *f);
        params(&p.parameters, f);
        f(&p.value);
    }
    fn uri(p: &UriProperty, f: &mut dyn FnMut(&String)) {
        p.group.iter().for_each(&mut *f);
        params(&p.parameters, f);
    }
    fn text_or_uri(p: &TextOrUriProperty, f: &mut dyn FnMut(&String)) {
        match p {
            TextOrUriProperty::Text(p) => text(p, f),
            TextOrUriProperty::Uri(p) => uri(p, f),
        }
    }
    for p in [&c.xml, &c.formatted_name, &c.nickname, &c.email, &c.title, &c.role, &c.note] {
        p.iter().for_each(|p| text(p, f));
    }
    for p in [
        &c.source, &c.url, &c.impp, &c.logo, &c.member, &c.geo, &c.sound, &c.fburl, &c.cal_adr_uri, &c.cal_uri,
    ] {
        p.iter().for_each(|p| uri(p, f));
    }
    for p in [&c.photo, &c.tel, &c.related, &c.key] {
        p.iter().for_each(|p| text_or_uri(p, f));
    }
    c.uid.iter().for_each(|p| text_or_uri(p, f));
    c.prod_id.iter().for_each(|p| text(p, f));
    for p in c.org.iter().chain(c.categories.iter()).chain(c.name.iter()) {
        base!(p);
        list(&p.value, f);
    }
    for p in c.bday.iter().chain(c.anniversary.iter()) {
        match p {
            DateTimeOrTextProperty::DateTime(p) => base!(p),
            DateTimeOrTextProperty::Text(p) => text(p, f),
        }
    }
    for p in &c.kind {
        base!(p);
    }
    for p in &c.gender {
        base!(p);
        p.value.identity.iter().for_each(&mut *f);
    }
    for p in &c.rev {
        base!(p);
    }
    for p in &c.client_pid_map {
        base!(p);
    }
    for p in &c.lang {
        base!(p);
        #[cfg(not(feature = "full"))]
        f(&p.value);
    }
    for p in &c.address {
        base!(p);
        let a = &p.value;
        for s in [
            &a.po_box, &a.extended_address, &a.street_address, &a.locality, &a.region, &a.postal_code, &a.country_name,
        ] {
            s.iter().for_each(&mut *f);
        }
    }
    for p in &c.timezone {
        match p {
            TimeZoneProperty::Text(p) => text(p, f),
            TimeZoneProperty::Uri(p) => uri(p, f),
            TimeZoneProperty::UtcOffset(p) => base!(p),
        }
    }
    for p in &c.extensions {
        base!(p);
        f(&p.name);
        match &p.value {
            AnyProperty::Text(s) => f(s),
            #[cfg(not(feature = "full"))]
            AnyProperty::Language(s) => f(s),
            _ => {}
        }
    }
}
