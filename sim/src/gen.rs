//! Generator of cards: anything that vCard text can express.
use crate::shm::{chance, draw, WORK};
use vcard4::helper;
use vcard4::parameter::*;
use vcard4::property::*;
use vcard4::time::{Date as TDate, Month, OffsetDateTime, PrimitiveDateTime, Time, UtcOffset};
use vcard4::{Date, DateTime, Uri, Vcard};

fn n(k: u32) -> u32 {
    draw(WORK, k)
}

fn one_in(k: u32) -> bool {
    chance(WORK, 1, k)
}

fn pick<'a, T: ?Sized>(list: &[&'a T]) -> &'a T {
    list[n(list.len() as u32) as usize]
}

/// A few, and now and then many.
fn few(k: u32) -> u32 {
    if one_in(24) {
        8 + n(32)
    } else {
        1 + n(k)
    }
}

/// What this run is made of. Drawn once so that runs differ in kind.
#[derive(Clone, Debug)]
pub struct Cfg {
    /// Property kinds in use (bit set)
    kinds: u64,
    /// Text styles in use (bit set)
    styles: u32,
    /// Most properties per card
    size: u32,
    /// 1 in `params` properties has parameters, 0 for none
    params: u32,
    groups: u32,
    /// Mark private text with the needle
    pub secret: bool,
    /// Longest text
    long: u32,
    /// Parameters that every property has, 0 to draw them (bit set)
    only: u32,
}

/// Kinds of properties and parameters that share little code.
pub const FAMILIES: u32 = 35;

pub const KINDS: u32 = 37;
const STYLES: u32 = 8;

impl Cfg {
    pub fn draw() -> Cfg {
        let kinds = match n(4) {
            0 => !0,
            1 => {
                let mut k = 0u64;
                for _ in 0..1 + n(5) {
                    k |= 1 << n(KINDS);
                }
                k
            }
            _ => {
                let mut k = 0u64;
                for i in 0..KINDS {
                    k |= (n(2) as u64) << i;
                }
                k | 1
            }
        };
        let mut styles = 1;
        for i in 1..STYLES {
            styles |= n(2) << i;
        }
        Cfg {
            kinds,
            styles,
            size: match n(48) {
                47 => 160,
                k => [3, 1, 2, 6, 12, 25][k as usize % 6],
            },
            params: [0, 1, 2, 4][n(4) as usize],
            groups: [0, 1, 3, 6][n(4) as usize],
            secret: false,
            long: match n(40) {
                0..=30 => 300,
                31..=38 => 5000,
                _ => 70_000,
            },
            only: 0,
        }
    }

    /// Cards small enough to look at every byte position.
    pub fn small(mut self) -> Cfg {
        self.long = self.long.min(120);
        self.size = self.size.min(4);
        self
    }

    fn style(&self) -> u32 {
        let s = n(STYLES);
        if self.styles >> s & 1 == 1 {
            s
        } else {
            0
        }
    }

    fn mark(&self, s: &mut String) {
        if self.secret && !s.contains("qZ7") {
            let mut at = n(s.len() as u32 + 1) as usize;
            while !s.is_char_boundary(at) {
                at -= 1;
            }
            s.insert_str(at, "qZ7");
        }
    }

    /// Any text that can be written as a text value.
    pub fn text(&self) -> String {
        let mut s = String::new();
        match self.style() {
            0 => s.push_str(pick(&["a", "John Doe", "Jane", "x y", "", "0", "Work"])),
            1 => {
                for _ in 0..1 + n(8) {
                    s.push_str(pick(&["\\", ",", ";", ":", "\"", "'", "\n", "\t", " ", "a", "n", "N", "=", "."]));
                }
            }
            2 => {
                for _ in 0..1 + n(30) {
                    s.push_str(pick(MULTI));
                }
            }
            3 => {
                // Something special around the place where lines are folded
                let base = [55, 70, 125, 145, 200][n(5) as usize];
                for _ in 0..base + n(24) {
                    s.push('a');
                }
                for _ in 0..1 + n(6) {
                    s.push_str(pick(&["\\", "\n", ",", ";", " ", "\t", "é", "日", "👩‍👩‍👧", "e\u{301}", "b"]));
                }
                if one_in(2) {
                    s.push_str("tail");
                }
            }
            4 => {
                for _ in 0..1 + n(3) {
                    s.push_str(pick(&[
                        "BEGIN:VCARD", "END:VCARD", "VERSION:4.0", "VERSION:3.0", "VERSION", "FN:x", "X-A:b", "item1.FN", "TZ",
                        "GEO", "TYPE=home", "\\n", "\\N", "\\,", "\\;", "\\\\", "\\\\n", "\n ", "\nFN:y", "\n\n", " ", "\t", "\nEND:VCARD\n",
                        ";VALUE=text:", "KIND:group", "x-", "LABEL", "20200101T000000Z", "=20", "&#10;", "\\:", "http://a.b/c",
                    ]));
                }
            }
            5 => {
                let len = 1 + n(self.long);
                let unit: &[&str] = match n(4) {
                    0 => &["a"],
                    1 => &["ab ", "c, ", "d; ", "\n", "\\"],
                    2 => MULTI,
                    _ => &["Zürich ", "日本語", "x"],
                };
                let mut i = 0;
                while s.len() < len as usize {
                    s.push_str(unit[i % unit.len()]);
                    i += 1 + (s.len() % 3 == 0) as usize;
                }
            }
            6 => {
                s.push_str(pick(&[" ", "\t", "  ", " a", "a ", " \n ", "\n", "\t\t"]));
                if one_in(2) {
                    s.push_str(pick(&["b", " ", "\t", "\n"]));
                }
            }
            _ => {
                for _ in 0..n(60) {
                    // Any printable ASCII character
                    s.push((0x20 + n(0x5f)) as u8 as char);
                }
            }
        }
        self.mark(&mut s);
        s
    }

    /// Text for a part that is left out when empty.
    fn part(&self) -> Option<String> {
        if !one_in(2) {
            return None;
        }
        let mut s = self.text();
        if s.is_empty() {
            s.push('p');
        }
        Some(s)
    }

    /// Text that fits in a parameter value.
    pub fn param_text(&self) -> String {
        let mut s: String = self.text().chars().filter(|c| *c != '"').collect();
        if s.len() > 300 && !one_in(8) {
            let mut at = 40;
            while !s.is_char_boundary(at) {
                at += 1;
            }
            s.truncate(at);
            self.mark(&mut s);
        }
        s
    }

    /// Text for an element of a parameter that is a list.
    fn item_text(&self) -> String {
        self.param_text().replace(',', "")
    }

    fn word(&self) -> String {
        let mut s = String::new();
        for _ in 0..1 + n(6) {
            s.push(b"aZ09-bXq"[n(8) as usize] as char);
        }
        if one_in(12) {
            for _ in 0..70 + n(12) {
                s.push('g');
            }
        }
        if one_in(6) {
            s = pick(&["item1", "TZ", "GEO", "FN", "X-A", "END", "BEGIN", "VERSION", "-", "0", "x-"]).to_string();
        }
        self.mark(&mut s);
        s
    }

    fn x_name(&self) -> String {
        if one_in(3) {
            let mut s = pick(&["X-ABDATE", "x-foo", "X-PHONETIC-FIRST-NAME", "X-1", "X--", "x-TZ", "X-FN"]).to_string();
            if self.secret {
                s.push_str("qZ7");
            }
            return s;
        }
        format!("{}{}", pick(&["X-", "x-"]), self.word())
    }

    fn group(&self) -> Option<String> {
        if self.groups > 0 && one_in(self.groups) {
            Some(self.word())
        } else {
            None
        }
    }

    /// Parameters that are allowed for a property.
    fn params(&self, p: For, value: Option<ValueType>) -> Option<Parameters> {
        let mut out = Parameters::default();
        out.value = value;
        if self.only > 0 || self.params > 0 && one_in(self.params) {
            let set = if self.only > 0 { self.only } else { n(1 << 14) };
            let on = |i: u32| set >> i & 1 == 1 && (set % 3 != 1 || self.only > 0);
            if on(0) {
                out.language = Some(self.language_param());
            }
            if on(1) && out.value.is_none() && p.any_value {
                out.value = Some(value_type());
            }
            if on(2) {
                out.pref = Some(1 + n(100) as u8);
            }
            if on(3) {
                out.alt_id = Some(self.param_text());
            }
            if on(4) && p.pid {
                out.pid = Some(many(few(3), pid));
            }
            if on(5) && p.types {
                out.types = Some(many(few(4), || self.type_param()));
            }
            if on(6) {
                out.media_type = Some(self.media_type());
            }
            if on(7) {
                out.calscale = Some(self.param_text());
            }
            if on(8) {
                out.sort_as = Some(many(few(3), || self.item_text()));
            }
            if on(9) {
                out.geo = Some(uri());
            }
            if on(10) {
                out.timezone = Some(match n(3) {
                    0 => TimeZoneParameter::Text(self.tz_text()),
                    1 => TimeZoneParameter::Uri(uri()),
                    _ => TimeZoneParameter::UtcOffset(offset()),
                });
            }
            if on(11) && p.label {
                out.label = Some(self.param_text());
            }
            if on(12) {
                out.extensions = Some(
                    (0..few(3))
                        .map(|_| {
                            let name = if one_in(6) { "ENCODING".to_string() } else { self.x_name() };
                            (name, (0..few(3)).map(|_| self.item_text()).collect())
                        })
                        .collect(),
                );
            }
        }
        // Empty parameters have no text
        (out != Parameters::default()).then_some(out)
    }

    #[cfg(not(feature = "full"))]
    fn language_param(&self) -> String {
        if one_in(2) || self.secret {
            self.param_text()
        } else {
            "en".to_string()
        }
    }

    #[cfg(feature = "full")]
    fn language_param<T: std::str::FromStr>(&self) -> T
    where
        T::Err: std::fmt::Debug,
    {
        tag().parse().unwrap()
    }

    #[cfg(not(feature = "full"))]
    fn media_type(&self) -> String {
        if one_in(2) || self.secret {
            self.param_text()
        } else {
            "text/plain".to_string()
        }
    }

    #[cfg(feature = "full")]
    fn media_type<T: std::str::FromStr>(&self) -> T
    where
        T::Err: std::fmt::Debug,
    {
        pick(&["text/plain", "image/svg+xml", "text/html;charset=utf-8", "application/x-y", "text/plain; a=b; c=d", "audio/*"])
            .parse()
            .unwrap()
    }

    fn tz_text(&self) -> String {
        let s = self.param_text().replace(':', "");
        // Must not look like an offset
        format!("{}{}", pick(&["Raleigh/", "UTC ", "z"]), s)
    }

    pub fn delivery(&self) -> DeliveryAddress {
        DeliveryAddress {
            po_box: self.part(),
            extended_address: self.part(),
            street_address: self.part(),
            locality: self.part(),
            region: self.part(),
            postal_code: self.part(),
            country_name: self.part(),
        }
    }

    pub fn gender(&self) -> Gender {
        Gender {
            sex: match n(6) {
                0 => Sex::Male,
                1 => Sex::Female,
                2 => Sex::Other,
                3 => Sex::NotApplicable,
                4 => Sex::Unknown,
                _ => Sex::None,
            },
            identity: one_in(2).then(|| self.text()),
        }
    }

    pub fn type_param(&self) -> TypeParameter {
        match n(5) {
            0 => TypeParameter::Home,
            1 => TypeParameter::Work,
            2 => TypeParameter::Telephone(match n(7) {
                0 => TelephoneType::Text,
                1 => TelephoneType::Voice,
                2 => TelephoneType::Fax,
                3 => TelephoneType::Cell,
                4 => TelephoneType::Video,
                5 => TelephoneType::Pager,
                _ => TelephoneType::TextPhone,
            }),
            3 => TypeParameter::Related(match n(20) {
                0 => RelatedType::Contact,
                1 => RelatedType::Acquaintance,
                2 => RelatedType::Friend,
                3 => RelatedType::Met,
                4 => RelatedType::CoWorker,
                5 => RelatedType::Colleague,
                6 => RelatedType::CoResident,
                7 => RelatedType::Neighbor,
                8 => RelatedType::Child,
                9 => RelatedType::Parent,
                10 => RelatedType::Sibling,
                11 => RelatedType::Spouse,
                12 => RelatedType::Kin,
                13 => RelatedType::Muse,
                14 => RelatedType::Crush,
                15 => RelatedType::Date,
                16 => RelatedType::Sweetheart,
                17 => RelatedType::Me,
                18 => RelatedType::Agent,
                _ => RelatedType::Emergency,
            }),
            _ => {
                let mut s = if one_in(2) { pick(&["JPEG", "b", "pref", "home", "internet", "", "X-foo", "x-foo", "X-", "x-X-foo", "fox-bar", "aX-b", "\u{212a}in", "co-wor\u{212a}er", "mu\u{17f}e"]).to_string() } else { self.item_text() };
                self.mark(&mut s);
                TypeParameter::Extension(s)
            }
        }
    }

    fn text_prop(&self, p: For) -> TextProperty {
        TextProperty { group: self.group(), value: self.text(), parameters: self.params(p, None) }
    }

    fn uri_prop(&self, p: For) -> UriProperty {
        UriProperty { group: self.group(), value: uri(), parameters: self.params(p, None) }
    }

    fn text_or_uri(&self, p: For) -> TextOrUriProperty {
        if one_in(2) {
            let value = one_in(2).then_some(ValueType::Uri);
            TextOrUriProperty::Uri(UriProperty {
                group: self.group(),
                value: uri(),
                parameters: self.params(p.fixed(), value),
            })
        } else {
            let text = self.text();
            // Only text that starts with a letter can look like a scheme
            let like = text.contains(':') && text.starts_with(|c: char| c.is_ascii_alphabetic());
            let value = (like || one_in(3)).then_some(ValueType::Text);
            TextOrUriProperty::Text(TextProperty {
                group: self.group(),
                value: text,
                parameters: self.params(p.fixed(), value),
            })
        }
    }

    fn list(&self) -> Vec<String> {
        let k = few(5);
        many(k, || self.text())
    }

    fn date_or_text(&self) -> DateTimeOrTextProperty {
        if one_in(3) {
            DateTimeOrTextProperty::Text(TextProperty {
                group: self.group(),
                value: self.text(),
                parameters: self.params(PLAIN.fixed(), Some(ValueType::Text)),
            })
        } else {
            let value = one_in(3).then_some(ValueType::DateAndOrTime);
            DateTimeOrTextProperty::DateTime(DateAndOrTimeProperty {
                group: self.group(),
                value: many(few(2), date_and_or_time),
                parameters: self.params(PLAIN.fixed(), value),
            })
        }
    }

    fn extension(&self) -> ExtensionProperty {
        self.extension_of(n(14))
    }

    fn extension_of(&self, kind: u32) -> ExtensionProperty {
        let k = few(3);
        let mut t = None;
        let value = match kind {
            0 | 1 => AnyProperty::Text(self.text()),
            2 => {
                t = Some(ValueType::Text);
                AnyProperty::Text(self.text())
            }
            3 => {
                t = Some(ValueType::Integer);
                AnyProperty::Integer(many(k, || integer()))
            }
            4 => {
                t = Some(ValueType::Float);
                AnyProperty::Float(many(k, || float()))
            }
            5 => {
                t = Some(ValueType::Boolean);
                AnyProperty::Boolean(one_in(2))
            }
            6 => {
                t = Some(ValueType::Date);
                AnyProperty::Date(many(k, || Date::from(date())))
            }
            7 => {
                t = Some(ValueType::DateTime);
                AnyProperty::DateTime(many(k, || date_time()))
            }
            8 => {
                t = Some(ValueType::Time);
                AnyProperty::Time(many(k, || (time(), offset())))
            }
            9 => {
                t = Some(ValueType::DateAndOrTime);
                AnyProperty::DateAndOrTime(many(k, || date_and_or_time()))
            }
            10 => {
                t = Some(ValueType::Timestamp);
                AnyProperty::Timestamp(many(k, || date_time()))
            }
            11 => {
                t = Some(ValueType::LanguageTag);
                AnyProperty::Language(self.language())
            }
            12 => {
                t = Some(ValueType::UtcOffset);
                AnyProperty::UtcOffset(offset())
            }
            _ => {
                t = Some(ValueType::Uri);
                AnyProperty::Uri(uri())
            }
        };
        ExtensionProperty {
            name: self.x_name(),
            group: self.group(),
            value,
            parameters: self.params(X.fixed(), t),
        }
    }

    #[cfg(not(feature = "full"))]
    fn language(&self) -> String {
        if one_in(3) || self.secret {
            self.text()
        } else {
            tag().to_string()
        }
    }

    #[cfg(feature = "full")]
    fn language<T: std::str::FromStr>(&self) -> T
    where
        T::Err: std::fmt::Debug,
    {
        tag().parse().unwrap()
    }

    /// A parameter and a value that look like the frame of a card together.
    fn frame(&self) -> TextProperty {
        let word = pick(&["END", "BEGIN", "VERSION", "end", "Begin", "vErSion", "x END", "-BEGIN", "a;END", "b:VERSION", "FN"]).to_string();
        let value = pick(&["VCARD", "vcard", "VCARDS", "4.0", "3.0", "4.0.1", "VCAR", "VCARD\n"]).to_string();
        let mut p = Parameters::default();
        match n(5) {
            0 => p.alt_id = Some(word),
            1 => p.calscale = Some(word),
            2 => p.sort_as = Some((0..n(2)).map(|_| "a".to_string()).chain([word]).collect()),
            3 => p.types = Some(vec![TypeParameter::Home, TypeParameter::Extension(word)]),
            _ => p.extensions = Some(vec![("X-P".into(), vec![word])]),
        }
        TextProperty { group: self.group(), value, parameters: Some(p) }
    }

    /// Add one property of the given kind.
    fn push(&self, c: &mut Vcard, kind: u32) {
        if !self.secret && one_in(60) {
            let p = self.frame();
            match n(3) {
                0 => c.note.push(p),
                1 => c.formatted_name.push(p),
                _ => c.extensions.push(ExtensionProperty {
                    name: "X-A".into(),
                    group: p.group.clone(),
                    value: AnyProperty::Text(p.value.clone()),
                    parameters: p.parameters.clone(),
                }),
            }
            return;
        }
        match kind {
            0 => c.note.push(self.text_prop(TYPED)),
            1 => c.formatted_name.push(self.text_prop(TYPED)),
            2 => c.nickname.push(self.text_prop(TYPED)),
            3 => c.extensions.push(self.extension()),
            4 => c.tel.push(self.text_or_uri(TYPED)),
            5 => c.email.push(self.text_prop(TYPED)),
            6 => {
                let value = self.delivery();
                c.address.push(AddressProperty {
                    group: self.group(),
                    value,
                    parameters: self.params(For { label: true, ..TYPED }, None),
                });
            }
            7 => {
                c.name = Some(TextListProperty {
                    group: self.group(),
                    value: self.list(),
                    parameters: self.params(PLAIN, None),
                    delimiter: TextListDelimiter::SemiColon,
                })
            }
            8 => c.org.push(TextListProperty {
                group: self.group(),
                value: self.list(),
                parameters: self.params(TYPED, None),
                delimiter: TextListDelimiter::SemiColon,
            }),
            9 => c.categories.push(TextListProperty {
                group: self.group(),
                value: self.list(),
                parameters: self.params(TYPED, None),
                delimiter: TextListDelimiter::Comma,
            }),
            10 => c.bday = Some(self.date_or_text()),
            11 => c.anniversary = Some(self.date_or_text()),
            12 => {
                c.rev = Some(DateTimeProperty {
                    group: self.group(),
                    value: date_time(),
                    parameters: self.params(PLAIN, None),
                })
            }
            13 => {
                c.gender = Some(GenderProperty {
                    group: self.group(),
                    value: self.gender(),
                    parameters: self.params(PLAIN, None),
                })
            }
            14 => {
                c.kind = Some(KindProperty {
                    group: self.group(),
                    value: match n(4) {
                        0 => Kind::Individual,
                        1 => Kind::Group,
                        2 => Kind::Org,
                        _ => Kind::Location,
                    },
                    parameters: self.params(PLAIN, None),
                })
            }
            15 => c.timezone.push(match n(3) {
                0 => TimeZoneProperty::Text(TextProperty {
                    group: self.group(),
                    value: self.text(),
                    parameters: {
                        let t = one_in(2).then_some(ValueType::Text);
                        self.params(TYPED.fixed(), t)
                    },
                }),
                1 => TimeZoneProperty::Uri(UriProperty {
                    group: self.group(),
                    value: uri(),
                    parameters: self.params(TYPED.fixed(), Some(ValueType::Uri)),
                }),
                _ => TimeZoneProperty::UtcOffset(UtcOffsetProperty {
                    group: self.group(),
                    value: offset(),
                    parameters: self.params(TYPED.fixed(), Some(ValueType::UtcOffset)),
                }),
            }),
            16 => c.geo.push(self.uri_prop(TYPED)),
            17 => c.photo.push(self.photo()),
            18 => c.related.push(self.text_or_uri(TYPED)),
            19 => c.key.push(self.text_or_uri(TYPED)),
            20 => c.uid = Some(self.text_or_uri(PLAIN)),
            21 => c.client_pid_map.push(ClientPidMapProperty {
                group: self.group(),
                value: ClientPidMap {
                    source: match n(4) {
                        0 => u64::MAX,
                        k => k as u64,
                    },
                    uri: uri(),
                },
                parameters: self.params(For { pid: false, ..PLAIN }, None),
            }),
            22 => c.lang.push(LanguageProperty {
                group: self.group(),
                value: self.language(),
                parameters: self.params(TYPED, None),
            }),
            23 => c.source.push(self.uri_prop(PLAIN)),
            24 => c.xml.push(self.text_prop(PLAIN)),
            25 => c.url.push(self.uri_prop(TYPED)),
            26 => c.impp.push(self.uri_prop(TYPED)),
            27 => c.title.push(self.text_prop(TYPED)),
            28 => c.role.push(self.text_prop(TYPED)),
            29 => c.logo.push(self.uri_prop(TYPED)),
            30 => {
                c.kind = Some(KindProperty { group: None, value: Kind::Group, parameters: None });
                c.member.push(self.uri_prop(PLAIN));
            }
            31 => c.prod_id = Some(self.text_prop(PLAIN)),
            32 => c.sound.push(self.uri_prop(TYPED)),
            33 => c.fburl.push(self.uri_prop(TYPED)),
            34 => c.cal_adr_uri.push(self.uri_prop(TYPED)),
            35 => c.cal_uri.push(self.uri_prop(TYPED)),
            _ => c.extensions.push(self.extension()),
        }
        if !c.member.is_empty() && c.kind.as_ref().is_none_or(|k| k.value != Kind::Group) {
            c.kind = Some(KindProperty { group: None, value: Kind::Group, parameters: None });
        }
    }

    fn photo(&self) -> TextOrUriProperty {
        if one_in(4) {
            // As the contacts application of macOS embeds photos
            let mut b64 = String::new();
            for _ in 0..1 + n(200) {
                b64.push_str(pick(&["/9j/", "4AAQ", "SkZJ", "Rg==", "AB+/"]));
            }
            let parameters = Parameters {
                language: None,
                value: None,
                pref: None,
                alt_id: None,
                pid: None,
                types: Some(vec![TypeParameter::Extension("JPEG".into())]),
                media_type: None,
                calscale: None,
                sort_as: None,
                geo: None,
                timezone: None,
                label: None,
                extensions: Some(vec![("ENCODING".into(), vec!["b".into()])]),
            };
            return TextOrUriProperty::Text(TextProperty { group: None, value: b64, parameters: Some(parameters) });
        }
        self.text_or_uri(TYPED)
    }

    /// A card that strict reading accepts.
    pub fn card(&self) -> Vcard {
        let mut c = Vcard::default();
        let k = n(self.size + 1);
        for _ in 0..k {
            let kind = n(KINDS);
            let kind = if self.kinds >> kind & 1 == 1 { kind } else { (self.kinds.trailing_zeros()).min(KINDS - 1) };
            self.push(&mut c, kind);
        }
        if c.formatted_name.is_empty() {
            c.formatted_name.push(if one_in(3) { self.text_prop(TYPED) } else { self.text().into() });
        }
        c
    }

    /// A card with one property next to its name.
    pub fn tiny(&self, kind: u32) -> Vcard {
        let mut c = Vcard::default();
        self.push(&mut c, kind);
        if c.formatted_name.is_empty() {
            c.formatted_name.push(pick(&["a", "b;c", "d\\,e"]).to_string().into());
        }
        c
    }

    /// A card with some of one thing.
    pub fn focus(&self, family: u32) -> Vcard {
        let mut cfg = self.clone();
        cfg.params = 0;
        cfg.groups = 0;
        let mut c = Vcard::default();
        for _ in 0..1 + n(3) {
            match family {
                // Parameters, the labels of addresses among them
                k @ 0..=12 => {
                    cfg.only = 1 << k;
                    cfg.push(&mut c, if k == 11 { 6 } else { k % 2 * 4 })
                }
                // Values of extensions
                k @ 13..=23 => c.extensions.push(cfg.extension_of(k - 10)),
                24 => {
                    cfg.groups = 1;
                    cfg.push(&mut c, 0)
                }
                k => cfg.push(&mut c, [0, 6, 7, 9, 10, 12, 13, 15, 17, 21][k as usize - 25]),
            }
        }
        if c.formatted_name.is_empty() {
            c.formatted_name.push("a".to_string().into());
        }
        c
    }

    pub fn cards(&self, most: u32) -> Vec<Vcard> {
        (0..1 + n(most)).map(|_| self.card()).collect()
    }

    /// Change a card in place as an application would.
    pub fn edit(&self, c: &mut Vcard) {
        for _ in 0..1 + n(3) {
            match n(5) {
                0 => {
                    let kind = n(KINDS);
                    self.push(c, kind);
                }
                1 => {
                    c.note.clear();
                }
                2 => {
                    if let Some(p) = c.formatted_name.first_mut() {
                        p.value = self.text();
                    }
                }
                3 => {
                    c.tel.pop();
                    c.extensions.pop();
                }
                _ => {
                    for p in &mut c.email {
                        p.parameters = None;
                        p.group = self.group();
                    }
                }
            }
        }
    }
}

/// What a property allows.
#[derive(Clone, Copy)]
struct For {
    types: bool,
    pid: bool,
    label: bool,
    /// The VALUE parameter does not decide how the value is read
    any_value: bool,
}

const PLAIN: For = For { types: false, pid: true, label: false, any_value: true };
const TYPED: For = For { types: true, ..PLAIN };
const X: For = TYPED;

impl For {
    fn fixed(self) -> For {
        For { any_value: false, ..self }
    }
}

pub const MULTI: &[&str] = &[
    "é", "ß", "日", "本", "語", "👍", "👩‍👩‍👧‍👦", "🇨🇭", "e\u{301}", "\u{200b}", "\u{feff}", "\u{2028}", "\u{85}", "ا", "\u{10ffff}", "a", " ",
    "ก็", "각", "\u{a0}", "\u{202e}", "नि", "ำ", "\u{600}1", "क्ष", "தொ",
];

fn value_type() -> ValueType {
    match n(12) {
        0 => ValueType::Text,
        1 => ValueType::Uri,
        2 => ValueType::Date,
        3 => ValueType::Time,
        4 => ValueType::DateTime,
        5 => ValueType::DateAndOrTime,
        6 => ValueType::Timestamp,
        7 => ValueType::Boolean,
        8 => ValueType::Integer,
        9 => ValueType::Float,
        10 => ValueType::UtcOffset,
        _ => ValueType::LanguageTag,
    }
}

fn pid() -> Pid {
    let num = || match n(4) {
        0 => 1,
        1 => 0,
        2 => u64::MAX,
        _ => n(1000) as u64,
    };
    let local = num();
    Pid::new(local, if one_in(2) { Some(num()) } else { None })
}

/// Several values, now and then the same again.
pub fn many<T: Clone>(k: u32, mut f: impl FnMut() -> T) -> Vec<T> {
    let mut v: Vec<T> = Vec::new();
    for _ in 0..k {
        match v.last() {
            Some(l) if one_in(4) => v.push(l.clone()),
            _ => v.push(f()),
        }
    }
    v
}

pub fn tag() -> &'static str {
    pick(&["en", "fr", "zh-Hant-TW", "en-US", "de-CH-1996", "sl-rozaj-biske", "x-private", "i-klingon", "en-a-bbb-x-a-ccc"])
}

pub fn uri_text() -> String {
    let mut s = pick(&[
        "http://example.com/",
        "urn:uuid:4fbe8971-0bc3-424c-9c26-36c3e1eff6b1",
        "mailto:jane@example.com",
        "tel:+1-555-555-5555;ext=555",
        "geo:37.386013,-122.082932",
        "data:image/png;base64,iVBORw0KGgo=",
        "https://user:pw@[2001:db8::1]:8080/p;x=1,2?q=1#frag",
        "ldap://host/o=Babsco,c=US?cn?one",
        "xmpp:alice@example.com",
        "file:///a/b",
        "http://EXAMPLE.com/%7Efoo",
        "a:b",
        "http://example.com",
        "http://10.0.0.1:80/",
        "x-y+z.1://h/",
    ])
    .to_string();
    if one_in(3) && !s.ends_with("com") {
        let k = if one_in(4) { 300 } else { 20 };
        for _ in 0..n(k) {
            s.push_str(pick(&["a", "b", "-", ".", "_", "~", "!", "$", "&", "'", "(", ")", "*", "+", ",", ";", "=", ":", "@", "%41", "/", "%2C"]));
        }
    }
    s
}

pub fn uri() -> Uri {
    uri_text().parse().unwrap_or_else(|_| "urn:x".parse().expect("a URI"))
}

pub fn offset() -> UtcOffset {
    match n(4) {
        0 => UtcOffset::UTC,
        1 => UtcOffset::from_hms(n(24) as i8, 0, 0).unwrap(),
        _ => {
            let (h, m) = (n(24) as i8, if one_in(2) { [0, 9, 10, 30, 59][n(5) as usize] } else { n(60) as i8 });
            let sign = if one_in(2) { -1 } else { 1 };
            UtcOffset::from_hms(h * sign, m * sign, 0).unwrap()
        }
    }
}

pub fn date() -> TDate {
    let y = match n(5) {
        0 => 2020,
        1 => 1900 + n(200) as i32,
        2 => n(10_000) as i32,
        3 => 0,
        _ => 9999,
    };
    let m = Month::try_from(1 + if one_in(4) { 0 } else { n(12) as u8 }).unwrap();
    let d = 1 + if one_in(4) { 0 } else { n(m.length(y) as u32) as u8 };
    TDate::from_calendar_date(y, m, d).unwrap()
}

pub fn time() -> Time {
    match n(6) {
        0 => Time::MIDNIGHT,
        1 => Time::from_hms(23, 59, 59).unwrap(),
        2 => Time::from_hms(0, n(60) as u8, n(2) as u8 * n(60) as u8).unwrap(),
        3 => Time::from_hms(n(24) as u8, n(2) as u8 * n(60) as u8, 0).unwrap(),
        _ => Time::from_hms(n(24) as u8, n(60) as u8, n(60) as u8).unwrap(),
    }
}

pub fn date_time() -> DateTime {
    let d = date();
    // An offset must not move it out of the years that can be written
    let d = d.replace_year(d.year().clamp(1, 9998)).unwrap_or(TDate::from_calendar_date(2020, Month::May, 1).unwrap());
    let t: OffsetDateTime = PrimitiveDateTime::new(d, time()).assume_offset(offset());
    t.into()
}

pub fn date_and_or_time() -> DateAndOrTime {
    match n(3) {
        0 => DateAndOrTime::Date(date().into()),
        1 => DateAndOrTime::DateTime(date_time()),
        _ => DateAndOrTime::Time((time(), offset())),
    }
}

pub fn integer() -> i64 {
    match n(4) {
        0 => 0,
        1 => i64::MIN,
        2 => i64::MAX,
        _ => n(2_000_000) as i64 - 1_000_000,
    }
}

pub fn float() -> f64 {
    match n(8) {
        0 => 0.0,
        1 => -1.5,
        2 => 1e300,
        3 => 5e-324,
        4 => f64::MAX,
        5 => 0.1 + 0.2,
        6 => -0.0,
        _ => (n(1_000_000) as f64 - 500_000.0) / 1024.0,
    }
}

/// A value for a public value parser.
pub fn value_text() -> String {
    match n(9) {
        0 => date_form(),
        1 => time_form(),
        2 => format!("{}T{}", date_form(), time_form()),
        3 => offset_form(),
        4 => pick(&["true", "FALSE", "True", "yes", "", "İ"]).to_string(),
        5 => format!("{},{}", integer(), integer()),
        6 => format!("{},{}", float(), pick(&["1e5", "nan", "inf", "-.5", "+1", "0x1", "1_0"])),
        7 => format!("T{}", time_form()),
        _ => uri_text(),
    }
}

fn digits(k: u32) -> String {
    (0..k).map(|_| (b'0' + n(10) as u8) as char).collect()
}

/// Dates as written by anybody.
pub fn date_form() -> String {
    match n(13) {
        0 => "20200131".into(),
        1 => "2020-01-31".into(),
        2 => "2020-01".into(),
        3 => "2020".into(),
        4 => "--0131".into(),
        5 => "---31".into(),
        6 => "--01".into(),
        7 => "2020-W05-5".into(),
        8 => "2020-031".into(),
        9 => digits(8),
        10 => format!("{}-{}-{}", digits(4), digits(2), digits(2)),
        11 => format!("+00{}", digits(8)),
        _ => {
            let d = date();
            format!("{:04}{:02}{:02}", d.year(), d.month() as u8, d.day())
        }
    }
}

/// Times as written by anybody.
pub fn time_form() -> String {
    let mut s = match n(10) {
        0 => "102200".into(),
        1 => "10:22:00".into(),
        2 => "1022".into(),
        3 => "10".into(),
        4 => "-2200".into(),
        5 => "--00".into(),
        6 => "102200.5".into(),
        7 => "24".into(),
        8 => digits(6),
        _ => {
            let t = time();
            format!("{:02}{:02}{:02}", t.hour(), t.minute(), t.second())
        }
    };
    if one_in(2) {
        s.push_str(&offset_form());
    }
    s
}

pub fn offset_form() -> String {
    match n(7) {
        0 => "Z".into(),
        1 => "+01".into(),
        2 => "-0800".into(),
        3 => "+01:30".into(),
        4 => "-0030".into(),
        5 => format!("{}{}", pick(&["+", "-"]), digits(4)),
        _ => format!("{}{}", pick(&["+", "-"]), digits(2)),
    }
}

/// All that the public value parsers make of a text.
pub fn value_results(s: &str) -> String {
    use std::fmt::Write;
    let mut out = String::new();
    macro_rules! each {
        ($($f:expr),*) => { $( match $f(s) {
            Ok(v) => { let _ = write!(out, "{:?};", v); }
            Err(_) => out.push_str("-;"),
        } )* };
    }
    each!(
        helper::parse_date, helper::parse_date_list, helper::parse_time, helper::parse_time_list, helper::parse_date_time,
        helper::parse_date_time_list, helper::parse_timestamp, helper::parse_timestamp_list, helper::parse_utc_offset,
        helper::parse_date_and_or_time_list, helper::parse_boolean, helper::parse_integer_list, helper::parse_float_list,
        str::parse::<Uri>, str::parse::<Date>, str::parse::<DateTime>, str::parse::<DateAndOrTime>, str::parse::<Gender>,
        str::parse::<Sex>, str::parse::<Kind>, str::parse::<DeliveryAddress>, str::parse::<ClientPidMap>,
        str::parse::<UtcOffsetProperty>, str::parse::<TypeParameter>, str::parse::<Pid>, str::parse::<RelatedType>,
        str::parse::<TelephoneType>, str::parse::<ValueType>, UriProperty::try_from, Vcard::try_from
    );
    out
}
