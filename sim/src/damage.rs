//! What storage and transport do to text, and text written by others.
use crate::gen::{self, Cfg};
use crate::shm::{chance, count, draw, FAULT, WORK};
use crate::*;

fn f(k: usize) -> usize {
    draw(FAULT, k.min(u32::MAX as usize) as u32) as usize
}

fn pickb<'a>(list: &[&'a str]) -> &'a str {
    list[f(list.len())]
}

/// Fragments that mean something to a parser.
pub const FRAGMENTS: &[&str] = &[
    "BEGIN:VCARD", "END:VCARD", "VERSION:4.0", "VERSION:3.0", "begin:vcard", "\r\n", "\n", "\r", "\n ", "\r\n\t", ":", ";", "=", "\"",
    "\\", "\\n", "\\,", ",", ".", "\0", "\t", " ", "FN", "N:", "X-A", "x-b=", "TZ", "GEO", "TYPE=", "VALUE=uri", "VALUE=text:", "PREF=0",
    "PREF=101", "PID=1.1", "LABEL=", "KIND:group", "MEMBER:", "BDAY:", "--0", "---", "T", "Z", "+", "-", "é", "日", "👍", "\u{fffd}", "\u{7f}",
    "LANGUAGE=", "ALTID=\"", "SORT-AS=\"a,b\"", "CHARSET=UTF-8", "ENCODING=b", "MEDIATYPE=", "g.", "-.", "END:VCARDX", "BEGIN:VCARD:",
    "REV:20200101T000000Z", "UID:a", "ADR:;;;;;;", "CLIENTPIDMAP:1;a:b", "GENDER:M;x", "9999999999999999999999", "\u{85}", "\u{2028}",
    "\u{feff}", ";ALTID=END:VCARD", ";X-P=version:4.0", ";SORT-AS=BEGIN:VCARD", "TYPE=END",
];

/// Damage a byte string in place.
pub fn damage(d: &mut Vec<u8>, most: u32) {
    for _ in 0..1 + draw(FAULT, most) {
        let len = d.len();
        if len == 0 {
            d.extend_from_slice(pickb(FRAGMENTS).as_bytes());
            continue;
        }
        let at = f(len);
        let span = |limit: usize| {
            let n = [1, 4, 40, 512, usize::MAX][f(5)].min(limit).max(1);
            1 + f(n)
        };
        match f(13) {
            0 => {
                count(D_FLIP);
                d[at] ^= 1 << f(8);
            }
            1 => {
                count(D_REPLACE);
                d[at] = f(256) as u8;
            }
            2 => {
                count(D_TRUNCATE);
                d.truncate(at);
            }
            3 => {
                count(D_LOSS);
                let to = at + span(len - at);
                d.drain(at..to.min(len));
            }
            4 => {
                count(D_ZERO);
                let to = at + span(len - at);
                d[at..to.min(len)].fill(0);
            }
            5 => {
                count(D_DUP);
                let to = (at + span(len - at)).min(len);
                let copy = d[at..to].to_vec();
                let into = if f(2) == 0 { to } else { f(len + 1) };
                if d.len() + copy.len() < 400_000 {
                    d.splice(into..into, copy);
                }
            }
            6 | 7 => {
                count(D_JUNK);
                let s = pickb(FRAGMENTS);
                let to = if f(2) == 0 { at } else { (at + s.len()).min(len) };
                d.splice(at..to, s.bytes());
            }
            8 => {
                count(D_REORDER);
                let (a, b) = (at.min(f(len)), f(len));
                let n = span(len).min(len - a.max(b));
                for i in 0..n {
                    d.swap(a + i, b + i);
                }
            }
            9..=11 => line_damage(d),
            _ => {
                count(D_NEWLINE);
                match f(3) {
                    0 => d.retain(|b| *b != b'\r'),
                    1 => {
                        if let Some(p) = d[at..].iter().position(|b| *b == b'\n') {
                            d.remove(at + p);
                        }
                    }
                    _ => d.insert(at, b'\n'),
                }
            }
        }
    }
}

/// Damage whole lines.
fn line_damage(d: &mut Vec<u8>) {
    let mut lines: Vec<Vec<u8>> = d.split_inclusive(|b| *b == b'\n').map(|l| l.to_vec()).collect();
    let k = lines.len();
    let (a, b) = (f(k), f(k));
    match f(4) {
        0 => {
            count(D_LOSS);
            lines.remove(a);
        }
        1 => {
            count(D_DUP);
            let l = lines[a].clone();
            lines.insert(b, l);
        }
        2 => {
            count(D_REORDER);
            lines.swap(a, b);
        }
        _ => {
            count(D_JUNK);
            let mut l = pickb(FRAGMENTS).as_bytes().to_vec();
            l.extend_from_slice(b"\r\n");
            lines.insert(b, l);
        }
    }
    *d = lines.concat();
}

/// Text as a reader that expects UTF-8 gets it.
pub fn text(d: &[u8]) -> String {
    String::from_utf8_lossy(d).into_owned()
}

/// The logical lines of a text: folded lines joined, line ends removed.
pub fn logical(text: &str) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    for l in text.split_inclusive('\n') {
        let l = l.strip_suffix('\n').map(|l| l.strip_suffix('\r').unwrap_or(l)).unwrap_or(l);
        match l.strip_prefix([' ', '\t']) {
            Some(rest) if !out.is_empty() => out.last_mut().unwrap().push_str(rest),
            _ => out.push(l.to_string()),
        }
    }
    out
}

/// Lines with their folds and line ends.
pub fn blocks(text: &str) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    for l in text.split_inclusive('\n') {
        match out.last_mut() {
            Some(last) if l.starts_with([' ', '\t']) => last.push_str(l),
            _ => out.push(l.to_string()),
        }
    }
    out
}

/// How a gateway rewrites text.
pub struct Gateway {
    /// Chance per character of a fold, 0 for the usual 75 octets, u32::MAX for none
    fold: u32,
    tabs: bool,
    /// 0 CRLF, 1 LF, 2 both
    ends: u32,
    blanks: bool,
    case: u32,
}

impl Gateway {
    pub fn draw() -> Gateway {
        Gateway {
            fold: [0, u32::MAX, 200, 40, 8, 2, 1][f(7)],
            tabs: f(3) == 2,
            ends: f(3) as u32,
            blanks: f(3) == 2,
            case: f(4) as u32,
        }
    }

    pub fn line_end(&self) -> &'static str {
        if self.ends == 1 {
            "\n"
        } else {
            "\r\n"
        }
    }

    /// Fold one line.
    pub fn fold(&self, line: &str) -> String {
        let mut out = String::new();
        self.fold_line(line, &mut out);
        self.end(&mut out);
        out
    }

    /// Keep the case of names.
    pub fn same_case(self) -> Gateway {
        Gateway { case: 0, ..self }
    }

    fn end(&self, out: &mut String) {
        let lf = match self.ends {
            0 => false,
            1 => true,
            _ => f(2) == 1,
        };
        if lf {
            count(G_LF);
        }
        out.push_str(if lf { "\n" } else { "\r\n" });
    }

    fn recase(&self, s: &str) -> String {
        count(G_CASE);
        match self.case {
            1 => s.to_ascii_lowercase(),
            2 => s.chars().map(|c| if f(2) == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
            _ => s.to_ascii_uppercase(),
        }
    }

    /// Other letter case where case has no meaning.
    fn rename(&self, line: &str) -> String {
        if self.case == 0 || line.is_empty() {
            return line.to_string();
        }
        for frame in ["BEGIN:VCARD", "END:VCARD", "VERSION:4.0", "VERSION:3.0"] {
            if line.eq_ignore_ascii_case(frame) {
                return self.recase(line);
            }
        }
        let mut out = String::new();
        let name_end = line.find([':', ';']).unwrap_or(line.len());
        let (name, mut rest) = line.split_at(name_end);
        // The case of groups and of private names is kept by the reader
        let (group, prop) = match name.find('.') {
            Some(p) => name.split_at(p + 1),
            None => ("", name),
        };
        out.push_str(group);
        if prop.get(..2).is_some_and(|p| p.eq_ignore_ascii_case("x-")) {
            out.push_str(prop);
        } else {
            out.push_str(&self.recase(prop));
        }
        while let Some(r) = rest.strip_prefix(';') {
            let Some(eq) = r.find('=') else { break };
            let (key, value) = r.split_at(eq);
            out.push(';');
            if key.get(..2).is_some_and(|p| p.eq_ignore_ascii_case("x-")) || key.eq_ignore_ascii_case("ENCODING") {
                out.push_str(key);
            } else {
                out.push_str(&self.recase(key));
            }
            // Up to the end of the value, quoted or not
            let mut quoted = false;
            let mut skip = false;
            let mut end = value.len();
            for (i, c) in value.char_indices() {
                match c {
                    _ if skip => skip = false,
                    '\\' => skip = true,
                    '"' => quoted = !quoted,
                    ':' | ';' if !quoted => {
                        end = i;
                        break;
                    }
                    _ => {}
                }
            }
            out.push_str(&value[..end]);
            rest = &value[end..];
        }
        out.push_str(rest);
        out
    }

    fn fold_line(&self, line: &str, out: &mut String) {
        let mut len = 0;
        let mut first = true;
        for c in line.chars() {
            let wrap = match self.fold {
                0 => len + c.len_utf8() > 75,
                u32::MAX => false,
                1 => true,
                k => chance(FAULT, 1, k),
            };
            if wrap && !first {
                count(G_FOLD);
                self.end(out);
                out.push(if self.tabs && f(2) == 1 { '\t' } else { ' ' });
                len = 1;
            }
            first = false;
            out.push(c);
            len += c.len_utf8();
        }
    }

    /// Pass text on.
    pub fn pass(&self, text: &str) -> String {
        let mut out = String::new();
        for line in logical(text) {
            if line.is_empty() {
                if f(2) == 1 {
                    self.end(&mut out);
                }
                continue;
            }
            if self.blanks && line.eq_ignore_ascii_case("BEGIN:VCARD") {
                for _ in 0..f(4) {
                    count(G_BLANK);
                    self.end(&mut out);
                }
            }
            let line = self.rename(&line);
            self.fold_line(&line, &mut out);
            self.end(&mut out);
        }
        if self.blanks && f(2) == 1 {
            self.end(&mut out);
        }
        out
    }
}

fn w(k: u32) -> u32 {
    draw(WORK, k)
}

fn pickw<'a>(list: &[&'a str]) -> &'a str {
    list[w(list.len() as u32) as usize]
}

const NAMES: &[&str] = &[
    "FN", "N", "NICKNAME", "PHOTO", "BDAY", "ANNIVERSARY", "GENDER", "ADR", "TEL", "EMAIL", "IMPP", "LANG", "TITLE", "ROLE", "LOGO", "ORG",
    "MEMBER", "RELATED", "CATEGORIES", "NOTE", "PRODID", "REV", "SOUND", "UID", "CLIENTPIDMAP", "URL", "KEY", "FBURL", "CALADRURI",
    "CALURI", "XML", "SOURCE", "KIND", "TZ", "GEO", "X-FOO", "x-bar", "X-",
];

fn foreign_value(name: &str, cfg: &Cfg) -> String {
    if w(8) == 7 {
        return pickw(FRAGMENTS).replace(['\r', '\n'], "");
    }
    match name {
        "BDAY" | "ANNIVERSARY" | "REV" => match w(6) {
            0 => gen::date_form(),
            1 => format!("{}T{}", gen::date_form(), gen::time_form()),
            2 => format!("T{}", gen::time_form()),
            3 => "20200101T102030Z".into(),
            4 => gen::value_text(),
            _ => format!("{},{}", gen::date_form(), gen::date_form()),
        },
        "SOURCE" | "IMPP" | "LOGO" | "MEMBER" | "SOUND" | "URL" | "FBURL" | "CALADRURI" | "CALURI" | "GEO" => gen::uri_text(),
        "PHOTO" | "TEL" | "RELATED" | "UID" | "KEY" if w(2) == 0 => gen::uri_text(),
        "CLIENTPIDMAP" => format!("{};{}", w(3), gen::uri_text()),
        "GENDER" => format!("{}{}", pickw(&["M", "F", "O", "N", "U", "", "X", "m"]), pickw(&["", ";", ";it's", ";a;b", ";a\\;b"])),
        "KIND" => pickw(&["individual", "group", "org", "location", "GROUP", "x-y", ""]).into(),
        "LANG" => gen::tag().into(),
        "TZ" => match w(3) {
            0 => gen::offset_form(),
            1 => gen::uri_text(),
            _ => "Raleigh/North America".into(),
        },
        "ADR" => (0..w(9)).map(|_| foreign_text(cfg)).collect::<Vec<_>>().join(";"),
        "X-FOO" | "x-bar" => match w(3) {
            0 => foreign_text(cfg),
            _ => gen::value_text(),
        },
        _ => foreign_text(cfg),
    }
}

/// Text that is escaped the way other programs do it.
fn foreign_text(cfg: &Cfg) -> String {
    let t = cfg.text();
    match w(4) {
        0 => t.replace('\\', "\\\\").replace('\n', "\\n").replace(',', "\\,").replace(';', "\\;"),
        1 => t.replace('\n', "\\N"),
        2 => t.replace('\n', "\\n").replace(';', "\\;"),
        _ => t.replace('\n', ""),
    }
}

fn foreign_param(cfg: &Cfg) -> String {
    let key = pickw(&[
        "TYPE", "type", "VALUE", "PREF", "LANGUAGE", "ALTID", "PID", "MEDIATYPE", "CALSCALE", "SORT-AS", "GEO", "TZ", "LABEL", "X-P", "x-q",
        "ENCODING", "CHARSET", "geo", "tz", "BOGUS", "item.TZ",
    ]);
    let value = match &key.to_uppercase()[..] {
        "TYPE" => pickw(&["home", "HOME", "work,cell", "x-foo", "X-", "JPEG", "voice,,fax", "", "a b", "friend", "X-X-foo", "x-x-home", "X-X-", "fox-bar", "aX-b", "x-aX-b", "\u{212a}in", "mu\u{17f}e"]).to_string(),
        "VALUE" => pickw(&[
            "text", "uri", "URI", "date", "time", "date-time", "date-and-or-time", "timestamp", "boolean", "integer", "float", "utc-offset",
            "language-tag", "phone-number", "",
        ])
        .to_string(),
        "PREF" => pickw(&["1", "100", "0", "101", "007", "+5", "-1", ""]).to_string(),
        "PID" => pickw(&["1", "1.1", "1,2.3", "0", "1.", ".1", "+1.+2", "18446744073709551615"]).to_string(),
        "LANGUAGE" => gen::tag().to_string(),
        "MEDIATYPE" => pickw(&["text/plain", "text/html;charset=utf-8", "a", "image/PNG", "*/*", "text/plain; a=\\\"b"]).to_string(),
        "CHARSET" => pickw(&["UTF-8", "utf-8", "latin1"]).to_string(),
        "GEO" => gen::uri_text(),
        "TZ" | "ITEM.TZ" => match w(3) {
            0 => gen::offset_form(),
            1 => gen::uri_text(),
            _ => cfg.param_text().replace('\n', "\\n"),
        },
        _ => match w(3) {
            0 => cfg.param_text().replace('\n', "\\n"),
            1 => pickw(FRAGMENTS).replace(['\r', '\n'], ""),
            _ => foreign_text(cfg),
        },
    };
    match w(5) {
        0 | 1 => format!(";{key}={value}"),
        2 | 3 => format!(";{key}=\"{value}\""),
        _ => match w(4) {
            0 => format!(";{value}"),
            1 => format!(";{key}"),
            2 => format!(";{key}=\"{value}"),
            _ => format!(";{key}={}\"{value}\"", pickw(&["", "a", " "])),
        },
    }
}

/// One property line as another program may write it.
pub fn foreign_line(cfg: &Cfg) -> String {
    if w(40) == 39 {
        return pickw(&[
            "NOTE;ALTID=END:VCARD", "TEL;TYPE=begin:VCARD", "FN;X-P=VERSION:4.0", "NOTE;ALTID=\"END:VCARD\":x", "NOTE;END:VCARD", "X-END:VCARD", "X-A;LANGUAGE=END:VCARD",
            "NOTE;SORT-AS=a,END:VCARD", "g.END:VCARD", "END.NOTE:VCARD", "NOTE:END:VCARD", "NOTE;ALTID=xEND:VCARDx",
        ])
        .to_string();
    }
    let name = pickw(NAMES);
    let mut s = String::new();
    if w(5) == 4 {
        s.push_str(pickw(&["item1.", "g.", "G-1.", "-.", "TZ.", ".", "a.b."]));
    }
    match w(4) {
        3 => s.push_str(&name.to_lowercase()),
        _ => s.push_str(name),
    }
    if w(2) == 1 {
        for _ in 0..1 + w(3) {
            s.push_str(&foreign_param(cfg));
        }
    }
    s.push(':');
    s.push_str(&foreign_value(name, cfg));
    if w(30) == 29 {
        s.push_str(pickw(FRAGMENTS));
    }
    s
}

/// A stream of cards as another program may write it. Not always correct.
pub fn foreign(cfg: &Cfg) -> String {
    let mut s = String::new();
    let end = pickw(&["\r\n", "\n"]);
    for _ in 0..1 + w(3) {
        for _ in 0..w(12).saturating_sub(9) {
            s.push_str(end);
        }
        let mut lines = vec![pickw(&["BEGIN:VCARD", "BEGIN:VCARD", "begin:vcard"]).to_string()];
        lines.push(pickw(&["VERSION:4.0", "VERSION:4.0", "VERSION:3.0", "version:4.0"]).to_string());
        if w(8) != 7 {
            lines.push("FN:Jane Doe".into());
        }
        for _ in 0..w(8) {
            lines.push(foreign_line(cfg));
        }
        lines.push(pickw(&["END:VCARD", "END:VCARD", "end:vcard"]).to_string());
        for l in lines {
            s.push_str(&l);
            s.push_str(end);
        }
    }
    match w(8) {
        7 => {
            s.truncate(s.trim_end().len());
        }
        6 => s.push_str(end),
        _ => {}
    }
    if w(16) == 15 {
        // What some programs put before everything
        s.insert_str(0, pickw(&["\u{feff}", "\u{feff}\u{feff}", " ", "\t", "\u{200b}", "\u{a0}", "\0", "\r", ";", "\u{2028}", "junk\r\n"]));
    }
    s
}
