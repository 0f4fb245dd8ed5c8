//! C21: malformed records are errors of their file.

use crate::engine::{Ch, Ctx, R};
use crate::imp::*;
use crate::model::*;
use crate::num::*;
use crate::props::hits::kind_of;
use crate::props::kv;

/// What a field of a record may hold.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    /// any text
    Any,
    /// a decimal number
    Num,
    Int(i128, i128),
    /// an integer that may be left out
    OptInt(i128, i128),
    /// an i32 stored 24 ms early by old versions
    Time,
    /// any text, stored 24 ms early by old versions if it is a number
    DTime,
    OneOf(&'static [&'static str]),
    /// one of the names, or a number
    Origin,
    /// the type number of a hit object
    Type,
    Trigger,
    Colour,
    Kv(Sec, usize),
}
use Kind::*;

#[derive(Clone, Debug)]
enum Piece {
    Sep(String),
    Field(Kind, String),
}

/// Whether the record may end after a piece.
#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    No,
    Yes,
    /// not specified
    Open,
}

struct Template {
    part: Part,
    before: &'static str,
    pieces: Vec<(Piece, End)>,
    from: u8,
    to: u8,
}

const HEADERS: [&str; 12] = ["0", "1", "2", "3", "4", "5", "6", "Video", "Break", "Sample", "Sprite", "Animation"];
const COMMANDS: [&str; 11] = ["F", "M", "MX", "MY", "S", "V", "R", "C", "P", "L", "T"];
const I32: (i128, i128) = (i32::MIN as i128, i32::MAX as i128);

fn kind(c: char) -> Kind {
    match c {
        'd' | 'a' => Any,
        'D' => Num,
        'i' => Int(I32.0, I32.1),
        'u' => Int(0, u32::MAX as i128),
        'b' | 's' => Int(0, 255),
        'S' => OptInt(0, 255),
        'Q' => OptInt(0, u64::MAX as i128),
        'p' => Int(0, 100),
        'f' => Int(0, 1),
        't' => OptInt(I32.0, I32.1),
        'I' => Time,
        'e' => DTime,
        'l' => Int(0, 5),
        'o' => Int(0, 9),
        'L' => Int(0, 3),
        'N' => OneOf(&LAYERS),
        'O' => Origin,
        'P' => OneOf(&["LoopForever", "LoopOnce"]),
        'c' => OneOf(&["B", "C", "L", "P"]),
        'A' => OneOf(&["H", "V", "A"]),
        'T' => Type,
        'g' => Trigger,
        'n' => Colour,
        'H' => OneOf(&HEADERS),
        'K' => OneOf(&COMMANDS),
        c => panic!("{c}"),
    }
}

fn template(part: Part, before: &'static str, from: u8, to: u8, s: &str) -> Template {
    let mut pieces: Vec<(Piece, End)> = Vec::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        match c {
            '^' => pieces.last_mut().unwrap().1 = End::Yes,
            '~' => pieces.last_mut().unwrap().1 = End::Open,
            '{' => {
                let k = kind(it.next().unwrap());
                assert_eq!(it.next(), Some(':'));
                let text: String = it.by_ref().take_while(|c| *c != '}').collect();
                pieces.push((Piece::Field(k, text), End::No));
            }
            c => match pieces.last_mut() {
                Some((Piece::Sep(t), End::No)) => t.push(c),
                _ => pieces.push((Piece::Sep(c.to_string()), End::No)),
            },
        }
    }
    Template { part, before, pieces, from, to }
}

fn templates() -> Vec<Template> {
    let mut out = Vec::new();
    let mut t = |part, before, from, to, s: &str| out.push(template(part, before, from, to, s));
    let full = ",{Q:1}~:{Q:2}~:{Q:3}~:~{p:40}~:{a:f.wav}^";
    let short = ",{Q:1}~:{Q:2}~:{Q:3}^";
    let circle = "{d:256},{d:192},{e:1000},{T:1},{s:0}^";
    let slider = "{d:256},{d:192},{e:1000},{T:2},{s:0},{c:B}|{d:320}:{d:48}|{d:17}:{d:290},{i:3},{d:140.5}^";
    let edges = ",~{S:2}^|{S:0}^,~{Q:0}:{Q:1}^|{Q:2}:{Q:3}^";
    let spinner = "{d:256},{d:192},{e:1000},{T:8},{s:0},{e:2500}^";
    t(Hits, "", 3, 14, circle);
    t(Hits, "", 10, 14, &format!("{circle}{short}"));
    t(Hits, "", 12, 14, &format!("{circle}{full}"));
    t(Hits, "", 3, 14, slider);
    t(Hits, "", 3, 14, &format!("{slider}{edges}"));
    t(Hits, "", 12, 14, &format!("{slider}{edges}{full}"));
    t(Hits, "", 3, 14, "{d:256},{d:192},{e:1000},{T:2},{s:0},{c:L},{i:3},{d:140.5}^");
    t(Hits, "", 3, 14, spinner);
    t(Hits, "", 12, 14, &format!("{spinner}{full}"));
    t(Hits, "", 3, 14, "{d:256},{d:192},{e:1000},{T:128},{s:0},{e:2500}~:");
    t(Hits, "", 12, 14, "{d:256},{d:192},{e:1000},{T:128},{s:0},{e:2500}~:~{Q:1}~:{Q:2}~:{Q:3}~:~{p:40}~:{a:f.wav}^");
    let point = "{e:1000},{d:-50},{i:4},{i:1},{u:1}";
    t(Timing, "", 3, 3, "{e:1000},{d:-50}^");
    t(Timing, "", 4, 4, &format!("{point}^,{{i:60}}^"));
    t(Timing, "", 5, 5, &format!("{point},{{i:60}}^,{{f:1}}^,{{u:1}}^"));
    t(Timing, "", 6, 14, &format!("{point},{{i:60}}^,{{f:1}},{{u:1}}^"));
    t(Colours, "", 5, 14, "{n:Combo1} : {b:1},{b:2},{b:3}^");
    t(Colours, "", 5, 14, "{n:SliderBorder} : {b:1},{b:2},{b:3}^");
    t(Colours, "", 5, 14, "{n:SliderTrackOverride} : {b:1},{b:2},{b:3}^");
    t(Events, "", 3, 14, "{H:0},{i:7},{a:bg.jpg}^,{d:1},{d:2}^");
    for h in ["1", "Video"] {
        t(Events, "", 3, 14, &format!("{{H:{h}}},{{I:700}},{{a:bg.avi}}^,{{d:1}},{{d:2}}^"));
    }
    for h in ["2", "Break"] {
        t(Events, "", 3, 14, &format!("{{H:{h}}},{{I:700}},{{I:800}}^"));
    }
    t(Events, "", 3, 14, "{H:3},{I:700},{b:1},{b:2},{b:3}^");
    for h in ["4", "5"] {
        t(Events, "", 3, 14, &format!("{{H:{h}}},{{l:1}},{{o:2}},{{a:bg.jpg}}^,{{d:1}},{{d:2}}^"));
    }
    t(Events, "", 3, 14, "{H:6},{d:900},{l:1},{a:s.wav}^,{p:50}^");
    t(Events, "", 3, 14, "{H:Sample},{i:900},{L:1},{a:s.wav}^,{p:50}^");
    t(Events, "", 3, 14, "{H:Sprite},{N:Pass},{O:Centre},{a:s.png},{d:1},{d:2}^");
    t(Events, "", 3, 14, "{H:Animation},{N:Pass},{O:Centre},{a:s.png},{d:1},{d:2},{u:3},{D:50}^,{P:LoopOnce}^");
    const SPRITE: &str = "Sprite,Pass,Centre,a.png,0,0\n ";
    const LOOP: &str = "Sprite,Pass,Centre,a.png,0,0\n L,1,2\n  ";
    const LEGACY: &str = "0,0,a.png\n_";
    for before in [SPRITE, LOOP, LEGACY] {
        for c in ["F", "MX", "MY", "S", "R"] {
            t(Events, before, 3, 14, &format!("{{K:{c}}},{{i:0}},{{t:1}},{{t:2}},{{d:3}}^,{{d:4}}^"));
        }
        for c in ["M", "V"] {
            t(Events, before, 3, 14, &format!("{{K:{c}}},{{i:0}},{{t:1}},{{t:2}},{{d:3}},{{d:4}}^,{{d:5}}^,{{d:6}}^"));
        }
        t(Events, before, 3, 14, "{K:C},{i:0},{t:1},{t:2},{b:3},{b:4},{b:5}^,{b:6}^,{b:7}^,{b:8}^");
        t(Events, before, 3, 14, "{K:P},{i:0},{t:1},{t:2},{A:H}^,{A:V}^");
        t(Events, before, 3, 14, "{K:L},{t:1},{u:2}^");
        t(Events, before, 3, 14, "{K:T},{g:Passing}^,{t:1}^,{t:2}^,{t:3}^");
        t(Events, before, 3, 14, "{K:T},{g:HitSoundSoftDrumWhistle5}^,{t:1}^,{t:2}^,{t:3}^");
    }
    t(Osb, "[Variables]\n", 14, 14, "${a:name}={a:5}^");
    t(Osb, "[Variables]\n$z=7\n\n[Events]\nSprite,Pass,Centre,a.png,0,0\n ", 14, 14, "{K:F},{i:0},{t:1},{t:2},{d:3}^,{d:$z}^");
    for (i, s) in SECS.iter().enumerate() {
        for (j, f) in s.fields().iter().enumerate() {
            let val = f.text(&crate::gen::default_value(f));
            out.push(Template {
                part: SECTIONS[i],
                before: "",
                pieces: vec![
                    (Piece::Sep(format!("{}:", f.key)), End::No),
                    (Piece::Field(Kv(*s, j), val), End::Yes),
                ],
                from: 3,
                to: 14,
            });
        }
    }
    out
}

const TOKENS: &[&str] = &[
    "", "x", "é", "1.5", "1.0", "-1", "--1", "-", "256", "101", "1000", "-129", "2147483648", "-2147483649", "2147483672", "4294967296",
    "4294967297", "18446744073709551616", "99999999999999999999", "1e5", "NaN", "0x10", "true", "１", "Normal", "Centre", "Foo", "$", "\"1\"",
    "0", "1", "2", "4", "5", "6", "9", "10", "16", "64", "100", "255", "257", "300", "BB", "b", "H1", "h", "LoopTwice", "loopOnce", "pass", "Pas", "Passing",
    "Passin", "Failin", "HitSoundX", "HitSoundNormal1x", "centre", "Combo", "Combox", "combo1", "SliderBorder", "sliderborder", "sprite", "sample", "1a", "1-",
    "1..", "?", "None", "null", " 1", "1 ", "\t0", "0\t", " 0 ", "79228162514264337593543950335", "79228162514264337593543950312",
];

pub const OTHER_CHARS: &[char] = &[
    '\u{7f}', '\u{85}', '\u{a0}', 'é', 'ß', '\u{301}', '１', '٣', 'Ⅷ', '²', '−', '–', '，', '；', '：', '｜', '．', '\u{200b}', '\u{feff}', '\u{3000}', '\u{2028}', '中',
    '😀', 'ı', 'K', '\u{e000}', '\u{fffd}', '\u{10ffff}',
];

/// Whether white space around a token does not belong to the field.
fn spaced(t: &Template, n: usize, token: &str) -> bool {
    token.trim() != token
        && match t.part {
            Colours => true,
            Events | Osb => n == 0,
            Osu => true,
            p => p.kv().is_some() && token.trim_start() != token,
        }
}

impl Kind {
    /// Whether a token is certainly none of the values.
    fn bad(self, t: &str, v: u8) -> bool {
        // the variable of one of the templates
        let t = if t == "$z" { "7" } else { t };
        let int = |min, max| int_in(t, min, max).is_none();
        match self {
            Any => false,
            Num => {
                let digits = t.chars().any(|c| c.is_ascii_digit());
                !digits || t.chars().any(|c| !(c.is_ascii_digit() || ".-+_".contains(c))) || t == "--1" || t == "1-" || t == "1.."
            }
            Int(a, b) => int(a, b),
            OptInt(a, b) => !t.is_empty() && int(a, b),
            DTime => v <= 4 && (t == "79228162514264337593543950335" || t == "79228162514264337593543950312"),
            Time => int(I32.0 - early(v), I32.1 - early(v)),
            OneOf(n) => !n.contains(&t) && !t.starts_with([' ', '_', '/']),
            Origin => !ORIGINS.contains(&t) && int(I32.0, I32.1),
            Type => match is_i32(t) {
                None => true,
                Some(n) => kind_of(n as i64).is_none(),
            },
            Trigger => {
                let name = t.trim_end_matches(|c: char| c.is_ascii_digit());
                !["Passing", "Failing", "HitSound", "HitSoundDrumClap", "HitSoundSoftDrumWhistle"].contains(&name)
            }
            Colour => {
                // written with a small b too
                t != "SliderBorder"
                    && t != "Sliderborder"
                    && t != "SliderTrackOverride"
                    && !t.strip_prefix("Combo").is_some_and(|n| !n.is_empty() && n.chars().all(|c| c.is_ascii_digit()))
            }
            Kv(s, i) => {
                let f = &s.fields()[i];
                !kv::ignored(f, v) && kv::value_of(f, t).is_none()
            }
        }
    }
    /// Whether nothing may stand for it, or that is not specified.
    fn empty(self, v: u8) -> bool {
        !self.bad("", v)
    }
    /// Other values of the field.
    fn others(self) -> &'static [&'static str] {
        match self {
            Any | DTime => &["0", "-1.5", "x", "é", "1e5"],
            Num => &["0", "1.5", "-1"],
            Int(0, 1) => &["0"],
            Int(0, b) if b <= 9 => &["0", "3"],
            Int(0, 100) => &["0", "1", "100"],
            Int(0, 255) => &["0", "8", "255"],
            Int(0, _) => &["0", "1", "4294967295"],
            Int(..) => &["0", "-1", "2147483647", "-2147483648"],
            OptInt(..) => &["", "0", "7"],
            Time => &["0", "-5", "2000000000"],
            OneOf(n) => match n.len() {
                2 => &["LoopForever"],
                3 => &["V", "A"],
                4 => &["C", "L", "P"],
                5 => &["Background", "Overlay"],
                _ => &[],
            },
            Origin => &["TopLeft", "3", "77"],
            Type | Colour | Kv(..) => &[],
            Trigger => &["Failing", "HitSound", "HitSoundDrumClap"],
        }
    }
}

impl Template {
    fn text(&self, with: impl Fn(usize, &str) -> String) -> String {
        self.pieces
            .iter()
            .enumerate()
            .map(|(i, (p, _))| match p {
                Piece::Sep(s) => s.clone(),
                Piece::Field(_, t) => with(i, t),
            })
            .collect()
    }
    fn plain(&self) -> String {
        self.text(|_, t| t.to_string())
    }
    fn fields(&self) -> Vec<(usize, Kind)> {
        self.pieces
            .iter()
            .enumerate()
            .filter_map(|(i, (p, _))| match p {
                Piece::Field(k, _) => Some((i, *k)),
                _ => None,
            })
            .collect()
    }
    fn comma_only(&self) -> bool {
        self.pieces.iter().all(|(p, _)| match p {
            Piece::Sep(s) => s == ",",
            _ => true,
        })
    }
}

fn good(part: Part, v: u8) -> &'static str {
    match part {
        Hits => "1,2,300,1,0",
        Timing => match v {
            3 => "100,2",
            4 => "100,2,4,1,1",
            _ => "100,2,4,1,1,5",
        },
        Colours => "Combo2 : 1,2,3",
        Events => "0,0,good.jpg",
        _ => "",
    }
}

/// A malformed line, among good records, alone or in a file, is rejected.
fn rejected(ch: &mut Ch, t: &Template, v: u8, line: &str, why: &str) -> R {
    let g = good(t.part, v);
    let lines = |n: usize| format!("{g}\n").repeat(if g.is_empty() { 0 } else { n });
    let before = [0, 1, 3][ch.dev(3)];
    let after = [0, 1, 2][ch.dev(3)];
    let mut text = format!("{}{}{line}\n{}", lines(before), t.before, lines(after));
    let mut part = t.part;
    if part != Osb && ch.flag() {
        part = Osu;
        text = format!("osu file format v{v}\n\n[Metadata]\nTitle:a\n\n[{}]\n{text}", t.part.name());
        if t.part == Metadata {
            text = text.replacen("[Metadata]\nTitle:a\n\n", "", 1);
        }
    }
    ch.note(|| format!("v{v} {text:?} rejected: {why}"));
    must_fail(part, &text, v, why)?;
    Ok(())
}

fn pick<'a>(ch: &mut Ch, all: &'a [Template]) -> (&'a Template, u8) {
    let t = ch.of(all);
    let v = t.from + ch.free((t.to - t.from) as usize + 1) as u8;
    (t, v)
}

/// Whether a sequence of comma fields is certainly malformed.
fn malformed(t: &Template, v: u8, fields: &[&str]) -> bool {
    let all = t.fields();
    for (f, (i, k)) in fields.iter().zip(&all) {
        // another name or type number makes it another kind of record
        let names = *k == Type || *k == OneOf(&HEADERS) || *k == OneOf(&COMMANDS);
        if names && !k.bad(f, v) && !matches!(&t.pieces[*i].0, Piece::Field(_, s) if s == f) {
            return false;
        }
    }
    for (f, (_, k)) in fields.iter().zip(&all) {
        if k.bad(f, v) {
            return true;
        }
    }
    let n = fields.len();
    // more fields than the record has are not specified
    n == 0 || (n <= all.len() && t.pieces[all[n - 1].0].1 == End::No)
}

pub fn c21(ctx: &mut Ctx) {
    let all = templates();
    let all = &all;
    ctx.space("the records as they are", 0, &|ch| {
        // the templates themselves are accepted
        let (t, v) = pick(ch, all);
        let text = format!("{}{}", t.before, t.plain());
        ch.note(|| format!("v{v} {text:?}"));
        must(t.part, &text, v)?;
        Ok(())
    });
    ctx.space("one invalid field", ctx.b(2, 3), &|ch| {
        let (t, v) = pick(ch, all);
        let fields = t.fields();
        let n = ch.free(fields.len());
        let (at, k) = fields[n];
        let token = *ch.of(TOKENS);
        if !k.bad(token, v) || spaced(t, n, token) {
            return Ok(());
        }
        let line = t.text(|i, s| if i == at { token.to_string() } else { s.to_string() });
        if line.is_empty() {
            return Ok(());
        }
        rejected(ch, t, v, &line, &format!("a field is {token:?}"))
    });
    ctx.space("any character anywhere in a field", ctx.b(0, 1), &|ch| {
        let (t, v) = pick(ch, all);
        if !crate::engine::thorough() && v != t.from && v != t.to && v != 5 {
            return Ok(());
        }
        let fields = t.fields();
        let n = ch.free(fields.len());
        let (at, k) = fields[n];
        if k == Any {
            return Ok(());
        }
        let Piece::Field(_, own) = &t.pieces[at].0 else { unreachable!() };
        let pos: Vec<usize> = own.char_indices().map(|(i, _)| i).chain([own.len()]).collect();
        let i = *ch.of(&pos);
        // every ASCII character but the line feed, and others
        let c = match ch.free(127 + OTHER_CHARS.len()) {
            0 => return Ok(()),
            c if c < 128 => (c as u8) as char,
            c => OTHER_CHARS[c - 127],
        };
        let replaced = i < own.len() && ch.free_flag();
        if c == '\n' || ",:|$".contains(c) && !matches!(k, Kv(..)) || c == '$' {
            return Ok(());
        }
        let rest = if replaced { &own[i + own[i..].chars().next().unwrap().len_utf8()..] } else { &own[i..] };
        let token = format!("{}{c}{rest}", &own[..i]);
        let line_end = token.ends_with('\r') && at + 1 == t.pieces.len();
        // a blank field may be taken as an empty one, and white space around a trigger is ignored
        let blank = token.trim().is_empty() && k.empty(v) || k == Trigger && token.trim() != token;
        if !k.bad(&token, v) || spaced(t, n, &token) || line_end || blank {
            return Ok(());
        }
        let line = t.text(|j, s| if j == at { token.clone() } else { s.to_string() });
        rejected(ch, t, v, &line, &format!("a field is {token:?}"))
    });
    ctx.space("one invalid field among other values", ctx.b(1, 2), &|ch| {
        let (t, v) = pick(ch, all);
        let fields = t.fields();
        let (at, k) = *ch.of(&fields);
        let few = ["", "x", "1.5", "-1", "99999999999999999999", "é"];
        let token = *ch.of(&few);
        if !k.bad(token, v) {
            return Ok(());
        }
        let mut vals: Vec<String> = Vec::new();
        for (i, (p, _)) in t.pieces.iter().enumerate() {
            vals.push(match p {
                Piece::Sep(s) => s.clone(),
                Piece::Field(_, _) if i == at => token.to_string(),
                Piece::Field(k, s) => {
                    let o = k.others();
                    match ch.dev(o.len() + 1) {
                        0 => s.clone(),
                        n => o[n - 1].to_string(),
                    }
                }
            });
        }
        let line = vals.concat();
        rejected(ch, t, v, &line, &format!("a field is {token:?}"))
    });
    ctx.space("two invalid fields", 0, &|ch| {
        let (t, v) = pick(ch, all);
        let fields = t.fields();
        let few = ["", "x", "-1", "1.5"];
        let (a, b) = (ch.free(fields.len()), ch.free(fields.len()));
        let (ta, tb) = (*ch.of(&few), *ch.of(&few));
        let (bad_a, bad_b) = (fields[a].1.bad(ta, v), fields[b].1.bad(tb, v));
        // another type number makes it another kind of record
        let other = fields[a].1 == Type && !bad_a || fields[b].1 == Type && !bad_b;
        if a >= b || !(bad_a || bad_b) || other {
            return Ok(());
        }
        let line = t.text(|i, s| if i == fields[a].0 { ta.to_string() } else if i == fields[b].0 { tb.to_string() } else { s.to_string() });
        rejected(ch, t, v, &line, "a field is invalid")
    });
    ctx.space("cut short", ctx.b(2, 3), &|ch| {
        let (t, v) = pick(ch, all);
        let n = 1 + ch.free(t.pieces.len());
        if n == t.pieces.len() {
            return Ok(());
        }
        let (p, end) = &t.pieces[n - 1];
        let ok = match (p, end) {
            (_, End::Yes | End::Open) => true,
            (Piece::Field(..), End::No) => false,
            // the next field is empty
            (Piece::Sep(_), End::No) => match &t.pieces[n] {
                (Piece::Field(k, _), e) => k.empty(v) && *e != End::No,
                _ => false,
            },
        };
        if ok {
            return Ok(());
        }
        let line: String = t.pieces[..n]
            .iter()
            .map(|(p, _)| match p {
                Piece::Sep(s) | Piece::Field(_, s) => s.as_str(),
            })
            .collect();
        rejected(ch, t, v, &line, "required fields are missing")
    });
    ctx.space("fields removed, swapped and repeated", ctx.b(1, 2), &|ch| {
        let (t, v) = pick(ch, all);
        if !t.comma_only() {
            return Ok(());
        }
        let text = t.plain();
        let mut f: Vec<&str> = text.split(',').collect();
        let n = f.len();
        let (a, b) = (ch.free(n), ch.free(n));
        match ch.free(4) {
            0 => {
                f.remove(a);
                if b < f.len() && b > a {
                    f.remove(b);
                }
            }
            1 => f.swap(a, b),
            2 => {
                let x = f.remove(a);
                f.insert(b, x);
            }
            _ => f[a] = f[b],
        }
        if !malformed(t, v, &f) {
            return Ok(());
        }
        let line = f.join(",");
        rejected(ch, t, v, &line, "its fields do not fit")
    });
    ctx.space("surplus text", ctx.b(0, 2), &|ch| {
        // text after a record makes it another record or no record at all
        let (t, v) = pick(ch, all);
        let junk = *ch.of(&[",", ",x", ",1", "x", "|x", ":", ":1", ":x", "|1", "|", "é", ",1,2", ",x,y,z", ",1:2", ",1:2:3:4:5", ",1:2:3:4:x:y", "1", "$", "//c", ",//c"]);
        let text = format!("{}{}", t.before, t.plain());
        let long = format!("{text}{junk}");
        let first = t.fields()[0].1;
        if first == OneOf(&HEADERS) && (t.plain().starts_with("Sprite") || t.plain().starts_with("Sample") || t.plain().starts_with("6,")) {
            // what follows these is not specified
            return Ok(());
        }
        if matches!(first, Kv(s, i) if kv::ignored(&s.fields()[i], v)) {
            return Ok(());
        }
        if [",", ":", "|"].contains(&junk) && t.part == Hits {
            // an empty trailing field is not specified
            return Ok(());
        }
        let (want, got) = (must(t.part, &text, v)?, t.part.parse(&long, v));
        ch.note(|| format!("v{v} {long:?}"));
        match got {
            Err(_) => Ok(()),
            Ok(g) => crate::report::ensure(g.map(|g| g.view()) != Some(want.view()), || format!("v{v}: {junk:?} after {text:?} is dropped")),
        }
    });
    ctx.space("surplus text after records with fields empty or left out", ctx.b(3, 4), &|ch| {
        let (t, v) = pick(ch, all);
        if !t.comma_only() {
            return Ok(());
        }
        let first = t.fields()[0].1;
        let name = t.plain();
        if first == OneOf(&HEADERS) && ["Sprite", "Sample", "6,", "Animation"].iter().any(|n| name.starts_with(n)) {
            return Ok(());
        }
        let all = t.fields();
        // where it may end
        let ends: Vec<usize> = (0..all.len()).filter(|n| t.pieces[all[*n].0].1 == End::Yes).map(|n| n + 1).collect();
        let n = ends[ends.len() - 1 - ch.dev(ends.len())];
        let mut f: Vec<String> = Vec::new();
        for (i, k) in &all[..n] {
            let Piece::Field(_, text) = &t.pieces[*i].0 else { unreachable!() };
            f.push(if k.empty(v) && ch.flag() { String::new() } else { text.clone() });
        }
        let junk = *ch.of(&[",x", ",13", "x", ",13,12", ",x,y,z", ",é", "|13", ":13", ",,x", ",,,13"]);
        let text = format!("{}{}", t.before, f.join(","));
        let long = format!("{text}{junk}");
        ch.note(|| format!("v{v} {long:?}"));
        let Ok(Some(want)) = t.part.parse(&text, v) else { return Ok(()) };
        match t.part.parse(&long, v) {
            Err(_) => Ok(()),
            Ok(g) => crate::report::ensure(g.map(|g| g.view()) != Some(want.view()), || format!("v{v}: {junk:?} after {text:?} is dropped")),
        }
    });
    ctx.space("wrong separators", 0, &|ch| {
        let (t, v) = pick(ch, all);
        if !t.comma_only() {
            return Ok(());
        }
        // one comma becomes something else: the fields next to it are one
        let text = t.plain();
        let f: Vec<&str> = text.split(',').collect();
        let a = ch.free(f.len());
        if a + 1 >= f.len() {
            return Ok(());
        }
        let s = *ch.of(&[";", ".", "", " ", "|", ":", "\t", "，"]);
        let joined = format!("{}{s}{}", f[a], f[a + 1]);
        let mut g: Vec<&str> = f[..a].to_vec();
        g.push(&joined);
        g.extend(&f[a + 2..]);
        if !malformed(t, v, &g) {
            return Ok(());
        }
        let line = g.join(",");
        rejected(ch, t, v, &line, "a separator is wrong")
    });
    ctx.space("one malformed record among many", 0, &|ch| {
        let v = *ch.of(&[3u8, 5, 14]);
        let part = *ch.of(&[Hits, Timing, Colours, Events]);
        if v < 5 && part == Colours {
            return Ok(());
        }
        let bad = *ch.of(&["x", "1", ",", "é", ":"]);
        let n = *ch.of(&[1usize, 2, 3, 10, 100, 1000]);
        let at = ch.free(5);
        let at = [0, 1.min(n), n / 2, n - 1, n][at];
        let mut lines: Vec<&str> = vec![good(part, v); n];
        lines.insert(at, bad);
        let text = lines.join("\n");
        ch.note(|| format!("v{v} {}: {bad:?} as line {at} of {n}", part.name()));
        // version 3 timing points take any text as beat length
        if v == 3 && part == Timing && bad == "," {
            return Ok(());
        }
        must_fail(part, &text, v, "a record is malformed")?;
        must_fail(Osu, &format!("osu file format v{v}\n\n[{}]\n{text}\n\n[General]\nMode: 0", part.name()), v, "a record is malformed")?;
        Ok(())
    });
}

/// For every kind of record: the record, and it with another value in one field, an empty field, or the last fields left out.
pub fn families() -> Vec<(Part, u8, u8, Vec<String>)> {
    let mut out = Vec::new();
    for t in templates() {
        let mut f = vec![t.plain()];
        for (n, (i, k)) in t.fields().into_iter().enumerate() {
            let Piece::Field(_, own) = &t.pieces[i].0 else { unreachable!() };
            let mut values: Vec<String> = k.others().iter().map(|s| s.to_string()).collect();
            match k {
                Any | DTime | Num => values.extend(["1.5", "1.50", "01.5", "-0", "0.0", "1e5", "1E5"].map(str::to_string)),
                Int(..) | OptInt(..) | Time => values.extend([format!("0{own}"), format!("{own}1"), "-7".into()]),
                Kv(s, i) => {
                    let d = crate::gen::default_value(&s.fields()[i]);
                    let d = s.fields()[i].text(&d);
                    values.extend([format!("{d}0"), format!("0{d}"), "2".into(), "2.0".into(), "x".into(), "X".into()]);
                }
                _ => {}
            }
            values.push(own.to_uppercase());
            values.push("?".into());
            values.push(String::new());
            for v in values {
                f.push(t.text(|j, s| if j == i { v.clone() } else { s.to_string() }));
            }
            let _ = n;
            // ends here
            if t.pieces[i].1 == End::Yes {
                f.push(t.pieces[..=i].iter().map(|(p, _)| match p { Piece::Sep(s) => s.clone(), Piece::Field(_, s) => s.clone() }).collect());
            }
        }
        f.sort();
        f.dedup();
        out.push((t.part, t.from, t.to, f.into_iter().map(|l| format!("{}{l}", t.before)).collect()));
    }
    out
}

/// What each field of a template is called, or no names where that is not specified.
fn names(t: &Template) -> Vec<&'static str> {
    let text = t.plain();
    let first = text.split(',').next().unwrap_or("");
    let fields = t.fields();
    let sample = |n: usize| vec!["hit sample"; n];
    let mut out: Vec<&'static str> = match t.part {
        Hits => {
            let mut f = vec!["x", "y", "time", "obj type", "hit sound"];
            match text.split(',').nth(3) {
                Some("2") => {
                    f.push("curve type");
                    let points = fields.iter().skip(6).take_while(|(_, k)| matches!(k, Any)).count();
                    f.extend(vec![""; points]);
                    f.extend(["slides count", "length"]);
                    if fields.len() > f.len() {
                        f.extend([""; 6]);
                    }
                }
                Some("1") => {}
                _ => f.push("end time"),
            }
            let n = fields.len().saturating_sub(f.len());
            f.extend(sample(n));
            f
        }
        Timing => vec!["time", "beat length", "meter", "sample set", "sample index", "volume", "uninherited", "effects"],
        Colours => vec!["colour type", "red", "green", "blue"],
        Events if t.before.is_empty() => {
            let mut f = vec!["event type"];
            f.extend::<&[&str]>(match first {
                "0" | "1" | "Video" => &["start time", "file path", "x", "y"],
                "2" | "Break" => &["start time", "end time"],
                "3" => &["start time", "red", "green", "blue"],
                "4" | "5" => &["layer", "origin", "file path", "x", "y"],
                "6" | "Sample" => &["time", "layer", "file path", "volume"],
                "Sprite" => &["layer", "origin", "file path", "x", "y"],
                "Animation" => &["layer", "origin", "file path", "x", "y", "frame count", "frame delay", "loop type"],
                _ => unreachable!(),
            });
            f
        }
        Events => {
            let mut f = vec!["command type"];
            f.extend::<&[&str]>(match first {
                "L" => &["start time", "loop count"],
                "T" => &["trigger type", "start time", "end time", "group number"],
                _ => &["easing", "start time", "end time"],
            });
            f.extend::<&[&str]>(match first {
                "F" => &["start opacity", ""],
                "S" => &["start scale", ""],
                "R" => &["start rotation", ""],
                "MX" => &["move x", ""],
                "MY" => &["move y", ""],
                "M" => &["move x", "move y", "", ""],
                "V" => &["scale x", "scale y", "", ""],
                "C" => &["red", "green", "blue", "continuing colour", "continuing colour", "continuing colour"],
                "P" => &["parameter type", "continuing parameter"],
                _ => &[],
            });
            f
        }
        _ => Vec::new(),
    };
    out.truncate(fields.len());
    out
}

/// The fault and the field that a message tells.
fn told(message: &str) -> (String, String) {
    let m = message.strip_prefix("Line ").and_then(|m| m.split_once(", ")).map_or(message, |(_, m)| m);
    let m = m.to_lowercase().replace('`', "").replace('_', " ");
    let (fault, rest) = m.split_once(' ').unwrap_or((&m, ""));
    let rest = rest.trim_end_matches(" field").trim_end_matches(" value");
    let name = match rest {
        "filepath" | "file name" => "file path",
        "object type" => "obj type",
        "position x" => "x",
        "position y" => "y",
        "additive combo count" => "colour type",
        n => n,
    };
    (fault.to_string(), name.to_string())
}

pub fn c30(ctx: &mut Ctx) {
    let all: Vec<Template> = templates().into_iter().filter(|t| !names(t).is_empty()).collect();
    for t in &all {
        assert_eq!(names(t).len(), t.fields().len(), "{}", t.plain());
    }
    let all = &all;
    let blame = |ch: &mut Ch, t: &Template, v: u8, line: &str, may: &[&str], faults: &[&str]| -> R {
        let g = good(t.part, v);
        let before = [0, 2][ch.dev(2)];
        let after = [0, 1][ch.dev(2)];
        let mut text = format!("{}{}{line}\n{}", format!("{g}\n").repeat(before), t.before, format!("{g}\n").repeat(after));
        let mut part = t.part;
        if ch.flag() {
            part = Osu;
            text = format!("osu file format v{v}\n\n[Metadata]\nTitle:a\n\n[{}]\n{text}", t.part.name());
        }
        ch.note(|| format!("v{v} {text:?} blames {may:?}"));
        let e = must_fail(part, &text, v, "a record is malformed")?;
        let (fault, name) = told(&e.display);
        crate::report::ensure(may.contains(&name.as_str()) && faults.contains(&fault.as_str()), || {
            format!("v{v} {text:?}: the error is {:?}, which should be one of {faults:?} {may:?}", e.display)
        })
    };
    let blame = &blame;
    ctx.space("one invalid field", ctx.b(1, 3), &|ch| {
        let (t, v) = pick(ch, all);
        let fields = t.fields();
        let n = ch.free(fields.len());
        let (at, k) = fields[n];
        let name = names(t)[n];
        let token = *ch.of(TOKENS);
        if !k.bad(token, v) || name.is_empty() || spaced(t, n, token) {
            return Ok(());
        }
        if name == "command type" && token.starts_with(|c: char| COMMANDS.iter().any(|k| k.starts_with(c))) {
            // it may be the name of a command and more text
            return Ok(());
        }
        if t.part == Colours && n > 0 && token.starts_with(|c: char| c.is_ascii_digit()) {
            // it may be a number and a wrong separator
            return Ok(());
        }
        let line = t.text(|i, s| if i == at { token.to_string() } else { s.to_string() });
        if line.is_empty() {
            return Ok(());
        }
        blame(ch, t, v, &line, &[name], &["invalid", "unknown"])
    });
    ctx.space("two invalid fields", ctx.b(1, 2), &|ch| {
        let (t, v) = pick(ch, all);
        let fields = t.fields();
        let (a, b) = (ch.free(fields.len()), ch.free(fields.len()));
        let few = ["x", "?"];
        let (ta, tb) = (*ch.of(&few), *ch.of(&few));
        let names = names(t);
        if a >= b || names[a].is_empty() || names[b].is_empty() || !fields[a].1.bad(ta, v) {
            return Ok(());
        }
        let line = t.text(|i, s| if i == fields[a].0 { ta.to_string() } else if i == fields[b].0 { tb.to_string() } else { s.to_string() });
        let may = [names[a], if fields[b].1.bad(tb, v) { names[b] } else { names[a] }];
        blame(ch, t, v, &line, &may, &["invalid", "unknown"])
    });
    ctx.space("cut short", ctx.b(1, 3), &|ch| {
        let (t, v) = pick(ch, all);
        let n = 1 + ch.free(t.pieces.len());
        if n == t.pieces.len() {
            return Ok(());
        }
        let (p, end) = &t.pieces[n - 1];
        if *end != End::No {
            return Ok(());
        }
        let names = names(t);
        // how many fields are there
        let there = t.pieces[..n].iter().filter(|(p, _)| matches!(p, Piece::Field(..))).count();
        let mut may = Vec::new();
        match p {
            // the next is missing
            Piece::Field(..) => {
                may.push(names[there]);
                may.push(if t.part == Colours { "colon separator" } else { "" });
                if there == 1 {
                    may.push("command type");
                }
            }
            // the next is empty, or it is free text and the one after it is missing
            Piece::Sep(_) => {
                if let Piece::Field(k, _) = &t.pieces[n].0 {
                    if k.empty(v) && t.pieces[n].1 != End::No {
                        return Ok(());
                    }
                    may.push(names[there]);
                    if k.empty(v) && there + 1 < names.len() {
                        may.push(names[there + 1]);
                    }
                }
            }
        }
        if may[0].is_empty() {
            // among the points and edges of a slider
            return Ok(());
        }
        let line: String = t.pieces[..n]
            .iter()
            .map(|(p, _)| match p {
                Piece::Sep(s) | Piece::Field(_, s) => s.as_str(),
            })
            .collect();
        let end = t.pieces[..n].last().map(|(p, _)| matches!(p, Piece::Field(..))).unwrap_or(false);
        let names_only = there == 1 && end && (t.part == Colours || !t.before.is_empty());
        let faults: &[&str] = if names_only { &["missing", "invalid", "unknown"] } else if end { &["missing"] } else { &["missing", "invalid"] };
        blame(ch, t, v, &line, &may, faults)
    });
}
