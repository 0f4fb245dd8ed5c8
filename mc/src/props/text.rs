//! C31: free text is kept character by character.

use crate::engine::{Ch, Ctx, R};
use crate::gen;
use crate::imp::*;
use crate::model::*;
use crate::num::*;
use crate::report::ensure;

use super::kv;
use super::numbers;

enum What {
    /// a field of a key-value section
    Kv(Sec, usize),
    /// one of the tags
    Tag,
    /// the file name of an event
    File(usize),
    Comment,
    /// the file name of a hit sample
    Sample(usize),
    Variable(bool),
    /// a field for a decimal
    Dec(&'static numbers::Slot),
}
use What::*;

struct Slot {
    what: What,
    since: u8,
    /// characters that end the field
    stop: &'static str,
}

fn slots() -> Vec<Slot> {
    let mut out = Vec::new();
    for sec in SECS {
        for (i, f) in sec.fields().iter().enumerate() {
            match f.kind {
                FK::Text => out.push(Slot { what: Kv(sec, i), since: 3, stop: "" }),
                FK::Tags => out.push(Slot { what: Tag, since: 3, stop: " " }),
                _ => {}
            }
        }
    }
    for k in [0, 1, 4, 5, 6, 7, 8, 9] {
        out.push(Slot { what: File(k), since: 3, stop: "," });
    }
    out.push(Slot { what: Comment, since: 3, stop: "" });
    for k in 0..4 {
        out.push(Slot { what: Sample(k), since: 12, stop: "" });
    }
    out.push(Slot { what: Variable(true), since: 14, stop: "=" });
    out.push(Slot { what: Variable(false), since: 14, stop: "" });
    for s in numbers::all_slots() {
        if s.kind == numbers::NK::Dec {
            let list = s.part.kv().is_none();
            out.push(Slot { what: Dec(s), since: s.since, stop: if list { ",:| \t" } else { "" } });
        }
    }
    out
}

fn set_file(k: &mut MEventKind, name: &str) {
    use MEventKind::*;
    match k {
        Background { file, .. }
        | Video { file, .. }
        | SpriteLegacy { file, .. }
        | AnimationLegacy { file, .. }
        | SampleLegacy { file, .. }
        | Sprite { file, .. }
        | Animation { file, .. }
        | Audio { file, .. } => *file = name.to_string(),
        _ => unreachable!(),
    }
}

impl Slot {
    /// Whether the text can stand in the field and is all of it.
    fn takes(&self, t: &str) -> bool {
        let space = |c: char| c.is_whitespace();
        if t.is_empty() || t.starts_with(space) || t.ends_with(space) || t.contains(['\r', '\n']) || t.contains(|c| self.stop.contains(c)) {
            return false;
        }
        match self.what {
            // may be a number
            Dec(s) => {
                if t.chars().all(|c| c.is_ascii_digit() || ".-+_".contains(c)) {
                    return false;
                }
                // the record must not look like another line
                !(s.part == Events && t.contains(' '))
            }
            _ => true,
        }
    }

    fn check(&self, ch: &mut Ch, t: &str, v: u8, file: bool) -> R {
        match &self.what {
            Kv(sec, i) => {
                let f = &sec.fields()[*i];
                let n = sec.fields().len();
                let mut vals = no_vals(*sec);
                vals[*i] = Some(KV::S(t.to_string()));
                let other = (*i + 1) % n;
                vals[other] = Some(gen::default_value(&sec.fields()[other]));
                let line = |j: usize| format!("{}: {}", sec.fields()[j].key, sec.fields()[j].text(vals[j].as_ref().unwrap()));
                let text = format!("{}: {t}\n{}", f.key, line(other));
                if kv::ignored(&sec.fields()[other], v) {
                    vals[other] = None;
                }
                self.read(ch, kv::part_of(*sec), &text, v, file, &m_kv(*sec, kv_read(*sec, &vals, v)), &print_kv(*sec, &kv_read(*sec, &vals, v), v))
            }
            Tag => {
                let sec = Sec::Metadata;
                let i = sec.fields().iter().position(|f| f.kind == FK::Tags).unwrap();
                let mut vals = no_vals(sec);
                let l = vec!["one".to_string(), t.to_string(), "two".to_string()];
                let text = format!("Tags: {}\nTitle: x", l.join(" "));
                vals[i] = Some(KV::T(l));
                vals[sec.fields().iter().position(|f| f.key == "Title").unwrap()] = Some(KV::S("x".into()));
                self.read(ch, Metadata, &text, v, file, &m_kv(sec, kv_read(sec, &vals, v)), &print_kv(sec, &kv_read(sec, &vals, v), v))
            }
            File(k) => {
                let mut e = gen::default_event(*k);
                set_file(&mut e.k, t);
                let text = e.lines(v).join("\n");
                let want = m_events(vec![e.clone()]);
                if t.contains(' ') && !(t.starts_with('"') && t.ends_with('"')) {
                    set_file(&mut e.k, &format!("\"{t}\""));
                }
                self.read(ch, Events, &text, v, file, &want, &e.lines(v).join("\n"))
            }
            Comment => {
                let e = MEvent::new(MEventKind::Comment(t.to_string()));
                let b = gen::default_event(2);
                let text = format!("{}\n{}", e.lines(v).join("\n"), b.lines(v).join("\n"));
                self.read(ch, Events, &text, v, file, &m_events(vec![e, b]), &text)
            }
            Sample(k) => {
                let mut h = gen::default_hit(*k);
                h.sample = Some(MSample { normal: 1, addition: 2, index: 3, volume: 40, file: t.to_string() });
                let text = h.print(v);
                self.read(ch, Hits, &text, v, file, &m_hits(vec![h]), &text)
            }
            Variable(name) => {
                let var = if *name { (t.to_string(), "7".to_string()) } else { ("a".to_string(), t.to_string()) };
                let want = MOsb { variables: Some(vec![var.clone(), ("z".into(), "9".into())]), events: Some(vec![]) };
                let text = format!("[Variables]\n${}={}\n$z=9\n\n[Events]\n", var.0, var.1);
                ch.note(|| format!("{text:?}"));
                let x = must(Osb, &text, v)?;
                same("storyboard", &text, v, &x.view().osb.unwrap(), &want)?;
                let p = x.print(v).unwrap_or_default();
                ensure(p == text, || format!("{text:?} is printed as {p:?}"))
            }
            Dec(s) => {
                let text = s.text(v, t);
                let d = D::R(t.to_string());
                match s.printed(v, v, &d) {
                    Some(p) => self.read(ch, s.part, &text, v, file, &s.model(v, &d), &p),
                    None => Ok(()),
                }
            }
        }
    }

    fn read(&self, ch: &mut Ch, part: Part, text: &str, v: u8, file: bool, want: &MFile, printed: &str) -> R {
        if !file {
            ch.note(|| format!("v{v} {text:?}"));
            return check(part, text, v, want, printed).map(|_| ());
        }
        // a line that looks like a header
        if text.lines().any(|l| l.trim_start().starts_with('[')) {
            return Ok(());
        }
        let head = format!("osu file format v{v}\n\n");
        let text = format!("{head}[{}]\n{text}\n", part.name());
        ch.note(|| format!("{text:?}"));
        let x = must(Osu, &text, v)?;
        let want = MFile { version: v, ..want.clone() };
        same("file", &text, v, &x.view(), &want)?;
        prints("file", &text, v, x.print(v), &format!("{head}[{}]\n{printed}", part.name()))
    }
}

/// Code points by interest.
fn characters(all: bool) -> Vec<char> {
    let mut v: Vec<u32> = (0..0x300).collect();
    if all {
        v = (0..0x11_0000).collect();
    } else {
        for r in [0x370..0x378, 0x590..0x5a0, 0x600..0x610, 0x660..0x66a, 0x1680..0x1681, 0x180e..0x180f, 0x2000..0x2070, 0x20a0..0x20b0, 0x2150..0x2160, 0x2190..0x2194, 0x3000..0x3020, 0x3040..0x3060, 0x4e00..0x4e08, 0xac00..0xac04, 0xd7f0..0xe004, 0xfb00..0xfb07, 0xfe00..0xfe70, 0xfef0..0x1_0010, 0x1_f600..0x1_f608, 0xe_0000..0xe_0008, 0x10_fff0..0x11_0000] {
            v.extend(r);
        }
    }
    v.into_iter().filter_map(char::from_u32).collect()
}

pub const WORDS: &[&str] = &[
    "a", "//", "[", "]", ":", " ", "\"", "\\", "/", "$", "=", "0", "é", "{}", "%", "'", ";", "#", "|", ",", "_", "\t", ".", "-", "Tags", "Sprite",
];

/// Words with a meaning elsewhere: numbers, escapes, names, keys, headers.
pub const SPECIAL: &[&str] = &[
    "nan", "NaN", "inf", "Inf", "infinity", "null", "none", "None", "true", "True", "false", "on", "off", "yes", "e5", "1e5", "1E-5", "0x1F", "1_000", "1,5", "+1", "-0", "00", "1.", ".5", "1.50", "1/3", "50%", "NaN(1)", "\\\\", "\\n", "\\t", "\\\"", "\\0", "%20",
    "%s", "&amp;", "&#39;", "<b>", "</b>", "..", "../", "./", "~", "~/", "C:", "C:\\", "http://", "https://", "file:", ".jpg", ".JPG", ".osb", ".mp3", ".avi", "sb\\", "SB/", "bg", "con", "aux", "osu file format v14", "osu", "format", "v14", "[Events]", "[General", "Title:", "Mode: 3", "Background", "Video",
    "Break", "Normal", "Soft", "Drum", "Default", "Animation", "Sample", "Fail", "Pass", "Foreground", "Centre", "LoopForever", "Combo1", "$a", "$a=b", "// x", "///", "--", "''", "\"\"", "\"a", "a\"", "\"a b\"", "  ", "   ", " \t ", "\u{a0}", "\u{200b}", "\u{feff}", "\u{301}", "e\u{301}", "ß", "ẞ", "İ", "ı", "ﬁ", "Å", "日本", "👩\u{200d}🚀", "\0",
];

pub fn c31(ctx: &mut Ctx) {
    let all = slots();
    let all = &all;
    let chars = characters(ctx.thorough());
    let chars = &chars;
    let versions: &[u8] = if ctx.thorough() { &[3, 4, 5, 9, 10, 12, 14] } else { &[4, 12, 14] };
    ctx.space("every character", 0, &|ch| {
        let s = ch.of(all);
        let c = *ch.of(chars);
        let v = if (c as u32) < 0x300 { *ch.of(versions) } else { 14 };
        let place = if (c as u32) < 0x3100 { ch.free(4) } else { 2 };
        let t = match place {
            0 => c.to_string(),
            1 => format!("{c}q"),
            2 => format!("q{c}w"),
            _ => format!("q{c}"),
        };
        if v < s.since || !s.takes(&t) {
            return Ok(());
        }
        s.check(ch, &t, v, false)
    });
    ctx.space("every character in a file", 0, &|ch| {
        let s = ch.of(all);
        let c = *ch.of(chars);
        if (c as u32) > 0x3100 {
            return Ok(());
        }
        let t = match ch.free(2) {
            0 => c.to_string(),
            _ => format!("q{c}w"),
        };
        if let Variable(_) = s.what {
            return Ok(());
        }
        if !s.takes(&t) {
            return Ok(());
        }
        s.check(ch, &t, 14, true)
    });
    let ascii: Vec<char> = (1u8..128).map(|b| b as char).filter(|c| ctx.thorough() || !c.is_ascii_alphanumeric() || "aZ09".contains(*c)).collect();
    let ascii = &ascii;
    ctx.space("every pair of ASCII characters", 0, &|ch| {
        let s = ch.of(all);
        let t = match ch.free(3) {
            0 => format!("{}{}", ch.of(ascii), ch.of(ascii)),
            1 => format!("{}é{}", ch.of(ascii), ch.of(ascii)),
            _ => format!("q{}{}w", ch.of(ascii), ch.of(ascii)),
        };
        if !s.takes(&t) {
            return Ok(());
        }
        s.check(ch, &t, 14, false)
    });
    let depth = if ctx.thorough() { 4 } else { 3 };
    ctx.space("sequences of words", 0, &|ch| {
        let s = ch.of(all);
        let n = 1 + ch.free(depth);
        let t: String = (0..n).map(|_| *ch.of(WORDS)).collect();
        if !s.takes(&t) {
            return Ok(());
        }
        s.check(ch, &t, 14, n < 3)
    });
    ctx.space("special words", 0, &|ch| {
        let s = ch.of(all);
        let v = *ch.of(&VERSIONS);
        let w = *ch.of(SPECIAL);
        let t = match ch.free(6) {
            0 => w.to_string(),
            1 => format!("q{w}"),
            2 => format!("{w}q"),
            3 => format!("q {w} q"),
            4 => format!("{w}{w}"),
            _ => w.to_uppercase(),
        };
        if v < s.since || !s.takes(&t) {
            return Ok(());
        }
        s.check(ch, &t, v, false)
    });
    ctx.space("pairs of special words", 0, &|ch| {
        let s = ch.of(all);
        let (a, b) = (*ch.of(SPECIAL), *ch.of(SPECIAL));
        let t = match ch.free(2) {
            0 => format!("{a}{b}"),
            _ => format!("{a} {b}"),
        };
        if !s.takes(&t) {
            return Ok(());
        }
        s.check(ch, &t, 14, false)
    });
    ctx.space("words in a long text", 0, &|ch| {
        let s = ch.of(all);
        let n = *ch.of(if crate::engine::thorough() { &[15, 20, 31, 40, 63, 80, 100, 127, 160, 200, 255, 400, 511, 1023, 2500, 4095, 9000][..] } else { &[20, 40, 80, 150, 300, 1100][..] });
        let (a, b) = (*ch.of(WORDS), *ch.of(WORDS));
        let x = "x".repeat(n);
        let t = match ch.free(4) {
            0 => format!("{a}{b}{x}"),
            1 => format!("{x}{a}{b}"),
            2 => format!("{a}{x}{b}"),
            _ => format!("{}{a}{b}{}", &x[..n / 2], &x[n / 2..]),
        };
        if !s.takes(&t) {
            return Ok(());
        }
        s.check(ch, &t, 14, false)
    });
    ctx.space("a special word in a long text", 0, &|ch| {
        let s = ch.of(all);
        let n = *ch.of(&[30, 70, 130, 260, 520, 1100]);
        let w = *ch.of(SPECIAL);
        let x = "x".repeat(n);
        let t = match ch.free(3) {
            0 => format!("{w}{x}"),
            1 => format!("{x}{w}"),
            _ => format!("{x}{w}{x}"),
        };
        if !s.takes(&t) {
            return Ok(());
        }
        s.check(ch, &t, 14, false)
    });
    ctx.space("every length", 0, &|ch| {
        let s = ch.of(all);
        let mut lens: Vec<usize> = (1..=if crate::engine::thorough() { 1100 } else { 300 }).collect();
        for k in 9..=16 {
            lens.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
        }
        let n = *ch.of(&lens);
        let pattern = *ch.of(&["a", "é", "日", "😀", "ab c", "a1-"]);
        // words of several characters are cut
        let t: String = pattern.chars().cycle().take(n).collect();
        if !s.takes(&t) {
            return Ok(());
        }
        let file = n <= 300 && ch.free_flag();
        s.check(ch, &t, 14, file && !matches!(s.what, Variable(_)))
    });
    ctx.space("two texts of one record", 0, &|ch| {
        // the fields with text of one value do not share it
        let sec = *ch.of(&[Sec::General, Sec::Metadata]);
        let f = sec.fields();
        let texts: Vec<usize> = (0..f.len()).filter(|i| f[*i].kind == FK::Text).collect();
        let (a, b) = (*ch.of(&texts), *ch.of(&texts));
        let v = *ch.of(&[3u8, 13, 14]);
        let (x, y) = (*ch.of(WORDS), *ch.of(WORDS));
        if a == b || x.trim() != x || y.trim() != y || x.is_empty() || y.is_empty() {
            return Ok(());
        }
        let mut vals = no_vals(sec);
        vals[a] = Some(KV::S(x.to_string()));
        vals[b] = Some(KV::S(y.to_string()));
        let text = format!("{}: {x}\n{}: {y}", f[a].key, f[b].key);
        ch.note(|| format!("v{v} {text:?}"));
        let want = kv_read(sec, &vals, v);
        check(kv::part_of(sec), &text, v, &m_kv(sec, want.clone()), &print_kv(sec, &want, v)).map(|_| ())
    });
}
