//! C01, C02: arbitrary texts. Token sequences, odd field values and mutations of
//! canonical texts, all within bounds, read by every reader of the library.

/// Commands that other commands can stand under.
const NEST: [&str; 2] = ["L,0,1", "T,Failing,0,1,2"];

/// Reads, prints, copies and drops a sprite with that many levels of commands on the stack of a thread with the default size.
pub fn nest(levels: usize, kind: usize) {
    let run = move || {
        let mut text = String::from("Sprite,Pass,Centre,a,0,0");
        for i in 1..=levels {
            text.push('\n');
            text.push_str(&" ".repeat(i));
            text.push_str(NEST[kind]);
        }
        for v in [14u8, 3] {
            let x = Events.parse(&text, v).unwrap_or_else(|_| panic!("rejected")).expect("absent");
            let printed = x.print(v).expect("not printed");
            assert!(printed == text, "printed differently");
        }
    };
    let ok = std::thread::Builder::new().stack_size(2 << 20).spawn(run).unwrap().join().is_ok();
    std::process::exit(i32::from(!ok));
}

use crate::engine::{no_panic, Ch, Ctx, Fail, R};
use crate::gen;
use crate::imp::*;
use crate::model::*;
use crate::num::D;
use crate::props::malformed::OTHER_CHARS;
use crate::small;

/// A record in the smallest text that holds it.
#[derive(Clone)]
pub struct Rec {
    pub part: Part,
    pub before: String,
    pub line: String,
}

impl Rec {
    pub fn text(&self, line: &str) -> String {
        format!("{}{line}", self.before)
    }
}

/// One record of every kind, as written at a version.
pub fn records(v: u8) -> Vec<Rec> {
    let mut out = Vec::new();
    let mut add = |part: Part, before: &str, line: String| out.push(Rec { part, before: before.to_string(), line });
    for k in 0..4 {
        let mut m = gen::default_hit(k);
        add(Hits, "", m.print(v));
        m.sample = Some(MSample { normal: 1, addition: 2, index: 3, volume: 44, file: "f.wav".into() });
        let full = m.sample.as_ref().unwrap().fields().join(":");
        // the sample in full at every version
        let l = m.print(14).replace(&full, &full);
        add(Hits, "", l);
    }
    let t = gen::default_timing(1);
    add(Timing, "", t.print(v));
    add(Timing, "", t.fields(v)[..8].join(","));
    add(Timing, "", t.fields(v)[..5].join(","));
    for c in [MColour::Combo(1, [255, 0, 1]), MColour::Track([5, 6, 7]), MColour::Border([8, 9, 10])] {
        add(Colours, "", c.print());
    }
    for k in 0..gen::EVENT_KINDS {
        let e = gen::default_event(k);
        add(Events, "", e.head(v));
    }
    let sprite = format!("{}\n ", gen::default_event(7).head(v));
    for k in 0..gen::CMD_KINDS {
        let mut c = gen::default_cmd(k, 10);
        if k == 10 {
            c.p = MProp::Trigger(
                MTrig::Hit { set: Some(1), add_set: Some(3), addition: Some(0), custom: Some(12) },
                Some(2),
                vec![],
            );
        }
        add(Events, &sprite, c.line());
    }
    for (i, s) in SECS.iter().enumerate() {
        let part = SECTIONS[i];
        for f in s.fields() {
            add(part, "", format!("{}: {}", f.key, f.text(&gen::default_value(f))));
        }
    }
    if v == 14 {
        add(Osb, "[Variables]\n$a=50\n$b=0,1\n\n", "[Events]".into());
        add(Osb, "[Variables]\n", "$a=50".into());
        add(Osb, "[Variables]\n$a=50\n$b=0,1\n\n[Events]\nSprite,Pass,Centre,a.png,0,0\n ", "F,0,$a,$a,$b".into());
    }
    add(Osu, "", format!("osu file format v{v}"));
    add(Osu, &format!("osu file format v{v}\n"), "[General]".into());
    out
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Safe,
    Stable,
}

/// The line of a version 3 slider repeats the position as its first curve point,
/// in which a bar or carriage return ends a point.
const SEPARATOR: &str = "version-3-slider-position-with-separator";
fn separator_in_position(m: &MFile) -> bool {
    let sep = |d: &D| matches!(d, D::R(s) if s.contains(['|', '\r']));
    let odd = |h: &MHit| matches!(h.kind, MKind::Slider(_)) && (sep(&h.x) || sep(&h.y));
    m.hits.as_ref().is_some_and(|h| h.iter().any(odd))
}

fn exercise(mode: Mode, part: Part, text: &str, v: u8) -> R {
    let r = no_panic(&format!("reading {} at version {v} from {text:?}", part.name()), || part.parse(text, v))?;
    let Ok(Some(x)) = r else { return Ok(()) };
    match mode {
        Mode::Safe => {
            let all: &[u8] = if part == Osu && !crate::engine::thorough() { &[3, 5, 11, 14] } else { &VERSIONS };
            for w in all.iter().copied() {
                no_panic(
                    &format!("printing {} read at version {v} from {text:?} at version {w}", part.name()),
                    || x.print(w),
                )?;
            }
            Ok(())
        }
        Mode::Stable => {
            // a file has its own version
            let w = match &x {
                Val::Osu(f) => f.version,
                _ => v,
            };
            let f = |m: String| if w == 3 && separator_in_position(&x.view()) { Fail::Known(SEPARATOR, m) } else { Fail::Violation(m) };
            let Some(p) = x.print(w) else {
                return Err(f(format!("{} read at version {v} from {text:?} is not printed", part.name())));
            };
            let y = match part.parse(&p, v) {
                Ok(Some(y)) => y,
                r => {
                    return Err(f(format!(
                        "{} read at version {v} from {text:?} is printed as {p:?}, which is read as {r:?}",
                        part.name()
                    )))
                }
            };
            let q = y.print(w);
            if q.as_deref() == Some(&p) {
                Ok(())
            } else {
                Err(f(format!(
                    "{} read at version {v} from {text:?} is printed as {p:?} and, when that is read, as {q:?}",
                    part.name()
                )))
            }
        }
    }
}

pub const NASTY: &[&str] = &[
    "", "0", "-1", "1.5", "1", "2147483647", "-2147483648", "2147483648", "-2147483649", "18446744073709551615",
    "18446744073709551616", "79228162514264337593543950335", "-79228162514264337593543950335", "79228162514264337593543950336",
    "0.0000000000000000000000000001", "-0", "-0.0", "1e5", "NaN", "é", "x", " ", "\t", "\"", "$a", "//", "[", "]", "_", "255", "256",
    "1.", ".5", "+1", "007", "1_000", "\u{feff}", "\u{a0}", "a\u{301}", "0,0", "1:2", "1|2", "\r", "2147483624", "-2147483625",
];

/// The fields of a line and the separators between them.
fn pieces(line: &str) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last = ' ';
    for c in line.chars() {
        // a name and its number
        if c.is_ascii_digit() && last.is_ascii_alphabetic() {
            out.push(String::new());
        }
        last = c;
        if matches!(c, ',' | ':' | '|' | '=' | '$') {
            out.push(c.to_string());
            out.push(String::new());
        } else {
            out.last_mut().unwrap().push(c);
        }
    }
    out
}

fn is_sep(p: &str) -> bool {
    matches!(p, "," | ":" | "|" | "=" | "$")
}

const CHARS: &[&str] = &[",", ":", "|", "\n", " ", "0", "-", "é", "[", "]", "/", "_", "$", ".", "9", "\"", "\r", "A"];

/// One edit of a text at a character position.
fn edit(ch: &mut Ch, text: &str, at: usize) -> Option<String> {
    let pos: Vec<usize> = text.char_indices().map(|(i, _)| i).chain([text.len()]).collect();
    let i = pos[at];
    let next = pos.get(at + 1).copied();
    let n = CHARS.len();
    let k = ch.free(2 + 2 * n);
    Some(match (k, next) {
        // cut off here
        (0, _) => text[..i].to_string(),
        (k, None) if k <= 1 + n => return if k == 1 { None } else { Some(format!("{text}{}", CHARS[k - 2])) },
        (_, None) => return None,
        (1, Some(e)) => format!("{}{}", &text[..i], &text[e..]),
        (k, Some(_)) if k < 2 + n => format!("{}{}{}", &text[..i], CHARS[k - 2], &text[i..]),
        (k, Some(e)) => format!("{}{}{}", &text[..i], CHARS[k - 2 - n], &text[e..]),
    })
}

const FILE_TOKENS: &[&str] = &[
    "\n", "[General]", "[Events]", "[HitObjects]", "[Colours]", "[", "]", "//", "Mode:1", "x", "é", " ", "\r\n", "0,0,bg", "osu file format v14",
    "\u{feff}", "[Variables]", "_F,0,1,2,0", "$a=1", "1,2,3,1,0",
];
const EVENT_TOKENS: &[&str] = &[
    "\n", "0,0,bg", "Sprite,Pass,Centre,a,0,0", " ", "_", "L,0,1", "F,0,1,2,0", "T,Passing", "//c", "2,1,2", "3,1,2,3,4", "é", ",", "4,0,0,a",
    "\"",
];
const FIELD_TOKENS: &[&str] = &["0", "1", "-1", ",", ":", "|", "\n", " ", "é", "2", "8", "B", "12", ".", "x"];
const KV_TOKENS: &[&str] = &[
    "\n", ":", " ", "Mode", "Tags", "Bookmarks", "Title", "1", ",", "é", "\r", "a b", "//", "BeatmapID", "CircleSize", "-", "AudioFilename",
];
const COLOUR_TOKENS: &[&str] = &["Combo", "1", ":", " ", ",", "\n", "255", "SliderBorder", "SliderTrackOverride", "é", "256", "-", "\t", "+", "99999999999"];
const OSB_TOKENS: &[&str] = &[
    "[Variables]\n", "[Events]\n", "$a=1\n", "$", "a", "=", "\n", "Sprite,Pass,Centre,a,0,0\n", " ", "F,0,$a,$b,1", "$b=$a\n", ",", "é", "_", "[",
];

fn alphabet(part: Part) -> &'static [&'static str] {
    match part {
        General | Editor | Metadata | Difficulty => KV_TOKENS,
        Events => EVENT_TOKENS,
        Timing | Hits => FIELD_TOKENS,
        Colours => COLOUR_TOKENS,
        Osu => FILE_TOKENS,
        Osb => OSB_TOKENS,
    }
}

fn spaces(ctx: &mut Ctx, mode: Mode) {
    let (d_file, d_part) = if ctx.thorough() { (5, 6) } else { (4, 4) };
    ctx.space("token sequences", 0, &|ch| {
        let part = *ch.of(&PARTS);
        let v = match part {
            Osb => 14,
            _ => *ch.of(&[3u8, 14]),
        };
        let mut text = String::new();
        let tokens = alphabet(part);
        let mut n = if matches!(part, Osu | Osb) { d_file } else { d_part };
        if part == Osu {
            match ch.free(3) {
                0 => text = format!("osu file format v{v}\n"),
                1 => text = format!("osu file format v{v}"),
                _ => n -= 1,
            }
        }
        for _ in 0..n {
            let k = ch.free(tokens.len() + 1);
            if k == 0 {
                break;
            }
            text += tokens[k - 1];
        }
        ch.note(|| format!("{} v{v} {text:?}", part.name()));
        exercise(mode, part, &text, v)
    });
    ctx.space("hit objects and timing points from tokens", 0, &|ch| {
        // a line that is nearly complete, followed by tokens
        let v = *ch.of(&[3u8, 9, 14]);
        let (part, start) = *ch.of(&[
            (Hits, "1,2,3,1,0"),
            (Hits, "1,2,3,2,0,B"),
            (Hits, "1,2,3,2,0,B|1:2,1,1"),
            (Hits, "1,2,3,8,0"),
            (Hits, "1,2,3,128,0"),
            (Timing, "1,2"),
            (Timing, "1,2,4,1,1,5"),
        ]);
        let mut text = start.to_string();
        let n = if crate::engine::thorough() { 5 } else { 4 };
        for _ in 0..n {
            let k = ch.free(FIELD_TOKENS.len() + 1);
            if k == 0 {
                break;
            }
            text += FIELD_TOKENS[k - 1];
        }
        ch.note(|| format!("{} v{v} {text:?}", part.name()));
        exercise(mode, part, &text, v)
    });
    let recs: Vec<Vec<Rec>> = VERSIONS.iter().map(|v| records(*v)).collect();
    let recs = &recs;
    ctx.space("odd fields", ctx.b(2, 3), &|ch| {
        let vi = if crate::engine::thorough() { *ch.of(&[0usize, 1, 2, 7, 9, 11]) } else { *ch.of(&[0usize, 11]) };
        let v = VERSIONS[vi];
        let r = ch.of(&recs[vi]);
        // every deviation replaces one field or separator
        let mut line = String::new();
        for p in pieces(&r.line) {
            if is_sep(&p) {
                line += match ch.dev(5) {
                    0 => &p,
                    1 => "",
                    2 => ",,",
                    3 => "\n",
                    _ => ":",
                };
            } else {
                let k = ch.dev(NASTY.len() + 1);
                line += if k == 0 { &p } else { NASTY[k - 1] };
            }
        }
        let text = r.text(&line);
        ch.note(|| format!("{} v{v} {text:?}", r.part.name()));
        exercise(mode, r.part, &text, v)
    });
    ctx.space("records with one edit", 0, &|ch| {
        let vi = ch.free(VERSIONS.len());
        let v = VERSIONS[vi];
        let r = ch.of(&recs[vi]);
        let at = ch.free(r.line.chars().count() + 1);
        let Some(line) = edit(ch, &r.line, at) else { return Ok(()) };
        let text = r.text(&line);
        ch.note(|| format!("{} v{v} {text:?}", r.part.name()));
        exercise(mode, r.part, &text, v)
    });
    ctx.space("records with any character anywhere", 0, &|ch| {
        let vi = if crate::engine::thorough() { ch.free(VERSIONS.len()) } else { *ch.of(&[0usize, 11]) };
        let v = VERSIONS[vi];
        let r = ch.of(&recs[vi]);
        let pos: Vec<usize> = r.line.char_indices().map(|(i, _)| i).chain([r.line.len()]).collect();
        let i = *ch.of(&pos);
        let c = match ch.free(128 + OTHER_CHARS.len()) {
            c if c < 128 => (c as u8) as char,
            c => OTHER_CHARS[c - 128],
        };
        let mut rest = &r.line[i..];
        if i < r.line.len() && ch.free_flag() {
            rest = &rest[rest.chars().next().unwrap().len_utf8()..];
        }
        let text = r.text(&format!("{}{c}{rest}", &r.line[..i]));
        ch.note(|| format!("{} v{v} {text:?}", r.part.name()));
        exercise(mode, r.part, &text, v)
    });
    ctx.space("records with two edits", 0, &|ch| {
        let vi = if crate::engine::thorough() { *ch.of(&[0usize, 7, 11]) } else { 11 };
        let v = VERSIONS[vi];
        let r = ch.of(&recs[vi]);
        // the quick tier edits neighbouring places
        let n = r.line.chars().count() + 1;
        let at = ch.free(n);
        let Some(line) = edit(ch, &r.line, at) else { return Ok(()) };
        let m = line.chars().count() + 1;
        let at2 = if crate::engine::thorough() { ch.free(m) } else { (at + ch.free(3)).min(m - 1) };
        let Some(line) = edit(ch, &line, at2) else { return Ok(()) };
        let text = r.text(&line);
        ch.note(|| format!("{} v{v} {text:?}", r.part.name()));
        exercise(mode, r.part, &text, v)
    });
    let files: Vec<(u8, String)> = VERSIONS.iter().map(|v| (*v, gen::default_file(*v).print(*v))).collect();
    let files = &files;
    ctx.space("whole files with one edit", 0, &|ch| {
        let (v, f) = if crate::engine::thorough() {
            ch.of(files)
        } else {
            let i = *ch.of(&[0usize, 11]);
            &files[i]
        };
        let at = ch.free(f.chars().count() + 1);
        let Some(text) = edit(ch, f, at) else { return Ok(()) };
        ch.note(|| format!("v{v} {text:?}"));
        exercise(mode, Osu, &text, *v)
    });
    ctx.space("whole files with moved lines", 0, &|ch| {
        let (v, f) = {
            let i = *ch.of(&[0usize, 2, 11]);
            &files[i]
        };
        let mut l: Vec<&str> = f.lines().collect();
        let a = ch.free(l.len());
        match ch.free(3) {
            0 => {
                l.remove(a);
            }
            1 => {
                let b = ch.free(l.len());
                let x = l.remove(a);
                l.insert(b, x);
            }
            _ => {
                let b = ch.free(l.len());
                l.insert(b, l[a]);
            }
        }
        let text = l.join("\n");
        ch.note(|| format!("v{v} {text:?}"));
        exercise(mode, Osu, &text, *v)
    });
    let osb = MOsb {
        variables: Some(vec![("a".into(), "50".into()), ("bc".into(), "0,1".into())]),
        events: Some(
            (0..gen::CMD_KINDS)
                .map(|k| {
                    let mut e = gen::default_event(if k % 2 == 0 { 7 } else { 8 });
                    let mut l = gen::default_cmd(9 + k % 2, 3);
                    l.sub_mut().unwrap().push(gen::default_cmd(k, 1));
                    e.cmds = vec![gen::default_cmd(k, 50), l];
                    e
                })
                .collect(),
        ),
    }
    .print()
    .replace(",50,100,", ",$a,100,")
    .replace(",0.5,1", ",$a$bc");
    let osb = &osb;
    ctx.space("storyboards with one edit", 0, &|ch| {
        let at = ch.free(osb.chars().count() + 1);
        let Some(text) = edit(ch, osb, at) else { return Ok(()) };
        ch.note(|| format!("{text:?}"));
        exercise(mode, Osb, &text, 14)
    });
    ctx.space("long texts", 0, &|ch| {
        let v = *ch.of(&[3u8, 14]);
        let n = *ch.of(if crate::engine::thorough() { &[1000usize, 30_000, 300_000][..] } else { &[1000usize, 20_000] });
        let t = *ch.of(&["[", "]", "\n", " ", "_", ":", ",", "|", "0", "9", "-", "é", "[General]\n", "[\n", "//\n", "a:b\n", "0,0,a\n", "\u{feff}", "\r"]);
        let part = *ch.of(&PARTS);
        let mut text = String::new();
        match part {
            Osu => {
                if ch.free_flag() {
                    text = format!("osu file format v{v}\n");
                }
            }
            Hits => text += *ch.of(&["", "1,2,3,2,0,B|", "1,2,3,1,0,", "1,2,3,128,"]),
            Events => text += *ch.of(&["", "Sprite,Pass,Centre,a,0,0\n ", "Sprite,Pass,Centre,a,0,0\n F,0,1,2,", "0,0,"]),
            _ => {}
        }
        text += &t.repeat(n);
        ch.note(|| format!("{} v{v} {t:?} repeated {n} times", part.name()));
        exercise(mode, part, &text, v)
    });
    if matches!(mode, Mode::Safe) {
        ctx.space("nested commands in a process of their own", 0, &|ch| {
            let levels = *ch.of(if crate::engine::thorough() {
                &[1usize, 2, 5, 10, 20, 50, 100, 200, 300, 500, 700, 1000, 2000, 3000][..]
            } else {
                &[1, 10, 100, 300, 500, 1000]
            });
            let kind = ch.free(NEST.len());
            ch.note(|| format!("{levels} levels of {:?}", NEST[kind]));
            let exe = std::env::current_exe().map_err(|e| Fail::Violation(e.to_string()))?;
            let out = std::process::Command::new(exe).args(["--nest", &levels.to_string(), &kind.to_string()]).output().map_err(|e| Fail::Violation(e.to_string()))?;
            let err = String::from_utf8_lossy(&out.stderr);
            match out.status.success() {
                true => Ok(()),
                false => {
                    Err(Fail::Violation(format!("{levels} nested commands of the kind {:?}: {}", NEST[kind], err.trim().lines().last().unwrap_or("no message"))))
                }
            }
        });
    }
    ctx.space("single values", 0, &|ch| {
        // every small type of the interface that is read from text on its own
        let s = ch.of(small::SMALL);
        let v = gen::version(ch);
        let mut text = String::new();
        let tokens: Vec<&str> = NASTY.iter().chain(s.tokens).copied().collect();
        let n = if s.tokens.is_empty() { 1 } else { 2 };
        for _ in 0..n {
            text += tokens[ch.free(tokens.len())];
        }
        ch.note(|| format!("{} v{v} {text:?}", s.name));
        let r = no_panic(&format!("reading {} at version {v} from {text:?}", s.name), || (s.go)(&text, v))?;
        let Some(printed) = r else { return Ok(()) };
        if mode == Mode::Stable {
            if let Some(p) = &printed.at(v) {
                let back = (s.go)(p, v);
                match back.map(|x| x.at(v)) {
                    Some(Some(q)) if q == *p => {}
                    x => {
                        let m = format!("{} read at version {v} from {text:?} is printed as {p:?}, which gives {x:?}", s.name);
                        let known = v == 3
                            && s.name == "ho::HitObject"
                            && Hits.parse(&text, 3).is_ok_and(|x| x.is_some_and(|x| separator_in_position(&x.view())));
                        return Err(if known { Fail::Known(SEPARATOR, m) } else { Fail::Violation(m) });
                    }
                }
            }
        }
        Ok(())
    });
}

pub fn c01(ctx: &mut Ctx) {
    spaces(ctx, Mode::Safe);
}

pub fn c02(ctx: &mut Ctx) {
    spaces(ctx, Mode::Stable);
}
