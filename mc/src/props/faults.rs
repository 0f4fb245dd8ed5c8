//! C34: the error for a broken file or section tells what is wrong with it.

use crate::engine::{Ch, Ctx, R};
use crate::gen;
use crate::imp::*;
use crate::model::*;
use crate::props::kv;
use crate::report::ensure;

/// What is wrong, and words one of which groups the message holds.
#[derive(Clone, Debug)]
struct Fault {
    what: &'static str,
    words: &'static [&'static [&'static str]],
    /// repeated in the message
    quote: String,
}
fn fault(what: &'static str, words: &'static [&'static [&'static str]], quote: &str) -> Fault {
    Fault { what, words, quote: quote.to_string() }
}

fn tells(text: &str, v: u8, msg: &str, f: &Fault) -> R {
    let m = msg.to_lowercase();
    let ok = f.words.iter().any(|w| w.iter().all(|w| m.contains(w))) && msg.contains(&f.quote);
    ensure(ok, || format!("v{v} {text:?}: the error is {msg:?}, but {} {:?}", f.what, f.quote))
}

const NO_VERSION: &[&[&str]] = &[&["version", "defined wrong"], &["version", "missing"]];
const BAD_VERSION: &[&[&str]] = &[&["invalid", "version"]];
const EARLY: &[&[&str]] = &[&["unexpected line"]];
const UNKNOWN: &[&[&str]] = &[&["unknown section"]];
const TWICE: &[&[&str]] = &[&["multiple sections"], &["duplicate section"], &["same name"]];
const NO_OPEN: &[&[&str]] = &[&["opening bracket", "missing"]];
const NO_CLOSE: &[&[&str]] = &[&["closing bracket", "missing"]];
const NO_DOLLAR: &[&[&str]] = &[&["missing", "$"]];
const NO_EQUALS: &[&[&str]] = &[&["missing", "="]];
const NO_COLON: &[&[&str]] = &[&["colon"]];
/// Why a text is no `Integer`.
fn why(t: &str) -> &'static [&'static [&'static str]] {
    let (minus, digits) = match t.strip_prefix(['+', '-']) {
        Some(d) => (t.starts_with('-'), d),
        None => (false, t),
    };
    match () {
        _ if t.is_empty() => &[&["empty string"]],
        _ if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) => &[&["digit"]],
        _ if minus => &[&["too small"]],
        _ => &[&["too large"]],
    }
}
const BOOL: &[&[&str]] = &[&["0 or 1"]];
const KEY: [&[&[&str]]; 4] = [
    &[&["key doesn't exist", "general"]],
    &[&["key doesn't exist", "editor"]],
    &[&["key doesn't exist", "metadata"]],
    &[&["key doesn't exist", "difficulty"]],
];
const AGAIN: [&[&[&str]]; 4] = [
    &[&["duplicate field", "general"]],
    &[&["duplicate field", "editor"]],
    &[&["duplicate field", "metadata"]],
    &[&["duplicate field", "difficulty"]],
];

const GAPS: [&str; 5] = ["\n", "", "\n\n", " \n", "\n\t\n// c\n \n"];

/// The lines of a section of a file in which every section differs.
fn good(part: Part, v: u8) -> &'static str {
    match part {
        General => "Mode: 0\n",
        Editor => "GridSize: 4\n",
        Metadata => "Title:a\n",
        Difficulty => "CircleSize:4\n",
        Events => "0,0,bg.jpg\n",
        Timing if v == 3 => "100,2\n",
        Timing if v == 4 => "100,2,4,1,1\n",
        Timing => "100,2,4,1,1,60\n",
        Colours => "Combo1 : 1,2,3\n",
        _ => "1,2,300,1,0\n",
    }
}

/// A faulty header, and what is told about it as header `at` of the file.
fn header(ch: &mut Ch, names: &[&str], at: usize) -> Option<(String, Fault)> {
    Some(match ch.free(4) {
        0 => {
            let all = [
                "[Foo]", "[general]", "[GENERAL]", "[ Events]", "[Events ]", "[]", "[ ]", "[Event]", "[HitObject]", "[Variable]", "[é]", "[Fonts]",
                "[Colors]", "[0]", "[[Events]",
            ];
            (ch.of(&all).to_string(), fault("there is an unknown section", UNKNOWN, ""))
        }
        1 => {
            if at == 0 {
                return None;
            }
            let n = names[ch.free(at)];
            (format!("[{n}]"), fault("a section appears twice", TWICE, ""))
        }
        2 => {
            let t = *ch.of(&["[General", "[Events", "[", "[Foo", "[Events x", "[é", "[//"]);
            (t.to_string(), fault("a header has no closing bracket", NO_CLOSE, t))
        }
        _ => {
            if at > 0 {
                return None;
            }
            let t = *ch.of(&["General]", "Events]", "]", "x]", "Foo bar]", "é]", "Events] ]", "]]"]);
            (t.to_string(), fault("a header has no opening bracket", NO_OPEN, t))
        }
    })
}

pub fn c34(ctx: &mut Ctx) {
    let osu = ["General", "Editor", "Metadata", "Difficulty", "Events", "TimingPoints", "Colours", "HitObjects"];
    ctx.space("version lines", ctx.b(2, 3), &|ch| {
        let all = [
            "", "x", "osu file format", "osu file format 14", "Osu file format v14", "osu file formatv14", "osu  file format v14", "[General]", "// c",
            "osu file format V14", "osu file forma v14", "v14", "14", "\u{feff}x", "\u{feff}\u{feff}osu file format v14", "xosu file format v14",
            "osu file format v", "osu file format vx", "osu file format v0", "osu file format v2", "osu file format v15", "osu file format v255",
            "osu file format v256", "osu file format v1000", "osu file format v-1", "osu file format v-14", "osu file format v14x",
            "osu file format v14.0", "osu file format v1 4", "osu file format v14 // c", "osu file format v0x0e", "osu file format vv14",
            "osu file format v99999999999999999999", "osu file format v１４", "\u{feff}osu file format v", "\u{feff}osu file format v2",
            "osu file format v1", "osu file format v13.5", "osu file format v14,",
        ];
        let line = *ch.of(&all);
        let number = line.trim_start_matches('\u{feff}').starts_with("osu file format v") && !line.starts_with("\u{feff}\u{feff}");
        let f = if number {
            fault("the version is no number from 3 to 14", BAD_VERSION, "")
        } else {
            fault("there is no version line", NO_VERSION, "")
        };
        let before = *ch.dev_of(&["", "\n", " \n\t\n"]);
        let after = *ch.dev_of(&["\n\n[General]\nMode: 0\n", "", "\n", "\nosu file format v14\n", "\n[Foo]\n", "\r\n\r\n[Events", "\njunk"]);
        let text = format!("{before}{line}{after}");
        if line.is_empty() && after.trim_start().starts_with("osu file") {
            return Ok(());
        }
        ch.note(|| format!("{text:?}"));
        let e = must_fail(Osu, &text, 14, f.what)?;
        tells(&text, 14, &e.msg, &f)
    });
    ctx.space("sections of .osu files", ctx.b(3, 4), &|ch| {
        let v = *ch.of(&[3u8, 5, 14]);
        let start = ch.free(8);
        let names: Vec<&str> = (0..8).map(|i| osu[(i + start) % 8]).collect();
        let at = ch.free(if crate::engine::thorough() { 9 } else { 5 });
        let Some((bad, f)) = header(ch, &names, at) else { return Ok(()) };
        let mut text = format!("osu file format v{v}\n");
        let gap = *ch.dev_of(&GAPS);
        for n in &names[..at] {
            text += "\n";
            text += &format!("[{n}]\n");
            if !ch.flag() {
                let i = osu.iter().position(|x| x == n).unwrap();
                text += good(SECTIONS[i], v);
            }
        }
        if at > 0 && gap.contains("//") && names[at - 1] != "Events" {
            // no comments in these
            return Ok(());
        }
        text += gap;
        text += &bad;
        text += *ch.dev_of(&["\nMode: 0\n", "", "\n", "\n\n", "\n[Foo]\n[Foo]\n", "\n[Bar", "\nx\n[General]\n[General]\n"]);
        if ch.flag() {
            text = text.replace('\n', "\r\n");
        }
        ch.note(|| format!("{text:?}"));
        let e = must_fail(Osu, &text, v, f.what)?;
        tells(&text, v, &e.msg, &f)
    });
    ctx.space("sections of .osb files", ctx.b(3, 4), &|ch| {
        let names = if ch.free_flag() { ["Variables", "Events"] } else { ["Events", "Variables"] };
        let at = ch.free(3);
        let Some((bad, f)) = header(ch, &names, at) else { return Ok(()) };
        let gap = *ch.dev_of(&GAPS);
        let mut text = String::new();
        if ch.flag() {
            text += "// c\n\n";
        }
        for n in &names[..at] {
            text += &format!("[{n}]\n");
            if !ch.flag() {
                text += if *n == "Events" { "Sample,1,0,a.wav,5\n" } else { "$a=1\n" };
            }
        }
        if at > 0 && gap.contains("//") && names[at - 1] == "Variables" {
            return Ok(());
        }
        text += gap;
        text += &bad;
        text += *ch.dev_of(&["\n", "", "\n\n", "\n$a=1\n", "\n[Foo]\n[Foo]\n", "\n[Bar", "\nx\n[Events]\n[Events]\n"]);
        if ch.flag() {
            text = text.replace('\n', "\r\n");
        }
        ch.note(|| format!("{text:?}"));
        let e = must_fail(Osb, &text, 14, f.what)?;
        tells(&text, 14, &e.msg, &f)
    });
    ctx.space("text before the first section", ctx.b(2, 3), &|ch| {
        let osb = ch.free_flag();
        let line = *ch.of(&["x", "Mode: 0", "0,0,a.png", "General", "x[General]", "/ c", "$a=1", "osu file format v14", "é", "] x", "-"]);
        if line.ends_with(']') {
            return Ok(());
        }
        let gap = |ch: &mut Ch| *ch.dev_of(&["\n", "\n\n", "\n// c\n", "\n//[c]\n", " \n"]);
        let mut text = if osb { String::new() } else { "osu file format v14".to_string() };
        if !osb {
            text += "\n";
        }
        if ch.flag() {
            text += gap(ch);
        }
        text += line;
        text += gap(ch);
        text += *ch.dev_of(&["[Events]\n", "", "[Foo]", "General]", "[Events", "y\n[Events]\n"]);
        if ch.flag() {
            text = text.replace('\n', "\r\n");
        }
        ch.note(|| format!("{text:?}"));
        let f = fault("there is text before the first section", EARLY, "");
        let e = must_fail(if osb { Osb } else { Osu }, &text, 14, f.what)?;
        tells(&text, 14, &e.msg, &f)
    });
    ctx.space("variables", ctx.b(2, 3), &|ch| {
        let (bad, f) = if ch.free_flag() {
            let t = *ch.of(&["a=1", "=", "=1", "x", "é=1", "a$=1", "a$b=c", "_$a=1", "-", "a", "// c", "//$a=1", "\\$a=1", "\"$a\"=1"]);
            (t, fault("a variable has no `$`", NO_DOLLAR, ""))
        } else {
            let t = *ch.of(&["$", "$a", "$a b", "$$", "$a:1", "$é", "$a,1", "$a-1", "$a // c", "$0"]);
            (t, fault("a variable has no `=`", NO_EQUALS, ""))
        };
        let good = "$v=7\n";
        let before = ch.free(3);
        let blank = *ch.dev_of(&["", "\n", " \n\n"]);
        let mut text = format!("[Variables]\n{}{blank}{bad}\n{}", good.repeat(before), good.repeat(ch.dev(2)));
        match ch.dev(5) {
            0 => {}
            1 => text += "[Events]\nSample,1,0,a.wav,5\n",
            2 => text += "=\n$\n",
            3 => text += "[Foo]\n",
            _ => text = format!("[Events]\nSample,1,0,a.wav,5\n\n{text}"),
        }
        if ch.flag() {
            text = text.replace('\n', "\r\n");
        }
        ch.note(|| format!("{text:?}"));
        let e = must_fail(Osb, &text, 14, f.what)?;
        tells(&text, 14, &e.msg, &f)
    });
    let section = |ch: &mut Ch, n: usize, lines: Vec<String>, v: u8, f: &Fault| -> R {
        let mut text = lines.join("\n");
        let mut part = SECTIONS[n];
        match ch.dev(4) {
            0 => {}
            1 => text = format!("\n{text}\n"),
            2 => text = text.replace('\n', "\n \n"),
            _ => {
                part = Osu;
                let other = if n == 2 { "[Difficulty]\nCircleSize:4\n" } else { "[Metadata]\nTitle:a\n" };
                text = format!("osu file format v{v}\n\n{other}\n[{}]\n{text}\n\n[HitObjects]\nx\n", osu[n]);
            }
        }
        if part != Osu && text.starts_with('\n') {
            // sections are given without leading blank lines
            text = text.trim_start().to_string();
        }
        ch.note(|| format!("v{v} {} {text:?}", part.name()));
        let e = must_fail(part, &text, v, f.what)?;
        tells(&text, v, &e.msg, f)
    };
    let section = &section;
    ctx.space("values of key-value sections", ctx.b(2, 3), &|ch| {
        let n = ch.free(4);
        let sec = SECS[n];
        let i = ch.free(sec.fields().len());
        let fld = &sec.fields()[i];
        let v = gen::version(ch);
        let token = *ch.of(kv::VALUE_TOKENS);
        if kv::ignored(fld, v) || kv::value_of(fld, token).is_some() {
            return Ok(());
        }
        let int = token.parse::<i128>().is_ok();
        let f = match fld.kind {
            FK::Int => fault("a number is invalid", why(token), ""),
            // the first bad number of the list
            FK::Ints => match token.split(',').find(|t| t.parse::<i32>().is_err()) {
                Some("") => fault("a list of numbers has an empty item", &[&["comma list"]], ""),
                Some(t) => fault("a list of numbers is invalid", why(t), ""),
                None => return Ok(()),
            },
            FK::Bool if int && token.len() < 5 => fault("a value is neither 0 nor 1", BOOL, ""),
            FK::Bool => fault("a value is neither 0 nor 1", &[&["0 or 1"], &["digit"], &["too large"], &["too small"], &["empty string"]], ""),
            FK::Num(_) if fld.key == "Mode" && int && token.len() < 5 && !token.starts_with('-') => fault("a mode is unknown", &[&["unknown", "mode"]], ""),
            FK::Num(_) if fld.key == "Mode" => fault("a mode is invalid", &[&["unknown", "mode"], &["digit"], &["too large"], &["empty string"]], ""),
            FK::Num(_) if int && token.len() < 5 && !token.starts_with('-') => fault("a countdown is unknown", &[&["unknown", "countdown"]], ""),
            FK::Num(_) => fault("a countdown is invalid", &[&["unknown", "countdown"], &["integer"], &["digit"], &["too large"], &["empty string"]], ""),
            FK::Name(_) if fld.key == "SampleSet" => fault("a sample set is unknown", &[&["unknown", "sampleset"]], ""),
            FK::Name(_) => fault("an overlay position is unknown", &[&["unknown", "overlayposition"]], ""),
            _ => return Ok(()),
        };
        let other = |j: usize| {
            let o = &sec.fields()[(i + j) % sec.fields().len()];
            format!("{}: {}", o.key, o.text(&gen::default_value(o)))
        };
        let mut lines = vec![format!("{}:{}{token}", fld.key, ch.dev_of(&[" ", ""]))];
        if ch.flag() {
            lines.insert(0, other(1));
        }
        if ch.flag() {
            lines.push(other(2));
        }
        section(ch, n, lines, v, &f)
    });
    ctx.space("numbers in lists", 0, &|ch| {
        let (n, i) = *ch.of(&SECS.iter().enumerate().flat_map(|(n, s)| s.fields().iter().enumerate().filter(|(_, f)| matches!(f.kind, FK::Ints)).map(move |(i, _)| (n, i))).collect::<Vec<_>>());
        let fld = &SECS[n].fields()[i];
        let v = *ch.of(&[3u8, 5]);
        let items = ["1", "", "x", "2147483647", "2147483648", "-2147483648", "-2147483649", "-", "+", "1.5", "99999999999999999999", "-99999999999999999999", "é", "1x"];
        let mut token = ch.of(&items).to_string();
        for _ in 0..ch.free(if crate::engine::thorough() { 4 } else { 3 }) {
            token += &format!(",{}", ch.of(&items));
        }
        if kv::ignored(fld, v) || kv::value_of(fld, &token).is_some() {
            return Ok(());
        }
        let f = match token.split(',').find(|t| t.parse::<i32>().is_err()) {
            Some("") => fault("a list of numbers has an empty item", &[&["comma list"]], ""),
            Some(t) => fault("a list of numbers is invalid", why(t), ""),
            None => return Ok(()),
        };
        section(ch, n, vec![format!("{}: {token}", fld.key)], v, &f)
    });
    ctx.space("keys of key-value sections", ctx.b(3, 4), &|ch| {
        let n = ch.free(4);
        let sec = SECS[n];
        let fields = sec.fields();
        let v = gen::version(ch);
        let line = |i: usize| {
            let o = &fields[i % fields.len()];
            format!("{}: {}", o.key, o.text(&gen::default_value(o)))
        };
        let i = ch.free(fields.len());
        let mut lines = vec![line(i)];
        let before = ch.dev(3);
        let between = ch.dev(3);
        let f = match ch.free(3) {
            0 => {
                let all = ["Foo", "foo bar", "", " ", "é", "0", "mode", "TITLE", "Gridsize", "//Mode", "$a", "CircleSize ", "Title.", "BeatmapSetId", "Bookmark"];
                let key = match ch.free(3) {
                    0 => ch.of(&all).to_string(),
                    1 => fields[i].key.to_lowercase(),
                    _ => {
                        // a key of another section
                        let s = SECS[ch.free(4)];
                        let o = &s.fields()[ch.free(s.fields().len())];
                        if fields.iter().any(|f| f.key == o.key) {
                            return Ok(());
                        }
                        o.key.to_string()
                    }
                };
                lines[0] = format!("{key}: 1");
                fault("a key is unknown", KEY[n], "")
            }
            1 => {
                for j in 0..between {
                    lines.push(line(i + 1 + j));
                }
                lines.push(line(i));
                fault("a key is repeated", AGAIN[n], "")
            }
            _ => {
                lines[0] = ch.of(&["x", "Mode", "Title", "é", "=", "a=1", "//c", "Mode 0", "0", "-", "Mode；0", "CircleSize,4", "Editor]"]).to_string();
                fault("a line has no colon", NO_COLON, "")
            }
        };
        for j in 0..before {
            let l = line(i + 3 + j);
            // not in the way of a repeated key
            if !lines.contains(&l) {
                lines.insert(0, l);
            }
        }
        if f.what == "a line has no colon" && between > 0 {
            lines.extend((0..between).map(|j| line(i + 1 + j)));
            // a colon of the next line would end its key
            if !lines.iter().any(|l| !l.contains(':')) {
                return Ok(());
            }
        }
        section(ch, n, lines, v, &f)
    });
    // of two faults the first is told: the same error as for the first alone
    const BAD: [(usize, &[&str]); 8] = [
        (0, &["Mode: x", "Foo: 1", "Mode: 9", "LetterboxInBreaks: 2", "SampleSet: q"]),
        (1, &["GridSize: x", "Foo: 1", "Bookmarks: 1,x"]),
        (2, &["BeatmapID:x", "Foo:1"]),
        (3, &["Foo:1", "circlesize:4"]),
        (4, &["0,x,a.png", "9,1", "Sprite,Foo,Centre,a.png,0,0", "Video,1"]),
        (5, &["x", "100", "100,2,x,1,1", "100,2,4,1,y"]),
        (6, &["x", "Combo1 : 1,2", "Combo1 : x,2,3", "Foo : 1,2,3"]),
        (7, &["x", "1,2,300,1", "1,2,300,2,0", "1,2,300,1,x", "1,2,300,8,0"]),
    ];
    let lines_of = |n: usize, v: u8| -> Vec<String> {
        if n < 4 {
            let s = SECS[n];
            s.fields().iter().skip(1).filter(|f| !["Mode", "GridSize", "BeatmapID"].contains(&f.key)).take(3).map(|f| format!("{}: {}", f.key, f.text(&gen::default_value(f)))).collect()
        } else {
            vec![good(SECTIONS[n], v).trim().to_string(); 3]
        }
    };
    let lines_of = &lines_of;
    ctx.space("two bad lines in a section", ctx.b(2, 3), &|ch| {
        let (n, bad) = *ch.of(&BAD);
        let v = *ch.of(&[5u8, 14]);
        let (a, b) = (*ch.of(bad), *ch.of(bad));
        if n < 4 && a.split(':').next() == b.split(':').next() {
            return Ok(());
        }
        let g = lines_of(n, v);
        let k = [0, 1, 2][ch.dev(3)];
        let between = [0, 1][ch.dev(2)];
        let mut lines: Vec<String> = g[..k].to_vec();
        lines.push(a.to_string());
        lines.extend(g[k..k + between.min(3 - k)].iter().cloned());
        let mut one = lines.clone();
        lines.push(b.to_string());
        one.push(g[2].clone());
        let part = SECTIONS[n];
        let (two, one) = (lines.join("\n"), one.join("\n"));
        ch.note(|| format!("v{v} {} {two:?} as {one:?}", part.name()));
        let e1 = must_fail(part, &one, v, "a line is malformed")?;
        let e2 = must_fail(part, &two, v, "two lines are malformed")?;
        ensure(e1 == e2, || format!("v{v} {two:?}: the error is {e2:?}, for the first bad line alone it is {e1:?}"))
    });
    ctx.space("two bad sections in a file", ctx.b(2, 3), &|ch| {
        let v = *ch.of(&[5u8, 14]);
        let (m, bad_m) = *ch.of(&BAD);
        let (n, bad_n) = *ch.of(&BAD);
        if m == n {
            return Ok(());
        }
        let (a, b) = (*ch.of(bad_m), *ch.of(bad_n));
        let gap = *ch.dev_of(&["\n", "", "\n\n"]);
        // the second fault: a bad line, or the header
        let second = ch.dev(5);
        let file = |both: bool| {
            let mut t = format!("osu file format v{v}\n\n[{}]\n{}\n{a}\n{gap}", osu[m], lines_of(m, v)[0]);
            if both {
                match second {
                    0 => t += &format!("[{}]\n{}\n{b}\n", osu[n], lines_of(n, v)[0]),
                    1 => t += &format!("[Foo]\n{b}\n"),
                    2 => t += &format!("[{}]\n{b}\n", osu[m]),
                    3 => t += &format!("[{}\n{b}\n", osu[n]),
                    _ => t += "[\n",
                }
            }
            t
        };
        let (two, one) = (file(true), file(false));
        ch.note(|| format!("{two:?}"));
        let e1 = must_fail(Osu, &one, v, "a line is malformed")?;
        let e2 = must_fail(Osu, &two, v, "two lines are malformed")?;
        ensure(e1 == e2, || format!("{two:?}: the error is {e2:?}, for the first fault alone it is {e1:?}"))
    });
    ctx.space("two faults in an .osb file", ctx.b(2, 3), &|ch| {
        let bad = [
            ("[Variables]\n$a=1\n", "x"),
            ("[Variables]\n$a=1\n", "$b"),
            ("[Events]\n", "Sample,x,0,a.wav,5"),
            ("[Events]\n", "Sprite,Pass"),
            ("[Events]\nSprite,Pass,Centre,a.png,0,0\n", " F,x,1,2,3"),
            ("", "[Foo]"),
            ("", "[Events"),
            ("[Variables]\n", "[Variables]"),
        ];
        let ((h1, a), (h2, b)) = (*ch.of(&bad), *ch.of(&bad));
        if h2.len() > 1 && h1.starts_with(&h2[..5]) {
            return Ok(());
        }
        let gap = *ch.dev_of(&["\n", "", "\n\n"]);
        let one = format!("{h1}{a}\n{gap}");
        let two = format!("{one}{h2}{b}\n");
        ch.note(|| format!("{two:?}"));
        let e1 = must_fail(Osb, &one, 14, "it has a fault")?;
        let e2 = must_fail(Osb, &two, 14, "it has two faults")?;
        ensure(e1 == e2, || format!("{two:?}: the error is {e2:?}, for the first fault alone it is {e1:?}"))
    });
}
