//! C04, C28: the lines of errors and their messages.

use crate::engine::{Ch, Ctx, Fail, R};
use crate::gen;
use crate::imp::*;
use crate::props::files::{section_lines, small_file};
use crate::report::ensure;

/// Malformed lines of a section. `None`: a copy of the section's first line.
fn bad_lines(part: Part, version: u8) -> Vec<Option<&'static str>> {
    let mut v: Vec<Option<&'static str>> = match part {
        General => vec![
            "Foo: 1", "no colon", "Mode: 9", "Countdown: x", "StackLeniency", "LetterboxInBreaks: 2", "EditorBookmarks: 1,x", "SampleSet: Loud",
            "CountdownOffset: 1.5", "é", "mode: 1", "UseSkinSprites:",
        ],
        Editor => vec!["Foo: 1", "no colon", "GridSize: x", "CurrentTime: 1.5", "GridSize:", "bookmarks: 1", "é", "CurrentTime: 2147483648"],
        Metadata => vec!["Foo: 1", "no colon", "BeatmapID: x", "BeatmapSetID: 1.5", "BeatmapID:", "tags: x", "é", "BeatmapSetID: 99999999999"],
        Difficulty => vec!["Foo: 1", "no colon", "overallDifficulty: 1", "é", "Overall", "x:"],
        Events => vec![
            "x", "0", "0,x,bg", "2,1", "2,x,5", "7,1,2", "Sprite,Nope,Centre,a,0,0", "Sprite,Pass,Centre,a,0", "Animation,Pass,Centre,a,0,0,1",
            "4,9,0,a", "6,1,0,a,101", "3,1,2,3", "3,1,2,3,256", "Sample,0,9,a", "Sample,x,0,a,5", "      F,0,1,2,0", " Q,1", " F,0,1,2", " L,1", " T,Nope,1,2", "é",
            "Video,x,a", "Break,1", "Colour,1,2,3,4", " M,0,1,2,3", " C,0,1,2,3,4",
        ],
        // version 3 has two fields, and a beat length may be any text
        Timing if version < 4 => vec!["x", "1", "é"],
        Timing => vec!["x", "1", "1,2,x", "1,2,4,x", "1,2,4,1,-1", "1,2,4,1,1,x", "1,2,4,1,1,5,2", "1,2,4,1,1,5,1,x", "é"],
        Colours => vec!["x", "Combo1 : 1,2", "Combo1 : 1,2,256", "Foo : 1,2,3", "Combo : 1,2,3", "Combox : 1,2,3", "SliderBorder", "é", "Combo1 1,2,3"],
        _ => vec![
            "x", "1", "1,2,3", "1,2,3,x", "1,2,3,1", "1,2,3,1,x", "1,2,3,0,0", "1,2,3,8,0", "1,2,3,2,0", "1,2,3,2,0,X|1:2,1,5", "1,2,3,2,0,B|1,1,5",
            "1,2,3,2,0,B|1:2,x,5", "1,2,3,128,0", "1,2,3,1,0,x", "1,2,3,1,0,0:0:0:101:", "é",
        ],
    }
    .into_iter()
    // not read at all by old versions
    .filter(|l: &&str| !(version < 5 && l.starts_with("Countdown:") || version < 4 && l.starts_with("SampleSet")))
    .map(Some)
    .collect();
    if part.kv().is_some() {
        v.push(None);
    }
    v
}

/// A line of a text under construction.
struct Text {
    lines: Vec<String>,
    /// sections before the last header that end in blank lines
    trailing: usize,
    /// whether the current section has content, and the blank lines after it
    content: bool,
    blanks: usize,
    in_section: bool,
}

impl Text {
    fn new() -> Self {
        Text { lines: vec![], trailing: 0, content: false, blanks: 0, in_section: false }
    }
    fn blank(&mut self, n: usize) {
        for _ in 0..n {
            self.lines.push(String::new());
        }
        self.blanks += n;
    }
    fn header(&mut self, l: &str) {
        if self.in_section && self.content && self.blanks > 0 {
            self.trailing += 1;
        }
        self.lines.push(l.to_string());
        self.content = false;
        self.blanks = 0;
        self.in_section = true;
    }
    fn record(&mut self, l: &str) {
        self.lines.push(l.to_string());
        self.content = true;
        self.blanks = 0;
    }
}

/// The line of an error of a whole file. The known finding: one line too small for every
/// earlier section that has content and ends in blank lines.
fn line_of_file(text: &str, bad: &Bad, at: usize, trailing: usize) -> R {
    if bad.line == at {
        return Ok(());
    }
    let m = format!("{text:?} is rejected on line {} instead of {at} ({})", bad.line, bad.display);
    if trailing > 0 && bad.line + trailing == at {
        return Err(Fail::Known("blank-lines-before-header", m));
    }
    Err(Fail::Violation(m))
}

fn start(ch: &mut Ch, v: u8, t: &mut Text) {
    let n = [0usize, 1, 3][ch.dev(3)];
    for _ in 0..n {
        t.lines.push(String::new());
    }
    t.lines.push(format!("osu file format v{v}"));
    match ch.dev(5) {
        0 => t.lines.push(String::new()),
        1 => {}
        2 => t.lines.extend(["// a comment".to_string(), String::new()]),
        3 => t.lines.extend([String::new(), String::new(), " //[x]".to_string()]),
        _ => t.lines.extend(["//c".to_string()]),
    }
}
fn finish(ch: &mut Ch, t: &Text) -> String {
    let nl = ["\n", "\r\n"][ch.dev(2)];
    let mut text = t.lines.join(nl);
    match ch.dev(4) {
        0 => {}
        1 => text += nl,
        2 => text += &nl.repeat(3),
        // the mark stands right before the version line
        _ if !t.lines[0].is_empty() => text = format!("\u{feff}{text}"),
        _ => {}
    }
    text
}

/// Records before and after the malformed line: `pos` records stand before it.
fn body(ch: &mut Ch, t: &mut Text, lines: &[String], bad: Option<(usize, &str)>) -> Option<usize> {
    let mut at = None;
    for i in 0..=lines.len() {
        if let Some((p, b)) = bad {
            if p == i {
                at = Some(t.lines.len());
                t.record(b);
                t.blank([0usize, 1, 2][ch.dev(3)]);
            }
        }
        if i < lines.len() {
            t.record(&lines[i]);
            if i + 1 < lines.len() {
                t.blank([0usize, 1, 3][ch.dev(3)]);
            }
        }
    }
    at
}

/// A malformed line at a place of a section. `None` if it is none there.
fn place(ch: &mut Ch, part: Part, v: u8, lines: &[String]) -> Option<(usize, String)> {
    let all = bad_lines(part, v);
    let b = *ch.of(&all);
    let p = ch.free(lines.len() + 1);
    match b {
        // a repeated key: the second line is the wrong one
        None if p == 0 => None,
        None => Some((p, lines[0].clone())),
        // keys that stand in the section already are wrong there as well, on their second line only
        Some(b) => {
            let key = b.split(':').next().unwrap();
            if part.kv().is_some() && lines.iter().skip(p).any(|l| l.split(':').next() == Some(key)) {
                return None;
            }
            Some((p, b.to_string()))
        }
    }
}

pub fn c04(ctx: &mut Ctx) {
    let order_of = |ch: &mut Ch, v: u8| -> Vec<Part> {
        let mut o: Vec<Part> = SECTIONS.iter().copied().filter(|p| v >= 5 || *p != Colours).collect();
        match ch.dev(4) {
            0 => {}
            1 => o.reverse(),
            2 => o.rotate_left(3),
            _ => o.rotate_left(6),
        }
        o
    };
    ctx.space("one malformed record in a file", ctx.b(2, 3), &|ch| {
        let v = *ch.dev_of(&[14u8, 3, 5]);
        let m = small_file(v);
        let order = order_of(ch, v);
        let part = *ch.of(&order);
        let lines: Vec<Vec<String>> = order.iter().map(|p| section_lines(&m, *p)).collect();
        let i = order.iter().position(|p| *p == part).unwrap();
        let Some((p, bad)) = place(ch, part, v, &lines[i][1..]) else { return Ok(()) };
        let mut t = Text::new();
        start(ch, v, &mut t);
        let (mut at, mut trailing) = (0, 0);
        for (j, l) in lines.iter().enumerate() {
            t.header(&l[0]);
            t.blank([0usize, 1, 2][ch.dev(3)]);
            match ch.dev(if i == j { 1 } else { 2 }) {
                0 => {
                    if let Some(x) = body(ch, &mut t, &l[1..], (i == j).then_some((p, bad.as_str()))) {
                        (at, trailing) = (x, t.trailing);
                    }
                }
                // an empty section
                _ => {}
            }
            if j + 1 < lines.len() {
                t.blank([0usize, 1, 2][ch.dev(3)]);
            }
        }
        let text = finish(ch, &t);
        ch.note(|| format!("{text:?} line {at}"));
        let e = must_fail(Osu, &text, v, "a line is malformed")?;
        line_of_file(&text, &e, at, trailing)
    });
    ctx.space("blank lines everywhere", 0, &|ch| {
        // every combination of few blank lines around the sections of a short file
        let v = 14;
        let m = small_file(v);
        let parts = [*ch.of(&[General, Difficulty, Events]), *ch.of(&[Metadata, Timing]), *ch.of(&[Colours, Hits])];
        let i = ch.free(3);
        let which = ch.free(2);
        let mut t = Text::new();
        t.lines.push(format!("osu file format v{v}"));
        let n = ch.free(2);
        for _ in 0..n {
            t.lines.push(String::new());
        }
        let (mut at, mut trailing) = (0, 0);
        for (j, p) in parts.iter().enumerate() {
            let l = section_lines(&m, *p);
            t.header(&l[0]);
            t.blank(ch.free(2));
            let empty = ch.free_flag();
            if i == j {
                if which == 1 {
                    t.record(&l[1]);
                    t.blank(ch.free(2));
                }
                (at, trailing) = (t.lines.len(), t.trailing);
                t.record("x");
            } else if !empty {
                t.record(&l[1]);
                if l.len() > 2 && *p != Events {
                    t.blank(ch.free(2));
                    t.record(&l[2]);
                }
            }
            t.blank(ch.free(3));
        }
        let text = t.lines.join(*ch.of(&["\n", "\r\n"]));
        ch.note(|| format!("{text:?} line {at}"));
        let e = must_fail(Osu, &text, v, "a line is malformed")?;
        line_of_file(&text, &e, at, trailing)
    });
    ctx.space("headers and other lines of a file", ctx.b(2, 3), &|ch| {
        let v = *ch.of(&[3u8, 14]);
        let m = small_file(v);
        let order = order_of(ch, v);
        let mut t = Text::new();
        let what = ch.free(3);
        let bads: &[&str] = match what {
            0 => &["[Unknown]", "[general]", "[]", "[Unfinished", "[", "[Variables]"],
            1 => &["x", "key: value", "1,2,3,1,0", "/", "osu file format v14"],
            _ => &["repeated"],
        };
        let bad = *ch.of(bads);
        if what == 1 {
            // before the first section
            for _ in 0..ch.dev(3) {
                t.lines.push(String::new());
            }
            t.lines.push(format!("osu file format v{v}"));
            for _ in 0..ch.free(5) {
                t.lines.push(["", "//c", " ", "// [x]"][ch.dev(4)].to_string());
            }
            let at = t.lines.len();
            t.lines.push(bad.to_string());
            for _ in 0..ch.dev(3) {
                t.lines.push(String::new());
            }
            t.lines.extend(section_lines(&m, General));
            let text = finish(ch, &t);
            ch.note(|| format!("{text:?} line {at}"));
            let e = must_fail(Osu, &text, v, "there is text before the first section")?;
            return line_of_file(&text, &e, at, 0);
        }
        start(ch, v, &mut t);
        let p = ch.free(order.len() + 1);
        let twice = if what == 2 {
            if p == 0 {
                return Ok(());
            }
            Some(order[ch.free(p)])
        } else {
            None
        };
        let (mut at, mut trailing) = (0, 0);
        for j in 0..=order.len() {
            if j == p {
                let h = twice.map_or(bad.to_string(), |q| format!("[{}]", q.name()));
                t.header(&h);
                (at, trailing) = (t.lines.len() - 1, t.trailing);
                if ch.flag() {
                    t.record("//content");
                }
                t.blank([0usize, 1, 2][ch.dev(3)]);
            }
            if j < order.len() {
                let l = section_lines(&m, order[j]);
                t.header(&l[0]);
                t.blank([0usize, 1, 2][ch.dev(3)]);
                if !ch.flag() {
                    body(ch, &mut t, &l[1..], None);
                }
                t.blank([0usize, 1, 2][ch.dev(3)]);
            }
        }
        let text = finish(ch, &t);
        ch.note(|| format!("{text:?} line {at}"));
        let e = must_fail(Osu, &text, v, "a header is wrong")?;
        line_of_file(&text, &e, at, trailing)
    });
    ctx.space("version lines", 0, &|ch| {
        let n = *ch.of(&[0usize, 1, 2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1025, 65535, 65536, 65537]);
        let bad = *ch.of(&["osu file format v2", "osu file format v15", "osu file format vx", "osu file format", "x", "[General]", "osu file format v300"]);
        let nl = *ch.of(&["\n", "\r\n"]);
        let text = format!("{}{bad}{nl}{nl}[General]{nl}Mode: 0{nl}", nl.repeat(n));
        ch.note(|| format!("{bad:?} after {n} empty lines that end with {nl:?}"));
        let e = must_fail(Osu, &text, 14, "the version line is wrong")?;
        let short = if n < 10 { text.as_str() } else { "the file" };
        line_of_file(short, &e, n, 0)
    });
    ctx.space("sections on their own", ctx.b(3, 4), &|ch| {
        let v = *ch.of(&[5u8, 14]);
        let m = small_file(v);
        let part = *ch.of(&SECTIONS);
        let l = section_lines(&m, part);
        let Some((p, bad)) = place(ch, part, v, &l[1..]) else { return Ok(()) };
        let mut t = Text::new();
        // key-value sections do not start with blank lines
        if part.kv().is_none() {
            t.blank([0usize, 1, 2][ch.dev(3)]);
        }
        let at = body(ch, &mut t, &l[1..], Some((p, &bad))).unwrap();
        t.blank([0usize, 1, 2][ch.dev(3)]);
        let text = t.lines.join(["\n", "\r\n"][ch.dev(2)]);
        ch.note(|| format!("{} {text:?} line {at}", part.name()));
        let e = must_fail(part, &text, v, "a line is malformed")?;
        ensure(e.line == at, || format!("{} {text:?} is rejected on line {} instead of {at}", part.name(), e.line))
    });
    ctx.space("far down a file", 0, &|ch| {
        // many lines of one kind in one place of the file, before the malformed line
        let v = 14;
        let m = small_file(v);
        let (first, part) = (*ch.of(&[General, Events, Hits]), *ch.of(&[Metadata, Difficulty, Timing, Colours]));
        let n = *ch.of(if crate::engine::thorough() {
            &[9usize, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 4095, 4096, 4097, 32768, 65534, 65535, 65536, 65537][..]
        } else {
            &[9, 16, 17, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 512, 513, 1000, 65535, 65536, 65537]
        });
        let place = ch.free(7);
        let header = ch.free_flag();
        let mut t = Text::new();
        let many = |t: &mut Text, here: usize, line: &str| {
            if here == place {
                t.lines.extend(std::iter::repeat_n(line.to_string(), n));
                if line.is_empty() {
                    t.blanks += n;
                } else {
                    t.content = true;
                }
            }
        };
        many(&mut t, 0, "");
        t.record(&format!("osu file format v{v}"));
        many(&mut t, 1, "");
        many(&mut t, 2, "// a comment");
        t.blank(1);
        let l = section_lines(&m, first);
        t.header(&l[0]);
        many(&mut t, 3, "");
        if matches!(first, Events | Hits) {
            many(&mut t, 4, if first == Events { "//c" } else { &l[1] });
        }
        for l in &l[1..] {
            t.record(l);
        }
        many(&mut t, 5, "");
        let l = section_lines(&m, part);
        let (mut at, mut trailing) = (t.lines.len(), t.trailing);
        t.header(if header { "[Nope]" } else { &l[0] });
        if header {
            trailing = t.trailing;
        }
        many(&mut t, 6, "");
        if !header {
            trailing = t.trailing;
            at = t.lines.len();
            t.record("nope");
        }
        let text = t.lines.join(*ch.of(&["\n", "\r\n"]));
        ch.note(|| format!("{n} lines at place {place} between {} and {} ({header})", first.name(), part.name()));
        let e = must_fail(Osu, &text, v, "a line is malformed")?;
        line_of_file("the file", &e, at, trailing)
    });
    ctx.space("far down a storyboard", 0, &|ch| {
        let n = *ch.of(if crate::engine::thorough() {
            &[9usize, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 4096, 32768, 65535, 65536, 65537][..]
        } else {
            &[9, 17, 33, 64, 65, 128, 129, 255, 256, 257, 513, 1000, 65535, 65536, 65537]
        });
        let swap = ch.free_flag();
        let place = ch.free(6);
        let bad = ch.free(4);
        let mut t: Vec<String> = Vec::new();
        let many = |t: &mut Vec<String>, here: usize, line: &str| {
            if here == place {
                t.extend(std::iter::repeat_n(line.to_string(), n));
            }
        };
        many(&mut t, 0, "");
        many(&mut t, 1, "// a comment");
        let mut at = 0;
        for j in 0..2 {
            if (j == 0) == swap {
                t.push("[Events]".into());
                many(&mut t, 2, "");
                t.push("Sprite,Pass,Centre,a,0,0".into());
                many(&mut t, 3, " F,0,1,2,0");
                if bad == 0 {
                    at = t.len();
                    t.push([" Q,1", "nope"][ch.free(2)].into());
                }
            } else {
                t.push("[Variables]".into());
                many(&mut t, 4, "");
                t.push("$a=1".into());
                if place == 5 {
                    t.extend((0..n.min(2000)).map(|i| format!("$v{i:04}={i}")));
                }
                if bad == 1 {
                    at = t.len();
                    t.push("nope".into());
                }
            }
            if bad == 2 + j {
                at = t.len();
                t.push("[Nope]".into());
                if j == 0 {
                    t.push("x".into());
                }
            }
        }
        let text = t.join(*ch.of(&["\n", "\r\n"]));
        ch.note(|| format!("{n} lines at place {place}, the malformed line of kind {bad} is line {at}"));
        let e = must_fail(Osb, &text, 14, "a line is malformed")?;
        ensure(e.line == at, || {
            format!("a storyboard with {n} lines at place {place} and the malformed line {at} of kind {bad} is rejected on line {} ({})", e.line, e.display)
        })
    });
    ctx.space("malformed lines far down a list", 0, &|ch| {
        let v = 14;
        let part = *ch.of(&[Events, Timing, Colours, Hits]);
        let good = match part {
            Events => "0,0,bg",
            Timing => "1,2,4,1,1,5,1,0",
            Colours => "Combo1 : 1,2,3",
            _ => "1,2,3,1,0",
        };
        let n = *ch.of(if crate::engine::thorough() {
            &[0usize, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 3000, 4096, 10000, 32767, 32768, 65534, 65535, 65536, 65537, 131072][..]
        } else {
            &[0, 1, 2, 7, 8, 9, 16, 32, 63, 64, 127, 128, 255, 256, 257, 512, 1000, 3000, 65535, 65536]
        });
        let every = *ch.of(&[0usize, 1, 2, 5]);
        let after = *ch.of(&[0usize, 1, 10]);
        let bad = bad_lines(part, v)[0].unwrap();
        let mut t = Text::new();
        for i in 0..n {
            t.record(good);
            if every > 0 && i % every == 0 {
                t.blank(1);
            }
        }
        let at = t.lines.len();
        t.record(bad);
        for _ in 0..after {
            t.record(good);
        }
        let text = t.lines.join("\n");
        ch.note(|| format!("{} with {n} lines before {bad:?}", part.name()));
        let e = must_fail(part, &text, v, "a line is malformed")?;
        ensure(e.line == at, || format!("{} with the malformed line {at} is rejected on line {}", part.name(), e.line))?;
        let text = format!("osu file format v14\n\n[{}]\n{text}", part.name());
        let e = must_fail(Osu, &text, v, "a line is malformed")?;
        ensure(e.line == at + 3, || format!("a file with the malformed line {} is rejected on line {}", at + 3, e.line))
    });
    ctx.space("storyboards", ctx.b(3, 4), &|ch| {
        let vars = ["$a=1", "$b=2,3"];
        let events = ["Sprite,Pass,Centre,a,0,0", " F,0,$a,2,0", " L,1,2", "  M,0,1,,$b", "//c", "Animation,Fail,9,b,0,0,1,2,LoopOnce", " S,0,1,2,3"];
        // without the variables
        let plain = events.map(|l| match l {
            " F,0,$a,2,0" => " F,0,1,2,0",
            "  M,0,1,,$b" => "  M,0,1,,2,3",
            l => l,
        });
        let mut with_vars = false;
        let bad_var = ["x", "a=1", "$c", "=", "é", "$"];
        let bad_event = ["x", "Sprite,Nope,Centre,a,0,0", "       F,0,1,2,0", "0,x,a", "é", "Q", "Animation,Fail,9,b,0,0,x,2,LoopOnce"];
        let bad_head = ["[General]", "[Events", "[variables]", "[", "[]"];
        let swap = ch.flag();
        let what = ch.free(4);
        let bad = match what {
            0 => *ch.of(&bad_var),
            1 => *ch.of(&bad_event),
            2 => *ch.of(&bad_head),
            _ => *ch.of(&["x", "$a=1", "/", "Sprite,Pass,Centre,a,0,0", "osu file format v14"]),
        };
        let mut t = Text::new();
        t.blank([0usize, 1, 2][ch.dev(3)]);
        for _ in 0..ch.dev(4) {
            t.lines.push(["// a comment", "", " //[x]", "//"][ch.dev(4)].to_string());
        }
        let mut at = 0;
        if what == 3 {
            // before the first section
            at = t.lines.len();
            t.lines.push(bad.to_string());
            t.blank(ch.dev(2));
        }
        let place = if what == 2 { ch.free(3) } else { 0 };
        for j in 0..3 {
            if what == 2 && place == j {
                at = t.lines.len();
                t.header(bad);
                t.blank([0usize, 1, 2][ch.dev(3)]);
            }
            if j == 2 {
                break;
            }
            let is_vars = (j == 0) != swap;
            t.header(if is_vars { "[Variables]" } else { "[Events]" });
            t.blank([0usize, 1, 2][ch.dev(3)]);
            let list: &[&str] = if is_vars { &vars } else if with_vars { &events } else { &plain };
            if what < 2 && (what == 0) == is_vars {
                with_vars |= is_vars;
                let p = ch.free(list.len() + 1);
                for i in 0..=list.len() {
                    if i == p {
                        at = t.lines.len();
                        t.record(bad);
                        t.blank([0usize, 1, 2][ch.dev(3)]);
                    }
                    if i < list.len() {
                        t.record(list[i]);
                        t.blank([0usize, 1, 2][ch.dev(3)]);
                    }
                }
            } else if !ch.flag() {
                with_vars |= is_vars;
                for l in list {
                    t.record(l);
                    t.blank([0usize, 1, 2][ch.dev(3)]);
                }
            }
            t.blank([1usize, 0, 2][ch.dev(3)]);
        }
        let text = t.lines.join(["\n", "\r\n"][ch.dev(2)]);
        ch.note(|| format!("{text:?} line {at}"));
        let e = must_fail(Osb, &text, 14, "a line is malformed")?;
        ensure(e.line == at, || format!("{text:?} is rejected on line {} instead of {at} ({})", e.line, e.display))
    });
}

// ------------------------------------------------------------ messages

pub fn c28(ctx: &mut Ctx) {
    use osu_file_parser::Error;
    #[derive(Debug, Clone, PartialEq)]
    struct Inner(String);
    impl std::fmt::Display for Inner {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for Inner {}
    #[derive(Debug, Clone, PartialEq)]
    struct Outer(Inner);
    impl std::fmt::Display for Outer {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "outer {}", self.0)
        }
    }
    impl std::error::Error for Outer {}
    impl From<Inner> for Outer {
        fn from(i: Inner) -> Self {
            Outer(i)
        }
    }
    const CAUSES: [&str; 6] = ["x", "", "There is: a cause", "é", "a\nb", "Line 1, x"];
    const LINES: [usize; 12] = [0, 1, 2, 3, 9, 10, 11, 99, 100, 1000, usize::MAX / 2, u32::MAX as usize];
    ctx.space("built errors", 0, &|ch| {
        let cause = *ch.of(&CAUSES);
        let n = *ch.of(&LINES);
        let text = *ch.of(&["", "a", "a\nb", "a\r\nb\r\nc", "\n\nthird", "a\n\nc\n", "é\nü: ö\n[x]\n  indented  \n", "1\n2\n3\n4\n5\n6\n7\n8\n9\n10\n11\n12", "\r\n", " "]);
        ch.note(|| format!("error {cause:?} on line {n} of {text:?}"));
        let line = text.lines().nth(n).unwrap_or("");
        let inner = Inner(cause.to_string());
        let e = Error::new(inner.clone(), n);
        let check = |what: &str, line_index: usize, shown: String, long: String, cause: String, line: &str| -> R {
            ensure(line_index == n, || format!("{what}: line {line_index} instead of {n}"))?;
            let want = format!("Line {}, {cause}", n + 1);
            ensure(shown == want, || format!("{what}: message {shown:?} instead of {want:?}"))?;
            let want = format!("Line {}: {line}, {cause}", n + 1);
            ensure(long == want, || format!("{what} for {text:?}: long message {long:?} instead of {want:?}"))
        };
        check("new", e.line_index(), e.to_string(), e.display_error_with_line(text), cause.to_string(), line)?;
        ensure(*e.error() == inner, || format!("new: cause {:?}", e.error()))?;
        let outer = Outer(inner.clone());
        let o: Error<Outer> = Error::new_into(inner.clone(), n);
        check("new_into", o.line_index(), o.to_string(), o.display_error_with_line(text), outer.to_string(), line)?;
        ensure(*o.error() == outer, || "new_into changes the cause".to_string())?;
        let o: Error<Outer> = e.error_into();
        check("error_into", o.line_index(), o.to_string(), o.display_error_with_line(text), outer.to_string(), line)?;
        ensure(*o.error() == outer, || "error_into changes the cause".to_string())?;
        let r: Result<u8, Error<Inner>> = Error::new_from_result(Err(inner.clone()), n);
        let Err(e) = r else { return Err("new_from_result loses the error".into()) };
        check("new_from_result", e.line_index(), e.to_string(), e.display_error_with_line(text), cause.to_string(), line)?;
        let r: Result<u8, Error<Outer>> = Error::new_from_result_into(Err(inner.clone()), n);
        let Err(e) = r else { return Err("new_from_result_into loses the error".into()) };
        check("new_from_result_into", e.line_index(), e.to_string(), e.display_error_with_line(text), outer.to_string(), line)?;
        let r: Result<u8, Error<Outer>> = Error::error_result_into(Err(Error::new(inner.clone(), n)));
        let Err(e) = r else { return Err("error_result_into loses the error".into()) };
        check("error_result_into", e.line_index(), e.to_string(), e.display_error_with_line(text), outer.to_string(), line)?;
        // results that are no errors stay as they are
        let k = n as u64 ^ 5;
        let r: Result<u64, Error<Inner>> = Error::new_from_result(Ok::<u64, Inner>(k), n);
        ensure(matches!(r, Ok(x) if x == k), || "new_from_result changes a value".to_string())?;
        let r: Result<u64, Error<Outer>> = Error::new_from_result_into(Ok::<u64, Inner>(k), n);
        ensure(matches!(r, Ok(x) if x == k), || "new_from_result_into changes a value".to_string())?;
        let r: Result<u64, Error<Outer>> = Error::error_result_into(Ok::<u64, Error<Inner>>(k));
        ensure(matches!(r, Ok(x) if x == k), || "error_result_into changes a value".to_string())?;
        let r: Result<u64, Error<Outer>> = Error::processing_line(Ok::<u64, Error<Inner>>(k), n);
        ensure(matches!(r, Ok(x) if x == k), || "processing_line changes a value".to_string())?;
        let e: Error<Inner> = inner.clone().into();
        ensure(e.line_index() == 0 && *e.error() == inner, || format!("a cause becomes the error {e:?}"))
    });
    let chars: Vec<char> = (0..0x250u32).chain([0x2028, 0x2029, 0x3000, 0xfeff, 0x1f600]).filter_map(char::from_u32).filter(|c| *c != '\n' && *c != '\r').collect();
    let words: Vec<&str> = super::text::WORDS.iter().chain(super::text::SPECIAL).copied().filter(|w| !w.is_empty()).collect();
    ctx.space("lines are shown character by character", 0, &|ch| {
        let what = ch.free(3);
        let w: String = match what {
            0 => ch.of(&chars).to_string(),
            1 => ch.of(&words).to_string(),
            _ => {
                // long lines
                let n = *ch.of(&[30usize, 63, 64, 79, 80, 81, 99, 100, 120, 127, 128, 200, 255, 256, 257, 1000, 1023, 1024, 4096, 70000]);
                ch.of(&["x", "é", " ", "ab,", "日"]).repeat(n)
            }
        };
        let n = 1 + ch.free(if what == 2 { 1 } else { 3 });
        let line = match ch.free(5) {
            0 => w.repeat(n),
            1 => format!("{}q", w.repeat(n)),
            2 => format!("q{}", w.repeat(n)),
            3 => format!("q{}z", w.repeat(n)),
            _ => format!("256,192,{},{}", w, w.repeat(n)),
        };
        let at = ch.free(3);
        let text = ["a,b", "c", "d"].iter().enumerate().map(|(i, l)| if i == at { line.as_str() } else { *l }).collect::<Vec<_>>().join("\n") + ch.of(&["", "\n"]);
        ch.note(|| format!("line {at} of {text:?}"));
        let e = Error::new(Inner("cause".into()), at);
        let want = format!("Line {}: {line}, cause", at + 1);
        let long = e.display_error_with_line(&text);
        ensure(long == want, || format!("{text:?}: long message {long:?} instead of {want:?}"))
    });
    ctx.space("errors moved down", 0, &|ch| {
        let n = *ch.of(&LINES);
        let mut e = Error::new(Inner("cause".into()), n);
        let mut sum = n;
        for _ in 0..3 {
            let k = *ch.of(&[0usize, 1, 2, 7, 100, 65536]);
            let r: Result<(), Error<Inner>> = Error::processing_line(Err(e), k);
            let Err(x) = r else { return Err("processing_line loses the error".into()) };
            e = x;
            sum += k;
            ensure(e.line_index() == sum, || format!("line {} after moving {n} down to {sum}", e.line_index()))?;
        }
        let r: Result<(), Error<Outer>> = Error::processing_line(Err(e), 3);
        let Err(e) = r else { return Err("processing_line loses the error".into()) };
        ch.note(|| format!("line {n} moved to {}", sum + 3));
        ensure(e.line_index() == sum + 3 && *e.error() == Outer(Inner("cause".into())), || format!("moved to {e:?} instead of {}", sum + 3))
    });
    ctx.space("errors of texts", 0, &|ch| {
        // the message of every kind of reading error, in every kind of text
        let v = *ch.of(&[5u8, 14]);
        let m = small_file(v);
        let part = *ch.of(&PARTS);
        let (text, by_file): (String, bool) = match part {
            Osu => {
                let mut l: Vec<String> = m.print(v).lines().map(|l| l.to_string()).collect();
                let at = ch.free(l.len());
                l.insert(at, ch.of(&["x", "é: ü", "[x]", "[", "  spaced  ", "\u{3000}", "a, b, c"]).to_string());
                (l.join(*ch.of(&["\n", "\r\n"])), true)
            }
            Osb => {
                let l = ["[Variables]", "$a=1", "", "[Events]", "Sprite,Pass,Centre,a,0,0", " F,0,$a,2,0"];
                let at = ch.free(l.len());
                let mut l: Vec<&str> = l.to_vec();
                l.insert(at, ch.of(&["x", "é", "[x]", "[", "  spaced  "]));
                (l.join(*ch.of(&["\n", "\r\n"])), false)
            }
            p => {
                let mut l = section_lines(&m, p)[1..].to_vec();
                let all = bad_lines(p, v);
                let b = ch.of(&all).map_or(l[0].clone(), |b| b.to_string());
                let at = ch.free(l.len() + 1);
                l.insert(at, b);
                (l.join(*ch.of(&["\n", "\r\n", "\n\n"])), false)
            }
        };
        ch.note(|| format!("{} {text:?}", part.name()));
        fn chain(e: &dyn std::error::Error) -> Vec<String> {
            std::iter::successors(e.source(), |e| e.source()).map(|e| e.to_string()).collect()
        }
        fn of<E: std::error::Error + 'static>(text: &str, e: Error<E>) -> R {
            let (got, want) = (chain(&e), chain(e.error()));
            ensure(got == want, || format!("{text:?}: the causes behind {e} are {got:?} instead of {want:?}"))?;
            let (n, cause) = (e.line_index(), e.error().to_string());
            let line = text.lines().nth(n).unwrap_or("");
            let want = format!("Line {}, {cause}", n + 1);
            ensure(e.to_string() == want, || format!("{text:?}: message {e} instead of {want}"))?;
            let want = format!("Line {}: {line}, {cause}", n + 1);
            let long = e.display_error_with_line(text);
            ensure(long == want, || format!("{text:?}: long message {long:?} instead of {want:?}"))?;
            ensure(!cause.is_empty(), || format!("{text:?}: no cause"))
        }
        let _ = by_file;
        use osu_file_parser as lib;
        use osu_file_parser::VersionedFromStr;
        let t = text.as_str();
        macro_rules! go {
            ($r:expr) => {
                match $r {
                    Err(e) => of(t, e),
                    Ok(_) => Ok(()),
                }
            };
        }
        match part {
            General => go!(lib::General::from_str(t, v)),
            Editor => go!(lib::Editor::from_str(t, v)),
            Metadata => go!(lib::Metadata::from_str(t, v)),
            Difficulty => go!(lib::Difficulty::from_str(t, v)),
            Events => go!(<lib::Events as VersionedFromStr>::from_str(t, v)),
            Timing => go!(lib::TimingPoints::from_str(t, v)),
            Colours => go!(lib::Colours::from_str(t, v)),
            Hits => go!(lib::HitObjects::from_str(t, v)),
            Osu => go!(t.parse::<lib::OsuFile>()),
            Osb => go!(lib::Osb::from_str(t, 14)),
        }
    });
    ctx.space("the cause is kept by the file", 0, &|ch| {
        // an error inside a section names the same cause when the section stands in a file
        let v = 14;
        let m = small_file(v);
        let part = *ch.of(&SECTIONS);
        let l = section_lines(&m, part);
        let Some((p, bad)) = place(ch, part, v, &l[1..]) else { return Ok(()) };
        if p == 0 && bad.starts_with(' ') {
            // white space after a header belongs to the header
            return Ok(());
        }
        let mut lines = l[1..].to_vec();
        lines.insert(p, bad);
        let alone = must_fail(part, &lines.join("\n"), v, "a line is malformed")?;
        let text = format!("osu file format v14\n\n{}\n{}", l[0], lines.join("\n"));
        ch.note(|| format!("{text:?}"));
        let e = must_fail(Osu, &text, v, "a line is malformed")?;
        ensure(e.msg == alone.msg && e.line == alone.line + 3, || {
            format!("{text:?} gives {:?} and the section alone {:?}", e.display, alone.display)
        })
    });
    let _ = gen::default_hit(0);
}
