//! C25: the comparison helper.

use crate::engine::{no_panic, Ch, Ctx, Fail, R};
use crate::gen;
use crate::model::*;
use crate::report::ensure;
use osu_file_parser::{assert_eq_osu_str, osu_str_eq, osu_str_trimmer};

/// What a text says.  `None` where the comparison is not specified.
#[derive(Debug, Clone, PartialEq)]
struct Canon {
    version: Option<String>,
    sections: Vec<Sect>,
    /// Lines before the first section but no version line.
    odd: bool,
}
#[derive(Debug, Clone, PartialEq)]
struct Sect {
    header: String,
    keyed: bool,
    lines: Vec<String>,
}

fn spaced(line: &str) -> String {
    match line.split_once(':') {
        Some((k, v)) => format!("{}:{}", k.trim(), v.trim()),
        None => line.to_string(),
    }
}

fn canon(text: &str) -> Canon {
    let mut c = Canon { version: None, sections: vec![], odd: false };
    let text = text.replace('\u{feff}', "");
    for (i, line) in text.split('\n').map(|l| l.trim()).filter(|l| !l.is_empty()).enumerate() {
        if line.starts_with('[') && line.ends_with(']') {
            let keyed = !["[Events]", "[TimingPoints]", "[HitObjects]", "[Variables]"].contains(&line);
            c.sections.push(Sect { header: line.into(), keyed, lines: vec![] });
        } else if let Some(s) = c.sections.last_mut() {
            s.lines.push(line.into());
        } else if i == 0 && line.starts_with("osu file format v") {
            c.version = Some(line.into());
        } else if c.version.is_none() {
            c.odd = true;
        }
    }
    c
}

/// Whether two texts are equal, if that is specified.
fn equal(a: &Canon, b: &Canon) -> Option<bool> {
    if a.odd || b.odd {
        return None;
    }
    let heads = |c: &Canon| c.sections.iter().map(|s| s.header.clone()).collect::<Vec<_>>();
    if a.version != b.version || heads(a) != heads(b) {
        return Some(false);
    }
    let mut all = Some(true);
    for (x, y) in a.sections.iter().zip(&b.sections) {
        let r = match x.keyed {
            // the order of the keys and the spacing around the colon
            true => {
                let lines = |s: &Sect| s.lines.iter().map(|l| spaced(l)).collect::<Vec<_>>();
                let sorted = |mut v: Vec<String>| {
                    v.sort();
                    v
                };
                let (lx, ly) = (lines(x), lines(y));
                let colons = lx.iter().chain(&ly).all(|l| l.contains(':'));
                if lx == ly {
                    Some(true)
                } else if sorted(lx) != sorted(ly) {
                    Some(false)
                } else if colons {
                    Some(true)
                } else {
                    None
                }
            }
            false => {
                let lines = |s: &Sect| s.lines.iter().map(|l| spaced(l)).collect::<Vec<_>>();
                if x.lines == y.lines {
                    Some(true)
                } else if lines(x) != lines(y) {
                    Some(false)
                } else {
                    None
                }
            }
        };
        match r {
            Some(false) => return Some(false),
            None => all = None,
            _ => {}
        }
    }
    all
}

fn compare(ch: &mut Ch, a: &str, b: &str) -> R {
    ch.note(|| format!("{a:?}\n{b:?}"));
    let (ca, cb) = (canon(a), canon(b));
    let Some(want) = equal(&ca, &cb) else { return Ok(()) };
    let got = osu_str_eq(a, b);
    if got != want {
        return Err(Fail::Violation(format!(
            "{a:?}\nand\n{b:?}\ncompare {} although {}",
            if got { "equal" } else { "different" },
            if want { "only their layout differs" } else { "their content differs" }
        )));
    }
    ensure(osu_str_eq(b, a) == want, || format!("comparing {b:?} with {a:?} the other way round differs"))?;
    ensure((osu_str_trimmer(a) == osu_str_trimmer(b)) == want, || {
        format!("{a:?}\nand\n{b:?}\nare trimmed to\n{:?}\nand\n{:?}", osu_str_trimmer(a), osu_str_trimmer(b))
    })
}

#[derive(Clone, Debug)]
struct Doc {
    version: Option<u8>,
    lines: Vec<&'static str>,
}

const HEADS: [&str; 5] = ["[General]", "[HitObjects]", "[Events]", "[Variables]", "[TimingPoints]"];
const KEYED: [&str; 6] = ["a:1", "a:2", "b:1", "b:", "c: d e: f", "A:1"];
const LISTED: [&str; 5] = ["1,2", "3,4,0:1", "3,4,0:2", " M,5", "//x"];

fn doc(ch: &mut Ch, sections: usize, records: usize) -> Doc {
    let version = *ch.of(&[Some(14u8), Some(3), None]);
    let mut lines = Vec::new();
    for _ in 0..sections {
        // an end, a section with keys or one of the list sections
        let k = ch.free(4);
        let (head, body): (&str, &[&'static str]) = match k {
            0 => break,
            1 => ("[General]", &KEYED[..3]),
            2 => ("[HitObjects]", &LISTED[..3]),
            _ => ("[Events]", &LISTED[2..]),
        };
        lines.push(head);
        for _ in 0..records {
            match ch.free(body.len() + 1) {
                0 => break,
                n => lines.push(body[n - 1]),
            }
        }
    }
    Doc { version, lines }
}

impl Doc {
    fn all(&self) -> Vec<String> {
        let mut v: Vec<String> = self.version.iter().map(|v| format!("osu file format v{v}")).collect();
        v.extend(self.lines.iter().map(|l| l.to_string()));
        v
    }
    fn text(&self) -> String {
        self.all().join("\n")
    }
}

/// The text in another layout.
fn layout(ch: &mut Ch, lines: &[String], keys: bool) -> String {
    let mut out = String::new();
    let end = if ch.flag() { "\r\n" } else { "\n" };
    let mut lines: Vec<String> = lines.to_vec();
    if keys {
        // exchange two keys of a section
        let head = lines.iter().position(|l| l == "[General]").unwrap_or(lines.len());
        let n = lines[head..].iter().skip(1).take_while(|l| !l.starts_with('[')).count();
        for i in 1..n {
            if ch.flag() {
                lines.swap(head + i, head + i + 1);
            }
        }
    }
    let mut before = true;
    for (i, l) in lines.iter().enumerate() {
        if l.starts_with('[') {
            if before && i > 0 {
                out += ["", "// x\n", "a:1\n1,2\n", "osu file format v5\n", "]\n[\n"][ch.dev(5)];
            }
            before = false;
        }
        out += ["", "\n", "  \n", "\r\n\n", "\t\r\n", "\u{feff}\n", "\u{feff} \n"][ch.dev(7)];
        out += ["", " ", "\t ", "\u{feff}", " \u{feff}", "\u{feff} "][ch.dev(6)];
        match l.split_once(':') {
            Some((k, v)) if !before && is_keyed(&lines, i) => {
                out += k;
                out += [":", ": ", " :", " : ", "  :\t"][ch.dev(5)];
                out += v.trim_start();
            }
            _ => out += l,
        }
        out += ["", " ", "\t", "\u{feff}", " \u{feff}"][ch.dev(5)];
        if i + 1 < lines.len() || ch.flag() {
            out += end;
        }
    }
    out
}

fn is_keyed(lines: &[String], i: usize) -> bool {
    lines[..i].iter().rev().find(|l| l.starts_with('[')).is_some_and(|h| h == "[General]")
}

/// One change of a document.
fn edit(ch: &mut Ch, d: &Doc) -> Doc {
    let mut e = d.clone();
    let n = e.lines.len();
    let any: Vec<&'static str> = HEADS[..4].iter().chain(&KEYED).chain(&LISTED).cloned().collect();
    match ch.free(6) {
        0 => e.version = *ch.of(&[Some(14), Some(3), None, Some(4), Some(13)]),
        1 if n > 0 => {
            let i = ch.free(n);
            e.lines[i] = *ch.of(&any);
        }
        2 => {
            let i = ch.free(n + 1);
            e.lines.insert(i, *ch.of(&any));
        }
        3 if n > 0 => {
            e.lines.remove(ch.free(n));
        }
        4 if n > 0 => {
            let (i, j) = (ch.free(n), ch.free(n));
            e.lines.swap(i, j);
        }
        5 if n > 0 => {
            let i = ch.free(n);
            let j = ch.free(n);
            let l = e.lines.remove(i);
            e.lines.insert(j, l);
        }
        _ => {}
    }
    e
}

pub fn c25(ctx: &mut Ctx) {
    let sizes: &[(usize, usize)] = if ctx.thorough() { &[(2, 2), (1, 4), (2, 3), (3, 2)] } else { &[(2, 2), (1, 4)] };
    for (s, r) in sizes {
        ctx.space(&format!("every document of up to {s} sections of up to {r} lines, and every edit"), 0, &|ch| {
            let d = doc(ch, *s, *r);
            let e = edit(ch, &d);
            compare(ch, &d.text(), &e.text())
        });
    }
    let few = if ctx.thorough() { 2 } else { 1 };
    ctx.space("every small document in other layouts", ctx.b(2, 3), &|ch| {
        let d = doc(ch, 2, 1);
        let b = layout(ch, &d.all(), true);
        compare(ch, &d.text(), &b)
    });
    ctx.space("lines before the sections", 0, &|ch| {
        let all = [
            "osu file format v14", "osu file format v3", "osu file format v", "osu file format vx", "osu file format x", "osu file format 14", "osu file format", "osu file formatv14",
            "Osu file format v14", "osu file format  v14", "osu file format V14", "xosu file format v14", "x", "// c", "a:1", "",
        ];
        let rest = *ch.of(&["", "\n[General]\nMode: 0", "\n\n[Events]\n//x\n"]);
        let mut side = || {
            let mut t = ch.of(&all).to_string();
            for _ in 0..ch.free(2) {
                t += &format!("\n{}", ch.of(&all));
            }
            t + rest
        };
        let (a, b) = (side(), side());
        compare(ch, &a, &b)
    });
    ctx.space("every document in other layouts", ctx.b(1, 2), &|ch| {
        let d = doc(ch, 2, 2);
        let b = layout(ch, &d.all(), true);
        compare(ch, &d.text(), &b)
    });
    ctx.space("edits and layouts", 1, &|ch| {
        let d = doc(ch, 2, few);
        let e = edit(ch, &d);
        let b = layout(ch, &e.all(), true);
        compare(ch, &d.text(), &b)
    });
    // whole files: every change of one character or of lines
    let mut files: Vec<String> = [3u8, 5, 9, 14].iter().map(|v| gen::default_file(*v).print(*v)).collect();
    files.push("[Variables]\n$a=1\n$b=2\n\n[Events]\nSprite,Pass,Centre,a.png,0,0\n F,0,1,2,$a\n F,0,3,4,$b".into());
    files.push(format!("osu file format v14\n\n[General]\n{}\n\n[Metadata]\n{}", print_kv(Sec::General, &gen::full(Sec::General), 14), print_kv(Sec::Metadata, &gen::full(Sec::Metadata), 14)));
    let files = &files;
    ctx.space("one character of a file changed", 0, &|ch| {
        let a = ch.of(files);
        let chars: Vec<char> = a.chars().collect();
        let i = ch.free(chars.len() + 1);
        let insert = ['x', '0', ' ', '\n', ':', ',', '[', ']', '\u{feff}', '\t', 'É'];
        let b: String = match ch.free(4) {
            // the other case
            3 if i < chars.len() => {
                let other: Vec<char> = match chars[i] {
                    c if c.is_uppercase() => c.to_lowercase().collect(),
                    c => c.to_uppercase().collect(),
                };
                chars[..i].iter().chain(&other).chain(&chars[i + 1..]).collect()
            }
            0 if i < chars.len() => chars[..i].iter().chain(&chars[i + 1..]).collect(),
            1 if i < chars.len() => {
                let x = *ch.of(&insert);
                chars[..i].iter().chain(&[x]).chain(&chars[i + 1..]).collect()
            }
            2 => {
                let x = *ch.of(&insert);
                chars[..i].iter().chain(&[x]).chain(&chars[i..]).collect()
            }
            _ => return Ok(()),
        };
        compare(ch, a, &b)
    });
    ctx.space("lines of a file changed", 0, &|ch| {
        let a = ch.of(files);
        let mut lines: Vec<&str> = a.split('\n').collect();
        let n = lines.len();
        let (i, j) = (ch.free(n), ch.free(n));
        match ch.free(5) {
            0 => {
                lines.remove(i);
            }
            1 => lines.swap(i, j),
            2 => {
                let l = lines.remove(i);
                lines.insert(j, l);
            }
            3 => lines.insert(j, lines[i]),
            _ => lines[i] = lines[j],
        }
        compare(ch, a, &lines.join("\n"))
    });
    ctx.space("the order of keys and records", 0, &|ch| {
        // every permutation of five or six lines of every kind of section
        let k = ch.free(HEADS.len() + 2);
        let head = *HEADS.iter().chain(&["[Colours]", "[Difficulty]"]).nth(k).unwrap();
        let keyed = canon(head).sections[0].keyed;
        let all = if keyed { &KEYED[..] } else { &LISTED[..] };
        let mut left: Vec<&str> = all.to_vec();
        let mut lines = vec!["osu file format v14".to_string(), head.to_string()];
        while !left.is_empty() {
            let i = ch.free(left.len());
            lines.push(left.remove(i).to_string());
        }
        let a = format!("osu file format v14\n{head}\n{}", all.join("\n"));
        let tail = *ch.of(&["", "\n[Editor]\nz:1", "\n[Events]\n0,0,a"]);
        compare(ch, &format!("{a}{tail}"), &format!("{}{tail}", lines.join("\n")))
    });
    // lines with no key, no value, several colons or none
    const ODD: [&str; 16] =
        ["a:1", ":b", "b:", ":", "::", "a::1", "a:1:", "a: :1", ":a:1", "a", "b", "[", "]", "[x", "x]", "a:[1]"];
    ctx.space("odd key lines", 0, &|ch| {
        let head = *ch.of(&["[General]", "[Metadata]", "[Events]"]);
        let n = if crate::engine::thorough() { 3 } else { 2 };
        let mut side = || -> Vec<&str> {
            let mut l: Vec<&str> = Vec::new();
            for _ in 0..n {
                match ch.free(ODD.len() + 1) {
                    0 => break,
                    k => l.push(ODD[k - 1]),
                }
            }
            l
        };
        let (a, b) = (side(), side());
        let text = |l: &[&str]| format!("osu file format v14\n{head}\n{}", l.join("\n"));
        compare(ch, &text(&a), &text(&b))
    });
    ctx.space("odd key lines in another order", 0, &|ch| {
        let n = 1 + ch.free(3);
        let mut l: Vec<&str> = (0..n).map(|_| *ch.of(&ODD)).collect();
        l.push("z:9");
        let mut left = l.clone();
        let mut m = Vec::new();
        while !left.is_empty() {
            let i = ch.free(left.len());
            m.push(left.remove(i));
        }
        let text = |l: &[&str]| format!("osu file format v14\n[General]\n{}", l.join("\n"));
        compare(ch, &text(&l), &text(&m))
    });
    ctx.space("the assertion", 0, &|ch| {
        let d = doc(ch, 2, 1);
        let e = edit(ch, &d);
        let (a, b) = (d.text(), e.text());
        let Some(want) = equal(&canon(&a), &canon(&b)) else { return Ok(()) };
        ch.note(|| format!("{a:?}\n{b:?}"));
        let passes = no_panic("", || assert_eq_osu_str(&a, &b)).is_ok();
        ensure(passes == want, || format!("the assertion that {a:?} and {b:?} are equal passes: {passes}"))
    });
}
