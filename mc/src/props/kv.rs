//! C06, C07: key-value sections and the versions of their fields.

use crate::engine::{Ch, Ctx, R};
use crate::gen;
use crate::imp::*;
use crate::model::*;
use crate::num::*;
use crate::report::ensure;

pub fn part_of(s: Sec) -> Part {
    match s {
        Sec::General => General,
        Sec::Editor => Editor,
        Sec::Metadata => Metadata,
        Sec::Difficulty => Difficulty,
    }
}

/// Reads lines, given as (field, value), and compares the value and the text printed at `w`.
fn read(ch: &mut Ch, sec: Sec, text: &str, vals: &Vals, v: u8, w: u8) -> R {
    ch.note(|| format!("v{v} {text:?} printed at v{w}"));
    let x = must(part_of(sec), text, v)?;
    let want = kv_read(sec, vals, v);
    same(sec.name(), text, v, &x.view(), &m_kv(sec, want.clone()))?;
    prints(sec.name(), text, w, x.print(w), &print_kv(sec, &want, w))
}
fn rejected(ch: &mut Ch, sec: Sec, lines: &[String], v: u8, at: usize, why: &str) -> R {
    let text = lines.join("\n");
    ch.note(|| format!("v{v} {text:?} rejected: {why}"));
    let bad = must_fail(part_of(sec), &text, v, why)?;
    ensure(bad.line == at, || format!("{text:?} at version {v} is rejected on line {} instead of {at}", bad.line))
}

fn section(ch: &mut Ch) -> Sec {
    *ch.of(&SECS)
}
fn field<'a>(ch: &mut Ch, sec: Sec) -> (usize, &'a Field) {
    let i = ch.free(sec.fields().len());
    (i, &sec.fields()[i])
}

/// Whether a field takes a value text, and its value.
pub fn value_of(f: &Field, t: &str) -> Option<Option<KV>> {
    Some(Some(match f.kind {
        FK::Text => KV::S(t.to_string()),
        FK::Int => KV::I(is_i32(t)?),
        FK::Dec => match D::canonical(t) {
            Some(d) => KV::D(d),
            // other spellings of numbers are the subject of C19
            None if t.parse::<f64>().is_ok() || t.contains('_') => return Some(None),
            None => KV::D(D::R(t.to_string())),
        },
        FK::Bool => match is_i32(t)? {
            0 => KV::B(false),
            1 => KV::B(true),
            _ => return None,
        },
        FK::Ints if t.is_empty() => KV::L(vec![]),
        FK::Ints => KV::L(t.split(',').map(is_i32).collect::<Option<Vec<_>>>()?),
        FK::Tags if t.split(' ').any(|x| x.is_empty()) => return Some(None),
        FK::Tags => KV::T(t.split(' ').map(|x| x.to_string()).collect()),
        FK::Num(n) => {
            let i = int_in(t, 0, n.len() as i128 - 1)?;
            KV::E(i as u8)
        }
        FK::Name(n) => KV::E(n.iter().position(|x| *x == t)? as u8),
    }))
}

/// Whether a version reads a field without looking at its value.
pub fn ignored(f: &Field, v: u8) -> bool {
    match f.key {
        "Countdown" => v < 5,
        "SampleSet" => v < 4,
        "OverlayPosition" => v < 14,
        _ => false,
    }
}

pub const VALUE_TOKENS: &[&str] = &[
    "", "0", "1", "2", "3", "4", "-1", "+1", "01", "007", "1.0", "1.5", "-0.5", "0.70", "1e5", "x", "abc", "true", "false", "é", "1,2",
    "1,2,3", ",", "1,", ",1", "1,,2", "1, 2", "a b", "a:b", ":", "2147483647", "2147483648", "-2147483648", "-2147483649",
    "99999999999999999999999", "4294967296", "4294967297", "18446744073709551616", "NaN", "Normal", "normal", "Soft", "Drum", "None",
    "NoChange", "Below", "Above", "above", "Osu", "0x1", "1 1", "--1", "-", "+", "[x]", "//c", "$v", "_", "\"q\"", "１", "1\u{a0}", "\u{3000}1",
];

pub fn c06(ctx: &mut Ctx) {
    ctx.space("one field with every value", ctx.b(2, 4), &|ch| {
        let sec = section(ch);
        let (i, f) = field(ch, sec);
        let v = gen::version(ch);
        let val = gen::kv_value(ch, f);
        let mut vals = no_vals(sec);
        let sp = *ch.dev_of(&[" ", "", "  ", "\t", " \t "]);
        let text = format!("{}:{sp}{}", f.key, f.text(&val));
        // spaces after the colon are not part of the value
        vals[i] = Some(match val {
            KV::S(s) => KV::S(s.trim_start_matches([' ', '\t']).to_string()),
            v => v,
        });
        read(ch, sec, &text, &vals, v, v)
    });
    ctx.space("long values", 0, &|ch| {
        // lists of any length and texts of any length are kept whole and in order
        let sec = section(ch);
        let (i, f) = field(ch, sec);
        let v = *ch.of(&[3u8, 8, 14]);
        let n = *ch.of(if crate::engine::thorough() {
            &[5usize, 6, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 65535, 65536, 65537][..]
        } else {
            &[5, 8, 9, 10, 16, 17, 20, 32, 33, 64, 65, 100, 101, 128, 129, 255, 256, 257, 512, 513, 1000, 1025, 4097, 65537]
        });
        let step = ch.free(4);
        let val = match f.kind {
            FK::Text => KV::S(["a", "é", "a b", "ab:c"][step].chars().cycle().take(n).collect::<String>().trim().to_string()),
            FK::Ints => {
                // rising, falling, all equal, with repetitions
                KV::L((0..n as i32).map(|i| [1000 + i * 7, 5 - i, 3, (i * 7919) % 11 - 5][step]).collect())
            }
            FK::Tags => KV::T((0..n).map(|i| [format!("t{i}"), format!("{}", n - i), "t".into(), format!("é{}", i % 3)][step].clone()).collect()),
            FK::Dec => KV::D(D::R(["x", "é", "1.1.", "-"][step].chars().cycle().take(n).collect())),
            _ => return Ok(()),
        };
        let mut vals = if ch.free_flag() { gen::full(sec) } else { no_vals(sec) };
        vals[i] = Some(val);
        let lines: Vec<String> =
            sec.fields().iter().zip(&vals).filter_map(|(f, x)| x.as_ref().map(|x| format!("{}: {}", f.key, f.text(x)))).collect();
        let text = lines.join("\n");
        let x = must(part_of(sec), &text, v)?;
        ch.note(|| format!("v{v} {} with {n} items or characters, kind {step}", f.key));
        let want = kv_read(sec, &vals, v);
        let (got, m) = (x.view(), m_kv(sec, want.clone()));
        ensure(got == m, || format!("{} with {n} items or characters of kind {step} is read differently at version {v}", f.key))?;
        ensure(x.print(v) == Some(print_kv(sec, &want, v)), || {
            format!("{} with {n} items or characters of kind {step} is printed differently at version {v}", f.key)
        })
    });
    ctx.space("one field among all the others", ctx.b(2, 2), &|ch| {
        let sec = section(ch);
        let (i, f) = field(ch, sec);
        let v = *ch.of(&[3u8, 5, 10, 14]);
        let mut vals = gen::full(sec);
        let val = gen::kv_value(ch, f);
        vals[i] = Some(val);
        let text: Vec<String> = sec
            .fields()
            .iter()
            .zip(&vals)
            .map(|(f, x)| format!("{}: {}", f.key, f.text(x.as_ref().unwrap())))
            .collect();
        read(ch, sec, &text.join("\n"), &vals, v, v)
    });
    ctx.space("every order of two and three fields", 0, &|ch| {
        let sec = section(ch);
        let n = sec.fields().len();
        let k = ch.free(2) + 2;
        let v = *ch.of(&[3u8, 4, 5, 13, 14]);
        let mut left: Vec<usize> = (0..n).collect();
        let mut vals = no_vals(sec);
        let mut lines = Vec::new();
        for _ in 0..k {
            let i = left.remove(ch.free(left.len()));
            let f = &sec.fields()[i];
            let val = gen::default_value(f);
            lines.push(format!("{}: {}", f.key, f.text(&val)));
            vals[i] = Some(val);
        }
        read(ch, sec, &lines.join("\n"), &vals, v, v)
    });
    ctx.space("every permutation of the six-field sections", 0, &|ch| {
        let sec = *ch.of(&[Sec::Editor, Sec::Difficulty]);
        let v = *ch.of(&[3u8, 10, 14]);
        let vals = gen::full(sec);
        let mut left: Vec<usize> = (0..6).collect();
        let mut lines = Vec::new();
        while !left.is_empty() {
            let i = left.remove(ch.free(left.len()));
            let f = &sec.fields()[i];
            lines.push(format!("{}:{}", f.key, f.text(vals[i].as_ref().unwrap())));
        }
        read(ch, sec, &lines.join("\n"), &vals, v, v)
    });
    ctx.space("full sections with moved lines", 0, &|ch| {
        let sec = section(ch);
        let v = gen::version(ch);
        let vals = gen::full(sec);
        let mut lines: Vec<String> = sec
            .fields()
            .iter()
            .zip(&vals)
            .map(|(f, x)| format!("{}: {}", f.key, f.text(x.as_ref().unwrap())))
            .collect();
        let n = lines.len();
        if ch.free_flag() {
            lines.reverse();
        }
        let r = ch.free(n);
        lines.rotate_left(r);
        let (a, b) = (ch.free(n), ch.free(n));
        let l = lines.remove(a);
        lines.insert(b, l);
        read(ch, sec, &lines.join("\n"), &vals, v, v)
    });
    let subsets = ctx.thorough();
    ctx.space("every subset of the fields", 0, &|ch| {
        let sec = section(ch);
        let v = if subsets { *ch.of(&[3u8, 14]) } else { 14 };
        // the general section in the quick tier: by groups of three neighbours
        let step = if sec == Sec::General && !subsets { 2 } else { 1 };
        let mut vals = no_vals(sec);
        let mut i = 0;
        while i < vals.len() {
            if ch.free_flag() {
                for j in i..(i + step).min(vals.len()) {
                    vals[j] = Some(gen::default_value(&sec.fields()[j]));
                }
            }
            i += step;
        }
        let lines: Vec<String> = sec
            .fields()
            .iter()
            .zip(&vals)
            .filter_map(|(f, x)| x.as_ref().map(|x| format!("{}:{}", f.key, f.text(x))))
            .collect();
        read(ch, sec, &lines.join("\n"), &vals, v, v)
    });
    ctx.space("every field with every odd value", 0, &|ch| {
        let sec = section(ch);
        let (i, f) = field(ch, sec);
        let v = gen::version(ch);
        let t = *ch.of(VALUE_TOKENS);
        // a field between two others
        let n = sec.fields().len();
        let mut vals = no_vals(sec);
        let mut lines = Vec::new();
        let context = ch.free(3);
        for (k, j) in [(i + 1) % n, i, (i + 2) % n].into_iter().enumerate() {
            if j == i {
                lines.push(format!("{}: {t}", f.key));
            } else if (k == 0 && context > 0) || (k == 2 && context > 1) {
                let f = &sec.fields()[j];
                vals[j] = Some(gen::default_value(f));
                lines.push(format!("{}: {}", f.key, f.text(vals[j].as_ref().unwrap())));
            }
        }
        let at = (context > 0) as usize;
        if ignored(f, v) {
            return read(ch, sec, &lines.join("\n"), &vals, v, v);
        }
        match value_of(f, t) {
            Some(Some(x)) => {
                vals[i] = Some(x);
                read(ch, sec, &lines.join("\n"), &vals, v, v)
            }
            Some(None) => Ok(()),
            None => rejected(ch, sec, &lines, v, at, "a value is not of the type of its field"),
        }
    });
    ctx.space("malformed lines", 0, &|ch| {
        let sec = section(ch);
        let v = gen::version(ch);
        let vals = gen::full(sec);
        let mut lines: Vec<String> = sec
            .fields()
            .iter()
            .zip(&vals)
            .map(|(f, x)| format!("{}: {}", f.key, f.text(x.as_ref().unwrap())))
            .collect();
        let at = ch.free(lines.len() + 1);
        let other = (sec as usize + 1) % 4;
        let k0 = sec.fields()[at % sec.fields().len()].key;
        let (l, why) = match ch.free(16) {
            0 => ("Unknown: 1".to_string(), "a key is unknown"),
            1 => (format!("{}: 1", k0.to_lowercase()), "a key is unknown"),
            2 => (format!("{k0}s: 1"), "a key is unknown"),
            3 => (format!("{}: 1", &k0[1..]), "a key is unknown"),
            4 => (format!("{k0} : 1"), "a key is unknown"),
            5 => (": 1".into(), "a key is empty"),
            6 => (":".into(), "a key is empty"),
            7 => (k0.to_string(), "a line has no colon"),
            8 => ("no colon here".into(), "a line has no colon"),
            9 => (format!("{k0} = 1"), "a line has no colon"),
            10 => (format!("{k0}; 1"), "a line has no colon"),
            11 => (format!("{}: 1", SECS[other].fields()[0].key), "a key belongs to another section"),
            12 => (format!("{}: 1", SECS[(other + 1) % 4].fields()[1].key), "a key belongs to another section"),
            13 => ("é: 1".into(), "a key is unknown"),
            14 => ("//comment".into(), "a line has no colon"),
            _ => ("_: 1".into(), "a key is unknown"),
        };
        lines.insert(at, l);
        rejected(ch, sec, &lines, v, at, why)
    });
    ctx.space("repeated keys", 0, &|ch| {
        let sec = section(ch);
        let v = gen::version(ch);
        let vals = gen::full(sec);
        let mut lines: Vec<String> = sec
            .fields()
            .iter()
            .zip(&vals)
            .map(|(f, x)| format!("{}: {}", f.key, f.text(x.as_ref().unwrap())))
            .collect();
        let from = ch.free(lines.len());
        let to = ch.free(lines.len() + 1);
        let l = lines[from].clone();
        lines.insert(to, l);
        // the second of the two
        let at = if to > from { to } else { from + 1 };
        rejected(ch, sec, &lines, v, at, "a key is repeated")
    });
}

fn file_of(v: u8) -> MFile {
    MFile::new(v)
}

pub fn c07(ctx: &mut Ctx) {
    ctx.space("every field at every pair of versions", ctx.b(1, 2), &|ch| {
        let sec = section(ch);
        let (i, f) = field(ch, sec);
        let (v, w) = (gen::version(ch), gen::version(ch));
        let val = match f.kind {
            FK::Num(n) | FK::Name(n) => KV::E(ch.free(n.len()) as u8),
            FK::Bool => KV::B(ch.free_flag()),
            _ => gen::kv_value(ch, f),
        };
        let mut vals = no_vals(sec);
        vals[i] = Some(val.clone());
        read(ch, sec, &format!("{}: {}", f.key, f.text(&val)), &vals, v, w)
    });
    ctx.space("full sections at every pair of versions", ctx.b(1, 2), &|ch| {
        let sec = section(ch);
        let (v, w) = (gen::version(ch), gen::version(ch));
        let mut vals = gen::full(sec);
        for x in vals.iter_mut() {
            if ch.flag() {
                *x = None;
            }
        }
        if sec == Sec::General {
            vals[7] = Some(KV::E(ch.free(4) as u8));
        }
        let lines: Vec<String> = sec
            .fields()
            .iter()
            .zip(&vals)
            .filter_map(|(f, x)| x.as_ref().map(|x| format!("{}: {}", f.key, f.text(x))))
            .collect();
        read(ch, sec, &lines.join("\n"), &vals, v, w)
    });
    ctx.space("values built for one version and printed at another", ctx.b(1, 2), &|ch| {
        // a value read at the newest version that has the field
        let sec = section(ch);
        let (i, f) = field(ch, sec);
        let w = gen::version(ch);
        let val = gen::kv_value(ch, f);
        let mut vals = gen::full(sec);
        vals[i] = Some(val);
        let text: Vec<String> = sec
            .fields()
            .iter()
            .zip(&vals)
            .map(|(f, x)| format!("{}: {}", f.key, f.text(x.as_ref().unwrap())))
            .collect();
        read(ch, sec, &text.join("\n"), &vals, 14, w)
    });
    ctx.space("colours section", 0, &|ch| {
        let (v, w) = (gen::version(ch), gen::version(ch));
        let n = ch.free(4);
        let list: Vec<MColour> =
            (0..n).map(|i| [MColour::Combo(i as i32, [1, 2, 3]), MColour::Track([4, 5, 6]), MColour::Border([7, 8, 9])][ch.free(3)].clone()).collect();
        let text = join(&list, |c| c.print());
        ch.note(|| format!("v{v} {text:?} printed at v{w}"));
        if v < 5 {
            let r = Colours.parse(&text, v);
            return ensure(matches!(r, Ok(None)), || format!("colours at version {v} are read as {r:?}"));
        }
        let x = must(Colours, &text, v)?;
        same("colours", &text, v, &x.view(), &m_colours(list.clone()))?;
        let p = x.print(w);
        let want = (w >= 5).then(|| text.clone());
        ensure(p == want, || format!("{text:?} is printed at version {w} as {p:?}"))
    });
    ctx.space("records at every pair of versions", ctx.b(1, 2), &|ch| {
        let (v, w) = (gen::version(ch), gen::version(ch));
        match ch.free(3) {
            0 => {
                let m = gen::hit(ch).at(v);
                let text = m.print(v);
                // the line a separator ends is not the one that is printed
                let m = m.at(v);
                ch.note(|| format!("v{v} {text:?} printed at v{w}"));
                let x = must(Hits, &text, v)?;
                same("hit object", &text, v, &x.view(), &m_hits(vec![m.clone()]))?;
                prints("hit object", &text, w, x.print(w), &m.print(w))
            }
            1 => {
                let m = gen::timing(ch);
                let text = m.print(v);
                let m = m.at(v);
                ch.note(|| format!("v{v} {text:?} printed at v{w}"));
                let x = must(Timing, &text, v)?;
                same("timing point", &text, v, &x.view(), &m_timing(vec![m.clone()]))?;
                prints("timing point", &text, w, x.print(w), &m.print(w))
            }
            _ => {
                let k = ch.free(gen::EVENT_KINDS);
                let e = vec![MEvent::new(gen::event_kind(ch, k))];
                let text = e[0].head(v);
                ch.note(|| format!("v{v} {text:?} printed at v{w}"));
                let x = must(Events, &text, v)?;
                same("event", &text, v, &x.view(), &m_events(e.clone()))?;
                prints("event", &text, w, x.print(w), &print_events(&e, w))
            }
        }
    });
    ctx.space("whole files at every pair of versions", ctx.b(1, 2), &|ch| {
        let (v, w) = (gen::version(ch), gen::version(ch));
        let mut m = gen::default_file(v);
        // without some sections
        let f = file_of(v);
        for i in 0..4 {
            if ch.flag() {
                m.kv[i] = f.kv[i].clone();
            }
        }
        if ch.flag() {
            m.events = None;
        }
        if ch.flag() {
            m.timing = None;
        }
        if ch.flag() {
            m.colours = None;
        }
        if ch.flag() {
            m.hits = None;
        }
        let text = m.print(v);
        ch.note(|| format!("{text:?} printed at v{w}"));
        let x = must(Osu, &text, v)?;
        let m = m.at(v);
        same("file", &text, v, &x.view(), &m.value())?;
        prints("file", &text, w, x.print(w), &m.print(w))
    });
    ctx.space("storyboards below version 14", 0, &|ch| {
        let v = gen::version(ch);
        let w = gen::version(ch);
        let text = *ch.of(&["[Events]\n//x", "[Variables]\n$a=1\n\n[Events]\n//x", "[Variables]\n$a=1"]);
        ch.note(|| format!("v{v} {text:?} printed at v{w}"));
        let r = Osb.parse(text, v);
        if v < 14 {
            return ensure(matches!(r, Ok(None)), || format!("{text:?} at version {v} is read as {r:?}"));
        }
        let x = must(Osb, text, v)?;
        let p = x.print(w);
        if w < 14 {
            ensure(p.is_none(), || format!("a storyboard is printed at version {w} as {p:?}"))
        } else {
            ensure(p.as_deref() == Some(text), || format!("{text:?} is printed as {p:?}"))
        }
    });
}
