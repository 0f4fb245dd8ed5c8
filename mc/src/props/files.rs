//! C03, C05, C20, C22, C23, C26: whole files and lists.

use crate::engine::{Ch, Ctx, Fail, R};
use crate::gen;
use crate::imp::*;
use crate::model::*;
use crate::report::ensure;

/// A file with one part replaced by a generated one.
pub fn file(ch: &mut Ch, v: u8) -> MFile {
    change(ch, gen::default_file(v))
}
/// The same with one record of each section around it.
pub fn short_file(ch: &mut Ch, v: u8) -> MFile {
    let mut m = small_file(14);
    m.version = v;
    m.kv = [Some(gen::full(Sec::General)), m.kv[1].clone(), m.kv[2].clone(), m.kv[3].clone()];
    m.hits.as_mut().unwrap().truncate(1);
    m.timing.as_mut().unwrap().truncate(1);
    m.colours.as_mut().unwrap().truncate(1);
    m.events.as_mut().unwrap().truncate(2);
    let k = ch.free(7);
    let i = match k {
        0 => 0,
        1 => 7,
        2 => 5,
        3 => 6,
        4 | 5 => 4,
        _ => 8,
    };
    // the sections next to the changed one stay
    if i < 8 {
        let mut o = MFile::new(v);
        for j in [i, (i + 1) % 8, (i + 7) % 8] {
            put(&mut o, &m, SECTIONS[j]);
        }
        if i == 0 {
            o.kv = m.kv;
        }
        m = o;
    }
    change_part(ch, m, k)
}
fn change(ch: &mut Ch, m: MFile) -> MFile {
    let k = ch.free(7);
    change_part(ch, m, k)
}
fn change_part(ch: &mut Ch, mut m: MFile, k: usize) -> MFile {
    match k {
        0 => {
            let s = *ch.of(&SECS);
            let i = ch.free(s.fields().len());
            let f = &s.fields()[i];
            if m.kv[s as usize].as_ref().unwrap().iter().flatten().count() < 4 {
                m.kv[s as usize] = Some(gen::full(s));
            }
            m.kv[s as usize].as_mut().unwrap()[i] = if ch.flag() { None } else { Some(gen::kv_value(ch, f)) };
        }
        1 => {
            let at = ch.free(3);
            let h = gen::hit(ch);
            let l = m.hits.as_mut().unwrap();
            l.insert([0, l.len() / 2, l.len()][at], h);
        }
        2 => {
            let at = ch.free(3);
            let t = gen::timing(ch);
            let l = m.timing.as_mut().unwrap();
            l.insert(at.min(l.len()), t);
        }
        3 => {
            let at = ch.free(2);
            let c = gen::colour(ch);
            let l = m.colours.as_mut().unwrap();
            l.insert([0, l.len()][at], c);
        }
        4 => {
            let k = ch.free(gen::EVENT_KINDS);
            let at = ch.free(2);
            let e = MEvent::new(gen::event_kind(ch, k));
            let ev = m.events.as_mut().unwrap();
            let at = [0, ev.len()][at];
            ev.insert(at, e);
        }
        5 => {
            let k = ch.free(gen::CMD_KINDS);
            let depth = ch.free(2);
            let c = gen::cmd(ch, k);
            let ev = m.events.as_mut().unwrap();
            let e = ev.iter_mut().find(|e| e.cmds.len() > 1).unwrap();
            if depth == 0 {
                e.cmds.push(c);
            } else {
                e.cmds.iter_mut().find_map(|c| c.sub_mut()).unwrap().push(c);
            }
        }
        _ => {
            // sections absent or empty
            for i in 0..4 {
                match ch.dev(3) {
                    0 => {}
                    1 => m.kv[i] = None,
                    _ => m.kv[i] = Some(no_vals(SECS[i])),
                }
            }
            fn list<T>(ch: &mut Ch, l: &mut Option<Vec<T>>) {
                match ch.dev(3) {
                    0 => {}
                    1 => *l = None,
                    _ => *l = Some(vec![]),
                }
            }
            list(ch, &mut m.events);
            list(ch, &mut m.timing);
            list(ch, &mut m.colours);
            list(ch, &mut m.hits);
        }
    }
    m
}

fn round(ch: &mut Ch, m: &MFile, v: u8) -> R {
    // what the version holds
    let m = m.at(v);
    let text = m.print(v);
    ch.note(|| text.clone());
    let x = check(Osu, &text, v, &m.at(v).value(), &text)?;
    // reading never depends on what was read before
    let y = must(Osu, &text, v)?;
    ensure(x == y, || format!("{text:?} is read as {x:?} and then as {y:?}"))
}

/// A canonical storyboard in which no command uses a variable.
fn osb(ch: &mut Ch) -> MOsb {
    let vars = match ch.free(3) {
        0 => None,
        1 => Some(vec![]),
        _ => {
            let n = *ch.dev_of(&[2usize, 1, 3]);
            let names = ["a", "bc", "Long", "é", "x1"];
            let vals = ["zzz", "q q", "[w]", "y=y", "日本", "//"];
            Some((0..n).map(|i| (names[(i + ch.dev(3)) % 5].to_string() + &"_".repeat(i), ch.dev_of(&vals).to_string())).collect())
        }
    };
    let events = match ch.free(3) {
        0 => None,
        1 => Some(vec![]),
        _ => {
            let mut e = MEvent::new({
                let k = ch.free(gen::EVENT_KINDS);
                gen::event_kind(ch, k)
            });
            let mut second = gen::default_event(7);
            let k = ch.free(gen::CMD_KINDS);
            let c = gen::cmd(ch, k);
            let mut l = gen::default_cmd(9, 100);
            l.sub_mut().unwrap().push(c.clone());
            if e.takes_commands() {
                e.cmds = vec![l.clone(), c.clone()];
            }
            second.cmds = vec![c, l];
            let mut out = vec![e, second];
            out.retain(|e| e.kept(14));
            Some(out)
        }
    };
    MOsb { variables: vars, events }
}

pub fn c03(ctx: &mut Ctx) {
    ctx.space("files with one part changed", ctx.b(1, 2), &|ch| {
        let v = gen::version(ch);
        let m = file(ch, v);
        round(ch, &m, v)
    });
    ctx.space("short files with one part changed", ctx.b(2, 3), &|ch| {
        let v = *ch.of(&[3u8, 11, 14]);
        let m = short_file(ch, v);
        round(ch, &m, v)
    });
    ctx.space("sections present, empty or absent", 0, &|ch| {
        let v = gen::version(ch);
        let mut m = gen::default_file(v);
        for i in 0..4 {
            match ch.free(3) {
                0 => {}
                1 => m.kv[i] = None,
                _ => m.kv[i] = Some(no_vals(SECS[i])),
            }
        }
        fn list<T>(ch: &mut Ch, l: &mut Option<Vec<T>>) {
            match ch.free(3) {
                0 => {}
                1 => *l = None,
                _ => *l = Some(vec![]),
            }
        }
        list(ch, &mut m.events);
        list(ch, &mut m.timing);
        list(ch, &mut m.colours);
        list(ch, &mut m.hits);
        round(ch, &m, v)
    });
    ctx.space("every subset of the fields of a section", 0, &|ch| {
        let v = *ch.of(&[3u8, 4, 5, 10, 14]);
        let s = *ch.of(&SECS);
        let mut m = MFile::new(v);
        let n = s.fields().len();
        // the 21 fields of the general section: all subsets of each half with the other half full or empty
        let (a, b) = if n > 12 { (0, n / 2) } else { (0, n) };
        let (a, b) = if n > 12 && ch.free_flag() { (b, n) } else { (a, b) };
        let rest = n > 12 && ch.free_flag();
        let vals = (0..n)
            .map(|i| {
                let on = if (a..b).contains(&i) { ch.free_flag() } else { rest };
                on.then(|| gen::default_value(&s.fields()[i]))
            })
            .collect();
        m.kv[s as usize] = Some(vals);
        // something before and after
        m.hits = Some(vec![gen::default_hit(0)]);
        if s != Sec::General {
            m.kv[0] = Some(no_vals(Sec::General));
        }
        round(ch, &m, v)
    });
    ctx.space("lists of every two and three kinds of record", 0, &|ch| {
        let v = *ch.of(&[3u8, 4, 5, 9, 11, 14]);
        let n = 2 + ch.free(2);
        let mut m = MFile::new(v);
        match ch.free(4) {
            0 => {
                let s = MSample { normal: 1, addition: 2, index: 3, volume: 40, file: "a.wav".into() };
                m.hits = Some(
                    (0..n)
                        .map(|_| {
                            let k = ch.free(8);
                            let mut h = gen::default_hit(k % 4);
                            if k >= 4 {
                                h.sample = Some(s.clone());
                            }
                            h
                        })
                        .collect(),
                );
            }
            1 => {
                m.timing = Some(
                    (0..n)
                        .map(|_| {
                            let mut t = gen::default_timing(ch.free(2));
                            match ch.free(3) {
                                0 => {}
                                1 => t.effects = None,
                                _ => {
                                    t.effects = None;
                                    t.uninherited = None;
                                }
                            }
                            t
                        })
                        .collect(),
                );
            }
            2 => {
                let c = [
                    MColour::Combo(1, [1, 2, 3]),
                    MColour::Combo(2, [4, 5, 6]),
                    MColour::Track([7, 8, 9]),
                    MColour::Border([10, 11, 12]),
                ];
                m.colours = Some((0..n).map(|_| ch.of(&c).clone()).collect());
            }
            _ => {
                m.events = Some(
                    (0..n)
                        .map(|_| {
                            let mut e = gen::default_event(ch.free(gen::EVENT_KINDS));
                            if e.takes_commands() && ch.free_flag() {
                                let mut l = gen::default_cmd(10, 5);
                                l.sub_mut().unwrap().push(gen::default_cmd(8, 6));
                                e.cmds = vec![l, gen::default_cmd(0, 7)];
                            }
                            e
                        })
                        .collect(),
                );
            }
        }
        round(ch, &m, v)
    });
    ctx.space("storyboards", ctx.b(1, 2), &|ch| {
        let o = osb(ch);
        let text = o.print();
        ch.note(|| text.clone());
        let want = MFile { osb: Some(o.clone()), ..Default::default() }.value();
        check(Osb, &text, 14, &want, &text)?;
        // and attached to a file
        let mut f = osu_file_parser::OsuFile::new(14);
        f.append_osb(&text).map_err(|e| Fail::Violation(format!("append_osb rejects {text:?}: {e}")))?;
        prints("attached storyboard", &text, 14, f.osb_to_string(), &text)
    });
}

// ------------------------------------------------------------ sections

fn blank(m: &MFile) -> MFile {
    MFile::new(m.version)
}
/// Only one section of a file.
fn only(m: &MFile, part: Part) -> MFile {
    let mut o = blank(m);
    put(&mut o, m, part);
    o
}
fn put(o: &mut MFile, m: &MFile, part: Part) {
    match part {
        Events => o.events = m.events.clone(),
        Timing => o.timing = m.timing.clone(),
        Colours => o.colours = m.colours.clone(),
        Hits => o.hits = m.hits.clone(),
        p => {
            let i = p.kv().unwrap() as usize;
            o.kv[i] = m.kv[i].clone();
        }
    }
}
fn put_empty(o: &mut MFile, part: Part) {
    match part {
        Events => o.events = Some(vec![]),
        Timing => o.timing = Some(vec![]),
        Colours => o.colours = Some(vec![]),
        Hits => o.hits = Some(vec![]),
        p => {
            let s = p.kv().unwrap();
            o.kv[s as usize] = Some(no_vals(s));
        }
    }
}
/// The lines of a section, header first.
pub fn section_lines(m: &MFile, part: Part) -> Vec<String> {
    let mut out = vec![format!("[{}]", part.name())];
    let v = m.version;
    let o = only(m, part);
    for (name, body) in o.sections(v) {
        debug_assert_eq!(name, part.name());
        out.extend(body.lines().map(|l| l.to_string()));
    }
    out
}
fn rejected(ch: &mut Ch, text: &str, why: &str) -> R {
    ch.note(|| format!("{text:?} rejected: {why}"));
    must_fail(Osu, text, 14, why).map(|_| ())
}

/// Small sections, one record each.
pub fn small_file(v: u8) -> MFile {
    let mut m = gen::default_file(v);
    for (i, s) in SECS.iter().enumerate() {
        let mut vals = no_vals(*s);
        for j in [0, 1, 3] {
            vals[j] = Some(gen::default_value(&s.fields()[j]));
        }
        m.kv[i] = Some(vals);
    }
    let mut e = vec![gen::default_event(0), gen::default_event(7), MEvent::new(MEventKind::Comment("end".into()))];
    e[1].cmds = vec![gen::default_cmd(9, 1), gen::default_cmd(0, 2)];
    e[1].cmds[0].sub_mut().unwrap().push(gen::default_cmd(1, 3));
    m.events = Some(e);
    m.hits.as_mut().unwrap().truncate(3);
    m.colours.as_mut().unwrap().truncate(3);
    m.at(v)
}

pub fn c05(ctx: &mut Ctx) {
    let parts = |v: u8| -> Vec<Part> { SECTIONS.iter().copied().filter(|p| v >= 5 || *p != Colours).collect() };
    ctx.space("every order of all sections", 0, &|ch| {
        let v = if crate::engine::thorough() { *ch.of(&[3u8, 5, 14]) } else { 14 };
        let m = small_file(v);
        let mut left = parts(v);
        let mut text = format!("osu file format v{v}\n");
        while !left.is_empty() {
            let p = left.remove(ch.free(left.len()));
            text += "\n";
            text += &section_lines(&m, p).join("\n");
            text += "\n";
        }
        ch.note(|| text.clone());
        same("file", &text, v, &must(Osu, &text, v)?.view(), &m.value())
    });
    ctx.space("every arrangement of up to four sections, full or empty", 0, &|ch| {
        let v = *ch.of(&[3u8, 14]);
        let m = small_file(v);
        let mut left = parts(v);
        let n = ch.free(if crate::engine::thorough() { 6 } else { 5 });
        let mut want = blank(&m);
        let mut text = format!("osu file format v{v}");
        let gap = *ch.of(&["\n", "\n\n"]);
        for _ in 0..n {
            let p = left.remove(ch.free(left.len()));
            text += gap;
            if ch.free_flag() {
                put_empty(&mut want, p);
                text += &format!("[{}]", p.name());
            } else {
                put(&mut want, &m, p);
                text += &section_lines(&m, p).join("\n");
            }
        }
        ch.note(|| text.clone());
        same("file", &text, v, &must(Osu, &text, v)?.view(), &want.value())
    });
    ctx.space("empty sections in every layout", ctx.b(8, 10), &|ch| {
        let v = 14;
        let m = small_file(v);
        let n = if crate::engine::thorough() { 4 } else { 3 };
        let start = ch.free(8);
        let step = *ch.of(&[1usize, 3]);
        let mut want = blank(&m);
        let mut text = format!("osu file format v{v}");
        for i in 0..n {
            let p = SECTIONS[(start + step * i) % 8];
            text += ["\n", "\n\n", "\r\n", "\n \n", "\n\n\n"][ch.dev(5)];
            text += &format!("[{}]", p.name());
            match ch.dev(3) {
                0 => put_empty(&mut want, p),
                1 => {
                    put_empty(&mut want, p);
                    text += [" ", "\t", "  "][ch.free(3)];
                }
                _ => {
                    put(&mut want, &m, p);
                    text += "\n";
                    text += &section_lines(&m, p)[1..].join("\n");
                }
            }
        }
        text += ["", "\n", "\n\n", "\r\n"][ch.dev(4)];
        ch.note(|| format!("{text:?}"));
        same("file", &text, v, &must(Osu, &text, v)?.view(), &want.value())
    });
    ctx.space("repeated sections", 0, &|ch| {
        let v = *ch.of(&[3u8, 5, 14]);
        let m = small_file(v);
        // a repeated section at every place of the file, full or empty
        let order = parts(v);
        let twice = *ch.of(&order);
        let first_empty = ch.free_flag();
        let second_empty = ch.free_flag();
        let at = ch.free(order.len() + 1);
        let with_others = ch.free_flag();
        let gap = *ch.of(&["\n", "\n\n"]);
        let mut text = format!("osu file format v{v}\n");
        let add = |text: &mut String, p: Part, empty: bool| {
            let l = section_lines(&m, p);
            *text += &if empty { l[0].clone() } else { l.join("\n") };
            *text += gap;
        };
        for i in 0..=order.len() {
            if i == at {
                add(&mut text, twice, second_empty);
            }
            if i < order.len() && (with_others || order[i] == twice) {
                add(&mut text, order[i], order[i] == twice && first_empty);
            }
        }
        rejected(ch, &text, "a section appears twice")
    });
    ctx.space("unknown sections and malformed headers", 0, &|ch| {
        let v = *ch.of(&[3u8, 14]);
        let m = small_file(v);
        let order = parts(v);
        let at = ch.free(order.len() + 1);
        let names = [
            "[general]", "[GENERAL]", "[General ]", "[ General]", "[Variables]", "[]", "[ ]", "[HitObject]", "[Hitobjects]", "[Colors]",
            "[Combo]", "[Timing Points]", "[é]", "[Fonts]", "[General", "[Unknown", "[", "[General\t]", "[Events", "[[General]]",
            "[General][", "[\u{feff}General]", "[0]", "[//]", "[Difficulties]", "[Event]", "General]", "]", "x]",
        ];
        let bad = *ch.of(&names);
        let body = *ch.of(&["", "\n\n", "\nkey: value", "\n1,2,3,1,0", "\n//c"]);
        let with_others = ch.free_flag();
        let mut text = format!("osu file format v{v}\n\n");
        for i in 0..=order.len() {
            if i == at {
                text += bad;
                text += body;
                text += "\n";
            }
            if i < order.len() && with_others {
                text += &section_lines(&m, order[i]).join("\n");
                text += "\n\n";
            }
        }
        rejected(ch, &text, "a section is unknown or a header is malformed")
    });
    ctx.space("text before the first section", 0, &|ch| {
        let v = *ch.of(&[3u8, 14]);
        let m = small_file(v);
        let rest = match ch.free(3) {
            0 => String::new(),
            1 => section_lines(&m, General).join("\n"),
            _ => "[Events]\n\n[Editor]".to_string(),
        };
        let lines = ["", "//c", " // c", "\t", "//[General]", "x", "key: value", "1,2,3,1,0", "osu file format v14", "/", "é", "0", " x", "General]"];
        let ok = 5;
        let n = ch.free(if crate::engine::thorough() { 5 } else { 4 });
        let mut text = format!("osu file format v{v}\n");
        let mut bad = false;
        for _ in 0..n {
            let k = ch.free(lines.len());
            bad |= k >= ok;
            text += lines[k];
            text += *ch.of(&["\n", "\r\n"]);
        }
        text += &rest;
        if bad {
            return rejected(ch, &text, "there is text before the first section");
        }
        ch.note(|| format!("{text:?}"));
        let want = match rest.len() {
            0 => blank(&m),
            n if n > 20 => only(&m, General),
            _ => {
                let mut w = blank(&m);
                put_empty(&mut w, Events);
                put_empty(&mut w, Editor);
                w
            }
        };
        same("file", &text, v, &must(Osu, &text, v)?.view(), &want.value())
    });
    ctx.space("version lines", 0, &|ch| {
        let n = ch.free(330) as i64 - 20;
        let line = match ch.free(3) {
            0 => format!("osu file format v{n}"),
            1 => {
                // other texts
                let t = [
                    "", "osu file format v", "osu file format 14", "osu file format", "osu", "osu file format vv14", "osu file format v14x",
                    "osu file format vx", "osu file format v1.4", "osu file format v14 14", "Osu file format v14", "OSU FILE FORMAT V14",
                    "osu file formatv14", "osu file format  v14", "osu file format v-14", "v14", "14", "xosu file format v14", "osu  file format v14",
                    "//osu file format v14", "osu file format v 14", "osu file format v99999999999999999999", "osu file format v270", "osu file format v259",
                    "osu file format v4294967310", "[General]", "osu-file-format v14", "osu file format v14,", "\u{feff}", "osu file format v3é", "osu file format vé",
                ];
                let k = n + 20;
                if k >= t.len() as i64 {
                    return Ok(());
                }
                let text = format!("{}{}", t[k as usize], *ch.of(&["", "\n", "\n\n[General]\nMode: 0", "\r\n\r\n[Events]\r\n"]));
                return rejected(ch, &text, "the version line is missing or malformed");
            }
            _ => {
                // not the first line
                let text = format!("{}\nosu file format v{n}\n[General]", *ch.of(&["x", "[General]", "//c", "osu file format v15", "[", "é"]));
                return rejected(ch, &text, "the version line is missing");
            }
        };
        let text = format!(
            "{}{line}{}",
            *ch.of(&["", "\n", " ", "\u{feff}", "\r\n\r\n", "\t\n ", "\n\u{feff}"]),
            *ch.of(&["", "\n", "\r\n", "\n\n[General]\nMode: 0"])
        );
        if !(3..=14).contains(&n) {
            return rejected(ch, &text, "there is no such version");
        }
        ch.note(|| format!("{text:?}"));
        let x = must(Osu, &text, n as u8)?.view();
        ensure(x.version == n as u8, || format!("{text:?} is read with version {}", x.version))
    });
    ctx.space("text before the version number", 0, &|ch| {
        let n = 3 + ch.free(12);
        let toks = ["0", "+", "-", " ", "v", ".", "1", "x", "\t", "/", "é", ":"];
        let mut lead = String::new();
        for _ in 0..1 + ch.free(if crate::engine::thorough() { 5 } else { 4 }) {
            lead += *ch.of(&toks);
        }
        // other spellings of a number are not specified, and the digits may make another version
        let whole = format!("{lead}{n}");
        if whole.strip_prefix('+').unwrap_or(&whole).bytes().all(|b| b.is_ascii_digit()) || lead.trim().is_empty() {
            return Ok(());
        }
        let text = format!("osu file format v{whole}{}", *ch.of(&["", "\n", "\n\n[General]\nMode: 0", "\r\n\r\n[Events]\r\n"]));
        rejected(ch, &text, "there is text before the version number")
    });
    ctx.space("text after the version number", 0, &|ch| {
        let n = 3 + ch.free(12);
        let toks = [" ", "//", "/", "0", "1", "x", ".", ",", "-", "\t", "[", "]", "é", ":", "\u{feff}", "[General]"];
        let mut rest = String::new();
        for _ in 0..1 + ch.free(if crate::engine::thorough() { 3 } else { 2 }) {
            rest += *ch.of(&toks);
        }
        let whole = format!("{n}{rest}");
        // white space alone is not specified, and the digits may make another version
        if rest.trim().is_empty() || whole.parse::<u128>().is_ok() {
            return Ok(());
        }
        let text = format!("osu file format v{whole}{}", *ch.of(&["", "\n", "\n\n[General]\nMode: 0", "\r\n\r\n[Events]\r\n"]));
        rejected(ch, &text, "there is text after the version number")
    });
    ctx.space("comments", 0, &|ch| {
        // comments exist before the first section and among the events only, where they are kept
        let v = *ch.of(&[3u8, 5, 14]);
        let full = ch.free_flag();
        let m = if full { gen::default_file(v) } else { small_file(v) };
        let mut lines: Vec<String> = m.print(v).lines().map(|l| l.to_string()).collect();
        let at = ch.free(lines.len() + 1);
        let junk = *ch.of(&["//", "//x", "// 1,2,3", "//1,2,3,1,0", "//x:y", "///", "// ", "//[General]", "//osu file format v14"]);
        let mut section = None;
        for l in &lines[..at] {
            if l.starts_with('[') {
                section = Some(l.clone());
            }
        }
        lines.insert(at, junk.to_string());
        let text = lines.join("\n");
        match section.as_deref() {
            None if at == 0 => rejected(ch, &text, "the version line is missing"),
            None => {
                let want = must(Osu, &m.print(v), v)?.view();
                same("file", &text, v, &must(Osu, &text, v)?.view(), &want)
            }
            Some(_) => {
                ch.note(|| format!("{text:?}"));
                // it is rejected, a comment among the events, or a record of text
                let Ok(Some(x)) = Osu.parse(&text, v) else { return Ok(()) };
                let out = x.print(v).unwrap_or_default();
                let count = |t: &str| t.lines().filter(|l| *l == junk || junk.ends_with(",1,0") && l.starts_with(junk)).count();
                ensure(count(&out) == count(&text), || format!("the line {junk:?} is lost: {text:?} is printed as {out:?}"))
            }
        }
    });
    ctx.space("no line is dropped", 0, &|ch| {
        // every line of the text matters: a stray line anywhere is an error
        let v = *ch.of(&[5u8, 14]);
        let full = ch.free_flag();
        let m = if full { gen::default_file(v) } else { small_file(v) };
        let mut lines: Vec<String> = m.print(v).lines().map(|l| l.to_string()).collect();
        let at = ch.free(lines.len() + 1);
        let junk = *ch.of(&["x", "?!", "é", "[", "]", "[x", "x]", ",", "-", "1", "0,", "[]", "_", "$a=1", "/", "\"", "[General]", "[HitObjects]", "9,9"]);
        // the last line of the file ends the last section
        lines.insert(at, junk.to_string());
        rejected(ch, &lines.join("\n"), "there is a line that belongs to nothing")
    });
    ctx.space("every record is read", 0, &|ch| {
        // without one line, exactly that record is missing
        let v = *ch.of(&[3u8, 5, 14]);
        let m = small_file(v);
        let order = parts(v);
        let part = *ch.of(&order);
        let mut o = m.clone();
        match part {
            Timing | Colours | Hits => {
                let n = [m.timing.as_ref(), None][0].map_or(0, |t| t.len());
                let len = match part {
                    Timing => n,
                    Colours => m.colours.as_ref().unwrap().len(),
                    _ => m.hits.as_ref().unwrap().len(),
                };
                let i = ch.free(len);
                match part {
                    Timing => drop(o.timing.as_mut().unwrap().remove(i)),
                    Colours => drop(o.colours.as_mut().unwrap().remove(i)),
                    _ => drop(o.hits.as_mut().unwrap().remove(i)),
                }
            }
            Events => {
                let i = ch.free(3);
                o.events.as_mut().unwrap().remove(i);
            }
            p => {
                let i = p.kv().unwrap() as usize;
                let j = ch.free(o.kv[i].as_ref().unwrap().len());
                o.kv[i].as_mut().unwrap()[j] = None;
            }
        }
        let text = o.print(v);
        ch.note(|| text.clone());
        same("file", &text, v, &must(Osu, &text, v)?.view(), &o.value())
    });
    ctx.space("sections of storyboard files", 0, &|ch| {
        let secs = [
            "[Variables]\n$a=1", "[Variables]", "[Events]\nSprite,Pass,Centre,a,0,0\n F,0,1,2,0", "[Events]", "[General]", "[Colours]", "[events]", "[", "x", "[Events", "[Variables",
            "[HitObjects]\n1,2,3,1,0",
        ];
        let n = ch.free(4);
        let gap = *ch.of(&["\n", "\n\n", "\r\n\r\n"]);
        let mut picked = Vec::new();
        let mut text = (*ch.of(&["", "\n", "\r\n "])).to_string();
        if text == "\r\n " {
            text = "\n\n".into();
        }
        for i in 0..n {
            if i > 0 {
                text += gap;
            }
            let k = ch.free(secs.len());
            picked.push(k);
            text += secs[k];
        }
        text += *ch.of(&["", "\n", "\n\n"]);
        let count = |a: usize, b: usize| picked.iter().filter(|k| **k == a || **k == b).count();
        let bad = picked.iter().any(|k| *k > 3) || count(0, 1) > 1 || count(2, 3) > 1;
        if bad {
            ch.note(|| format!("{text:?} rejected"));
            return must_fail(Osb, &text, 14, "a section is unknown, repeated or malformed").map(|_| ());
        }
        ch.note(|| format!("{text:?}"));
        let mut e = gen::default_event(7);
        e.k = MEventKind::Sprite { layer: 2, origin: MOrigin::Name(1), file: "a".into(), x: crate::num::D::int(0), y: crate::num::D::int(0) };
        e.cmds = vec![MCmd { easing: 0, start: Some(1), end: Some(2), p: MProp::One("F", vec![crate::num::D::int(0)]) }];
        let want = MOsb {
            variables: (count(0, 1) > 0).then(|| if picked.contains(&0) { vec![("a".into(), "1".into())] } else { vec![] }),
            events: (count(2, 3) > 0).then(|| if picked.contains(&2) { vec![e] } else { vec![] }),
        };
        let want = MFile { osb: Some(want), ..Default::default() };
        same("storyboard", &text, 14, &must(Osb, &text, 14)?.view(), &want)
    });
}

// ------------------------------------------------------------ layout

pub fn c20(ctx: &mut Ctx) {
    // every gap between two lines is an own choice
    fn lay(ch: &mut Ch, lines: &[String], blank_ok: &dyn Fn(usize) -> bool, crlf: bool) -> String {
        let nl = if crlf { "\r\n" } else { "\n" };
        let mut text = String::new();
        for (i, l) in lines.iter().enumerate() {
            text += l;
            let last = i + 1 == lines.len();
            if last {
                match ch.dev(5) {
                    0 => {}
                    1 => text += nl,
                    2 => text += &nl.repeat(2),
                    3 => text += "\r\n",
                    _ => text += &nl.repeat(5),
                }
                continue;
            }
            let n = if blank_ok(i) { 7 } else { 2 };
            match ch.dev(n) {
                0 => text += nl,
                // the other line ending
                1 => text += if crlf { "\n" } else { "\r\n" },
                2 => text += &nl.repeat(2),
                3 => text += &nl.repeat(3),
                4 => text += "\r\n\n",
                5 => text += &format!("{nl} {nl}"),
                _ => text += &format!("{nl}\t{nl}{nl}"),
            }
        }
        text
    }
    ctx.space("whole files", ctx.b(2, 2), &|ch| {
        let full = ch.free_flag();
        let v = if full { *ch.of(&[3u8, 14]) } else { gen::version(ch) };
        let m = if full { gen::default_file(v) } else { small_file(v) };
        let plain = m.print(v);
        let dense = ch.free_flag();
        let lines: Vec<String> = plain.lines().filter(|l| !dense || !l.is_empty()).map(|l| l.to_string()).collect();
        let crlf = ch.free_flag();
        let mut text = String::new();
        text += ["", "\u{feff}", "\n", "\r\n\r\n", "\n\u{feff}", " \n\t\n"][ch.dev(6)];
        text += &lay(ch, &lines, &|_| true, crlf);
        ch.note(|| format!("{text:?}"));
        let want = m.at(v).value();
        same("file", &text, v, &must(Osu, &text, v)?.view(), &want)
    });
    ctx.space("the same gap everywhere", 0, &|ch| {
        let v = gen::version(ch);
        let m = gen::default_file(v);
        let plain = m.print(v);
        let dense = ch.free_flag();
        let lines: Vec<&str> = plain.lines().filter(|l| !dense || !l.is_empty()).collect();
        let nl = *ch.of(&["\n", "\r\n"]);
        let gap = match ch.free(5) {
            0 => nl.to_string(),
            1 => nl.repeat(2),
            2 => nl.repeat(7),
            3 => format!("{nl}  {nl}"),
            _ => format!("{nl}\t{nl} {nl}"),
        };
        let start = *ch.of(&["", "\u{feff}", "\n", "\r\n", "\n\n\n\u{feff}"]);
        let end = *ch.of(&["", "\n", "\r\n", "\n\n\n", " \n"]);
        // white space at the end of the last line belongs to the line
        let end = if end == " \n" { "\n \n" } else { end };
        let text = format!("{start}{}{end}", lines.join(&gap));
        ch.note(|| format!("{text:?}"));
        same("file", &text, v, &must(Osu, &text, v)?.view(), &m.at(v).value())
    });
    ctx.space("one long gap", 0, &|ch| {
        // any number of empty lines stands between two lines
        let v = *ch.of(&[3u8, 14]);
        let m = small_file(v);
        let plain = m.print(v);
        let lines: Vec<&str> = plain.lines().filter(|l| !l.is_empty()).collect();
        let at = ch.free(lines.len() + 1);
        let nl = *ch.of(&["\n", "\r\n"]);
        let n = *ch.of(if crate::engine::thorough() {
            &[6usize, 8, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1025, 4096, 65535, 65536, 65537][..]
        } else {
            &[6, 8, 9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 512, 1000, 1025, 65536]
        });
        let mut text = String::new();
        for (i, l) in lines.iter().enumerate() {
            if i == at {
                text += &nl.repeat(n);
            }
            text += l;
            text += nl;
        }
        if at == lines.len() {
            text += &nl.repeat(n);
        }
        ch.note(|| format!("v{v} {n} empty lines that end with {nl:?} before line {at} of {plain:?}"));
        let got = must(Osu, &text, v)?.view();
        ensure(got == m.at(v).value(), || format!("{n} empty lines before line {at} of {plain:?} change what is read"))
    });
    ctx.space("files with records of every kind", ctx.b(1, 2), &|ch| {
        let v = *ch.of(&[3u8, 14]);
        let m = file(ch, v);
        let m = m.at(v);
        let text = m.print(v);
        let text = match ch.free(4) {
            0 => text.replace('\n', "\r\n"),
            1 => format!("\u{feff}{}\r\n", text.replace('\n', "\r\n")),
            2 => text.replace('\n', "\n\n"),
            _ => format!("\n\n{text}\n"),
        };
        ch.note(|| format!("{text:?}"));
        same("file", &text, v, &must(Osu, &text, v)?.view(), &m.at(v).value())
    });
    ctx.space("sections on their own", ctx.b(3, 4), &|ch| {
        let v = *ch.of(&[5u8, 14]);
        let m = small_file(v);
        let part = *ch.of(&SECTIONS);
        let lines = &section_lines(&m, part)[1..];
        let crlf = ch.free_flag();
        let text = lay(ch, lines, &|_| true, crlf);
        ch.note(|| format!("{} {text:?}", part.name()));
        let mut want = only(&m, part).value();
        want.version = 0;
        same(part.name(), &text, v, &must(part, &text, v)?.view(), &want)
    });
    ctx.space("storyboards", ctx.b(3, 4), &|ch| {
        let mut e = vec![gen::default_event(7), MEvent::new(MEventKind::Comment("x".into())), gen::default_event(8)];
        e[0].cmds = vec![gen::default_cmd(9, 1), gen::default_cmd(0, 2)];
        e[0].cmds[0].sub_mut().unwrap().push(gen::default_cmd(1, 3));
        e[2].cmds = vec![gen::default_cmd(7, 4)];
        let o = MOsb { variables: Some(vec![("a".into(), "zz".into()), ("b".into(), "q q".into())]), events: Some(e) };
        let plain = o.print();
        let dense = ch.free_flag();
        let lines: Vec<String> = plain.lines().filter(|l| !dense || !l.is_empty()).map(|l| l.to_string()).collect();
        let crlf = ch.free_flag();
        let start = ["", "\n", "\r\n\r\n", " \n"][ch.dev(4)];
        let text = format!("{start}{}", lay(ch, &lines, &|_| true, crlf));
        ch.note(|| format!("{text:?}"));
        let want = MFile { osb: Some(o), ..Default::default() }.value();
        same("storyboard", &text, 14, &must(Osb, &text, 14)?.view(), &want)
    });
}

// ------------------------------------------------------------ lists

pub fn c22(ctx: &mut Ctx) {
    let sample = MSample { normal: 1, addition: 2, index: 3, volume: 40, file: "a.wav".into() };
    // (part, lines of one record, its value)
    type Item = (Vec<String>, MFile);
    let items = |part: Part, v: u8| -> Vec<Item> {
        match part {
            Hits => (0..12)
                .map(|k| {
                    let mut h = gen::default_hit(k % 4);
                    h.time = crate::num::D::int(1000 + 37 * k as i128);
                    match k / 4 {
                        0 => {}
                        1 => h.sample = Some(sample.clone()),
                        _ => {
                            h.new_combo = true;
                            h.skip = 5;
                            h.sound = 7;
                            if let MKind::Slider(s) = &mut h.kind {
                                s.points.clear();
                                s.edge_sets.clear();
                                s.edge_sounds.clear();
                                s.written = 0;
                            }
                        }
                    }
                    let h = h.at(v);
                    (vec![h.print(v)], m_hits(vec![h]))
                })
                .collect(),
            Timing => (0..6)
                .map(|k| {
                    let mut t = gen::default_timing(k % 2);
                    t.time = crate::num::D::int(500 + 11 * k as i128);
                    if k >= 2 {
                        t.effects = None;
                    }
                    if k >= 4 {
                        t.uninherited = None;
                    }
                    (vec![t.print(v)], m_timing(vec![t.at(v)]))
                })
                .collect(),
            Colours => [
                MColour::Combo(1, [1, 2, 3]),
                MColour::Combo(2, [4, 5, 6]),
                MColour::Combo(1, [7, 8, 9]),
                MColour::Track([10, 11, 12]),
                MColour::Border([13, 14, 15]),
                MColour::Border([16, 17, 18]),
            ]
            .iter()
            .map(|c| (vec![c.print()], m_colours(vec![c.clone()])))
            .collect(),
            _ => (0..15)
                .map(|k| {
                    let mut e = gen::default_event([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0, 6, 7, 8][k]);
                    if k > 10 {
                        let mut l = gen::default_cmd(if k % 2 == 0 { 9 } else { 10 }, 5);
                        l.sub_mut().unwrap().push(gen::default_cmd(k - 5, 6));
                        e.cmds = vec![gen::default_cmd(k - 10, 7), l];
                    }
                    (e.lines(v), m_events(vec![e]))
                })
                .collect(),
        }
    };
    fn concat(items: &[&Item]) -> (String, MFile) {
        let mut m = MFile::default();
        let mut lines = Vec::new();
        for (l, x) in items {
            lines.extend(l.iter().cloned());
            fn add<T: Clone>(a: &mut Option<Vec<T>>, b: &Option<Vec<T>>) {
                if let Some(b) = b {
                    a.get_or_insert_with(Vec::new).extend(b.iter().cloned());
                }
            }
            add(&mut m.hits, &x.hits);
            add(&mut m.timing, &x.timing);
            add(&mut m.colours, &x.colours);
            add(&mut m.events, &x.events);
        }
        (lines.join("\n"), m)
    }
    fn verify(ch: &mut Ch, part: Part, v: u8, picked: &[&Item]) -> R {
        let (text, want) = concat(picked);
        ch.note(|| format!("v{v} {text:?}"));
        let x = must(part, &text, v)?;
        same(part.name(), &text, v, &x.view(), &want)?;
        // colour transformations are not printed at version 14
        let printed: Vec<&str> = text.lines().filter(|l| !(part == Events && v == 14 && l.starts_with("3,"))).collect();
        prints(part.name(), &text, v, x.print(v), &printed.join("\n"))
    }
    const LISTS: [Part; 4] = [Hits, Timing, Colours, Events];
    let all: Vec<(u8, Vec<Vec<Item>>)> =
        [3u8, 5, 10, 14].iter().map(|v| (*v, LISTS.iter().map(|p| items(*p, *v)).collect())).collect();
    let all = &all;
    ctx.space("records of every kind next to each other", 0, &|ch| {
        let (v, lists) = ch.of(all);
        let p = ch.free(4);
        if LISTS[p] == Colours && *v < 5 {
            return Ok(());
        }
        let items = &lists[p];
        let n = 1 + ch.free(if crate::engine::thorough() { 4 } else { 3 });
        let picked: Vec<&Item> = (0..n).map(|_| ch.of(items)).collect();
        verify(ch, LISTS[p], *v, &picked)
    });
    ctx.space("long lists", 0, &|ch| {
        let (v, lists) = ch.of(all);
        let p = ch.free(4);
        if LISTS[p] == Colours && *v < 5 {
            return Ok(());
        }
        let items = &lists[p];
        let (a, b) = (ch.of(items), ch.of(items));
        let n = *ch.of(if crate::engine::thorough() {
            &[5usize, 8, 9, 16, 17, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 1025][..]
        } else {
            &[5usize, 8, 16, 17, 33, 64, 100, 129, 257, 300]
        });
        // one odd record at the end or in the middle of equal ones
        let at = match ch.free(3) {
            0 => 0,
            1 => n / 2,
            _ => n - 1,
        };
        let picked: Vec<&Item> = (0..n).map(|i| if i == at { b } else { a }).collect();
        verify(ch, LISTS[p], *v, &picked)
    });
    ctx.space("very long lists", 0, &|ch| {
        let (v, lists) = ch.of(all);
        let p = ch.free(4);
        if LISTS[p] == Colours && *v < 5 {
            return Ok(());
        }
        let n = *ch.of(if crate::engine::thorough() {
            &[511usize, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 2049, 4095, 4096, 4097, 9999, 10001, 32767, 32768, 32769, 65535, 65536, 65537, 100_001][..]
        } else {
            &[512, 513, 1000, 1001, 1024, 1025, 2049, 4096, 4097, 10001, 32769, 65537]
        });
        let items = &lists[p];
        let turn = ch.free_flag();
        let picked: Vec<&Item> = (0..n).map(|i| &items[if turn { i % items.len() } else { items.len() - 1 - (i / 3) % items.len() }]).collect();
        let (text, want) = concat(&picked);
        ch.note(|| format!("v{v} {} with {n} records, turn {turn}", LISTS[p].name()));
        let x = must(LISTS[p], &text, *v)?;
        ensure(x.view() == want, || format!("{} with {n} records is read differently at version {v}", LISTS[p].name()))?;
        let printed: Vec<&str> = text.lines().filter(|l| !(LISTS[p] == Events && *v == 14 && l.starts_with("3,"))).collect();
        ensure(x.print(*v).unwrap_or_default() == printed.join("\n"), || {
            format!("{} with {n} records is printed differently at version {v}", LISTS[p].name())
        })
    });
    ctx.space("long lists in a file", 0, &|ch| {
        let (v, lists) = ch.of(all);
        let n = *ch.of(&[1usize, 2, 50, 129, 260]);
        let mut m = MFile::new(*v);
        let shift = ch.free(12);
        let pick = |p: usize| -> Vec<&Item> { (0..n).map(|i| &lists[p][(i * 5 + shift) % lists[p].len()]).collect() };
        for p in 0..4 {
            let (_, x) = concat(&pick(p));
            match LISTS[p] {
                Hits => m.hits = x.hits,
                Timing => m.timing = x.timing,
                Colours if *v < 5 => {}
                Colours => m.colours = x.colours,
                _ => m.events = x.events.map(|e| e.into_iter().filter(|e| e.kept(*v)).collect()),
            }
        }
        let text = format!(
            "osu file format v{v}\n\n{}",
            LISTS
                .iter()
                .enumerate()
                .filter(|(_, p)| **p != Colours || *v >= 5)
                .map(|(i, p)| {
                    let (t, _) = concat(&pick(i));
                    let t: Vec<&str> = t.lines().filter(|l| !(*p == Events && *v == 14 && l.starts_with("3,"))).collect();
                    format!("[{}]\n{}", p.name(), t.join("\n"))
                })
                .collect::<Vec<_>>()
                .join("\n\n")
        );
        ch.note(|| format!("v{v} lists of {n} from {shift}"));
        same("file", &text, *v, &must(Osu, &text, *v)?.view(), &m.value())
    });
    // every variant of a record next to every variant of every record of its section
    type Alone = (String, Option<(MFile, String)>);
    let versions: &[u8] = if crate::engine::thorough() { &[14, 3, 4, 5, 9, 10, 12] } else { &[14] };
    let variants: Vec<(u8, Part, Vec<Alone>)> = versions
        .iter()
        .flat_map(|v| LISTS.iter().map(move |p| (*v, *p)))
        .filter(|(v, p)| *p != Colours || *v >= 5)
        .map(|(v, p)| {
            let mut texts: Vec<String> = crate::props::malformed::families()
                .into_iter()
                .filter(|(part, from, to, _)| *part == p && *from <= v && v <= *to)
                .flat_map(|(_, _, _, l)| l)
                .collect();
            texts.sort();
            texts.dedup();
            let alone = texts
                .into_iter()
                .map(|t| {
                    let x = p.parse(&t, v).ok().flatten().map(|x| (x.view(), x.print(v).unwrap_or_default()));
                    (t, x)
                })
                .collect();
            (v, p, alone)
        })
        .collect();
    let variants = &variants;
    ctx.space("every variant of a record next to every other", 0, &|ch| {
        let (v, part, l) = ch.of(variants);
        let (a, b) = (ch.of(l), ch.of(l));
        // the same record may stand any number of times
        let n = if std::ptr::eq(a, b) { 2 + ch.free(3) } else { 2 };
        let mut picked = vec![a; n - 1];
        picked.push(b);
        let text = picked.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join("\n");
        ch.note(|| format!("v{v} {text:?}"));
        let mut m: MFile = Default::default();
        let mut printed = Vec::new();
        for p in &picked {
            let Some((x, s)) = &p.1 else {
                must_fail(*part, &text, *v, "one of its records is rejected alone")?;
                return Ok(());
            };
            fn add<T: Clone>(a: &mut Option<Vec<T>>, b: &Option<Vec<T>>) {
                if let Some(b) = b {
                    a.get_or_insert_with(Vec::new).extend(b.iter().cloned());
                }
            }
            add(&mut m.hits, &x.hits);
            add(&mut m.timing, &x.timing);
            add(&mut m.colours, &x.colours);
            add(&mut m.events, &x.events);
            if !s.is_empty() {
                printed.push(s.as_str());
            }
        }
        let x = must(*part, &text, *v)?;
        same(part.name(), &text, *v, &x.view(), &m)?;
        let got = x.print(*v).unwrap_or_default();
        let got: Vec<&str> = got.lines().filter(|l| !l.is_empty()).collect();
        ensure(got.join("\n") == printed.join("\n"), || {
            format!("{} {text:?} is printed at version {v} as {got:?} instead of {printed:?}", part.name())
        })
    });
    ctx.space("a changed record leaves its neighbours alone", ctx.b(1, 2), &|ch| {
        let v = *ch.of(&[3u8, 4, 5, 11, 14]);
        let lists = &all.iter().find(|(w, _)| *w >= v.min(14)).unwrap().1;
        let _ = lists;
        let p = ch.free(4);
        let part = LISTS[p];
        if part == Colours && v < 5 {
            return Ok(());
        }
        let mid: Item = match part {
            Hits => {
                let h = gen::hit(ch).at(v);
                (vec![h.print(v)], m_hits(vec![h.at(v)]))
            }
            Timing => {
                let t = gen::timing(ch);
                (vec![t.print(v)], m_timing(vec![t.at(v)]))
            }
            Colours => {
                let c = gen::colour(ch);
                (vec![c.print()], m_colours(vec![c]))
            }
            _ => {
                let k = ch.free(gen::EVENT_KINDS);
                let mut e = MEvent::new(gen::event_kind(ch, k));
                if !e.kept(v) {
                    return Ok(());
                }
                if e.takes_commands() && ch.flag() {
                    let k = ch.free(gen::CMD_KINDS);
                    e.cmds.push(gen::cmd(ch, k));
                }
                (e.lines(v), m_events(vec![e]))
            }
        };
        let items = items(part, v);
        let last = items.len() - 1;
        let (a, b) = (&items[ch.free(2) * last], &items[ch.free(2) * (last - 1)]);
        verify(ch, part, v, &[a, &mid, b])
    });
}

// ------------------------------------------------------------ storyboards

pub fn c23(ctx: &mut Ctx) {
    use osu_file_parser::{Osb, OsuFile, VersionedFromStr, VersionedToString};
    let good_a = "[Variables]\n$a=1\n\n[Events]\nSprite,Pass,Centre,a.png,0,0\n F,0,$a,2,0";
    let texts: &[&str] = &[
        good_a,
        "[Events]\nAnimation,Fail,TopLeft,b.png,1,2,3,4,LoopOnce\n L,1,2\n  M,0,,,1,2\n//c",
        "[Variables]\n$x=5\n$y=6",
        "",
        "[Events]",
        "[Events]\nSprite,Pass,Centre,a.png,0,0\n F,0,1,2,x,y\n Q,1",
        "[General]\nMode: 0",
        "[Variables]\n$a=1\n\n[Events]\nSprite,Nope,Centre,a.png,0,0",
        "[Variables]\nnope",
        "[Events",
        "junk",
        "[Events]\n0,0,bg\n//x\n\n[Variables]\n$q=1",
    ];
    let files: Vec<OsuFile> = {
        let mut v: Vec<OsuFile> = Vec::new();
        for ver in [14u8, 3, 13] {
            v.push(gen::default_file(ver).print(ver).parse().unwrap());
        }
        v.push(OsuFile::new(14));
        v.push("osu file format v14\n[Events]\n0,0,bg.png\n".parse().unwrap());
        v
    };
    let files = &files;
    fn one(f: &mut OsuFile, text: &str, before: &mut Option<Osb>, original: &OsuFile) -> R {
        let old = f.clone();
        let printed = f.to_string();
        let alone = Osb::from_str(text, f.version);
        let r = f.append_osb(text);
        match (&r, alone) {
            (Ok(()), Ok(o)) => *before = o,
            (Err(a), Err(b)) => {
                ensure(a.to_string() == b.to_string(), || format!("{text:?} is rejected with {a} instead of {b}"))?;
                ensure(*f == old, || format!("the rejected storyboard {text:?} changes the file to {f:?}"))?;
            }
            (r, o) => return Err(Fail::Violation(format!("append_osb({text:?}) gives {r:?}, alone it is read as {o:?}"))),
        }
        ensure(f.osb == *before, || format!("after append_osb({text:?}) the storyboard is {:?} instead of {before:?}", f.osb))?;
        let mut g = f.clone();
        g.osb = None;
        ensure(g == *original, || format!("append_osb({text:?}) changes the file to {g:?}"))?;
        ensure(f.to_string() == printed && printed == original.to_string(), || format!("append_osb({text:?}) changes the printed file"))?;
        let want = before.as_ref().and_then(|o| o.to_string(f.version));
        let got = f.osb_to_string();
        ensure(got == want, || format!("the storyboard is printed as {got:?} instead of {want:?}"))?;
        // and at version 14 what is printed is what was attached
        if let Some(p) = &got {
            let again = Osb::from_str(p, f.version);
            ensure(matches!(&again, Ok(x) if x == before), || format!("the printed storyboard {p:?} is read as {again:?}"))?;
        }
        Ok(())
    }
    ctx.space("histories of attached storyboards", 0, &|ch| {
        let i = ch.free(files.len());
        let original = &files[i];
        ensure(original.osb.is_none(), || "a file is read with a storyboard".to_string())?;
        let mut f = original.clone();
        let mut before = None;
        let n = if crate::engine::thorough() { 5 } else { 4 };
        for _ in 0..n {
            let k = ch.free(texts.len() + 1);
            if k == 0 {
                break;
            }
            ch.note(|| format!("file {i}: append_osb({:?})", texts[k - 1]));
            one(&mut f, texts[k - 1], &mut before, original)?;
        }
        Ok(())
    });
    ctx.space("edited storyboards attached to a file", 0, &|ch| {
        // every cut of a storyboard, after another one
        let i = ch.free(files.len());
        let t = texts[ch.free(texts.len())];
        let cut = ch.free(t.len() + 1);
        let text = match ch.free(2) {
            0 => t[..cut].to_string(),
            _ => format!("{}\n{}", &t[..cut], &t[cut..]),
        };
        ch.note(|| format!("file {i}: append_osb({text:?})"));
        let mut f = files[i].clone();
        let mut before = None;
        one(&mut f, good_a, &mut before, &files[i])?;
        one(&mut f, &text, &mut before, &files[i])
    });
    ctx.space("storyboards of every content", ctx.b(1, 2), &|ch| {
        let o = osb(ch);
        let text = o.print();
        ch.note(|| text.clone());
        // (the full file takes its time to print, the one with a single event does not)
        let base = &files[if crate::engine::thorough() { 4 } else { 0 }];
        let mut f = base.clone();
        let mut before = None;
        one(&mut f, good_a, &mut before, base)?;
        one(&mut f, &text, &mut before, base)?;
        let want = MFile { osb: Some(o), ..Default::default() }.value().osb;
        let got = f.osb.as_ref().map(crate::view::osb);
        ensure(got == want, || format!("{text:?} is attached as {got:?} instead of {want:?}"))
    });
    ctx.space("storyboards of many records", 0, &|ch| {
        let (nv, ne) = (*ch.of(gen::sizes()), *ch.of(&[1usize, 2, 17, 129, 257]));
        let nc = *ch.of(&[0usize, 1, 9, 65]);
        let (nv, ne) = match ch.free(3) {
            0 => (nv, ne),
            1 => (1, nv),
            _ => (0, nv),
        };
        if nv.max(ne) * (1 + nc) > if crate::engine::thorough() { 40000 } else { 20000 } {
            return Ok(());
        }
        let events = (0..ne)
            .map(|i| {
                let mut e = gen::default_event([7, 8, 7, 9][i % 4]);
                if e.takes_commands() {
                    e.cmds = (0..nc).map(|k| gen::default_cmd(k % 9, (i + k) as i32)).collect();
                }
                e
            })
            .collect();
        let o = MOsb {
            variables: (nv > 0).then(|| (0..nv).map(|i| (format!("v{i}_"), format!("value {i}"))).collect()),
            events: Some(events),
        };
        let text = o.print();
        ch.note(|| format!("{nv} variables, {ne} events of {nc} commands"));
        let mut f = files[0].clone();
        let mut before = None;
        one(&mut f, good_a, &mut before, &files[0])?;
        one(&mut f, &text, &mut before, &files[0])?;
        let want = MFile { osb: Some(o), ..Default::default() }.value().osb;
        let got = f.osb.as_ref().map(crate::view::osb);
        ensure(got == want, || format!("{nv} variables and {ne} events of {nc} commands are not attached as written"))
    });
    ctx.space("reading never gives a storyboard", 0, &|ch| {
        let v = gen::version(ch);
        let ev = *ch.of(&["Sprite,Pass,Centre,a.png,0,0\n F,0,1,2,0", "//Storyboard Layer 0 (Background)", "", "0,0,bg\n M,0,1,2,3,4"]);
        let text = format!("osu file format v{v}\n\n[Events]\n{ev}");
        ch.note(|| text.clone());
        let Val::Osu(f) = must(Osu, &text, v)? else { unreachable!() };
        ensure(f.osb.is_none() && f.osb_to_string().is_none(), || format!("{text:?} is read with the storyboard {:?}", f.osb))
    });
    let states = files;
    ctx.bfs(
        "graph of files and storyboards",
        (0..states.len()).map(|i| (i, states[i].clone())).collect(),
        texts.len(),
        6,
        |(i, f)| (*i, f.clone()),
        |(i, f), op| {
            let mut g = f.clone();
            let mut before = f.osb.clone();
            one(&mut g, texts[op], &mut before, &states[*i])?;
            Ok(Some((*i, g)))
        },
        |(i, f), op| format!("file {i} with {:?}: append_osb({:?})", f.osb.is_some(), texts[op]),
    );
}

// ------------------------------------------------------------ conversion

pub fn c26(ctx: &mut Ctx) {
    fn convert(ch: &mut Ch, m: &MFile, v: u8, w: u8) -> R {
        let m = m.at(v);
        let text = m.print(v);
        ch.note(|| format!("{text:?} converted to version {w}"));
        let Val::Osu(mut f) = must(Osu, &text, v)? else { unreachable!() };
        f.version = w;
        let out = f.to_string();
        let y = must(Osu, &out, w)?;
        let want = m.at(v).at(w);
        same("converted file", &out, w, &y.view(), &want.value())?;
        // again: nothing more changes
        let p = y.print(w).unwrap_or_default();
        let z = must(Osu, &p, w)?;
        same("file converted again", &p, w, &z.view(), &want.value())?;
        let q = z.print(w);
        ensure(q.as_deref() == Some(&p), || format!("converted to version {w} again and again the file is {p:?} and then {q:?}"))
    }
    ctx.space("files with one part changed at every pair of versions", ctx.b(1, 1), &|ch| {
        let (v, w) = (gen::version(ch), gen::version(ch));
        let m = if crate::engine::thorough() { file(ch, v) } else { short_file(ch, v) };
        convert(ch, &m, v, w)
    });
    ctx.space("records at every pair of versions", ctx.b(2, 2), &|ch| {
        let (v, w) = if crate::engine::thorough() {
            (gen::version(ch), gen::version(ch))
        } else {
            (*ch.of(&[3u8, 5, 14]), *ch.of(&[3u8, 4, 5, 10, 14]))
        };
        let mut m = MFile::new(v);
        match ch.free(4) {
            0 => m.hits = Some(vec![gen::hit(ch)]),
            1 => m.timing = Some(vec![gen::timing(ch)]),
            2 => {
                let k = ch.free(gen::EVENT_KINDS);
                m.events = Some(vec![MEvent::new(gen::event_kind(ch, k)), gen::default_event(7)]);
            }
            _ => {
                let s = *ch.of(&SECS);
                let i = ch.free(s.fields().len());
                let mut vals = gen::full(s);
                vals[i] = Some(gen::kv_value(ch, &s.fields()[i]));
                m.kv[s as usize] = Some(vals);
            }
        }
        convert(ch, &m, v, w)
    });
    ctx.space("chains of versions", 0, &|ch| {
        // what survives a chain is what every version of the chain holds
        let v = gen::version(ch);
        let m = gen::default_file(v).at(v);
        let text = m.print(v);
        let Val::Osu(mut f) = must(Osu, &text, v)? else { unreachable!() };
        let mut want = m.at(v);
        let n = if crate::engine::thorough() { 4 } else { 3 };
        for _ in 0..n {
            let w = *ch.of(&[3u8, 4, 5, 6, 9, 10, 12, 13, 14]);
            ch.note(|| format!("to version {w}"));
            f.version = w;
            let out = f.to_string();
            want = want.at(w);
            let Val::Osu(g) = must(Osu, &out, w)? else { unreachable!() };
            same("converted file", &out, w, &crate::view::file(&g), &want.value())?;
            f = g;
        }
        Ok(())
    });
    ctx.space("sections converted without a file", 0, &|ch| {
        let (v, w) = (gen::version(ch), gen::version(ch));
        let m = gen::default_file(v).at(v);
        let part = *ch.of(&SECTIONS);
        if part == Colours && v < 5 {
            return Ok(());
        }
        let lines = section_lines(&m, part)[1..].join("\n");
        ch.note(|| format!("{} {lines:?} from version {v} to {w}", part.name()));
        let x = must(part, &lines, v)?;
        let out = x.print(w);
        if part == Colours && w < 5 {
            return ensure(out.is_none(), || format!("colours are printed at version {w} as {out:?}"));
        }
        let Some(out) = out else { return Err(Fail::Violation(format!("{} is not printed at version {w}", part.name()))) };
        let mut want = only(&m.at(v).at(w), part).value();
        want.version = 0;
        same(part.name(), &out, w, &must(part, &out, w)?.view(), &want)
    });
}
