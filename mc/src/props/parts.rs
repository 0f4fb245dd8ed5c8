//! C35: every value reads and prints the same on its own as where it stands in the whole.

use super::files::file;
use crate::engine::{Ch, Ctx, Fail};
use crate::gen;
use crate::imp::{must, Part, Part::*, Val};
use crate::model::*;
use crate::report::ensure;
use lib::{VersionedFromStr, VersionedToString};
use osu_file_parser as lib;
use std::fmt::Debug;

type R = Result<(), Fail>;

const VERSIONS: [u8; 12] = [3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14];

fn pick_version(ch: &mut Ch) -> u8 {
    *ch.of(&VERSIONS)
}

/// Versions on both sides of every change of the format.
fn around(ch: &mut Ch) -> u8 {
    if crate::engine::thorough() { pick_version(ch) } else { *ch.of(&[3u8, 4, 5, 9, 10, 14]) }
}

fn bad(s: String) -> R {
    Err(Fail::Violation(s))
}

/// `text` is what stands in the whole for `x`, read at version `v` and printed at version `w`.
fn piece<T: VersionedFromStr + VersionedToString + PartialEq + Debug>(what: &str, x: &T, written: &str, v: u8, printed: Option<&str>, w: u8) -> R
where
    T::Err: Debug,
{
    let got = T::from_str(written, v);
    ensure(matches!(&got, Ok(Some(y)) if y == x), || format!("version {v}: {what} {written:?} is read alone as {got:?} and in the whole as {x:?}"))?;
    let got = x.to_string(w);
    ensure(got.as_deref() == printed, || format!("version {w}: {what} {x:?} is printed alone as {got:?} and in the whole as {printed:?}"))
}

fn prints<T: VersionedToString + Debug>(what: &str, x: &T, want: Option<&str>, w: u8) -> R {
    let got = x.to_string(w);
    ensure(got.as_deref() == want, || format!("version {w}: {what} {x:?} is printed alone as {got:?} and in the whole as {want:?}"))
}

fn reads<T: VersionedFromStr + PartialEq + Debug>(what: &str, x: &T, text: &str, v: u8) -> R
where
    T::Err: Debug,
{
    let got = T::from_str(text, v);
    ensure(matches!(&got, Ok(Some(y)) if y == x), || format!("version {v}: {what} {text:?} is read alone as {got:?} and in the whole as {x:?}"))
}

// ------------------------------------------------------------ sections of a file

/// The name and the text of every section of a printed file.
fn split(text: &str) -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> = Vec::new();
    for l in text.lines().skip(1) {
        match l.strip_prefix('[').and_then(|l| l.strip_suffix(']')) {
            Some(n) if Part::named(n) => out.push((n.to_string(), String::new())),
            _ => {
                if let Some((_, t)) = out.last_mut() {
                    t.push_str(l);
                    t.push('\n');
                }
            }
        }
    }
    for (_, t) in &mut out {
        *t = t.trim_end_matches('\n').to_string();
    }
    out
}

impl Part {
    fn named(n: &str) -> bool {
        ["General", "Editor", "Metadata", "Difficulty", "Events", "TimingPoints", "Colours", "HitObjects"].contains(&n)
    }
}

fn sections(f: &lib::OsuFile, v: u8, w: u8, text: &str) -> R {
    let mut g = f.clone();
    g.version = w;
    let printed = g.to_string();
    let (read, out) = (split(text), split(&printed));
    let mut n = 0;
    macro_rules! go {
        ($($part:expr, $f:ident, $t:ty);* $(;)?) => {$(
            let name = $part.name();
            let old = read.iter().find(|s| s.0 == name);
            let new = out.iter().find(|s| s.0 == name).map(|s| s.1.as_str());
            n += new.is_some() as usize;
            match (&f.$f, old) {
                (Some(x), Some((_, t))) => {
                    let got = <$t>::from_str(t, v);
                    ensure(matches!(&got, Ok(Some(y)) if y == x), || format!("version {v}: the section {name} {t:?} is read alone as {got:?} and in the file as {x:?}"))?;
                }
                (None, None) => {}
                (x, t) => return bad(format!("version {v}: the section {name} is {t:?} in the text and {x:?} in the file")),
            }
            let alone = f.$f.as_ref().and_then(|x| x.to_string(w));
            ensure(alone.as_deref() == new, || format!("version {w}: the section {name} is printed alone as {alone:?} and in the file as {new:?}"))?;
            // and with no other section
            let mut h = lib::OsuFile::new(w);
            h.$f = f.$f.clone();
            let got = h.to_string();
            let got = split(&got);
            let want: Vec<(String, String)> = new.map(|t| (name.to_string(), t.to_string())).into_iter().collect();
            ensure(got == want, || format!("version {w}: a file with the section {name} only is printed with {got:?} instead of {want:?}"))?;
        )*};
    }
    go! {
        General, general, lib::General;
        Editor, editor, lib::Editor;
        Metadata, metadata, lib::Metadata;
        Difficulty, difficulty, lib::Difficulty;
        Events, events, lib::Events;
        Timing, timing_points, lib::TimingPoints;
        Colours, colours, lib::Colours;
        Hits, hitobjects, lib::HitObjects;
    }
    ensure(n == out.len(), || format!("version {w}: a section is printed twice in {printed:?}"))
}

// ------------------------------------------------------------ records of a list

/// One record of a list: the whole list and the record alone.
fn record(part: Part, text: &str, v: u8) -> R {
    macro_rules! go {
        ($list:ty, $rec:ty) => {{
            let whole = <$list as VersionedFromStr>::from_str(text, v);
            let alone = <$rec as VersionedFromStr>::from_str(text, v);
            match (&whole, &alone) {
                (Ok(Some(l)), Ok(Some(x))) => {
                    ensure(l.0.len() == 1 && l.0[0] == *x, || format!("version {v}: {text:?} is read alone as {x:?} and in its section as {l:?}"))?;
                    for w in VERSIONS {
                        let (a, b) = (VersionedToString::to_string(l, w), VersionedToString::to_string(x, w));
                        // a section that the version does not have is not printed at all
                        ensure(a.is_none() || a.clone().unwrap_or_default() == b.clone().unwrap_or_default(), || {
                            format!("version {w}: {x:?} is printed alone as {b:?} and in its section as {a:?}")
                        })?;
                    }
                    Ok(())
                }
                (Ok(None), Ok(None)) => Ok(()),
                (Err(a), Err(b)) => {
                    let (a, b) = (a.error().to_string(), b.to_string());
                    ensure(a == b, || format!("version {v}: {text:?} is rejected alone with {b:?} and in its section with {a:?}"))
                }
                _ => bad(format!("version {v}: {text:?} is read alone as {alone:?} and in its section as {whole:?}")),
            }
        }};
    }
    match part {
        Hits => go!(lib::HitObjects, lib::hitobjects::HitObject),
        Timing => go!(lib::TimingPoints, lib::timingpoints::TimingPoint),
        Colours => go!(lib::Colours, lib::colours::Colour),
        _ => event(text, v),
    }
}

/// An event: the section, and every type of event alone.
fn event(text: &str, v: u8) -> R {
    use lib::events::Event as E;
    let whole = <lib::Events as VersionedFromStr>::from_str(text, v);
    let first = match &whole {
        Ok(Some(l)) => l.0.first(),
        _ => None,
    };
    let lines: Vec<&str> = text.lines().collect();
    let head = lines.first().copied().unwrap_or_default();
    // without its commands
    let mut bare = first.cloned();
    match &mut bare {
        Some(E::Background(x)) => x.commands.clear(),
        Some(E::Video(x)) => x.commands.clear(),
        Some(E::SpriteLegacy(x)) => x.commands.clear(),
        Some(E::AnimationLegacy(x)) => x.commands.clear(),
        Some(E::SampleLegacy(x)) => x.commands.clear(),
        Some(E::StoryboardObject(x)) => x.commands.clear(),
        _ => {}
    }
    let mut taken = 0;
    macro_rules! go {
        ($($k:ident: $t:ty),*) => {$(
            let alone = <$t as VersionedFromStr>::from_str(head, v);
            match (&alone, &bare) {
                (Ok(Some(x)), Some(E::$k(y))) => {
                    taken += 1;
                    ensure(x == y, || format!("version {v}: {head:?} is read alone as {x:?} and in its section as {y:?}"))?;
                    for w in VERSIONS {
                        let (a, b) = (VersionedToString::to_string(x, w), VersionedToString::to_string(bare.as_ref().unwrap(), w));
                        ensure(a == b, || format!("version {w}: {x:?} is printed alone as {a:?} and as an event as {b:?}"))?;
                        // and with its commands
                        let Some(E::$k(x)) = first else { unreachable!() };
                        let (a, b) = (VersionedToString::to_string(x, w), VersionedToString::to_string(first.unwrap(), w));
                        ensure(a == b, || format!("version {w}: {x:?} is printed alone as {a:?} and as an event as {b:?}"))?;
                    }
                }
                (Ok(Some(x)), Some(y)) => return bad(format!("version {v}: {head:?} is read alone as {x:?} and in its section as {y:?}")),
                (Ok(Some(x)), None) => {
                    // what stands below may be wrong, the line alone is not
                    ensure(lines.len() > 1, || format!("version {v}: {head:?} is read alone as {x:?} and in its section as {whole:?}"))?;
                }
                (a, Some(E::$k(y))) => return bad(format!("version {v}: {head:?} is read alone as {a:?} and in its section as {y:?}")),
                _ => {}
            }
        )*};
    }
    go!(
        Background: lib::events::Background,
        Video: lib::events::Video,
        Break: lib::events::Break,
        ColourTransformation: lib::events::ColourTransformation,
        SpriteLegacy: lib::events::SpriteLegacy,
        AnimationLegacy: lib::events::AnimationLegacy,
        SampleLegacy: lib::events::SampleLegacy,
        StoryboardObject: lib::events::storyboard::sprites::Object,
        AudioSample: lib::events::AudioSample
    );
    if let Some(e) = first {
        let _ = taken;
        for w in VERSIONS {
            let l = whole.as_ref().unwrap().as_ref().unwrap();
            let want: Vec<String> = l.0.iter().filter_map(|e| VersionedToString::to_string(e, w)).collect();
            let got = VersionedToString::to_string(l, w);
            ensure(got.as_deref() == Some(&want.join("\n")), || format!("version {w}: {l:?} is printed as {got:?}, its events alone as {want:?}"))?;
            ensure(l.to_string_variables(w, &[]) == got, || format!("version {w}: {l:?} is printed otherwise without variables"))?;
            ensure(e.to_string_variables(w, &[]) == VersionedToString::to_string(e, w), || format!("version {w}: {e:?} is printed otherwise without variables"))?;
        }
        // every command alone
        let cmds = match e {
            E::Background(x) => &x.commands,
            E::Video(x) => &x.commands,
            E::SpriteLegacy(x) => &x.commands,
            E::AnimationLegacy(x) => &x.commands,
            E::SampleLegacy(x) => &x.commands,
            E::StoryboardObject(x) => &x.commands,
            _ => return Ok(()),
        };
        let mut all = Vec::new();
        flat(cmds, &mut all);
        let below: Vec<&str> = lines[1..].iter().copied().filter(|l| l.starts_with([' ', '_'])).collect();
        ensure(l_one(&whole) != Some(1) || all.len() == below.len(), || format!("version {v}: {text:?} is read with {} commands", all.len()))?;
        if all.len() != below.len() {
            return Ok(());
        }
        let printed = VersionedToString::to_string(e, v).unwrap_or_default();
        let printed: Vec<&str> = printed.lines().skip(1).collect();
        for (i, (c, t)) in all.iter().zip(&below).enumerate() {
            use lib::events::storyboard::cmds::CommandProperties as P;
            let mut c: lib::events::storyboard::cmds::Command = (*c).clone();
            if let P::Loop { commands, .. } | P::Trigger { commands, .. } = &mut c.properties {
                commands.clear();
            }
            let alone = printed.get(i).map(|l| l.trim_start_matches(' '));
            piece("the command", &c, t.trim_start_matches([' ', '_']), v, alone, v)?;
            ensure(c.to_string_variables(v, &[]).as_deref() == alone, || format!("version {v}: {c:?} is printed otherwise without variables"))?;
        }
    }
    Ok(())
}

fn l_one<E>(l: &Result<Option<lib::Events>, E>) -> Option<usize> {
    l.as_ref().ok().and_then(|l| l.as_ref()).map(|l| l.0.len())
}

fn flat<'a>(cmds: &'a [lib::events::storyboard::cmds::Command], out: &mut Vec<&'a lib::events::storyboard::cmds::Command>) {
    use lib::events::storyboard::cmds::CommandProperties as P;
    for c in cmds {
        out.push(c);
        if let P::Loop { commands, .. } | P::Trigger { commands, .. } = &c.properties {
            flat(commands, out);
        }
    }
}

// ------------------------------------------------------------ fields of a record

fn hit_fields(h: &lib::hitobjects::HitObject, text: &str, v: u8, w: u8) -> R {
    use lib::hitobjects::HitObjectParams as P;
    let Some(out) = VersionedToString::to_string(h, w) else { return Ok(()) };
    let (a, b): (Vec<&str>, Vec<&str>) = (text.split(',').collect(), out.split(',').collect());
    piece("the hit sound", &h.hitsound, a[4], v, Some(b[4]), w)?;
    for (what, d, i) in [("x", &h.position.x, 0), ("y", &h.position.y, 1)] {
        ensure(d.to_string() == b[i] && a[i].parse::<lib::Decimal>().as_ref() == Ok(d), || format!("{what} {d:?} is not {:?} and {:?}", a[i], b[i]))?;
    }
    let sample = match &h.obj_params {
        P::HitCircle => Some((5, ',')),
        P::Spinner { .. } => Some((6, ',')),
        P::OsuManiaHold { .. } => Some((5, ':')),
        P::Slider(s) => {
            let (mut p, mut q) = (a[5].split('|'), b[5].split('|'));
            piece("the curve type", &s.curve_type, p.next().unwrap(), v, q.next(), w)?;
            // at version 3 the position stands in front of the points
            if v == 3 {
                p.next();
            }
            if w == 3 {
                q.next();
            }
            for c in &s.curve_points {
                let t = p.next();
                let Some(t) = t else { return bad(format!("{text:?} has more points than its text")) };
                piece("the point", c, t, v, q.next(), w)?;
            }
            ensure(s.length.to_string() == b[7] && s.slides.to_string() == b[6], || format!("{s:?} is printed as {out:?}"))?;
            if let Some(t) = a.get(8).filter(|t| !t.is_empty()) {
                for (x, t) in s.edge_sounds.iter().zip(t.split('|')) {
                    reads("the edge sound", x, t, v)?;
                }
            }
            if let Some(t) = b.get(8).filter(|t| !t.is_empty()) {
                let t: Vec<&str> = t.split('|').collect();
                ensure(t.len() >= s.edge_sounds.len(), || format!("{s:?} is printed as {out:?}"))?;
                for (x, t) in s.edge_sounds.iter().zip(t) {
                    prints("the edge sound", x, Some(t), w)?;
                }
            }
            if let Some(t) = a.get(9).filter(|t| !t.is_empty()) {
                for (x, t) in s.edge_sets.iter().zip(t.split('|')) {
                    reads("the edge set", x, t, v)?;
                    let (n, m) = t.split_once(':').unwrap_or((t, ""));
                    reads("the sample set", &x.normal_set, n, v)?;
                    reads("the sample set", &x.addition_set, m, v)?;
                }
            }
            if let Some(t) = b.get(9).filter(|t| !t.is_empty()) {
                let t: Vec<&str> = t.split('|').collect();
                ensure(t.len() >= s.edge_sets.len(), || format!("{s:?} is printed as {out:?}"))?;
                for (x, t) in s.edge_sets.iter().zip(t) {
                    prints("the edge set", x, Some(t), w)?;
                    let (n, m) = t.split_once(':').unwrap_or((t, ""));
                    prints("the sample set", &x.normal_set, Some(n), w)?;
                    prints("the sample set", &x.addition_set, Some(m), w)?;
                }
            }
            Some((10, ','))
        }
        _ => None,
    };
    if let (Some((i, sep)), Some(s)) = (sample, &h.hitsample) {
        let tail = |f: &[&str]| -> Option<String> {
            let t = f.get(i..)?.join(",");
            match sep {
                ',' => Some(t),
                _ => t.split_once(':').map(|t| t.1.to_string()),
            }
        };
        if let Some(t) = tail(&a).filter(|t| !t.is_empty()) {
            reads("the hit sample", s, &t, v)?;
            let f: Vec<&str> = t.splitn(5, ':').collect();
            reads("the sample set", &s.normal_set, f[0], v)?;
            reads("the sample set", &s.addition_set, f[1], v)?;
            // (a field without text is left out, not read)
            if let Some(t) = f.get(2).filter(|t| !t.is_empty()) {
                reads("the sample index", &s.index, t, v)?;
            }
            if let Some(t) = f.get(3).filter(|t| !t.is_empty()) {
                reads("the volume", &s.volume, t, v)?;
            }
        }
        let got = VersionedToString::to_string(s, w);
        let want = tail(&b).filter(|t| !t.is_empty());
        ensure(got.clone().unwrap_or_default() == want.clone().unwrap_or_default(), || {
            format!("version {w}: the hit sample {s:?} is printed alone as {got:?} and in the whole as {want:?}")
        })?;
        if let Some(t) = want {
            let f: Vec<&str> = t.splitn(5, ':').collect();
            prints("the sample set", &s.normal_set, Some(f[0]), w)?;
            prints("the sample set", &s.addition_set, Some(f[1]), w)?;
            if let Some(t) = f.get(2) {
                prints("the sample index", &s.index, Some(t), w)?;
            }
        }
    }
    Ok(())
}

fn timing_fields(t: &lib::timingpoints::TimingPoint, text: &str, v: u8, w: u8) -> R {
    let Some(out) = VersionedToString::to_string(t, w) else { return Ok(()) };
    let (a, b): (Vec<&str>, Vec<&str>) = (text.split(',').collect(), out.split(',').collect());
    macro_rules! go {
        ($what:expr, $x:expr, $i:expr) => {
            if let Some(s) = a.get($i) {
                reads($what, &$x, s, v)?;
            }
            if let Some(s) = b.get($i) {
                prints($what, &$x, Some(s), w)?;
            }
        };
    }
    go!("the sample set", t.sample_set(), 3);
    go!("the sample index", t.sample_index(), 4);
    go!("the volume", *t.volume(), 5);
    if let Some(e) = t.effects() {
        go!("the effects", *e, 7);
    }
    Ok(())
}

fn event_fields(e: &lib::events::Event, text: &str, v: u8, w: u8) -> R {
    use lib::events::Event as E;
    let Some(out) = VersionedToString::to_string(e, w) else { return Ok(()) };
    let head = |t: &str| -> Vec<String> { t.lines().next().unwrap_or_default().split(',').map(str::to_string).collect() };
    let (a, b) = (head(text), head(&out));
    let file = |f: &lib::FilePath, i: usize| prints("the file name", f, Some(&b[i]), w);
    match e {
        E::Background(x) => file(&x.file_name, 2),
        E::Video(x) => file(&x.file_name, 2),
        E::SpriteLegacy(x) => {
            piece("the layer", &x.layer, &a[1], v, Some(&b[1]), w)?;
            piece("the origin", &x.origin, &a[2], v, Some(&b[2]), w)?;
            file(&x.file_name, 3)
        }
        E::AnimationLegacy(x) => {
            piece("the layer", &x.layer, &a[1], v, Some(&b[1]), w)?;
            piece("the origin", &x.origin, &a[2], v, Some(&b[2]), w)?;
            file(&x.file_name, 3)
        }
        E::SampleLegacy(x) => {
            piece("the layer", &x.layer, &a[2], v, Some(&b[2]), w)?;
            if let (Some(y), Some(s), Some(t)) = (&x.volume, a.get(4), b.get(4)) {
                piece("the volume", y, s, v, Some(t), w)?;
            }
            file(&x.file_name, 3)
        }
        E::StoryboardObject(x) => {
            use lib::events::storyboard::sprites::ObjectType as O;
            piece("the layer", &x.layer, &a[1], v, Some(&b[1]), w)?;
            piece("the origin", &x.origin, &a[2], v, Some(&b[2]), w)?;
            if let O::Animation(y) = &x.object_type {
                match (a.get(8), b.get(8)) {
                    (Some(s), Some(t)) => piece("the loop type", &y.loop_type, s, v, Some(t), w)?,
                    (None, Some(t)) => prints("the loop type", &y.loop_type, Some(t), w)?,
                    _ => {}
                }
            }
            Ok(())
        }
        E::AudioSample(x) => match (a.get(4), b.get(4)) {
            (Some(s), Some(t)) => piece("the volume", &x.volume, s, v, Some(t), w),
            (None, Some(t)) => prints("the volume", &x.volume, Some(t), w),
            _ => Ok(()),
        },
        _ => Ok(()),
    }
}

fn command_fields(c: &lib::events::storyboard::cmds::Command, text: &str, w: u8) -> R {
    use lib::events::storyboard::cmds::CommandProperties as P;
    let out = VersionedToString::to_string(c, w).unwrap_or_default();
    let (a, b): (Vec<&str>, Vec<&str>) = (text.split(',').collect(), out.split(',').collect());
    match &c.properties {
        P::Fade { easing, .. }
        | P::Move { easing, .. }
        | P::MoveX { easing, .. }
        | P::MoveY { easing, .. }
        | P::Scale { easing, .. }
        | P::VectorScale { easing, .. }
        | P::Rotate { easing, .. }
        | P::Colour { easing, .. }
        | P::Parameter { easing, .. } => prints("the easing", easing, Some(b[1]), w)?,
        _ => {}
    }
    match &c.properties {
        P::Parameter { parameter, continuing_parameters, .. } => {
            for (i, p) in std::iter::once(parameter).chain(continuing_parameters).enumerate() {
                piece("the parameter", p, a[4 + i], 14, Some(b[4 + i]), w)?;
            }
        }
        P::Move { positions_xy: x, .. } | P::VectorScale { scales_xy: x, .. } => {
            let x = x.to_string();
            ensure(x == b[4..].join(","), || format!("version {w}: the pairs are printed alone as {x:?} and in {out:?}"))?;
        }
        P::Colour { colours, .. } => prints("the colours", colours, Some(&b[4..].join(",")), w)?,
        P::Trigger { trigger_type, .. } => piece("the trigger", trigger_type, a[1], 14, Some(b[1]), w)?,
        _ => {}
    }
    Ok(())
}

// ------------------------------------------------------------ fields of key-value sections

macro_rules! kv_fields {
    ($name:ident, $sec:ident, $s:expr, $t:ty, $($f:ident),* $(,)?) => {
        /// `text` is read at version `v`; it and everything that is printed at `w` has one line for every field.
        fn $name(x: &$t, text: &str, v: u8, w: u8) -> R {
            let out = x.to_string(w).unwrap_or_default();
            let find = |t: &str, key: &str| t.lines().find_map(|l| l.split_once(':').filter(|l| l.0.trim() == key).map(|l| l.1.trim().to_string()));
            let mut i = 0usize;
            $(
                let key = $s.fields()[i].key;
                if let Some(y) = &x.$f {
                    if let Some(s) = find(text, key) {
                        reads(key, y, &s, v)?;
                    }
                    // a field that the version does not have is not printed; what is empty stands for nothing
                    let (got, want) = (y.to_string(w), find(&out, key));
                    ensure(got == want, || format!("version {w}: {key} {y:?} is printed alone as {got:?} and in its section as {want:?}"))?;
                }
                i += 1;
            )*
            ensure(i == $s.fields().len(), || "a field is missing".to_string())
        }
    };
}

kv_fields!(
    general, general, Sec::General, lib::General, audio_filename, audio_lead_in, audio_hash, preview_time, countdown, sample_set, stack_leniency, mode,
    letterbox_in_breaks, story_fire_in_front, use_skin_sprites, always_show_playfield, overlay_position, skin_preference, epilepsy_warning,
    countdown_offset, special_style, widescreen_storyboard, samples_match_playback_rate, editor_bookmarks, editor_distance_spacing,
);
kv_fields!(editor, editor, Sec::Editor, lib::Editor, bookmarks, distance_spacing, beat_divisor, grid_size, timeline_zoom, current_time);
kv_fields!(metadata, metadata, Sec::Metadata, lib::Metadata, title, title_unicode, artist, artist_unicode, creator, version, source, tags, beatmap_id, beatmap_set_id);
kv_fields!(
    difficulty, difficulty, Sec::Difficulty, lib::Difficulty, hp_drain_rate, circle_size, overall_difficulty, approach_rate, slider_multiplier, slider_tickrate
);

fn fields(part: Part, text: &str, v: u8, w: u8) -> R {
    match part.parse(text, v) {
        Ok(Some(Val::General(x))) => general(&x, text, v, w),
        Ok(Some(Val::Editor(x))) => editor(&x, text, v, w),
        Ok(Some(Val::Metadata(x))) => metadata(&x, text, v, w),
        Ok(Some(Val::Difficulty(x))) => difficulty(&x, text, v, w),
        Ok(Some(Val::Hits(x))) => x.0.iter().zip(text.lines()).try_for_each(|(x, t)| hit_fields(x, t, v, w)),
        Ok(Some(Val::Timing(x))) => x.0.iter().zip(text.lines()).try_for_each(|(x, t)| timing_fields(x, t, v, w)),
        Ok(Some(Val::Colours(x))) => x.0.iter().zip(text.lines()).try_for_each(|(x, t)| {
            use lib::colours::Colour as C;
            let (C::Combo(_, r) | C::SliderTrackOverride(r) | C::SliderBorder(r)) = x else { return Ok(()) };
            let out = VersionedToString::to_string(x, w).unwrap_or_default();
            let after = |t: &str| t.split_once(':').map(|t| t.1.trim().to_string()).unwrap_or_default();
            piece("the colour", r, &after(t), v, Some(&after(&out)), w)
        }),
        Ok(Some(Val::Events(x))) => {
            let heads: Vec<&str> = text.lines().filter(|l| !l.starts_with([' ', '_'])).collect();
            if heads.len() != x.0.len() {
                return Ok(());
            }
            x.0.iter().zip(heads).try_for_each(|(x, t)| event_fields(x, t, v, w))
        }
        _ => Ok(()),
    }
}

// ------------------------------------------------------------ storyboard files

fn storyboard(o: &MOsb, text: &str) -> R {
    let Val::Osb(x) = must(Osb, text, 14)? else { unreachable!() };
    let vars: Vec<&str> = text.lines().filter(|l| l.starts_with('$')).collect();
    let list = x.variables.as_deref().unwrap_or_default();
    ensure(vars.len() == list.len(), || format!("{text:?} is read with the variables {list:?}"))?;
    for (x, t) in list.iter().zip(&vars) {
        piece("the variable", x, t, 14, Some(t), 14)?;
    }
    let want: Vec<String> = [
        x.variables.as_ref().map(|l| std::iter::once("[Variables]".to_string()).chain(l.iter().filter_map(|x| x.to_string(14))).collect::<Vec<_>>().join("\n")),
        x.events.as_ref().map(|l| {
            let t = l.to_string_variables(14, list).unwrap_or_default();
            if t.is_empty() { "[Events]".to_string() } else { format!("[Events]\n{t}") }
        }),
    ]
    .into_iter()
    .flatten()
    .collect();
    let tight = |s: &str| s.lines().filter(|l| !l.is_empty()).collect::<Vec<_>>().join("\n");
    let got = x.to_string(14).unwrap_or_default();
    ensure(tight(&got) == tight(&want.join("\n")), || format!("{text:?} is printed as {got:?}, its parts alone as {want:?}"))?;
    if let (Some(l), Some(_)) = (&x.events, &o.events) {
        for e in &l.0 {
            let whole = lib::Events(vec![e.clone()]).to_string_variables(14, list);
            let alone = e.to_string_variables(14, list);
            ensure(whole == alone, || format!("{e:?} is printed alone as {alone:?} and in its section as {whole:?}"))?;
        }
    }
    Ok(())
}

pub fn c35(ctx: &mut Ctx) {
    ctx.space("sections of files", ctx.b(1, 2), &|ch| {
        let v = *ch.of(&[3u8, 5, 10, 14]);
        let w = *ch.dev_of(&[v, 3, 4, 5, 6, 9, 10, 14]);
        let m = file(ch, v).at(v);
        let text = m.print(v);
        ch.note(|| format!("v{v} printed at {w}: {text}"));
        let Val::Osu(f) = must(Osu, &text, v)? else { unreachable!() };
        sections(&f, v, w, &text)
    });
    let lists: Vec<(Part, u8, u8, Vec<String>)> = super::malformed::families().into_iter().filter(|f| matches!(f.0, Hits | Timing | Colours | Events)).collect();
    let lists = &lists;
    ctx.space("every variant of a record", 0, &|ch| {
        let (part, from, to, texts) = ch.of(lists);
        let v = around(ch);
        if v < *from || v > *to {
            return Ok(());
        }
        let text = ch.of(texts);
        if text.trim().is_empty() || text.contains("//") {
            return Ok(());
        }
        ch.note(|| format!("v{v} {part:?} {text:?}"));
        record(*part, text, v)
    });
    let kinds = super::malformed::families();
    let kinds = &kinds;
    ctx.space("fields of every variant of a record", 0, &|ch| {
        let (part, from, to, texts) = ch.of(kinds);
        let v = if crate::engine::thorough() { pick_version(ch) } else { *ch.of(&[3u8, 5, 9, 10, 14]) };
        let w = if crate::engine::thorough() { pick_version(ch) } else { *ch.of(&[3u8, 5, 6, 9, 10, 14]) };
        if v < *from || v > *to {
            return Ok(());
        }
        let text = ch.of(texts);
        ch.note(|| format!("v{v} to v{w} {part:?} {text:?}"));
        fields(*part, text, v, w)
    });
    ctx.space("hit objects", 2, &|ch| {
        let v = around(ch);
        let w = *ch.dev_of(&[v, 3, 5, 9, 10, 14]);
        let h = gen::hit(ch);
        let t = h.print(v);
        ch.note(|| format!("v{v} to v{w} {t:?}"));
        record(Hits, &t, v)?;
        fields(Hits, &t, v, w)
    });
    ctx.space("timing points", ctx.b(2, 3), &|ch| {
        let v = around(ch);
        let w = *ch.dev_of(&[v, 3, 5, 9, 10, 14]);
        let t = gen::timing(ch).print(v);
        ch.note(|| format!("v{v} to v{w} {t:?}"));
        record(Timing, &t, v)?;
        fields(Timing, &t, v, w)
    });
    ctx.space("colours", ctx.b(2, 3), &|ch| {
        let v = *ch.of(&VERSIONS[2..]);
        let w = *ch.dev_of(&[v, 5, 9, 10, 14]);
        let t = gen::colour(ch).print();
        ch.note(|| format!("v{v} to v{w} {t:?}"));
        record(Colours, &t, v)?;
        fields(Colours, &t, v, w)
    });
    ctx.space("events", 2, &|ch| {
        let v = around(ch);
        let w = *ch.dev_of(&[v, 3, 5, 9, 10, 14]);
        let k = ch.free(gen::EVENT_KINDS);
        let mut e = MEvent::new(gen::event_kind(ch, k));
        if e.takes_commands() && ch.free_flag() {
            e.cmds = vec![gen::default_cmd(9, 1), gen::default_cmd(0, 2)];
            e.cmds[0].sub_mut().unwrap().push(gen::default_cmd(8, 3));
        }
        let t = e.lines(v).join("\n");
        ch.note(|| format!("v{v} to v{w} {t:?}"));
        event(&t, v)?;
        fields(Events, &t, v, w)
    });
    ctx.space("commands", 2, &|ch| {
        let v = if crate::engine::thorough() { *ch.of(&[3u8, 13, 14]) } else { 14 };
        let k = ch.free(gen::CMD_KINDS);
        let c = gen::cmd(ch, k);
        let line = c.line();
        let mut e = gen::default_event(*ch.of(&[0usize, 4, 7]));
        let mut outer = gen::default_cmd(*ch.of(&[9usize, 10]), 7);
        outer.sub_mut().unwrap().push(c.clone());
        e.cmds = vec![c, outer];
        let t = e.lines(v).join("\n");
        ch.note(|| format!("v{v} {t:?}"));
        event(&t, v)?;
        let x = lib::events::storyboard::cmds::Command::from_str(&line, v).unwrap().unwrap();
        command_fields(&x, &line, v)
    });
    ctx.space("lists of records", 0, &|ch| {
        // the list is printed as its records are, one after the other
        let v = pick_version(ch);
        let w = *ch.of(&[3u8, 5, 10, 14]);
        let n = 2 + ch.free(if crate::engine::thorough() { 2 } else { 1 });
        let mut lines = Vec::new();
        macro_rules! list {
            ($t:ty, $kinds:expr, $print:expr) => {{
                for _ in 0..n {
                    let k = ch.free($kinds);
                    let line: String = $print(k);
                    lines.push(line);
                }
                let text = lines.join("\n");
                ch.note(|| format!("v{v} to v{w} {text:?}"));
                let x = <$t as VersionedFromStr>::from_str(&text, v);
                let Ok(Some(x)) = x else { return bad(format!("version {v}: {text:?} is read as {x:?}")) };
                ensure(x.0.len() == n, || format!("version {v}: {text:?} is read as {x:?}"))?;
                let Some(got) = VersionedToString::to_string(&x, w) else { return Ok(()) };
                let want: Vec<String> = x.0.iter().filter_map(|x| VersionedToString::to_string(x, w)).collect();
                ensure(got == want.join("\n"), || format!("version {w}: {x:?} is printed as {got:?}, its records alone as {want:?}"))
            }};
        }
        match ch.free(4) {
            0 => list!(lib::HitObjects, 4, |k: usize| gen::default_hit(k).print(v)),
            1 => list!(lib::TimingPoints, 2, |k: usize| gen::default_timing(k).print(v)),
            2 if v >= 5 => list!(lib::Colours, 4, |k: usize| [MColour::Combo(1, [1, 2, 3]), MColour::Combo(2, [255, 0, 3]), MColour::Track([4, 5, 6]), MColour::Border([7, 8, 9])][k].print()),
            2 => Ok(()),
            _ => list!(lib::Events, gen::EVENT_KINDS, |k: usize| {
                let k = if v >= 14 && k == 3 { 2 } else { k };
                let mut e = gen::default_event(k);
                if e.takes_commands() && k % 2 == 0 {
                    e.cmds = vec![gen::default_cmd(10, 1), gen::default_cmd(0, 2)];
                }
                e.lines(v).join("\n")
            }),
        }
    });
    let values: Vec<(Sec, usize, Vec<String>)> = [(Sec::General, General), (Sec::Editor, Editor), (Sec::Metadata, Metadata), (Sec::Difficulty, Difficulty)]
        .into_iter()
        .flat_map(|(s, p)| {
            s.fields().iter().enumerate().map(move |(i, f)| {
                let mut t: Vec<String> =
                    ["0", "1", "2", "3", "-1", "7", "1.50", "abc", "a b  c", "True", "Normal", "None", "Above", "1,2,3", "a\\b/c.mp3", "é"].iter().map(|s| s.to_string()).collect();
                t.push(f.text(&gen::default_value(f)));
                let _ = p;
                (s, i, t)
            })
        })
        .collect();
    let values = &values;
    ctx.space("key-value fields", 0, &|ch| {
        let (s, i, texts) = ch.of(values);
        let (v, w) = (pick_version(ch), pick_version(ch));
        let f = &s.fields()[*i];
        let text = format!("{}: {}", f.key, ch.of(texts));
        let part = [General, Editor, Metadata, Difficulty][*s as usize];
        ch.note(|| format!("v{v} to v{w} {text:?}"));
        fields(part, &text, v, w)
    });
    ctx.space("storyboards", 0, &|ch| {
        let nv = ch.free(3);
        let ne = ch.free(4);
        let with = ch.free(3);
        let events = (0..ne)
            .map(|_| {
                let mut e = gen::default_event(ch.free(gen::EVENT_KINDS));
                if e.takes_commands() {
                    e.cmds = vec![gen::default_cmd(9, 1), gen::default_cmd(0, 2)];
                    e.cmds[0].sub_mut().unwrap().push(gen::default_cmd(7, 3));
                }
                e
            })
            .filter(|e| e.kept(14))
            .collect();
        let names = ["a", "b2", "c"];
        // values that stand in the commands and values that do not
        let values = [["77777", "xyz", "a b"], ["10", "0,1", "2"], ["1", "255", "20"]][with];
        let o = MOsb {
            variables: (ch.free_flag() || nv > 0).then(|| (0..nv).map(|i| (names[i].to_string(), values[i].to_string())).collect()),
            events: (ch.free_flag() || ne > 0).then_some(events),
        };
        let text = o.print();
        ch.note(|| text.clone());
        storyboard(&o, &text)
    });
}
