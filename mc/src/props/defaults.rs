//! C27: default values and number codes.

use crate::engine::{Ctx, Fail, R};
use crate::imp::*;
use crate::model::*;
use crate::num::*;
use crate::report::ensure;
use crate::view;
use lib::{VersionedDefault, VersionedFrom, VersionedFromRepr, VersionedFromStr, VersionedToString, VersionedTryFrom};
use osu_file_parser as lib;

/// A set of numbers with names.
struct Codes<T> {
    name: &'static str,
    /// from code 0 on
    names: Vec<T>,
    min: i128,
    max: i128,
    /// a number at a version: a value, absent, or rejected
    from: fn(i128, u8) -> Result<Option<T>, ()>,
    /// by reading its digits
    read: fn(&str, u8) -> Result<Option<T>, ()>,
    to: fn(&T, u8) -> Option<i128>,
    print: fn(&T, u8) -> Option<String>,
    /// what a number without a name becomes
    other: fn(i128) -> Option<T>,
    /// whether the version has the value
    has: fn(&T, u8) -> bool,
    /// whether the version prints the value
    prints: fn(&T, u8) -> bool,
}

fn all<T>(_: &T, _: u8) -> bool {
    true
}
fn no<T>(_: i128) -> Option<T> {
    None
}
fn text<T: VersionedToString>(t: &T, v: u8) -> Option<String> {
    t.to_string(v)
}
fn read<T: VersionedFromStr>(s: &str, v: u8) -> Result<Option<T>, ()> {
    T::from_str(s, v).map_err(|_| ())
}

impl<T: PartialEq + std::fmt::Debug + Sync + Clone> Codes<T> {
    fn check(&self, n: i128, v: u8) -> R {
        let what = self.name;
        let want = match usize::try_from(n).ok().and_then(|i| self.names.get(i)) {
            Some(t) => Some(t.clone()),
            None => (self.other)(n),
        };
        let want: Result<Option<T>, ()> = match want {
            Some(t) if (self.has)(&t, v) => Ok(Some(t)),
            Some(_) => Ok(None),
            None => Err(()),
        };
        let got = (self.from)(n, v);
        // a version without the value accepts any number for it
        let lax = want == Err(()) && got == Ok(None) && self.names.iter().all(|t| !(self.has)(t, v));
        ensure(got == want || lax, || format!("{what}: number {n} at version {v} is {got:?} instead of {want:?}"))?;
        let got = (self.read)(&n.to_string(), v);
        ensure(got == want || lax, || format!("{what}: the text \"{n}\" at version {v} is {got:?} instead of {want:?}"))?;
        if let Ok(Some(t)) = want {
            if n <= self.max && self.max < u32::MAX as i128 || n <= i32::MAX as i128 {
                let got = (self.to)(&t, v);
                ensure(got == Some(n), || format!("{what}: {t:?} at version {v} is number {got:?} instead of {n}"))?;
            }
            for w in VERSIONS {
                let got = (self.print)(&t, w);
                let want = (self.prints)(&t, w).then(|| n.to_string());
                ensure(got == want, || format!("{what}: {t:?} is printed as {got:?} at version {w} instead of {want:?}"))?;
            }
        }
        Ok(())
    }
    fn go(&self, ctx: &mut Ctx) {
        let mut points: Vec<i128> = (-300..if ctx.thorough() { 70000 } else { 3000 }).collect();
        points.extend(int_points(self.min, self.max));
        points.retain(|n| *n >= self.min && *n <= self.max);
        let points = &points;
        ctx.space(&format!("codes: {}", self.name), 0, &|ch| {
            let v = *ch.of(&VERSIONS);
            let n = *ch.of(points);
            ch.note(|| format!("{} number {n} at version {v}", self.name));
            self.check(n, v)
        });
    }
}

fn repr<T: VersionedFromRepr>(n: i128, v: u8) -> Result<Option<T>, ()> {
    T::from_repr(n as usize, v).map_err(|_| ())
}
fn int(o: Option<i32>) -> Option<i128> {
    o.map(|x| x as i128)
}

const I32: (i128, i128) = (i32::MIN as i128, i32::MAX as i128);
const U64: (i128, i128) = (0, u64::MAX as i128);

fn codes(ctx: &mut Ctx) {
    use lib::general::{Countdown, Mode};
    Codes {
        name: "countdowns",
        names: vec![Countdown::NoCountdown, Countdown::Normal, Countdown::Half, Countdown::Double],
        min: 0,
        max: U64.1,
        from: repr,
        read: read::<Countdown>,
        to: |t, _| Some(*t as i128),
        print: text,
        other: no,
        has: |_, v| v >= 5,
        prints: |_, v| v >= 5,
    }
    .go(ctx);
    Codes {
        name: "modes",
        names: vec![Mode::Osu, Mode::Taiko, Mode::Catch, Mode::Mania],
        min: 0,
        max: U64.1,
        from: |n, v| read::<Mode>(&n.to_string(), v),
        read: read::<Mode>,
        to: |t, _| Some(*t as i128),
        print: text,
        other: no,
        has: |t, v| {
            v >= match t {
                Mode::Osu => 3,
                Mode::Taiko => 5,
                Mode::Catch => 7,
                _ => 10,
            }
        },
        prints: all,
    }
    .go(ctx);
    {
        use lib::events::types::{LayerLegacy as L, OriginTypeLegacy as O};
        Codes {
            name: "layers of legacy events",
            names: vec![L::Background, L::Fail, L::Pass, L::Foreground, L::Overlay, L::Video],
            min: 0,
            max: U64.1,
            from: repr,
            read: read::<L>,
            to: |t, v| <usize as VersionedFrom<L>>::from(*t, v).map(|n| n as i128),
            print: |t, v| <usize as VersionedFrom<L>>::from(*t, v).map(|n| n.to_string()),
            other: no,
            has: all,
            prints: all,
        }
        .go(ctx);
        Codes {
            name: "origins of legacy events",
            names: vec![
                O::TopLeft,
                O::Centre,
                O::CentreLeft,
                O::TopRight,
                O::BottomCentre,
                O::TopCentre,
                O::Custom,
                O::CentreRight,
                O::BottomLeft,
                O::BottomRight,
            ],
            min: 0,
            max: U64.1,
            from: repr,
            read: read::<O>,
            to: |t, v| <usize as VersionedFrom<O>>::from(*t, v).map(|n| n as i128),
            print: text,
            other: no,
            has: all,
            prints: all,
        }
        .go(ctx);
    }
    {
        use lib::events::audio_sample::Layer as L;
        Codes {
            name: "layers of audio samples",
            names: vec![L::Background, L::Fail, L::Pass, L::Foreground],
            min: 0,
            max: U64.1,
            from: repr,
            read: |s, v| s.parse::<usize>().map_err(|_| ()).and_then(|n| repr::<L>(n as i128, v)),
            to: |t, _| Some(*t as i128),
            print: |t, _| Some((*t as usize).to_string()),
            other: no,
            has: all,
            prints: all,
        }
        .go(ctx);
    }
    {
        use lib::events::storyboard::types::Easing;
        Codes {
            name: "easings",
            names: view::EASINGS.to_vec(),
            min: I32.0,
            max: I32.1,
            from: |n, v| Ok(<Easing as VersionedFrom<i32>>::from(n as i32, v)),
            read: |s, v| Ok(<Easing as VersionedFrom<i32>>::from(s.parse().unwrap(), v)),
            to: |t, v| int(<i32 as VersionedFrom<Easing>>::from(*t, v)),
            print: text,
            other: |n| Some(Easing::Other(n as i32)),
            has: all,
            prints: all,
        }
        .go(ctx);
    }
    {
        use either::Either;
        use lib::events::storyboard::sprites::{Origin, OriginType as O};
        const NAMES: [O; 10] = [
            O::TopLeft,
            O::Centre,
            O::CentreLeft,
            O::TopRight,
            O::BottomCentre,
            O::TopCentre,
            O::Custom,
            O::CentreRight,
            O::BottomLeft,
            O::BottomRight,
        ];
        Codes {
            name: "origins of storyboard objects",
            names: NAMES.to_vec(),
            min: I32.0,
            max: I32.1,
            from: |n, v| <O as VersionedTryFrom<i32>>::try_from(n as i32, v).map_err(|_| ()),
            read: |s, v| <O as VersionedTryFrom<i32>>::try_from(s.parse().unwrap(), v).map_err(|_| ()),
            to: |t, v| int(<i32 as VersionedFrom<O>>::from(*t, v)),
            print: |t, v| VersionedToString::to_string(&Origin::from(*t), v),
            other: no,
            has: all,
            prints: all,
        }
        .go(ctx);
        ctx.space("names of origins", 0, &|ch| {
            let v = *ch.of(&VERSIONS);
            let i = ch.free(10);
            let text = ORIGINS[i];
            ch.note(|| format!("v{v} {text}"));
            let want = Origin { type_: Either::Left(NAMES[i]), shorthand: false };
            let got = Origin::from_str(text, v).ok().flatten();
            ensure(got == Some(want), || format!("origin {text} at version {v} is {got:?}"))?;
            let s = VersionedToString::to_string(&want, v);
            ensure(s.as_deref() == Some(text), || format!("origin {text} is printed as {s:?}"))?;
            let n = Origin::from_str(&i.to_string(), v).ok().flatten();
            ensure(n == Some(Origin::from(NAMES[i])), || format!("origin {i} is {n:?}"))
        });
    }
    {
        use lib::timingpoints::{Effects, SampleIndex, SampleSet as S, Volume};
        Codes {
            name: "sample sets of timing points",
            names: vec![S::BeatmapDefault, S::Normal, S::Soft, S::Drum],
            min: I32.0,
            max: I32.1,
            from: |n, v| Ok(<S as VersionedFrom<i32>>::from(n as i32, v)),
            read: read::<S>,
            to: |t, v| int(<i32 as VersionedFrom<S>>::from(*t, v)),
            print: text,
            other: |n| Some(S::Other(n as i32)),
            has: all,
            prints: all,
        }
        .go(ctx);
        Codes {
            name: "sample indices of timing points",
            names: vec![SampleIndex::OsuDefaultHitsounds],
            min: 0,
            max: u32::MAX as i128,
            from: |n, v| Ok(<SampleIndex as VersionedFrom<u32>>::from(n as u32, v)),
            read: read::<SampleIndex>,
            to: |t, v| int(<i32 as VersionedFrom<SampleIndex>>::from(*t, v)),
            print: text,
            other: |n| Some(SampleIndex::Index(std::num::NonZeroU32::new(n as u32).unwrap())),
            has: all,
            prints: all,
        }
        .go(ctx);
        Codes {
            name: "effects",
            names: vec![Effects::new(false, false), Effects::new(true, false)],
            min: 0,
            max: u32::MAX as i128,
            from: |n, v| Ok(<Effects as VersionedFrom<u32>>::from(n as u32, v)),
            read: read::<Effects>,
            to: |t, v| <u32 as VersionedFrom<Effects>>::from(*t, v).map(|n| n as i128),
            print: text,
            // built flag by flag
            other: |n| match n {
                8 => Some(Effects::new(false, true)),
                9 => Some(Effects::new(true, true)),
                n => <Effects as VersionedFrom<u32>>::from(n as u32, 14),
            },
            has: all,
            prints: all,
        }
        .go(ctx);
        Codes {
            name: "volumes of timing points",
            names: vec![],
            min: I32.0,
            max: I32.1,
            from: |n, v| Ok(<Volume as VersionedFrom<i32>>::from(n as i32, v)),
            read: read::<Volume>,
            to: |t, v| int(<i32 as VersionedFrom<Volume>>::from(*t, v)),
            print: text,
            other: |n| Volume::new(n as i32, 14),
            has: all,
            prints: all,
        }
        .go(ctx);
    }
    {
        use lib::hitobjects::{HitSound, SampleIndex, SampleSet as S};
        Codes {
            name: "sample sets of hit samples",
            names: vec![S::NoCustomSampleSet, S::NormalSet, S::SoftSet, S::DrumSet],
            min: 0,
            max: U64.1,
            from: |n, v| read::<S>(&n.to_string(), v),
            read: read::<S>,
            to: |t, v| <usize as VersionedFrom<S>>::from(*t, v).map(|n| n as i128),
            print: text,
            other: |n| Some(S::Other(n as usize)),
            has: all,
            prints: all,
        }
        .go(ctx);
        Codes {
            name: "sample indices of hit samples",
            names: vec![SampleIndex::TimingPointSampleIndex],
            min: 0,
            max: U64.1,
            from: |n, v| Ok(<SampleIndex as VersionedFrom<usize>>::from(n as usize, v)),
            read: read::<SampleIndex>,
            to: |t, v| <usize as VersionedFrom<SampleIndex>>::from(*t, v).map(|n| n as i128),
            print: text,
            other: |n| Some(SampleIndex::Index(std::num::NonZeroUsize::new(n as usize).unwrap())),
            has: all,
            prints: all,
        }
        .go(ctx);
        let bits = |n: u8| HitSound::new(n & 1 != 0, n & 2 != 0, n & 4 != 0, n & 8 != 0);
        Codes {
            name: "hit sounds",
            names: (0..16).map(bits).collect(),
            min: 0,
            max: 15,
            from: |n, v| Ok(<HitSound as VersionedFrom<u8>>::from(n as u8, v)),
            read: read::<HitSound>,
            to: |t, v| VersionedToString::to_string(t, v).and_then(|s| s.parse().ok()),
            print: text,
            other: no,
            has: all,
            prints: all,
        }
        .go(ctx);
    }
    names(ctx);
}

/// Values that are written by name.
fn names(ctx: &mut Ctx) {
    fn check<T>(what: &str, v: u8, words: &[&str], vals: &[T], from: u8) -> R
    where
        T: VersionedFromStr + VersionedToString + PartialEq + std::fmt::Debug,
    {
        for (w, x) in words.iter().zip(vals) {
            let got = T::from_str(w, v).map_err(|_| ()).unwrap_or(None);
            let (want, text) = if v >= from { (Some(x), Some(w.to_string())) } else { (None, None) };
            ensure(got.as_ref() == want, || format!("{what} {w} at version {v} is {got:?}"))?;
            let s = x.to_string(v);
            ensure(s == text, || format!("{what} {x:?} is printed as {s:?} at version {v}"))?;
        }
        ensure(words.len() == vals.len(), || "words".into())
    }
    ctx.space("names", 0, &|ch| {
        let v = *ch.of(&VERSIONS);
        use lib::events::storyboard as sb;
        use lib::general as g;
        use lib::hitobjects::CurveType as C;
        let k = ch.free(8);
        ch.note(|| format!("names {k} at version {v}"));
        match k {
            0 => check("sample set", v, &["Normal", "Soft", "Drum", "None"], &[g::SampleSet::Normal, g::SampleSet::Soft, g::SampleSet::Drum, g::SampleSet::None], 4),
            1 => check(
                "overlay position",
                v,
                &["NoChange", "Below", "Above"],
                &[g::OverlayPosition::NoChange, g::OverlayPosition::Below, g::OverlayPosition::Above],
                14,
            ),
            2 => check("curve type", v, &["B", "C", "L", "P"], &[C::Bezier, C::Centripetal, C::Linear, C::PerfectCircle], 3),
            3 => check("loop type", v, &["LoopForever", "LoopOnce"], &[sb::sprites::LoopType::LoopForever, sb::sprites::LoopType::LoopOnce], 3),
            4 => {
                use sb::sprites::Layer::*;
                check("layer", v, &["Background", "Fail", "Pass", "Foreground", "Overlay"], &[Background, Fail, Pass, Foreground, Overlay], 3)
            }
            5 => {
                use sb::types::Parameter::*;
                check("parameter", v, &["H", "V", "A"], &[ImageFlipHorizontal, ImageFlipVertical, UseAdditiveColourBlending], 3)
            }
            6 => {
                use sb::types::SampleSet::*;
                check("trigger sample set", v, &["All", "Normal", "Soft", "Drum"], &[All, Normal, Soft, Drum], 3)
            }
            _ => {
                use sb::types::Addition::*;
                check("trigger addition", v, &["Whistle", "Finish", "Clap"], &[Whistle, Finish, Clap], 3)
            }
        }
    });
}

// ------------------------------------------------------------ defaults

/// The documented defaults of the general section.
fn general_default(key: &str, v: u8) -> Option<KV> {
    Some(match key {
        "AudioFilename" | "SkinPreference" => KV::S(String::new()),
        "AudioHash" if v <= 13 => KV::S(String::new()),
        "AudioLeadIn" | "CountdownOffset" => KV::I(0),
        "PreviewTime" => KV::I(-1),
        "Countdown" if v >= 5 => KV::E(1),
        "SampleSet" if v >= 4 => KV::E(0),
        "StackLeniency" => KV::D(D::new("0.7")),
        "Mode" => KV::E(0),
        "OverlayPosition" if v >= 14 => KV::E(0),
        "LetterboxInBreaks" | "UseSkinSprites" | "AlwaysShowPlayfield" | "EpilepsyWarning" | "SpecialStyle"
        | "WidescreenStoryboard" | "SamplesMatchPlaybackRate" => KV::B(false),
        "StoryFireInFront" => KV::B(true),
        _ => return None,
    })
}

/// The defaults of the implementation, set in a section.
fn set_defaults(v: u8, which: impl Fn(usize) -> bool) -> lib::General {
    let mut g = lib::General::new();
    let mut i = 0;
    macro_rules! set {
        ($($f:ident),*) => {$(
            if which(i) {
                g.$f = VersionedDefault::default(v);
            }
            i += 1;
        )*};
    }
    set!(
        audio_filename, audio_lead_in, audio_hash, preview_time, countdown, sample_set, stack_leniency, mode, letterbox_in_breaks,
        story_fire_in_front, use_skin_sprites, always_show_playfield, overlay_position, skin_preference, epilepsy_warning,
        countdown_offset, special_style, widescreen_storyboard, samples_match_playback_rate
    );
    assert_eq!(i, 19);
    g
}

fn default_file(v: u8, sections: usize) -> (lib::OsuFile, MFile) {
    let mut f = if sections & 256 != 0 { lib::OsuFile::new(v) } else { lib::OsuFile::default(v) };
    let mut m = MFile::new(v);
    let has = |i: usize| sections >> i & 1 == 1;
    if has(0) {
        f.general = Some(lib::General::new());
        m.kv[0] = Some(no_vals(Sec::General));
    }
    if has(1) {
        f.editor = Some(lib::Editor::default());
        m.kv[1] = Some(no_vals(Sec::Editor));
    }
    if has(2) {
        f.metadata = Some(lib::Metadata::new());
        m.kv[2] = Some(no_vals(Sec::Metadata));
    }
    if has(3) {
        f.difficulty = Some(lib::Difficulty::default());
        m.kv[3] = Some(no_vals(Sec::Difficulty));
    }
    if has(4) {
        f.events = VersionedDefault::default(v);
        m.events = Some(vec![]);
    }
    if has(5) {
        f.timing_points = VersionedDefault::default(v);
        m.timing = Some(vec![]);
    }
    if has(6) {
        f.colours = VersionedDefault::default(v);
        m.colours = (v >= 5).then(Vec::new);
    }
    if has(7) {
        f.hitobjects = VersionedDefault::default(v);
        m.hits = Some(vec![]);
    }
    (f, m)
}

fn defaults(ctx: &mut Ctx) {
    ctx.space("files of default sections", 0, &|ch| {
        let v = *ch.of(&VERSIONS);
        let sections = ch.free(512);
        ch.note(|| format!("version {v}, sections {sections:09b}"));
        let (f, m) = default_file(v, sections);
        let got = view::file(&f);
        ensure(got == m, || format!("a file of default sections is {got:?} instead of {m:?}"))?;
        ensure(f.osb.is_none() && f.osb_to_string().is_none(), || "a new file has a storyboard".into())?;
        let text = std::string::ToString::to_string(&f);
        let back = must(Osu, &text, v)?;
        ensure(back == Val::Osu(Box::new(f)), || format!("{text:?} is read as {back:?}"))
    });
    ctx.space("default sections on their own", 0, &|ch| {
        let v = *ch.of(&VERSIONS);
        let k = ch.free(8);
        ch.note(|| format!("{} at version {v}", SECTIONS[k].name()));
        let val = match k {
            0 => Some(Val::General([lib::General::new(), lib::General::default()][ch.free(2)].clone())),
            1 => Some(Val::Editor([lib::Editor::new(), lib::Editor::default()][ch.free(2)].clone())),
            2 => Some(Val::Metadata([lib::Metadata::new(), lib::Metadata::default()][ch.free(2)].clone())),
            3 => Some(Val::Difficulty([lib::Difficulty::new(), lib::Difficulty::default()][ch.free(2)].clone())),
            4 => <lib::Events as VersionedDefault>::default(v).map(Val::Events),
            5 => <lib::TimingPoints as VersionedDefault>::default(v).map(Val::Timing),
            6 => <lib::Colours as VersionedDefault>::default(v).map(Val::Colours),
            _ => <lib::HitObjects as VersionedDefault>::default(v).map(Val::Hits),
        };
        let lacks = k == 6 && v < 5;
        let Some(val) = val else {
            return ensure(lacks, || format!("{} has no default at version {v}", SECTIONS[k].name()));
        };
        ensure(!lacks, || format!("{} has a default at version {v}", SECTIONS[k].name()))?;
        let text = val.print(v);
        ensure(text.as_deref() == Some(""), || format!("the default {} is printed as {text:?}", SECTIONS[k].name()))?;
        let back = must(SECTIONS[k], "", v)?;
        ensure(back == val, || format!("an empty {} is read as {back:?} instead of {val:?}", SECTIONS[k].name()))
    });
    ctx.space("default fields of the general section", 0, &|ch| {
        let v = *ch.of(&VERSIONS);
        let n = ch.free(21);
        let which = |i: usize| n == 20 || n < 20 && i == n;
        ch.note(|| format!("default field {n} at version {v}"));
        let g = set_defaults(v, which);
        let got = view::general(&g);
        let mut want = no_vals(Sec::General);
        for (i, f) in Sec::General.fields().iter().enumerate().take(19) {
            if which(i) {
                want[i] = general_default(f.key, v);
            }
        }
        ensure(got == want, || format!("defaults at version {v} are\n  {got:?}\ninstead of\n  {want:?}"))?;
        let val = Val::General(g);
        let text = val.print(v).unwrap_or_default();
        let back = must(General, &text, v)?;
        ensure(back == val, || format!("{text:?} is read as\n  {back:?}\ninstead of\n  {val:?}"))?;
        // and in a file
        let text = format!("osu file format v{v}\n\n[General]\n{text}");
        let back = must(Osu, &text, v)?;
        ensure(back.view().kv[0].as_ref() == Some(&want), || format!("{text:?} is read as\n  {back:?}"))
    });
    ctx.space("default hit objects", 0, &|ch| {
        use lib::hitobjects::HitObject;
        let v = *ch.of(&VERSIONS);
        let k = ch.free(3);
        let (h, x, kind) = match k {
            0 => (HitObject::hitcircle_default(), 256, MKind::Circle),
            1 => (HitObject::spinner_default(), 256, MKind::Spinner(D::int(0))),
            _ => (HitObject::osu_mania_hold_default(), 0, MKind::Hold(D::int(0))),
        };
        let m = MHit { x: D::int(x), y: D::int(192), time: D::int(0), kind, new_combo: false, skip: 0, sound: 0, sample: None };
        ch.note(|| format!("{m:?} at version {v}"));
        let got = view::hit(&h);
        ensure(got == m, || format!("default hit object {got:?} instead of {m:?}"))?;
        let text = Val::Hits(lib::HitObjects(vec![h])).print(v);
        let text = text.unwrap_or_default();
        let back = must(Hits, &text, v)?.view();
        let back = back.hits.unwrap();
        // a hold and a circle of version 3 end in a separator, which is a default sample
        let mut back = back[0].clone();
        if back.sample == Some(MSample::default()) {
            back.sample = None;
        }
        ensure(back == m, || format!("{text:?} is read as {back:?} instead of {m:?}"))
    });
    ctx.space("default values of other types", 0, &|ch| {
        let v = *ch.of(&VERSIONS);
        ch.note(|| format!("version {v}"));
        use lib::hitobjects as ho;
        let is = |what: &str, ok: bool| -> Result<(), Fail> { ensure(ok, || format!("the default {what} at version {v} is not the documented one")) };
        is("position", lib::Position::default() == lib::Position { x: 256.into(), y: 192.into() })?;
        is("decimal", lib::Decimal::default() == 0.into())?;
        is("combo skip count", ho::ComboSkipCount::default().get() == 0)?;
        is("hit sound", ho::HitSound::default() == ho::HitSound::new(false, false, false, false))?;
        is("sample set", <ho::SampleSet as VersionedDefault>::default(v) == Some(ho::SampleSet::NoCustomSampleSet))?;
        is("sample index", <ho::SampleIndex as VersionedDefault>::default(v) == Some(ho::SampleIndex::TimingPointSampleIndex))?;
        is("sample volume", <ho::Volume as VersionedDefault>::default(v) == Some(ho::Volume::new(None).unwrap()))?;
        let s = <ho::HitSample as VersionedDefault>::default(v);
        is("hit sample", s.as_ref().map(view::sample) == Some(MSample::default()))?;
        let read = ho::HitSample::from_str("", v).ok().flatten();
        is("hit sample read from nothing", read == s)?;
        is("audio sample volume", <lib::events::audio_sample::Volume as VersionedDefault>::default(v).map(|x| x.get()) == Some(100))?;
        use lib::events::storyboard::sprites::LoopType;
        is("loop type", <LoopType as VersionedDefault>::default(v) == Some(LoopType::LoopForever))?;
        use lib::timingpoints as tp;
        is("timing point sample index", <tp::SampleIndex as VersionedDefault>::default(v) == Some(tp::SampleIndex::OsuDefaultHitsounds))?;
        use lib::general as g;
        is("mode", <g::Mode as VersionedDefault>::default(v) == Some(g::Mode::Osu))?;
        is("countdown", <g::Countdown as VersionedDefault>::default(v) == (v >= 5).then_some(g::Countdown::Normal))?;
        is("general sample set", <g::SampleSet as VersionedDefault>::default(v) == (v >= 4).then_some(g::SampleSet::Normal))?;
        is("overlay position", <g::OverlayPosition as VersionedDefault>::default(v) == (v >= 14).then_some(g::OverlayPosition::NoChange))?;
        let list = lib::events::storyboard::cmds::ContinuingFields::<i32>::default();
        is("continuation list", *list.start_values() == (0, 0) && list.continuing_fields().is_empty())
    });
}

/// Every conversion between a field of the key-value sections and its plain value.
fn fields(ctx: &mut Ctx) {
    ctx.space("fields and plain values", 0, &|ch| {
        use lib::general as g;
        let b = ch.free_flag();
        let n = *ch.of(&[0i32, 1, -1, i32::MAX, i32::MIN]);
        let s = *ch.of(&["", "a", " é:,"]);
        ch.note(|| format!("{b} {n} {s:?}"));
        macro_rules! both {
            ($t:ty, $p:ty, $x:expr) => {{
                let x: $p = $x;
                let f = <$t as From<$p>>::from(x.clone());
                let back: $p = f.into();
                ensure(back == x, || format!("{} built from {x:?} holds {back:?}", stringify!($t)))?;
            }};
        }
        both!(g::AudioLeadIn, i32, n);
        both!(g::PreviewTime, i32, n);
        both!(g::CountdownOffset, i32, n);
        both!(g::LetterboxInBreaks, bool, b);
        both!(g::StoryFireInFront, bool, b);
        both!(g::WidescreenStoryboard, bool, b);
        both!(g::AudioHash, String, s.to_string());
        both!(g::SkinPreference, String, s.to_string());
        both!(g::AudioFilename, std::path::PathBuf, s.into());
        both!(g::EditorBookmarks, Vec<i32>, vec![n; 2]);
        both!(g::StackLeniency, lib::Decimal, s.into());
        Ok(())
    });
}

pub fn c27(ctx: &mut Ctx) {
    defaults(ctx);
    codes(ctx);
    fields(ctx);
}
