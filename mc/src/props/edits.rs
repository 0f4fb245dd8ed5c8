//! C29: what was changed through the interface is what is printed and read again.

use crate::engine::{Ch, Ctx, R};
use crate::gen;
use crate::imp::*;
use crate::model::*;
use crate::num::*;
use crate::props::hits::some_sample;
use crate::report::ensure;
use crate::view;
use osu_file_parser as lib;
use osu_file_parser::{VersionedFrom, VersionedFromStr};
use std::sync::OnceLock;

type LibOp = Box<dyn Fn(&mut lib::OsuFile) -> Option<()> + Sync + Send>;
type ModelOp = Box<dyn Fn(&mut MFile) -> Option<()> + Sync + Send>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Group {
    File,
    Kv,
    Hits,
    Timing,
    Colours,
    Events,
}

/// One change; it does not apply where the record it changes is absent.
struct Edit {
    name: String,
    group: Group,
    lib: LibOp,
    model: ModelOp,
}

struct Edits(Vec<Edit>);

impl Edits {
    fn add(
        &mut self,
        group: Group,
        name: impl Into<String>,
        l: impl Fn(&mut lib::OsuFile) -> Option<()> + Sync + Send + 'static,
        m: impl Fn(&mut MFile) -> Option<()> + Sync + Send + 'static,
    ) {
        self.0.push(Edit { name: name.into(), group, lib: Box::new(l), model: Box::new(m) });
    }
}

fn dec(s: &str) -> lib::Decimal {
    to_lib(&D::new(s))
}

// ------------------------------------------------------------ whole sections

macro_rules! section {
    ($e:expr, $f:ident, $t:ty, $get:expr) => {{
        $e.add(
            Group::File,
            concat!("remove ", stringify!($f)),
            |f| {
                f.$f = None;
                Some(())
            },
            |m| {
                let get: fn(&mut MFile, Option<bool>) = $get;
                get(m, None);
                Some(())
            },
        );
        $e.add(
            Group::File,
            concat!("empty ", stringify!($f)),
            |f| {
                f.$f = <$t>::from_str("", 14).ok()?;
                Some(())
            },
            |m| {
                let get: fn(&mut MFile, Option<bool>) = $get;
                get(m, Some(true));
                Some(())
            },
        );
    }};
}

fn sections(e: &mut Edits) {
    section!(e, general, lib::General, |m, x| m.kv[0] = x.map(|_| no_vals(Sec::General)));
    section!(e, editor, lib::Editor, |m, x| m.kv[1] = x.map(|_| no_vals(Sec::Editor)));
    section!(e, metadata, lib::Metadata, |m, x| m.kv[2] = x.map(|_| no_vals(Sec::Metadata)));
    section!(e, difficulty, lib::Difficulty, |m, x| m.kv[3] = x.map(|_| no_vals(Sec::Difficulty)));
    section!(e, events, lib::Events, |m, x| m.events = x.map(|_| vec![]));
    section!(e, timing_points, lib::TimingPoints, |m, x| m.timing = x.map(|_| vec![]));
    section!(e, colours, lib::Colours, |m, x| m.colours = x.map(|_| vec![]));
    section!(e, hitobjects, lib::HitObjects, |m, x| m.hits = x.map(|_| vec![]));
    for v in VERSIONS {
        e.add(
            Group::File,
            format!("version {v}"),
            move |f| {
                f.version = v;
                Some(())
            },
            move |m| {
                m.version = v;
                Some(())
            },
        );
    }
    const OSB: &str = "[Variables]\n$a=77\n\n[Events]\nSprite,Pass,Centre,x.png,0,0\n F,0,5,,1";
    fn osb_model() -> MOsb {
        let mut s = MEvent::new(MEventKind::Sprite { layer: 2, origin: MOrigin::Name(1), file: "x.png".into(), x: D::int(0), y: D::int(0) });
        s.cmds = vec![MCmd { easing: 0, start: Some(5), end: None, p: MProp::One("F", vec![D::int(1)]) }];
        MOsb { variables: Some(vec![("a".into(), "77".into())]), events: Some(vec![s]) }
    }
    e.add(
        Group::File,
        "append osb",
        |f| {
            f.append_osb(OSB).ok()?;
            Some(())
        },
        |m| {
            // storyboard files exist since version 14
            m.osb = (m.version >= 14).then(osb_model);
            Some(())
        },
    );
    e.add(
        Group::File,
        "remove osb",
        |f| {
            f.osb = None;
            Some(())
        },
        |m| {
            m.osb = None;
            Some(())
        },
    );
}

// ------------------------------------------------------------ key-value sections

fn other_value(f: &Field) -> KV {
    match f.kind {
        FK::Text => KV::S("other é: x, y".into()),
        FK::Int => KV::I(-77),
        FK::Dec => KV::D(D::N(-1250, 3)),
        FK::Bool => KV::B(false),
        FK::Ints => KV::L(vec![-5]),
        FK::Tags => KV::T(vec!["three".into()]),
        FK::Num(_) | FK::Name(_) => KV::E(2),
    }
}

macro_rules! kv {
    ($e:expr, $sec:ident, $s:expr, $t:ty, $($f:ident),* $(,)?) => {{
        let mut i = 0usize;
        $(
            let field = &$s.fields()[i];
            $e.add(Group::Kv, format!("remove {}", field.key), |f| {
                f.$sec.as_mut()?.$f = None;
                Some(())
            }, move |m| {
                m.kv[$s as usize].as_mut()?[i] = None;
                Some(())
            });
            $e.add(Group::Kv, format!("set {}", field.key), move |f| {
                // the value comes from another section
                let v = if field.key.starts_with("Editor") || field.key == "AudioHash" { 5 } else if field.key == "CurrentTime" { 10 } else { 14 };
                let text = format!("{}: {}", field.key, field.text(&other_value(field)));
                let x = <$t>::from_str(&text, v).expect("a value is read").unwrap();
                f.$sec.as_mut()?.$f = x.$f;
                Some(())
            }, move |m| {
                m.kv[$s as usize].as_mut()?[i] = Some(other_value(field));
                Some(())
            });
            i += 1;
        )*
        assert_eq!(i, $s.fields().len());
    }};
}

fn key_values(e: &mut Edits) {
    kv!(
        e, general, Sec::General, lib::General, audio_filename, audio_lead_in, audio_hash, preview_time, countdown, sample_set, stack_leniency, mode,
        letterbox_in_breaks, story_fire_in_front, use_skin_sprites, always_show_playfield, overlay_position, skin_preference, epilepsy_warning,
        countdown_offset, special_style, widescreen_storyboard, samples_match_playback_rate, editor_bookmarks, editor_distance_spacing,
    );
    kv!(e, editor, Sec::Editor, lib::Editor, bookmarks, distance_spacing, beat_divisor, grid_size, timeline_zoom, current_time);
    kv!(e, metadata, Sec::Metadata, lib::Metadata, title, title_unicode, artist, artist_unicode, creator, version, source, tags, beatmap_id, beatmap_set_id);
    kv!(
        e, difficulty, Sec::Difficulty, lib::Difficulty, hp_drain_rate, circle_size, overall_difficulty, approach_rate, slider_multiplier, slider_tickrate
    );
}

// ------------------------------------------------------------ lists

macro_rules! lists {
    ($e:expr, $g:expr, $f:ident, $m:ident) => {{
        macro_rules! op {
            ($name:expr, $v:ident, $body:expr) => {
                $e.add(
                    $g,
                    concat!($name, " of ", stringify!($f)),
                    |f| {
                        let $v = &mut f.$f.as_mut()?.0;
                        $body
                    },
                    |m| {
                        let $v = m.$m.as_mut()?;
                        $body
                    },
                )
            };
        }
        op!("remove the first", v, {
            if v.is_empty() {
                return None;
            }
            v.remove(0);
            Some(())
        });
        op!("remove the last", v, v.pop().map(|_| ()));
        op!("reverse", v, {
            v.reverse();
            Some(())
        });
        op!("swap the first two", v, {
            if v.len() < 2 {
                return None;
            }
            v.swap(0, 1);
            Some(())
        });
        op!("repeat the first", v, {
            let x = v.first()?.clone();
            v.push(x);
            Some(())
        });
        op!("repeat the last", v, {
            let x = v.last()?.clone();
            v.insert(0, x);
            Some(())
        });
    }};
}

// ------------------------------------------------------------ hit objects

fn lib_sample() -> lib::hitobjects::HitSample {
    use lib::hitobjects::*;
    HitSample {
        normal_set: SampleSet::NormalSet,
        addition_set: SampleSet::SoftSet,
        index: SampleIndex::Index(std::num::NonZeroUsize::new(3).unwrap()),
        volume: Volume::new(Some(44)).unwrap(),
        filename: "f.wav".into(),
    }
}
fn kind_index(k: &MKind) -> usize {
    match k {
        MKind::Circle => 0,
        MKind::Slider(_) => 1,
        MKind::Spinner(_) => 2,
        MKind::Hold(_) => 3,
    }
}
/// The first hit object of a kind.
fn lib_hit(f: &mut lib::OsuFile, k: usize) -> Option<&mut lib::hitobjects::HitObject> {
    use lib::hitobjects::HitObjectParams::*;
    f.hitobjects.as_mut()?.0.iter_mut().find(|h| {
        k == match h.obj_params {
            HitCircle => 0,
            Slider(_) => 1,
            Spinner { .. } => 2,
            _ => 3,
        }
    })
}
fn model_hit(m: &mut MFile, k: usize) -> Option<&mut MHit> {
    m.hits.as_mut()?.iter_mut().find(|h| kind_index(&h.kind) == k)
}
fn lib_slider(f: &mut lib::OsuFile) -> Option<&mut lib::hitobjects::SlideParams> {
    match &mut lib_hit(f, 1)?.obj_params {
        lib::hitobjects::HitObjectParams::Slider(s) => Some(s),
        _ => None,
    }
}
fn model_slider(m: &mut MFile) -> Option<&mut MSlider> {
    match &mut model_hit(m, 1)?.kind {
        MKind::Slider(s) => Some(s),
        _ => None,
    }
}

fn hits(e: &mut Edits) {
    use lib::hitobjects as ho;
    use Group::Hits;
    lists!(e, Hits, hitobjects, hits);
    // without anything but its kind
    for k in 0..3usize {
        e.add(
            Hits,
            format!("add the default object of kind {k}"),
            move |f| {
                f.hitobjects.as_mut()?.0.push(match k {
                    0 => ho::HitObject::hitcircle_default(),
                    1 => ho::HitObject::spinner_default(),
                    _ => ho::HitObject::osu_mania_hold_default(),
                });
                Some(())
            },
            move |m| {
                // what the defaults hold is checked elsewhere
                let h = match k {
                    0 => ho::HitObject::hitcircle_default(),
                    1 => ho::HitObject::spinner_default(),
                    _ => ho::HitObject::osu_mania_hold_default(),
                };
                m.hits.as_mut()?.push(view::hit(&h));
                Some(())
            },
        );
    }
    for k in 0..4usize {
        macro_rules! op {
            ($name:expr, $h:ident, $l:expr, $m:expr) => {
                e.add(
                    Hits,
                    format!("{} of kind {k}", $name),
                    move |f| {
                        let $h = lib_hit(f, k)?;
                        $l;
                        Some(())
                    },
                    move |m| {
                        let $h = model_hit(m, k)?;
                        $m;
                        Some(())
                    },
                )
            };
        }
        op!("set x", h, h.position.x = dec("-7"), h.x = D::int(-7));
        op!("set y", h, h.position.y = dec("3.50"), h.y = D::new("3.50"));
        op!("set time", h, h.time = 12345.into(), h.time = D::int(12345));
        op!("toggle new combo", h, h.new_combo = !h.new_combo, h.new_combo = !h.new_combo);
        for n in [0u8, 7] {
            op!(format!("set combo skip {n}"), h, h.combo_skip_count.set(n, 14).ok()?, h.skip = n);
        }
        op!("set whistle", h, h.hitsound.set_whistle(true), h.sound |= 2);
        op!("set clap", h, h.hitsound.set_clap(true), h.sound |= 8);
        op!("clear whistle", h, h.hitsound.set_whistle(false), h.sound &= !2);
        op!("set a sample", h, h.hitsample = Some(lib_sample()), h.sample = Some(some_sample()));
        op!("remove the sample", h, h.hitsample = None, h.sample = None);
        op!(
            "set sample file",
            h,
            h.hitsample.as_mut()?.filename = "new é.wav".into(),
            h.sample.as_mut()?.file = "new é.wav".into()
        );
        op!("set sample volume", h, h.hitsample.as_mut()?.volume.set_volume(99).ok()?, h.sample.as_mut()?.volume = 99);
        op!(
            "unset sample volume",
            h,
            h.hitsample.as_mut()?.volume.set_use_timing_point_volume(),
            h.sample.as_mut()?.volume = 0
        );
        op!(
            "unset sample index",
            h,
            h.hitsample.as_mut()?.index = ho::SampleIndex::TimingPointSampleIndex,
            h.sample.as_mut()?.index = 0
        );
        op!(
            "set sample sets",
            h,
            {
                let s = h.hitsample.as_mut()?;
                s.normal_set = ho::SampleSet::DrumSet;
                s.addition_set = ho::SampleSet::Other(6);
            },
            {
                let s = h.sample.as_mut()?;
                s.normal = 3;
                s.addition = 6;
            }
        );
        op!("become a circle", h, h.obj_params = ho::HitObjectParams::HitCircle, h.kind = MKind::Circle);
        op!(
            "become a spinner",
            h,
            h.obj_params = ho::HitObjectParams::Spinner { end_time: 888.into() },
            h.kind = MKind::Spinner(D::int(888))
        );
        op!(
            "become a hold",
            h,
            h.obj_params = ho::HitObjectParams::OsuManiaHold { end_time: dec("88.8") },
            h.kind = MKind::Hold(D::new("88.8"))
        );
        for (sounds, sets) in [(0usize, 0usize), (1, 0), (0, 1), (2, 1), (0, 2)] {
            op!(
                format!("become a slider with {sounds} edge sounds and {sets} edge sets"),
                h,
                h.obj_params = ho::HitObjectParams::Slider(ho::SlideParams::new(
                    ho::CurveType::PerfectCircle,
                    vec![ho::CurvePoint(lib::Position { x: 5.into(), y: dec("6.5") })],
                    2,
                    dec("70"),
                    vec![ho::HitSound::new(false, true, false, false); sounds],
                    vec![ho::EdgeSet { normal_set: ho::SampleSet::SoftSet, addition_set: ho::SampleSet::Other(9) }; sets],
                )),
                h.kind = MKind::Slider(MSlider {
                    curve: 'P',
                    points: vec![(D::int(5), D::new("6.5"))],
                    slides: 2,
                    length: D::int(70),
                    edge_sounds: vec![2; sounds],
                    edge_sets: vec![(2, 9); sets],
                    written: 0,
                })
            );
        }
    }
    for k in [2usize, 3] {
        e.add(
            Hits,
            format!("set the end of kind {k}"),
            move |f| {
                use ho::HitObjectParams::*;
                match &mut lib_hit(f, k)?.obj_params {
                    Spinner { end_time } | OsuManiaHold { end_time } => *end_time = dec("4321.0"),
                    _ => unreachable!(),
                }
                Some(())
            },
            move |m| {
                match &mut model_hit(m, k)?.kind {
                    MKind::Spinner(t) | MKind::Hold(t) => *t = D::new("4321.0"),
                    _ => unreachable!(),
                }
                Some(())
            },
        );
    }
    macro_rules! slider {
        ($name:expr, $s:ident, $l:expr, $m:expr) => {
            e.add(
                Hits,
                concat!($name, " of the slider"),
                |f| {
                    let $s = lib_slider(f)?;
                    $l;
                    Some(())
                },
                |m| {
                    let $s = model_slider(m)?;
                    $m;
                    Some(())
                },
            )
        };
    }
    slider!("set the curve", s, s.curve_type = ho::CurveType::Linear, s.curve = 'L');
    slider!("clear the points", s, s.curve_points.clear(), s.points.clear());
    slider!(
        "add a point",
        s,
        s.curve_points.push(ho::CurvePoint(lib::Position { x: (-1).into(), y: dec("0.5") })),
        s.points.push((D::int(-1), D::new("0.5")))
    );
    slider!("remove the first point", s, drop((!s.curve_points.is_empty()).then(|| s.curve_points.remove(0))?), drop((!s.points.is_empty()).then(|| s.points.remove(0))?));
    slider!("set the slides", s, s.slides = 9, s.slides = 9);
    slider!("set the length", s, s.length = dec("1.25"), s.length = D::new("1.25"));
    slider!("clear the edge sounds", s, s.edge_sounds.clear(), s.edge_sounds.clear());
    slider!("clear the edge sets", s, s.edge_sets.clear(), s.edge_sets.clear());
    slider!("remove the last edge sound", s, drop(s.edge_sounds.pop()?), drop(s.edge_sounds.pop()?));
    slider!("add an edge sound", s, s.edge_sounds.push(ho::HitSound::new(false, false, true, false)), s.edge_sounds.push(4));
    slider!(
        "add an edge set",
        s,
        s.edge_sets.push(ho::EdgeSet { normal_set: ho::SampleSet::NoCustomSampleSet, addition_set: ho::SampleSet::DrumSet }),
        s.edge_sets.push((0, 3))
    );
    slider!("change the first edge sound", s, s.edge_sounds.first_mut()?.set_clap(true), *s.edge_sounds.first_mut()? |= 8);
    slider!(
        "change the first edge set",
        s,
        s.edge_sets.first_mut()?.addition_set = ho::SampleSet::NormalSet,
        s.edge_sets.first_mut()?.1 = 1
    );
}

// ------------------------------------------------------------ timing points

fn timing(e: &mut Edits) {
    use lib::timingpoints as tp;
    use Group::Timing;
    lists!(e, Timing, timing_points, timing);
    for i in 0..2usize {
        macro_rules! op {
            ($name:expr, $t:ident, $l:expr, $m:expr) => {
                e.add(
                    Timing,
                    format!("{} of timing point {i}", $name),
                    move |f| {
                        let $t = f.timing_points.as_mut()?.0.get_mut(i)?;
                        $l;
                        Some(())
                    },
                    move |m| {
                        let $t = m.timing.as_mut()?.get_mut(i)?;
                        $m;
                        Some(())
                    },
                )
            };
        }
        op!("set time", t, t.set_time(-30), t.time = D::int(-30));
        op!("set meter", t, t.set_meter(7), t.meter = 7);
        op!("set sample set", t, t.set_sample_set(tp::SampleSet::Drum), t.set = 3);
        op!("set other sample set", t, t.set_sample_set(tp::SampleSet::Other(9)), t.set = 9);
        op!("set default sample set", t, t.set_sample_set(tp::SampleSet::BeatmapDefault), t.set = 0);
        op!(
            "set sample index",
            t,
            *t.sample_index_mut() = <tp::SampleIndex as VersionedFrom<u32>>::from(12, 14)?,
            t.index = 12
        );
        op!("unset sample index", t, *t.sample_index_mut() = tp::SampleIndex::OsuDefaultHitsounds, t.index = 0);
        op!("set volume", t, t.set_volume(tp::Volume::new(33, 14)?), t.volume = 33);
        op!(
            "set volume in place",
            t,
            {
                let mut v = *t.volume();
                v.set_volume(0);
                t.set_volume(v)
            },
            t.volume = 0
        );
        op!("inherit", t, t.set_uninherited(false), t.uninherited = Some(false));
        op!("uninherit", t, t.set_uninherited(true), t.uninherited = Some(true));
        op!("set effects", t, *t.effects_mut() = Some(tp::Effects::new(false, true)), t.effects = Some(8));
        op!("remove effects", t, *t.effects_mut() = None, t.effects = None);
        op!(
            "set kiai",
            t,
            t.effects_mut().as_mut()?.set_kiai_time_enabled(true),
            *t.effects.as_mut()? |= 1
        );
        op!(
            "clear kiai",
            t,
            t.effects_mut().as_mut()?.set_kiai_time_enabled(false),
            *t.effects.as_mut()? &= !1
        );
    }
    e.add(
        Timing,
        "add an uninherited timing point",
        |f| {
            f.timing_points.as_mut()?.0.insert(
                0,
                tp::TimingPoint::new_uninherited(5, 250.into(), 3, tp::SampleSet::Soft, tp::SampleIndex::OsuDefaultHitsounds, tp::Volume::new(10, 14)?, tp::Effects::new(true, false)),
            );
            Some(())
        },
        |m| {
            m.timing.as_mut()?.insert(
                0,
                MTiming { time: D::int(5), beat: D::int(250), meter: 3, set: 2, index: 0, volume: 10, uninherited: Some(true), effects: Some(1) },
            );
            Some(())
        },
    );
}

// ------------------------------------------------------------ colours

fn colours(e: &mut Edits) {
    use lib::colours::{Colour, Rgb};
    use Group::Colours;
    lists!(e, Colours, colours, colours);
    let rgb = |r, g, b| Rgb { red: r, green: g, blue: b };
    e.add(
        Colours,
        "add a combo",
        move |f| {
            f.colours.as_mut()?.0.push(Colour::Combo(12, rgb(9, 8, 7)));
            Some(())
        },
        |m| {
            m.colours.as_mut()?.push(MColour::Combo(12, [9, 8, 7]));
            Some(())
        },
    );
    e.add(
        Colours,
        "become a border",
        move |f| {
            *f.colours.as_mut()?.0.first_mut()? = Colour::SliderBorder(rgb(0, 0, 255));
            Some(())
        },
        |m| {
            *m.colours.as_mut()?.first_mut()? = MColour::Border([0, 0, 255]);
            Some(())
        },
    );
    e.add(
        Colours,
        "change green",
        |f| {
            match f.colours.as_mut()?.0.first_mut()? {
                Colour::Combo(_, c) | Colour::SliderBorder(c) | Colour::SliderTrackOverride(c) => c.green = 200,
                _ => unreachable!(),
            }
            Some(())
        },
        |m| {
            match m.colours.as_mut()?.first_mut()? {
                MColour::Combo(_, c) | MColour::Border(c) | MColour::Track(c) => c[1] = 200,
            }
            Some(())
        },
    );
}

// ------------------------------------------------------------ events

fn event_kind(e: &lib::events::Event) -> usize {
    use lib::events::storyboard::sprites::ObjectType;
    use lib::events::Event::*;
    match e {
        Background(_) => 0,
        Video(_) => 1,
        Break(_) => 2,
        ColourTransformation(_) => 3,
        SpriteLegacy(_) => 4,
        AnimationLegacy(_) => 5,
        SampleLegacy(_) => 6,
        StoryboardObject(o) => match o.object_type {
            ObjectType::Sprite(_) => 7,
            _ => 8,
        },
        AudioSample(_) => 9,
        _ => 10,
    }
}
fn model_kind(e: &MEvent) -> usize {
    use MEventKind::*;
    match e.k {
        Background { .. } => 0,
        Video { .. } => 1,
        Break { .. } => 2,
        Colour { .. } => 3,
        SpriteLegacy { .. } => 4,
        AnimationLegacy { .. } => 5,
        SampleLegacy { .. } => 6,
        Sprite { .. } => 7,
        Animation { .. } => 8,
        Audio { .. } => 9,
        Comment(_) => 10,
    }
}
fn lib_event(f: &mut lib::OsuFile, k: usize) -> Option<&mut lib::events::Event> {
    f.events.as_mut()?.0.iter_mut().find(|e| event_kind(e) == k)
}
fn model_event(m: &mut MFile, k: usize) -> Option<&mut MEvent> {
    m.events.as_mut()?.iter_mut().find(|e| model_kind(e) == k)
}
fn lib_cmds(f: &mut lib::OsuFile, k: usize) -> Option<&mut Vec<lib::events::storyboard::cmds::Command>> {
    use lib::events::Event::*;
    Some(match lib_event(f, k)? {
        Background(x) => &mut x.commands,
        Video(x) => &mut x.commands,
        SpriteLegacy(x) => &mut x.commands,
        AnimationLegacy(x) => &mut x.commands,
        SampleLegacy(x) => &mut x.commands,
        StoryboardObject(x) => &mut x.commands,
        _ => return None,
    })
}

fn events(e: &mut Edits) {
    use lib::events::storyboard as sb;
    use lib::events::storyboard::cmds::{Command, CommandProperties as P, ContinuingFields};
    use lib::events::types::{LayerLegacy, OriginTypeLegacy};
    use lib::events::Event as E;
    use Group::Events;
    use MEventKind as K;
    lists!(e, Events, events, events);
    macro_rules! op {
        ($name:expr, $k:expr, $lp:pat => $l:expr, $mp:pat => $m:expr) => {
            e.add(
                Events,
                $name,
                |f| {
                    #[allow(irrefutable_let_patterns)]
                    let $lp = lib_event(f, $k)? else { return None };
                    $l;
                    Some(())
                },
                |m| {
                    let ev = model_event(m, $k)?;
                    let $mp = (&mut ev.k, &mut ev.cmds) else { return None };
                    $m;
                    Some(())
                },
            )
        };
    }
    macro_rules! timed {
        ($k:expr, $t:ident) => {
            op!(concat!("set time of ", stringify!($t)), $k, E::$t(x) => x.start_time = 654, (K::$t { time, .. }, _) => *time = 654);
            op!(concat!("set file of ", stringify!($t)), $k, E::$t(x) => x.file_name = "n.png".into(), (K::$t { file, .. }, _) => *file = "n.png".into());
            op!(concat!("remove position of ", stringify!($t)), $k, E::$t(x) => x.position = None, (K::$t { pos, .. }, _) => *pos = None);
            op!(concat!("set position of ", stringify!($t)), $k,
                E::$t(x) => x.position = Some(lib::Position { x: dec("1.5"), y: 2.into() }),
                (K::$t { pos, .. }, _) => *pos = Some((D::new("1.5"), D::int(2))));
        };
    }
    timed!(0, Background);
    timed!(1, Video);
    op!("set start of break", 2, E::Break(x) => x.start_time = 1, (K::Break { start, .. }, _) => *start = 1);
    op!("set end of break", 2, E::Break(x) => x.end_time = -1, (K::Break { end, .. }, _) => *end = -1);
    op!("set time of colour", 3, E::ColourTransformation(x) => x.start_time = 50, (K::Colour { time, .. }, _) => *time = 50);
    op!("set blue of colour", 3, E::ColourTransformation(x) => x.blue = 1, (K::Colour { rgb, .. }, _) => rgb[2] = 1);
    macro_rules! legacy {
        ($k:expr, $t:ident) => {
            op!(concat!("set layer of ", stringify!($t)), $k, E::$t(x) => x.layer = LayerLegacy::Video, (K::$t { layer, .. }, _) => *layer = 5);
            op!(concat!("set origin of ", stringify!($t)), $k, E::$t(x) => x.origin = OriginTypeLegacy::TopCentre, (K::$t { origin, .. }, _) => *origin = 5);
            op!(concat!("set file of ", stringify!($t)), $k, E::$t(x) => x.file_name = "o/p.png".into(), (K::$t { file, .. }, _) => *file = "o/p.png".into());
            op!(concat!("remove position of ", stringify!($t)), $k, E::$t(x) => x.position = None, (K::$t { pos, .. }, _) => *pos = None);
            op!(concat!("set position of ", stringify!($t)), $k,
                E::$t(x) => x.position = Some(lib::Position { x: dec("1.5"), y: 2.into() }),
                (K::$t { pos, .. }, _) => *pos = Some((D::new("1.5"), D::int(2))));
        };
    }
    legacy!(4, SpriteLegacy);
    legacy!(5, AnimationLegacy);
    op!("set time of legacy sample", 6, E::SampleLegacy(x) => x.time = dec("9.5"), (K::SampleLegacy { time, .. }, _) => *time = D::new("9.5"));
    op!("set layer of legacy sample", 6, E::SampleLegacy(x) => x.layer = LayerLegacy::Foreground, (K::SampleLegacy { layer, .. }, _) => *layer = 3);
    op!("remove volume of legacy sample", 6, E::SampleLegacy(x) => x.volume = None, (K::SampleLegacy { volume, .. }, _) => *volume = None);
    op!("set volume of legacy sample", 6, E::SampleLegacy(x) => x.volume = Some(lib::events::audio_sample::Volume::new(100, 14).ok()?), (K::SampleLegacy { volume, .. }, _) => *volume = Some(100));
    for k in [7usize, 8] {
        macro_rules! object {
            ($name:expr, $o:ident, $l:expr, $layer:ident, $origin:ident, $x:ident, $y:ident, $m:expr) => {
                e.add(
                    Events,
                    format!("{} of object kind {k}", $name),
                    move |f| {
                        let E::StoryboardObject($o) = lib_event(f, k)? else { return None };
                        $l;
                        Some(())
                    },
                    move |m| {
                        let (K::Sprite { layer: $layer, origin: $origin, x: $x, y: $y, .. } | K::Animation { layer: $layer, origin: $origin, x: $x, y: $y, .. }) =
                            &mut model_event(m, k)?.k
                        else {
                            return None;
                        };
                        let _ = (&$layer, &$origin, &$x, &$y);
                        $m;
                        Some(())
                    },
                )
            };
        }
        object!("set layer", o, o.layer = sb::sprites::Layer::Foreground, layer, origin, x, y, *layer = 3);
        object!(
            "set origin",
            o,
            o.origin = sb::sprites::Origin { type_: either::Either::Left(sb::sprites::OriginType::BottomRight), shorthand: false },
            layer,
            origin,
            x,
            y,
            *origin = MOrigin::Name(9)
        );
        object!("set origin number", o, o.origin = sb::sprites::Origin { type_: either::Either::Right(77), shorthand: true }, layer, origin, x, y, *origin = MOrigin::Num(77));
        object!(
            "set position",
            o,
            o.position = lib::Position { x: dec("-0.5"), y: 100.into() },
            layer,
            origin,
            x,
            y,
            {
                *x = D::new("-0.5");
                *y = D::int(100);
            }
        );
    }
    macro_rules! animation {
        ($name:expr, $a:ident, $l:expr, $p:pat => $m:expr) => {
            op!($name, 8, E::StoryboardObject(o) => {
                let sb::sprites::ObjectType::Animation($a) = &mut o.object_type else { return None };
                $l
            }, ($p, _) => $m)
        };
    }
    animation!("set frames", a, a.frame_count = 12, K::Animation { count, .. } => *count = 12);
    animation!("set delay", a, a.frame_delay = rust_decimal::Decimal::new(25, 2), K::Animation { delay, .. } => *delay = D::new("0.25"));
    animation!("loop forever", a, a.loop_type = sb::sprites::LoopType::LoopForever, K::Animation { once, .. } => *once = false);
    animation!("set frame file", a, a.filepath = "q.png".into(), K::Animation { file, .. } => *file = "q.png".into());
    op!("set sprite file", 7, E::StoryboardObject(o) => {
        let sb::sprites::ObjectType::Sprite(s) = &mut o.object_type else { return None };
        s.filepath = "r.png".into()
    }, (K::Sprite { file, .. }, _) => *file = "r.png".into());
    op!("set time of sample", 9, E::AudioSample(x) => x.time = -9, (K::Audio { time, .. }, _) => *time = -9);
    op!("set layer of sample", 9, E::AudioSample(x) => x.layer = lib::events::audio_sample::Layer::Fail, (K::Audio { layer, .. }, _) => *layer = 1);
    op!("set file of sample", 9, E::AudioSample(x) => x.filepath = "s.ogg".into(), (K::Audio { file, .. }, _) => *file = "s.ogg".into());
    op!("set volume of sample", 9, E::AudioSample(x) => x.volume.set(0, 14).ok()?, (K::Audio { volume, .. }, _) => *volume = 0);
    op!("set comment", 10, E::Comment(x) => *x = " changed // é".into(), (K::Comment(c), _) => *c = " changed // é".into());
    e.add(
        Events,
        "add a comment in front",
        |f| {
            f.events.as_mut()?.0.insert(0, E::Comment(String::new()));
            Some(())
        },
        |m| {
            m.events.as_mut()?.insert(0, MEvent::new(K::Comment(String::new())));
            Some(())
        },
    );
    e.add(
        Events,
        "add a break",
        |f| {
            f.events.as_mut()?.0.push(E::Break(lib::events::Break::new(10, 20)));
            Some(())
        },
        |m| {
            m.events.as_mut()?.push(MEvent::new(K::Break { long: false, start: 10, end: 20 }));
            Some(())
        },
    );
    // commands
    for k in [0usize, 1, 4, 5, 6, 7, 8] {
        macro_rules! cmds {
            ($name:expr, $c:ident, $l:expr, $m:expr) => {
                e.add(
                    Events,
                    format!("{} of event kind {k}", $name),
                    move |f| {
                        let $c = lib_cmds(f, k)?;
                        $l;
                        Some(())
                    },
                    move |m| {
                        let $c = &mut model_event(m, k)?.cmds;
                        $m;
                        Some(())
                    },
                )
            };
        }
        cmds!("clear the commands", c, c.clear(), c.clear());
        cmds!("reverse the commands", c, c.reverse(), c.reverse());
        cmds!("repeat the commands", c, c.extend(c.clone()), c.extend(c.clone()));
        cmds!(
            "add a fade",
            c,
            c.push(Command {
                start_time: Some(7),
                properties: P::Fade { easing: sb::types::Easing::QuadIn, end_time: None, start_opacity: 1.into(), continuing_opacities: vec![dec("0.5")] }
            }),
            c.push(MCmd { easing: 3, start: Some(7), end: None, p: MProp::One("F", vec![D::int(1), D::new("0.5")]) })
        );
        if k != 7 && k != 0 {
            continue;
        }
        cmds!(
            "add a move",
            c,
            c.push(Command {
                start_time: Some(-7),
                properties: P::Move {
                    easing: sb::types::Easing::Other(77),
                    end_time: Some(8),
                    positions_xy: ContinuingFields::new((1.into(), 2.into()), vec![(3.into(), Some(4.into())), (5.into(), None)]).ok()?
                }
            }),
            c.push(MCmd { easing: 77, start: Some(-7), end: Some(8), p: MProp::Two("M", (1..=5).map(D::int).collect()) })
        );
        cmds!(
            "add a loop in front",
            c,
            c.insert(
                0,
                Command {
                    start_time: Some(1),
                    properties: P::Loop {
                        loop_count: 4,
                        commands: vec![Command {
                            start_time: Some(2),
                            properties: P::Parameter { easing: sb::types::Easing::Linear, end_time: Some(3), parameter: sb::types::Parameter::ImageFlipVertical, continuing_parameters: vec![] }
                        }]
                    }
                }
            ),
            c.insert(0, MCmd { easing: 0, start: Some(1), end: None, p: MProp::Loop(4, vec![MCmd { easing: 0, start: Some(2), end: Some(3), p: MProp::Param(vec!['V']) }]) })
        );
        cmds!(
            "add a trigger",
            c,
            c.push(Command {
                start_time: Some(1),
                properties: P::Trigger { trigger_type: sb::types::TriggerType::Failing, end_time: Some(2), group_number: None, commands: vec![] }
            }),
            c.push(MCmd { easing: 0, start: Some(1), end: Some(2), p: MProp::Trigger(MTrig::Failing, None, vec![]) })
        );
        cmds!("remove a start time", c, c.first_mut()?.start_time = None, {
            // a command without a start but with an end is not specified
            let f = c.first_mut()?;
            f.start = None
        });
        cmds!("set a start time", c, c.first_mut()?.start_time = Some(31), c.first_mut()?.start = Some(31));
        // inside the first command with commands of its own
        cmds!(
            "add an inner command",
            c,
            {
                let inner = c.iter_mut().find_map(|c| match &mut c.properties {
                    P::Loop { commands, .. } | P::Trigger { commands, .. } => Some(commands),
                    _ => None,
                })?;
                inner.push(Command {
                    start_time: Some(6),
                    properties: P::Rotate { easing: sb::types::Easing::Linear, end_time: None, start_rotation: dec("0.5"), continuing_rotations: vec![] }
                });
            },
            {
                let inner = c.iter_mut().find_map(|c| c.sub_mut())?;
                inner.push(MCmd { easing: 0, start: Some(6), end: None, p: MProp::One("R", vec![D::new("0.5")]) });
            }
        );
        cmds!(
            "clear the inner commands",
            c,
            c.iter_mut().find_map(|c| match &mut c.properties {
                P::Loop { commands, .. } | P::Trigger { commands, .. } => Some(commands),
                _ => None,
            })?.clear(),
            c.iter_mut().find_map(|c| c.sub_mut())?.clear()
        );
        cmds!(
            "set the loop count",
            c,
            *c.iter_mut().find_map(|c| match &mut c.properties {
                P::Loop { loop_count, .. } => Some(loop_count),
                _ => None,
            })? = 99,
            *c.iter_mut().find_map(|c| match &mut c.p {
                MProp::Loop(n, _) => Some(n),
                _ => None,
            })? = 99
        );
    }
}

fn edits() -> &'static Vec<Edit> {
    static E: OnceLock<Vec<Edit>> = OnceLock::new();
    E.get_or_init(|| {
        let mut e = Edits(Vec::new());
        sections(&mut e);
        key_values(&mut e);
        hits(&mut e);
        timing(&mut e);
        colours(&mut e);
        events(&mut e);
        e.0
    })
}

// ------------------------------------------------------------ values

/// Whether a text can stand for itself as the name of a file in a list.
fn name_ok(s: &str) -> bool {
    // a name with a space is written in quotes, which then belong to it
    let quoted = s.len() > 2 && s.starts_with('"') && s.ends_with('"');
    !s.is_empty() && s.trim() == s && !s.contains([',', '\r', '\n']) && s.contains('"') == quoted && (quoted || !s.contains(' '))
}
/// Whether a text can stand for itself until the end of a line.
fn text_ok(s: &str) -> bool {
    !s.is_empty() && s.trim() == s && !s.contains(['\r', '\n'])
}

const NAMES: &[&str] = &[
    "sb//./x.png", "a/../b", "./a", "a/", "a//", "/", "/a", "//a", "a\\b", "a\\\\b", ".", "..", "a/.", "a/..", "../a", "a./b", "a b/c d.png", "A.PNG", "a.b.c", "é/ü.png", "e\u{301}.png", "\u{e9}.png", "C:/a", "file:///a", "a?b", "a*b",
    "日本.png", "a\u{a0}b", "a\u{200b}b", "$a", "[Events]", "//", "0", "1", "-1", "1.50", "007", "null", "true", "Sprite", "_a", "a\tb", "'", "a'b",
];
const INTS: &[i32] = &[0, 1, -1, 2, 9, 10, -10, 23, 24, 25, 99, 100, 127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, 16777216, 16777217, 99999999, 2147483623, 2147483647, -2147483624, -2147483647, -2147483648];
const DECS: &[&str] = &["0", "1", "-1", "0.5", "-0.5", "0.10", "100", "1000000", "1e0", "0.000001", "12345.678", "-0.125", "2147483647", "2147483648", "-2147483648", "4294967296", "9007199254740993", "0.1000000000000000055511151231", "79228162514264337593543950335", "7.9228162514264337593543950335"];

/// Every text or number field set to every value of a pool, through the interface.
fn values() -> &'static Vec<Edit> {
    static E: OnceLock<Vec<Edit>> = OnceLock::new();
    E.get_or_init(|| {
        let mut e = Edits(Vec::new());
        value_edits(&mut e);
        e.0
    })
}

fn value_edits(e: &mut Edits) {
    use lib::events::storyboard as sb;
    use lib::events::Event as E;
    use MEventKind as K;
    let texts: Vec<&'static str> = super::text::WORDS.iter().chain(super::text::SPECIAL).chain(NAMES).copied().collect();
    let decs: Vec<&'static str> = DECS.iter().copied().filter(|d| !d.contains('e')).collect();

    // events
    macro_rules! names {
        ($k:expr, $lp:pat => $place:expr, $mp:pat => $file:expr) => {
            for t in texts.iter().copied().filter(|t| name_ok(t)) {
                for set in [false, true] {
                    e.add(
                        Group::Events,
                        format!("file {t:?} of event kind {}{}", $k, if set { " set" } else { "" }),
                        move |f| {
                            #[allow(irrefutable_let_patterns)]
                            let $lp = lib_event(f, $k)? else { return None };
                            let p: &mut lib::FilePath = $place;
                            match set {
                                true => p.set(t),
                                false => *p = t.into(),
                            }
                            ensure_path(p, t);
                            Some(())
                        },
                        move |m| {
                            let $mp = &mut model_event(m, $k)?.k else { return None };
                            *$file = t.to_string();
                            Some(())
                        },
                    );
                }
            }
        };
    }
    fn ensure_path(p: &lib::FilePath, t: &str) {
        assert_eq!(p.get().as_os_str(), t, "the path that is set is the one that is got");
    }
    names!(0, E::Background(x) => &mut x.file_name, K::Background { file, .. } => file);
    names!(1, E::Video(x) => &mut x.file_name, K::Video { file, .. } => file);
    names!(4, E::SpriteLegacy(x) => &mut x.file_name, K::SpriteLegacy { file, .. } => file);
    names!(5, E::AnimationLegacy(x) => &mut x.file_name, K::AnimationLegacy { file, .. } => file);
    names!(6, E::SampleLegacy(x) => &mut x.file_name, K::SampleLegacy { file, .. } => file);
    names!(9, E::AudioSample(x) => &mut x.filepath, K::Audio { file, .. } => file);
    names!(7, E::StoryboardObject(o) => match &mut o.object_type {
        sb::sprites::ObjectType::Sprite(s) => &mut s.filepath,
        sb::sprites::ObjectType::Animation(s) => &mut s.filepath,
        _ => return None,
    }, K::Sprite { file, .. } => file);
    names!(8, E::StoryboardObject(o) => match &mut o.object_type {
        sb::sprites::ObjectType::Sprite(s) => &mut s.filepath,
        sb::sprites::ObjectType::Animation(s) => &mut s.filepath,
        _ => return None,
    }, K::Animation { file, .. } => file);
    macro_rules! each {
        ($g:expr, $name:expr, $pool:expr, $t:ident, $f:ident => $l:expr, $m:ident => $me:expr) => {
            for $t in $pool.iter().copied() {
                e.add(
                    $g,
                    format!("{} {:?}", $name, $t),
                    move |$f| {
                        $l;
                        Some(())
                    },
                    move |$m| {
                        $me;
                        Some(())
                    },
                );
            }
        };
    }
    macro_rules! event {
        ($name:expr, $k:expr, $pool:expr, $t:ident, $lp:pat => $l:expr, $mp:pat => $m:expr) => {
            each!(Group::Events, format!("{} of event kind {}", $name, $k), $pool, $t, f => {
                let $lp = lib_event(f, $k)? else { return None };
                $l
            }, m => {
                let $mp = &mut model_event(m, $k)?.k else { return None };
                $m
            });
        };
    }
    let comments: Vec<&'static str> = texts.iter().copied().filter(|t| t.trim_end() == *t && !t.contains(['\r', '\n'])).collect();
    event!("text", 10, comments, t, E::Comment(c) => *c = t.into(), K::Comment(c) => *c = t.into());
    event!("time", 0, INTS, t, E::Background(x) => x.start_time = t, K::Background { time, .. } => *time = t);
    event!("time", 1, INTS, t, E::Video(x) => x.start_time = t, K::Video { time, .. } => *time = t);
    event!("start", 2, INTS, t, E::Break(x) => x.start_time = t, K::Break { start, .. } => *start = t);
    event!("end", 2, INTS, t, E::Break(x) => x.end_time = t, K::Break { end, .. } => *end = t);
    event!("time", 3, INTS, t, E::ColourTransformation(x) => x.start_time = t, K::Colour { time, .. } => *time = t);
    event!("time", 9, INTS, t, E::AudioSample(x) => x.time = t, K::Audio { time, .. } => *time = t);
    let bytes: Vec<u8> = (0..=255).collect();
    event!("red", 3, bytes, t, E::ColourTransformation(x) => x.red = t, K::Colour { rgb, .. } => rgb[0] = t);
    event!("green", 3, bytes, t, E::ColourTransformation(x) => x.green = t, K::Colour { rgb, .. } => rgb[1] = t);
    event!("blue", 3, bytes, t, E::ColourTransformation(x) => x.blue = t, K::Colour { rgb, .. } => rgb[2] = t);
    event!("time", 6, decs, t, E::SampleLegacy(x) => x.time = dec(t), K::SampleLegacy { time, .. } => *time = D::new(t));
    for k in [7usize, 8] {
        event!("x", k, decs, t, E::StoryboardObject(o) => o.position.x = dec(t), (K::Sprite { x, .. } | K::Animation { x, .. }) => *x = D::new(t));
        event!("y", k, decs, t, E::StoryboardObject(o) => o.position.y = dec(t), (K::Sprite { y, .. } | K::Animation { y, .. }) => *y = D::new(t));
    }
    event!("x", 0, decs, t, E::Background(o) => o.position = Some(lib::Position { x: dec(t), y: 3.into() }), K::Background { pos, .. } => *pos = Some((D::new(t), D::int(3))));
    event!("y", 1, decs, t, E::Video(o) => o.position = Some(lib::Position { x: 3.into(), y: dec(t) }), K::Video { pos, .. } => *pos = Some((D::int(3), D::new(t))));

    // commands: the start times and what they hold
    for k in [0usize, 7] {
        each!(Group::Events, format!("command start of event kind {k}"), INTS, t, f => lib_cmds(f, k)?.first_mut()?.start_time = Some(t), m => {
            model_event(m, k)?.cmds.first_mut()?.start = Some(t)
        });
    }
    use lib::events::storyboard::cmds::{Command, CommandProperties as P};
    let linear = || sb::types::Easing::Linear;
    each!(Group::Events, "fade", decs, t, f => {
        let c = Command { start_time: Some(7), properties: P::Fade { easing: linear(), end_time: None, start_opacity: dec(t), continuing_opacities: vec![dec(t)] } };
        lib_cmds(f, 7)?.push(c)
    }, m => model_event(m, 7)?.cmds.push(MCmd { easing: 0, start: Some(7), end: None, p: MProp::One("F", vec![D::new(t), D::new(t)]) }));
    each!(Group::Events, "end of a rotation", INTS, t, f => {
        let c = Command { start_time: Some(7), properties: P::Rotate { easing: linear(), end_time: Some(t), start_rotation: 1.into(), continuing_rotations: vec![] } };
        lib_cmds(f, 7)?.push(c)
    }, m => model_event(m, 7)?.cmds.push(MCmd { easing: 0, start: Some(7), end: Some(t), p: MProp::One("R", vec![D::int(1)]) }));

    // hit objects
    for k in 0..4usize {
        each!(Group::Hits, format!("time of kind {k}"), decs, t, f => lib_hit(f, k)?.time = dec(t), m => model_hit(m, k)?.time = D::new(t));
        each!(Group::Hits, format!("x of kind {k}"), decs, t, f => lib_hit(f, k)?.position.x = dec(t), m => model_hit(m, k)?.x = D::new(t));
        each!(Group::Hits, format!("y of kind {k}"), decs, t, f => lib_hit(f, k)?.position.y = dec(t), m => model_hit(m, k)?.y = D::new(t));
        let files: Vec<&'static str> = texts.iter().copied().filter(|t| name_ok(t)).collect();
        each!(Group::Hits, format!("sample file of kind {k}"), files, t, f => {
            let mut s = lib_sample();
            s.filename = t.into();
            lib_hit(f, k)?.hitsample = Some(s)
        }, m => {
            let mut s = some_sample();
            s.file = t.into();
            model_hit(m, k)?.sample = Some(s)
        });
    }
    use lib::hitobjects::HitObjectParams::*;
    for k in [2usize, 3] {
        each!(Group::Hits, format!("end of kind {k}"), decs, t, f => match &mut lib_hit(f, k)?.obj_params {
            Spinner { end_time } | OsuManiaHold { end_time } => *end_time = dec(t),
            _ => unreachable!(),
        }, m => match &mut model_hit(m, k)?.kind {
            MKind::Spinner(e) | MKind::Hold(e) => *e = D::new(t),
            _ => unreachable!(),
        });
    }
    each!(Group::Hits, "length", decs, t, f => lib_slider(f)?.length = dec(t), m => model_slider(m)?.length = D::new(t));
    each!(Group::Hits, "slides", INTS, t, f => lib_slider(f)?.slides = t, m => model_slider(m)?.slides = t);
    each!(Group::Hits, "point", decs, t, f => {
        let p = lib::hitobjects::CurvePoint(lib::Position { x: dec(t), y: dec(t) });
        lib_slider(f)?.curve_points.push(p)
    }, m => model_slider(m)?.points.push((D::new(t), D::new(t))));

    // timing points
    each!(Group::Timing, "time", INTS, t, f => f.timing_points.as_mut()?.0.first_mut()?.set_time(t), m => m.timing.as_mut()?.first_mut()?.time = D::int(t as i128));
    each!(Group::Timing, "meter", INTS, t, f => f.timing_points.as_mut()?.0.first_mut()?.set_meter(t), m => m.timing.as_mut()?.first_mut()?.meter = t);

    // colours
    // (numbers of combos are written without a sign)
    let numbers: Vec<i32> = INTS.iter().copied().filter(|i| *i >= 0).collect();
    each!(Group::Colours, "combo", numbers, t, f => {
        let Some(lib::colours::Colour::Combo(n, _)) = f.colours.as_mut()?.0.first_mut() else { return None };
        *n = t
    }, m => {
        let Some(MColour::Combo(n, _)) = m.colours.as_mut()?.first_mut() else { return None };
        *n = t
    });

    // sections of keys and values
    macro_rules! fields {
        ($sec:ident, $s:expr, $(($f:ident, $key:expr, $kind:ident)),* $(,)?) => {
            $(
                let i = $s.fields().iter().position(|f| f.key == $key).expect("a field");
                fields!(@$kind $sec, $s, $f, $key, i);
            )*
        };
        (@text $sec:ident, $s:expr, $f:ident, $key:expr, $i:ident) => {
            let pool: Vec<&'static str> = texts.iter().copied().filter(|t| text_ok(t)).collect();
            each!(Group::Kv, $key, pool, t, f => f.$sec.as_mut()?.$f = Some(t.to_string().into()), m => m.kv[$s as usize].as_mut()?[$i] = Some(KV::S(t.into())));
        };
        (@path $sec:ident, $s:expr, $f:ident, $key:expr, $i:ident) => {
            let pool: Vec<&'static str> = texts.iter().copied().filter(|t| text_ok(t)).collect();
            each!(Group::Kv, $key, pool, t, f => f.$sec.as_mut()?.$f = Some(std::path::PathBuf::from(t).into()), m => m.kv[$s as usize].as_mut()?[$i] = Some(KV::S(t.into())));
        };
        (@int $sec:ident, $s:expr, $f:ident, $key:expr, $i:ident) => {
            each!(Group::Kv, $key, INTS, t, f => f.$sec.as_mut()?.$f = Some(t.into()), m => m.kv[$s as usize].as_mut()?[$i] = Some(KV::I(t)));
        };
        (@dec $sec:ident, $s:expr, $f:ident, $key:expr, $i:ident) => {
            each!(Group::Kv, $key, decs, t, f => f.$sec.as_mut()?.$f = Some(dec(t).into()), m => m.kv[$s as usize].as_mut()?[$i] = Some(KV::D(D::new(t))));
        };
        (@bool $sec:ident, $s:expr, $f:ident, $key:expr, $i:ident) => {
            each!(Group::Kv, $key, [false, true], t, f => f.$sec.as_mut()?.$f = Some(t.into()), m => m.kv[$s as usize].as_mut()?[$i] = Some(KV::B(t)));
        };
        (@ints $sec:ident, $s:expr, $f:ident, $key:expr, $i:ident) => {
            for pool in [INTS.to_vec(), INTS.iter().rev().copied().collect(), vec![5, 5, 5], vec![0]] {
                for n in 1..=pool.len() {
                    let (a, b) = (pool[..n].to_vec(), pool[..n].to_vec());
                    e.add(Group::Kv, format!("{} {a:?}", $key), move |f| {
                        f.$sec.as_mut()?.$f = Some(a.clone().into());
                        Some(())
                    }, move |m| {
                        m.kv[$s as usize].as_mut()?[$i] = Some(KV::L(b.clone()));
                        Some(())
                    });
                }
            }
        };
        (@tags $sec:ident, $s:expr, $f:ident, $key:expr, $i:ident) => {
            let pool: Vec<&'static str> = texts.iter().copied().filter(|t| text_ok(t) && !t.contains(' ')).collect();
            for t in pool {
                for n in 1..=3usize {
                    let list: Vec<String> = ["a", t, "b"][(n == 1) as usize..][..n].iter().map(|s| s.to_string()).collect();
                    let copy = list.clone();
                    e.add(Group::Kv, format!("{} {list:?}", $key), move |f| {
                        f.$sec.as_mut()?.$f = Some(list.clone().into());
                        Some(())
                    }, move |m| {
                        m.kv[$s as usize].as_mut()?[$i] = Some(KV::T(copy.clone()));
                        Some(())
                    });
                }
            }
        };
    }
    fields!(
        general, Sec::General, (audio_filename, "AudioFilename", path), (audio_lead_in, "AudioLeadIn", int), (audio_hash, "AudioHash", text), (preview_time, "PreviewTime", int),
        (stack_leniency, "StackLeniency", dec), (letterbox_in_breaks, "LetterboxInBreaks", bool), (story_fire_in_front, "StoryFireInFront", bool),
        (use_skin_sprites, "UseSkinSprites", bool), (always_show_playfield, "AlwaysShowPlayfield", bool), (skin_preference, "SkinPreference", text),
        (epilepsy_warning, "EpilepsyWarning", bool), (countdown_offset, "CountdownOffset", int), (special_style, "SpecialStyle", bool),
        (widescreen_storyboard, "WidescreenStoryboard", bool), (samples_match_playback_rate, "SamplesMatchPlaybackRate", bool), (editor_bookmarks, "EditorBookmarks", ints),
        (editor_distance_spacing, "EditorDistanceSpacing", dec),
    );
    fields!(
        editor, Sec::Editor, (bookmarks, "Bookmarks", ints), (distance_spacing, "DistanceSpacing", dec), (beat_divisor, "BeatDivisor", dec), (grid_size, "GridSize", int),
        (timeline_zoom, "TimelineZoom", dec), (current_time, "CurrentTime", int),
    );
    fields!(
        metadata, Sec::Metadata, (title, "Title", text), (title_unicode, "TitleUnicode", text), (artist, "Artist", text), (artist_unicode, "ArtistUnicode", text),
        (creator, "Creator", text), (version, "Version", text), (source, "Source", text), (tags, "Tags", tags), (beatmap_id, "BeatmapID", int), (beatmap_set_id, "BeatmapSetID", int),
    );
    fields!(
        difficulty, Sec::Difficulty, (hp_drain_rate, "HPDrainRate", dec), (circle_size, "CircleSize", dec), (overall_difficulty, "OverallDifficulty", dec),
        (approach_rate, "ApproachRate", dec), (slider_multiplier, "SliderMultiplier", dec), (slider_tickrate, "SliderTickRate", dec),
    );
}

/// A command that ends without having started is not specified.
fn unspecified(m: &MFile) -> bool {
    fn cmd(c: &MCmd) -> bool {
        c.start.is_none() && (c.end.is_some() || !matches!(c.p, MProp::Trigger(..))) && !matches!(c.p, MProp::Loop(..)) && c.end.is_some()
            || c.sub().iter().any(cmd)
    }
    m.events.iter().flatten().any(|e| e.cmds.iter().any(cmd))
}

/// A value as it was read, and its model.
fn start(kind: usize, v: u8) -> &'static (lib::OsuFile, MFile) {
    type Starts = Vec<OnceLock<(lib::OsuFile, MFile)>>;
    static S: OnceLock<Starts> = OnceLock::new();
    let all = S.get_or_init(|| (0..3 * 16).map(|_| OnceLock::new()).collect());
    all[kind * 16 + v as usize].get_or_init(|| {
        let m = match kind {
            0 => gen::default_file(v),
            1 => MFile::new(v),
            _ => return (lib::OsuFile::new(v), MFile::new(v)),
        };
        let text = m.print(v);
        let Ok(Some(Val::Osu(x))) = Osu.parse(&text, v) else { panic!("the file is read") };
        (*x, m.at(v))
    })
}

/// Applies a sequence of edits and compares the value, what is printed and what is read back.
fn apply(ch: &mut Ch, at: (usize, u8), picked: &[&Edit]) -> R {
    let (mut f, mut m) = start(at.0, at.1).clone();
    ch.note(|| format!("v{} start {}: {}", at.1, at.0, picked.iter().map(|e| e.name.as_str()).collect::<Vec<_>>().join(", ")));
    for e in picked {
        let (a, b) = ((e.lib)(&mut f), (e.model)(&mut m));
        ensure(a == b, || format!("the edit {:?} applies to the value: {}, to the model: {}", e.name, a.is_some(), b.is_some()))?;
        if a.is_none() {
            return Ok(());
        }
    }
    let v = m.version;
    let names = || picked.iter().map(|e| e.name.as_str()).collect::<Vec<_>>().join(", ");
    let got = view::file(&f);
    same("file after edits", &names(), v, &got, &m.value())?;
    if unspecified(&m) {
        return Ok(());
    }
    let text = f.to_string();
    prints("file after edits", &names(), v, Some(text.clone()), &m.print(v))?;
    let again = must(Osu, &text, v)?.view();
    same("edited file", &text, v, &again, &m.at(v).value())?;
    let osb = f.osb_to_string();
    let want = m.osb.as_ref().filter(|_| v >= 14).map(|o| o.print());
    ensure(osb == want, || format!("after {} the storyboard is printed as {osb:?} instead of {want:?}", names()))
}

pub fn c29(ctx: &mut Ctx) {
    let all = edits();
    let deep = ctx.thorough();
    ctx.space("every edit at every version", 0, &|ch| {
        let v = gen::version(ch);
        let kind = ch.free(3);
        let e = ch.of(all);
        apply(ch, (kind, v), &[e])
    });
    ctx.space("every pair of edits", 0, &|ch| {
        let v = if deep { gen::version(ch) } else { *ch.of(&[3u8, 14]) };
        let a = ch.of(all);
        let b = ch.of(all);
        apply(ch, (0, v), &[a, b])
    });
    let values = values();
    ctx.space("every value of every text and number field", 0, &|ch| {
        // times are written 24 ms early before version 5
        let v = if deep { 5 + ch.free(10) as u8 } else { *ch.of(&[5u8, 10, 14]) };
        let kind = if deep { ch.free(2) } else { 0 };
        let e = ch.of(values);
        apply(ch, (kind, v), &[e])
    });
    ctx.space("continuation lists changed, printed and read again", 0, &continuations);
    let groups = [Group::File, Group::Kv, Group::Hits, Group::Timing, Group::Colours, Group::Events];
    ctx.space("every three edits of one section", 0, &|ch| {
        let g = *ch.of(&groups);
        if g == Group::Kv {
            // the fields of these sections do not meet
            return Ok(());
        }
        let mine: Vec<&Edit> = all.iter().filter(|e| e.group == g).collect();
        if !deep && mine.len() > 60 {
            return Ok(());
        }
        let v = if deep { *ch.of(&[3u8, 5, 10, 14]) } else { *ch.of(&[5u8, 12]) };
        let p = [*ch.of(&mine), *ch.of(&mine), *ch.of(&mine)];
        let kind = if g == Group::File { ch.free(2) } else { 0 };
        apply(ch, (kind, v), &p)
    });
}

/// Continuation lists of commands changed through the interface, printed and read again.
fn continuations(ch: &mut Ch) -> R {
    use lib::events::storyboard::cmds::CommandProperties as P;
    let deep = crate::engine::thorough();
    let kind = ch.free(3);
    let per = if kind == 2 { 3 } else { 2 };
    // complete entries, and one that ends early
    let full = 1 + ch.free(if deep { 5 } else { 4 });
    let rest = ch.free(per);
    let mut vals: Vec<i128> = (1..=(full * per + rest) as i128).map(|i| 10 + i).collect();
    let name = ["M", "V", "C"][kind];
    let write = |vals: &[i128]| format!("{name},0,1,2,{}", vals.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","));
    let head = "Sprite,Pass,Centre,a.png,0,0\n ";
    let text = format!("{head}{}", write(&vals));
    ch.note(|| format!("{text:?}"));
    let Val::Osu(mut f) = must(Osu, &format!("osu file format v14\n\n[Events]\n{text}"), 14)? else { unreachable!() };
    let ops = 1 + ch.free(if deep { 4 } else { 3 });
    for step in 0..ops {
        let c = lib_cmds(&mut f, 7).and_then(|c| c.first_mut()).ok_or("the command is gone")?;
        let base = 100 * (step as i128 + 1);
        // push an entry of 1..=per values, or set the last entry to so many
        let set = ch.free_flag();
        let k = 1 + ch.free(per);
        let new: Vec<i128> = (0..k as i128).map(|i| base + i).collect();
        ch.note(|| format!("{} {new:?}", if set { "the last entry is set to" } else { "pushed" }));
        let entries = (vals.len() - per).div_ceil(per);
        if set && entries == 0 {
            return Ok(());
        }
        if set {
            vals.truncate(per + (entries - 1) * per);
        } else {
            // an incomplete entry takes the values before it
            while vals.len() % per != 0 {
                vals.push(vals[vals.len() - per]);
            }
        }
        vals.extend(&new);
        let d = |i: usize| lib::Decimal::from(new[i] as i32);
        let ok = match &mut c.properties {
            P::Move { positions_xy: l, .. } | P::VectorScale { scales_xy: l, .. } => {
                let e = (d(0), (k > 1).then(|| d(1)));
                match set {
                    true => l.set_continuing_fields(entries - 1, e).is_ok(),
                    // (only for types that can be copied)
                    false => {
                        let (start, mut list) = (l.start_values().clone(), l.continuing_fields().to_vec());
                        if let Some(last) = list.iter().rposition(|e| e.1.is_none()) {
                            list[last].1 = Some(if last == 0 { start.1.clone() } else { list[last - 1].1.clone().unwrap() });
                        }
                        list.push(e);
                        lib::events::storyboard::cmds::ContinuingFields::new(start, list).map(|n| *l = n).is_ok()
                    }
                }
            }
            P::Colour { colours: l, .. } => {
                let u = |i: usize| (new[i] % 256) as u8;
                let e = (u(0), (k > 1).then(|| u(1)), (k > 2).then(|| u(2)));
                match set {
                    true => l.set_continuing_rgbs(entries - 1, e).is_ok(),
                    false => {
                        l.push_continuing_rgbs(e);
                        true
                    }
                }
            }
            p => return Err(format!("the command is read as {p:?}").into()),
        };
        ensure(ok, || format!("a legal change of {:?} is refused", write(&vals)))?;
        if kind == 2 {
            vals.iter_mut().for_each(|v| *v %= 256);
        }
        let want = format!("{head}{}", write(&vals));
        let printed = f.to_string();
        prints("changed command", &text, 14, Some(printed.clone()), &format!("osu file format v14\n\n[Events]\n{want}"))?;
        let again = must(Osu, &printed, 14)?.view();
        same("changed command", &printed, 14, &again, &view::file(&f))?;
    }
    Ok(())
}
