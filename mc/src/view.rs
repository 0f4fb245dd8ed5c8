//! From the library's values to the model's values, through the public accessors only.

use crate::model::*;
use crate::num::{d_of, dec_of, D};
use either::Either;
use osu_file_parser as lib;
use osu_file_parser::{VersionedFrom, VersionedToString};

const V: u8 = 14;

fn set_num(s: lib::hitobjects::SampleSet) -> u64 {
    use lib::hitobjects::SampleSet::*;
    match s {
        NoCustomSampleSet => 0,
        NormalSet => 1,
        SoftSet => 2,
        DrumSet => 3,
        Other(n) => {
            assert!(n > 3, "sample set {n} has a name");
            n as u64
        }
        _ => panic!("unknown sample set"),
    }
}

pub fn sound(h: &lib::hitobjects::HitSound) -> u8 {
    let n: u8 = h.to_string(V).unwrap().parse().unwrap();
    let m = |b: bool, k: u8| if b { k } else { 0 };
    let flags = m(h.normal(), 1) | m(h.whistle(), 2) | m(h.finish(), 4) | m(h.clap(), 8);
    let expected = if n == 0 { 1 } else { n };
    assert!(
        n < 16 && flags == expected,
        "hit sound prints {n} but its flags are {flags}"
    );
    n
}

pub fn sample(s: &lib::hitobjects::HitSample) -> MSample {
    let index = match s.index {
        lib::hitobjects::SampleIndex::TimingPointSampleIndex => 0,
        lib::hitobjects::SampleIndex::Index(i) => i.get() as u64,
        _ => panic!("unknown sample index"),
    };
    let volume = s.volume.volume();
    assert_eq!(volume.is_none(), s.volume.use_timing_point_volume());
    assert!(volume != Some(0), "hit sample volume Some(0)");
    MSample {
        normal: set_num(s.normal_set),
        addition: set_num(s.addition_set),
        index,
        volume: volume.unwrap_or(0),
        file: s.filename.clone(),
    }
}

pub fn hit(h: &lib::hitobjects::HitObject) -> MHit {
    use lib::hitobjects::HitObjectParams as P;
    let kind = match &h.obj_params {
        P::HitCircle => MKind::Circle,
        P::Slider(s) => MKind::Slider(MSlider {
            curve: match s.curve_type {
                lib::hitobjects::CurveType::Bezier => 'B',
                lib::hitobjects::CurveType::Centripetal => 'C',
                lib::hitobjects::CurveType::Linear => 'L',
                lib::hitobjects::CurveType::PerfectCircle => 'P',
                _ => panic!("unknown curve type"),
            },
            points: s.curve_points.iter().map(|p| (d_of(&p.0.x), d_of(&p.0.y))).collect(),
            slides: s.slides,
            length: d_of(&s.length),
            edge_sounds: s.edge_sounds.iter().map(sound).collect(),
            edge_sets: s
                .edge_sets
                .iter()
                .map(|e| (set_num(e.normal_set), set_num(e.addition_set)))
                .collect(),
            written: 0,
        }),
        P::Spinner { end_time } => MKind::Spinner(d_of(end_time)),
        P::OsuManiaHold { end_time } => MKind::Hold(d_of(end_time)),
        _ => panic!("unknown hit object kind"),
    };
    MHit {
        x: d_of(&h.position.x),
        y: d_of(&h.position.y),
        time: d_of(&h.time),
        kind,
        new_combo: h.new_combo,
        skip: h.combo_skip_count.get(),
        sound: sound(&h.hitsound),
        sample: h.hitsample.as_ref().map(sample),
    }
}

pub fn timing(t: &lib::timingpoints::TimingPoint) -> MTiming {
    use lib::timingpoints as tp;
    let set = match t.sample_set() {
        tp::SampleSet::BeatmapDefault => 0,
        tp::SampleSet::Normal => 1,
        tp::SampleSet::Soft => 2,
        tp::SampleSet::Drum => 3,
        tp::SampleSet::Other(n) => {
            assert!(!(0..=3).contains(&n), "sample set {n} has a name");
            n
        }
        _ => panic!("unknown sample set"),
    };
    let index = match t.sample_index() {
        tp::SampleIndex::OsuDefaultHitsounds => 0,
        tp::SampleIndex::Index(i) => i.get(),
        _ => panic!("unknown sample index"),
    };
    // the beat length has no accessor: the second of the two fields of a version 3 line
    let line = VersionedToString::to_string(t, 3).expect("timing point prints");
    let beat = line.split_once(',').expect("a timing point has two fields").1;
    let effects = t.effects().map(|e| {
        let n: u32 = VersionedToString::to_string(e, V).unwrap().parse().unwrap();
        assert_eq!(<u32 as VersionedFrom<tp::Effects>>::from(*e, V), Some(n));
        assert_eq!(e.kiai_time_enabled(), n & 1 != 0, "kiai flag of effects {n}");
        assert_eq!(
            e.no_first_barline_in_taiko_mania(),
            n & 8 != 0,
            "barline flag of effects {n}"
        );
        n
    });
    MTiming {
        time: d_of(t.time()),
        beat: D::new(beat),
        meter: t.meter(),
        set,
        index,
        volume: t.volume().volume(),
        uninherited: Some(t.uninherited()),
        effects,
    }
}

pub fn colour(c: &lib::colours::Colour) -> MColour {
    use lib::colours::Colour as C;
    let rgb = |r: &lib::colours::Rgb| [r.red, r.green, r.blue];
    match c {
        C::Combo(n, r) => MColour::Combo(*n, rgb(r)),
        C::SliderTrackOverride(r) => MColour::Track(rgb(r)),
        C::SliderBorder(r) => MColour::Border(rgb(r)),
        #[allow(unreachable_patterns)]
        _ => panic!("unknown colour"),
    }
}

fn trig_set(s: lib::events::storyboard::types::SampleSet) -> u8 {
    use lib::events::storyboard::types::SampleSet::*;
    match s {
        All => 0,
        Normal => 1,
        Soft => 2,
        Drum => 3,
        _ => panic!("unknown sample set"),
    }
}

pub fn trigger(t: &lib::events::storyboard::types::TriggerType) -> MTrig {
    use lib::events::storyboard::types::{Addition, TriggerType as T};
    match t {
        T::Passing => MTrig::Passing,
        T::Failing => MTrig::Failing,
        T::HitSound {
            sample_set,
            additions_sample_set,
            addition,
            custom_sample_set,
        } => MTrig::Hit {
            set: sample_set.map(trig_set),
            add_set: additions_sample_set.map(trig_set),
            addition: addition.map(|a| match a {
                Addition::Whistle => 0,
                Addition::Finish => 1,
                Addition::Clap => 2,
                _ => panic!("unknown addition"),
            }),
            custom: custom_sample_set.map(|c| c as u64),
        },
        _ => panic!("unknown trigger"),
    }
}

pub const EASINGS: [lib::events::storyboard::types::Easing; 35] = {
    use lib::events::storyboard::types::Easing::*;
    [
        Linear, EasingOut, EasingIn, QuadIn, QuadOut, QuadInOut, CubicIn, CubicOut, CubicInOut, QuartIn, QuartOut,
        QuartInOut, QuintIn, QuintOut, QuintInOut, SineIn, SineOut, SineInOut, ExpoIn, ExpoOut, ExpoInOut, CircIn,
        CircOut, CircInOut, ElasticIn, ElasticOut, ElasticHalfOut, ElasticQuarterOut, ElasticInOut, BackIn, BackOut,
        BackInOut, BounceIn, BounceOut, BounceInOut,
    ]
};

pub fn easing(e: &lib::events::storyboard::types::Easing) -> i32 {
    if let lib::events::storyboard::types::Easing::Other(n) = e {
        assert!(!(0..35).contains(n), "easing {n} has a name");
        return *n;
    }
    EASINGS.iter().position(|x| x == e).expect("known easing") as i32
}

pub fn parameter(p: &lib::events::storyboard::types::Parameter) -> char {
    use lib::events::storyboard::types::Parameter::*;
    match p {
        ImageFlipHorizontal => 'H',
        ImageFlipVertical => 'V',
        UseAdditiveColourBlending => 'A',
        _ => panic!("unknown parameter"),
    }
}

pub fn cmd(c: &lib::events::storyboard::cmds::Command) -> MCmd {
    use lib::events::storyboard::cmds::CommandProperties as P;
    use lib::events::storyboard::cmds::ContinuingFields;
    let list = |s: &lib::Decimal, c: &[lib::Decimal]| -> Vec<D> {
        std::iter::once(s).chain(c).map(d_of).collect()
    };
    let pairs = |c: &ContinuingFields<lib::Decimal>| -> Vec<D> {
        let mut v = vec![d_of(&c.start_values().0), d_of(&c.start_values().1)];
        let n = c.continuing_fields().len();
        for (i, (a, b)) in c.continuing_fields().iter().enumerate() {
            v.push(d_of(a));
            match b {
                Some(b) => v.push(d_of(b)),
                None => assert!(i + 1 == n, "incomplete pair before the end of the list"),
            }
        }
        v
    };
    let (e, end, p) = match &c.properties {
        P::Fade { easing: e, end_time, start_opacity, continuing_opacities } => {
            (easing(e), *end_time, MProp::One("F", list(start_opacity, continuing_opacities)))
        }
        P::Move { easing: e, end_time, positions_xy } => (easing(e), *end_time, MProp::Two("M", pairs(positions_xy))),
        P::MoveX { easing: e, end_time, start_x, continuing_x } => {
            (easing(e), *end_time, MProp::One("MX", list(start_x, continuing_x)))
        }
        P::MoveY { easing: e, end_time, start_y, continuing_y } => {
            (easing(e), *end_time, MProp::One("MY", list(start_y, continuing_y)))
        }
        P::Scale { easing: e, end_time, start_scale, continuing_scales } => {
            (easing(e), *end_time, MProp::One("S", list(start_scale, continuing_scales)))
        }
        P::VectorScale { easing: e, end_time, scales_xy } => {
            (easing(e), *end_time, MProp::Two("V", pairs(scales_xy)))
        }
        P::Rotate { easing: e, end_time, start_rotation, continuing_rotations } => (
            easing(e),
            *end_time,
            MProp::One("R", list(start_rotation, continuing_rotations)),
        ),
        P::Colour { easing: e, end_time, colours } => {
            let s = colours.start_rgb();
            let mut v = vec![s.0, s.1, s.2];
            let n = colours.continuing_fields().len();
            for (i, (r, g, b)) in colours.continuing_fields().iter().enumerate() {
                v.push(*r);
                match (g, b) {
                    (Some(g), Some(b)) => v.extend([*g, *b]),
                    (Some(g), None) => {
                        v.push(*g);
                        assert!(i + 1 == n, "incomplete colour before the end of the list")
                    }
                    (None, None) => assert!(i + 1 == n, "incomplete colour before the end of the list"),
                    (None, Some(_)) => panic!("colour with blue but no green"),
                }
            }
            (easing(e), *end_time, MProp::Colour(v))
        }
        P::Parameter { easing: e, end_time, parameter: p, continuing_parameters } => (
            easing(e),
            *end_time,
            MProp::Param(std::iter::once(p).chain(continuing_parameters).map(parameter).collect()),
        ),
        P::Loop { loop_count, commands } => (0, None, MProp::Loop(*loop_count, commands.iter().map(cmd).collect())),
        P::Trigger { trigger_type, end_time, group_number, commands } => (
            0,
            *end_time,
            MProp::Trigger(trigger(trigger_type), *group_number, commands.iter().map(cmd).collect()),
        ),
        _ => panic!("unknown command"),
    };
    MCmd { easing: e, start: c.start_time, end, p }
}

fn path(p: &lib::FilePath) -> String {
    p.get().to_str().expect("file name from text").to_string()
}

fn pos(p: &Option<lib::Position>) -> Pos {
    p.as_ref().map(|p| (d_of(&p.x), d_of(&p.y)))
}

fn legacy_layer(l: lib::events::types::LayerLegacy) -> u8 {
    use lib::events::types::LayerLegacy::*;
    match l {
        Background => 0,
        Fail => 1,
        Pass => 2,
        Foreground => 3,
        Overlay => 4,
        Video => 5,
        _ => panic!("unknown layer"),
    }
}

fn legacy_origin(o: lib::events::types::OriginTypeLegacy) -> u8 {
    use lib::events::types::OriginTypeLegacy::*;
    match o {
        TopLeft => 0,
        Centre => 1,
        CentreLeft => 2,
        TopRight => 3,
        BottomCentre => 4,
        TopCentre => 5,
        Custom => 6,
        CentreRight => 7,
        BottomLeft => 8,
        BottomRight => 9,
        _ => panic!("unknown origin"),
    }
}

fn origin(o: &lib::events::storyboard::sprites::Origin) -> MOrigin {
    use lib::events::storyboard::sprites::OriginType::*;
    match o.type_ {
        Either::Left(t) => {
            let i = match t {
                TopLeft => 0,
                Centre => 1,
                CentreLeft => 2,
                TopRight => 3,
                BottomCentre => 4,
                TopCentre => 5,
                Custom => 6,
                CentreRight => 7,
                BottomLeft => 8,
                BottomRight => 9,
                _ => panic!("unknown origin"),
            };
            if o.shorthand {
                MOrigin::Num(i as i32)
            } else {
                MOrigin::Name(i)
            }
        }
        Either::Right(n) => {
            assert!(o.shorthand && !(0..=9).contains(&n), "origin {n} has a name");
            MOrigin::Num(n)
        }
    }
}

pub fn event(e: &lib::events::Event) -> MEvent {
    use lib::events::storyboard::sprites as sb;
    use lib::events::Event as E;
    let cmds = |c: &[lib::events::storyboard::cmds::Command]| c.iter().map(cmd).collect::<Vec<_>>();
    let (k, c) = match e {
        E::Comment(c) => (MEventKind::Comment(c.clone()), vec![]),
        E::Background(b) => (
            MEventKind::Background { time: b.start_time, file: path(&b.file_name), pos: pos(&b.position) },
            cmds(&b.commands),
        ),
        E::Video(b) => (
            MEventKind::Video { long: false, time: b.start_time, file: path(&b.file_name), pos: pos(&b.position) },
            cmds(&b.commands),
        ),
        E::Break(b) => (MEventKind::Break { long: false, start: b.start_time, end: b.end_time }, vec![]),
        E::ColourTransformation(c) => {
            (MEventKind::Colour { time: c.start_time, rgb: [c.red, c.green, c.blue] }, vec![])
        }
        E::SpriteLegacy(s) => (
            MEventKind::SpriteLegacy {
                layer: legacy_layer(s.layer),
                origin: legacy_origin(s.origin),
                file: path(&s.file_name),
                pos: pos(&s.position),
            },
            cmds(&s.commands),
        ),
        E::AnimationLegacy(s) => (
            MEventKind::AnimationLegacy {
                layer: legacy_layer(s.layer),
                origin: legacy_origin(s.origin),
                file: path(&s.file_name),
                pos: pos(&s.position),
            },
            cmds(&s.commands),
        ),
        E::SampleLegacy(s) => (
            MEventKind::SampleLegacy {
                time: d_of(&s.time),
                layer: legacy_layer(s.layer),
                file: path(&s.file_name),
                volume: s.volume.map(|v| v.get()),
            },
            cmds(&s.commands),
        ),
        E::StoryboardObject(o) => {
            let layer = match o.layer {
                sb::Layer::Background => 0,
                sb::Layer::Fail => 1,
                sb::Layer::Pass => 2,
                sb::Layer::Foreground => 3,
                sb::Layer::Overlay => 4,
                _ => panic!("unknown layer"),
            };
            let (x, y) = (d_of(&o.position.x), d_of(&o.position.y));
            let origin = origin(&o.origin);
            let k = match &o.object_type {
                sb::ObjectType::Sprite(s) => MEventKind::Sprite { layer, origin, file: path(&s.filepath), x, y },
                sb::ObjectType::Animation(a) => MEventKind::Animation {
                    layer,
                    origin,
                    file: path(&a.filepath),
                    x,
                    y,
                    count: a.frame_count,
                    delay: dec_of(&a.frame_delay),
                    once: match a.loop_type {
                        sb::LoopType::LoopForever => false,
                        sb::LoopType::LoopOnce => true,
                        _ => panic!("unknown loop type"),
                    },
                },
                _ => panic!("unknown object"),
            };
            (k, cmds(&o.commands))
        }
        E::AudioSample(a) => (
            MEventKind::Audio {
                time: a.time,
                layer: match a.layer {
                    lib::events::audio_sample::Layer::Background => 0,
                    lib::events::audio_sample::Layer::Fail => 1,
                    lib::events::audio_sample::Layer::Pass => 2,
                    lib::events::audio_sample::Layer::Foreground => 3,
                    _ => panic!("unknown layer"),
                },
                file: path(&a.filepath),
                volume: a.volume.get(),
            },
            vec![],
        ),
        _ => panic!("unknown event"),
    };
    MEvent { k, cmds: c }
}

pub fn events(e: &lib::Events) -> Vec<MEvent> {
    e.0.iter().map(event).collect()
}

// ------------------------------------------------------------ key-value sections

trait Kv {
    fn kv(self) -> KV;
}
impl Kv for String {
    fn kv(self) -> KV {
        KV::S(self)
    }
}
impl Kv for std::path::PathBuf {
    fn kv(self) -> KV {
        KV::S(self.to_str().expect("file name from text").to_string())
    }
}
impl Kv for i32 {
    fn kv(self) -> KV {
        KV::I(self)
    }
}
impl Kv for bool {
    fn kv(self) -> KV {
        KV::B(self)
    }
}
impl Kv for lib::Decimal {
    fn kv(self) -> KV {
        KV::D(d_of(&self))
    }
}
impl Kv for Vec<i32> {
    fn kv(self) -> KV {
        KV::L(self)
    }
}
impl Kv for Vec<String> {
    fn kv(self) -> KV {
        KV::T(self)
    }
}

macro_rules! fields {
    ($s:expr, $($f:ident : $t:ty),* $(,)?) => {
        vec![$( $s.$f.as_ref().map(|x| { let x: $t = x.clone().into(); x.kv() }) ),*]
    };
}

pub fn mode_num(m: lib::general::Mode) -> u8 {
    match m {
        lib::general::Mode::Osu => 0,
        lib::general::Mode::Taiko => 1,
        lib::general::Mode::Catch => 2,
        lib::general::Mode::Mania => 3,
        _ => panic!("unknown mode"),
    }
}
pub fn countdown_num(c: lib::general::Countdown) -> u8 {
    match c {
        lib::general::Countdown::NoCountdown => 0,
        lib::general::Countdown::Normal => 1,
        lib::general::Countdown::Half => 2,
        lib::general::Countdown::Double => 3,
        _ => panic!("unknown countdown"),
    }
}
pub fn general_set_num(c: lib::general::SampleSet) -> u8 {
    match c {
        lib::general::SampleSet::Normal => 0,
        lib::general::SampleSet::Soft => 1,
        lib::general::SampleSet::Drum => 2,
        lib::general::SampleSet::None => 3,
        _ => panic!("unknown sample set"),
    }
}
pub fn overlay_num(c: lib::general::OverlayPosition) -> u8 {
    match c {
        lib::general::OverlayPosition::NoChange => 0,
        lib::general::OverlayPosition::Below => 1,
        lib::general::OverlayPosition::Above => 2,
        _ => panic!("unknown overlay position"),
    }
}

pub fn general(g: &lib::General) -> Vals {
    let mut v = fields!(g, audio_filename: std::path::PathBuf, audio_lead_in: i32, audio_hash: String, preview_time: i32);
    v.push(g.countdown.map(|c| KV::E(countdown_num(c))));
    v.push(g.sample_set.map(|c| KV::E(general_set_num(c))));
    v.extend(fields!(g, stack_leniency: lib::Decimal));
    v.push(g.mode.map(|c| KV::E(mode_num(c))));
    v.extend(fields!(
        g,
        letterbox_in_breaks: bool,
        story_fire_in_front: bool,
        use_skin_sprites: bool,
        always_show_playfield: bool,
    ));
    v.push(g.overlay_position.map(|c| KV::E(overlay_num(c))));
    v.extend(fields!(
        g,
        skin_preference: String,
        epilepsy_warning: bool,
        countdown_offset: i32,
        special_style: bool,
        widescreen_storyboard: bool,
        samples_match_playback_rate: bool,
        editor_bookmarks: Vec<i32>,
        editor_distance_spacing: lib::Decimal,
    ));
    v
}
pub fn editor(g: &lib::Editor) -> Vals {
    fields!(
        g,
        bookmarks: Vec<i32>,
        distance_spacing: lib::Decimal,
        beat_divisor: lib::Decimal,
        grid_size: i32,
        timeline_zoom: lib::Decimal,
        current_time: i32,
    )
}
pub fn metadata(g: &lib::Metadata) -> Vals {
    fields!(
        g,
        title: String,
        title_unicode: String,
        artist: String,
        artist_unicode: String,
        creator: String,
        version: String,
        source: String,
        tags: Vec<String>,
        beatmap_id: i32,
        beatmap_set_id: i32,
    )
}
pub fn difficulty(g: &lib::Difficulty) -> Vals {
    fields!(
        g,
        hp_drain_rate: lib::Decimal,
        circle_size: lib::Decimal,
        overall_difficulty: lib::Decimal,
        approach_rate: lib::Decimal,
        slider_multiplier: lib::Decimal,
        slider_tickrate: lib::Decimal,
    )
}

// ------------------------------------------------------------ files

pub fn osb(o: &lib::Osb) -> MOsb {
    MOsb {
        variables: o
            .variables
            .as_ref()
            .map(|v| v.iter().map(|v| (v.name.clone(), v.value.clone())).collect()),
        events: o.events.as_ref().map(events),
    }
}

pub fn file(f: &lib::OsuFile) -> MFile {
    MFile {
        version: f.version,
        kv: [
            f.general.as_ref().map(general),
            f.editor.as_ref().map(editor),
            f.metadata.as_ref().map(metadata),
            f.difficulty.as_ref().map(difficulty),
        ],
        events: f.events.as_ref().map(events),
        timing: f.timing_points.as_ref().map(|t| t.0.iter().map(timing).collect()),
        colours: f.colours.as_ref().map(|c| c.0.iter().map(colour).collect()),
        hits: f.hitobjects.as_ref().map(|h| h.0.iter().map(hit).collect()),
        osb: f.osb.as_ref().map(osb),
    }
}
