//! The model: what a file means, how it is written at a version, what remains of it
//! when it is read at a version.  Written from the file format, not from the parser.

use crate::num::D;

pub const VERSIONS: [u8; 12] = [3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14];

/// Versions 3 and 4 store times 24 ms early.
pub fn early(v: u8) -> i128 {
    if v <= 4 {
        24
    } else {
        0
    }
}
pub fn time_d(d: &D, v: u8) -> String {
    d.shift(-early(v)).text()
}
pub fn time_i(t: i32, v: u8) -> String {
    (t as i128 - early(v)).to_string()
}

// ------------------------------------------------------------ hit objects

#[derive(Clone, PartialEq, Debug, Default)]
pub struct MSample {
    pub normal: u64,
    pub addition: u64,
    pub index: u64,
    /// 0: the timing point's volume
    pub volume: u8,
    pub file: String,
}

impl MSample {
    pub fn fields(&self) -> [String; 5] {
        [
            self.normal.to_string(),
            self.addition.to_string(),
            self.index.to_string(),
            self.volume.to_string(),
            self.file.clone(),
        ]
    }
    pub fn print(&self, v: u8) -> Option<String> {
        match v {
            3..=9 => None,
            10 | 11 => Some(self.fields()[..3].join(":")),
            _ => Some(self.fields().join(":")),
        }
    }
    pub fn at(&self, v: u8) -> Option<MSample> {
        match v {
            3..=9 => None,
            10 | 11 => Some(MSample {
                volume: 0,
                file: String::new(),
                ..self.clone()
            }),
            _ => Some(self.clone()),
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct MSlider {
    pub curve: char,
    pub points: Vec<(D, D)>,
    pub slides: i32,
    pub length: D,
    pub edge_sounds: Vec<u8>,
    pub edge_sets: Vec<(u64, u64)>,
    /// How many of the two edge fields stand in the line (not a value of the slider).
    pub written: u8,
}

#[derive(Clone, PartialEq, Debug)]
pub enum MKind {
    Circle,
    Slider(MSlider),
    Spinner(D),
    Hold(D),
}

#[derive(Clone, PartialEq, Debug)]
pub struct MHit {
    pub x: D,
    pub y: D,
    pub time: D,
    pub kind: MKind,
    pub new_combo: bool,
    pub skip: u8,
    pub sound: u8,
    pub sample: Option<MSample>,
}

impl MHit {
    pub fn type_number(&self) -> u32 {
        (match self.kind {
            MKind::Circle => 1,
            MKind::Slider(_) => 2,
            MKind::Spinner(_) => 8,
            MKind::Hold(_) => 128,
        }) | (self.new_combo as u32) << 2
            | (self.skip as u32) << 4
    }
    /// The line with a given type number and hit sound field.
    pub fn line(&self, v: u8, type_text: &str, sound_text: &str) -> String {
        let mut s = format!(
            "{},{},{},{type_text},{sound_text}",
            self.x.text(),
            self.y.text(),
            time_d(&self.time, v),
        );
        let sample = self.sample.as_ref().and_then(|s| s.print(v));
        match &self.kind {
            MKind::Circle => {
                if let Some(x) = sample {
                    s += ",";
                    s += &x;
                }
                if v == 3 {
                    s += ",";
                }
            }
            MKind::Slider(sl) => {
                s += ",";
                s.push(sl.curve);
                let mut pts: Vec<String> = Vec::new();
                if v == 3 {
                    pts.push(format!("{}:{}", self.x.text(), self.y.text()));
                }
                pts.extend(sl.points.iter().map(|(x, y)| format!("{}:{}", x.text(), y.text())));
                for p in pts {
                    s += "|";
                    s += &p;
                }
                s += &format!(",{},{}", sl.slides, sl.length.text());
                let sounds = sl.edge_sounds.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("|");
                let sets = sl
                    .edge_sets
                    .iter()
                    .map(|(a, b)| format!("{a}:{b}"))
                    .collect::<Vec<_>>()
                    .join("|");
                let written = sl.edge_fields(self.sample.is_some());
                if written >= 1 {
                    s += ",";
                    s += &sounds;
                }
                if written >= 2 {
                    s += ",";
                    s += &sets;
                }
                if let Some(x) = sample {
                    s += ",";
                    s += &x;
                }
            }
            MKind::Spinner(e) => {
                s += &format!(",{}", time_d(e, v));
                if let Some(x) = sample {
                    s += ",";
                    s += &x;
                }
            }
            MKind::Hold(e) => {
                s += &format!(",{}:{}", time_d(e, v), sample.unwrap_or_default());
            }
        }
        s
    }
    pub fn print(&self, v: u8) -> String {
        self.line(v, &self.type_number().to_string(), &self.sound.to_string())
    }
    /// What is read from the line printed at `v`.
    pub fn at(&self, v: u8) -> MHit {
        let mut m = self.clone();
        if let MKind::Slider(s) = &mut m.kind {
            s.written = s.edge_fields(self.sample.is_some());
        }
        // a line with a separator but nothing after it spells a sample with every field left out
        let separator = matches!(self.kind, MKind::Hold(_)) || (v == 3 && self.kind == MKind::Circle);
        m.sample = match self.sample.as_ref().and_then(|s| s.at(v)) {
            None if separator => Some(MSample::default()),
            s => s,
        };
        m
    }
    /// For comparisons: what does not belong to the value is removed.
    pub fn value(&self) -> MHit {
        let mut m = self.clone();
        if let MKind::Slider(s) = &mut m.kind {
            s.written = 0;
        }
        m
    }
}

impl MSlider {
    pub fn edge_fields(&self, sample: bool) -> u8 {
        if sample || !self.edge_sets.is_empty() {
            2
        } else if !self.edge_sounds.is_empty() {
            self.written.max(1)
        } else {
            self.written
        }
    }
}

// ------------------------------------------------------------ timing points

#[derive(Clone, PartialEq, Debug)]
pub struct MTiming {
    pub time: D,
    pub beat: D,
    pub meter: i32,
    pub set: i32,
    pub index: u32,
    pub volume: i32,
    pub uninherited: Option<bool>,
    pub effects: Option<u32>,
}

impl MTiming {
    pub fn defaults(time: D, beat: D) -> Self {
        MTiming {
            time,
            beat,
            meter: 4,
            set: 1,
            index: 1,
            volume: 100,
            uninherited: None,
            effects: None,
        }
    }
    /// Number of fields of the line printed at `v`.
    pub fn field_count(&self, v: u8) -> usize {
        match v {
            3 => 2,
            4 => 5,
            _ => match (self.uninherited, self.effects) {
                (None, None) => 6,
                (_, Some(_)) => 8,
                (Some(_), None) if v == 5 => 7,
                (Some(_), None) => 8,
            },
        }
    }
    pub fn fields(&self, v: u8) -> [String; 8] {
        [
            time_d(&self.time, v),
            self.beat.text(),
            self.meter.to_string(),
            self.set.to_string(),
            self.index.to_string(),
            self.volume.to_string(),
            (self.uninherited.unwrap_or(true) as u8).to_string(),
            self.effects.unwrap_or(0).to_string(),
        ]
    }
    pub fn print(&self, v: u8) -> String {
        self.fields(v)[..self.field_count(v)].join(",")
    }
    /// What is read from a line with the first `n` fields.
    pub fn first(&self, n: usize) -> MTiming {
        let d = MTiming::defaults(self.time.clone(), self.beat.clone());
        MTiming {
            meter: if n > 2 { self.meter } else { d.meter },
            set: if n > 3 { self.set } else { d.set },
            index: if n > 4 { self.index } else { d.index },
            volume: if n > 5 { self.volume } else { d.volume },
            uninherited: if n > 6 {
                Some(self.uninherited.unwrap_or(true))
            } else {
                None
            },
            effects: if n > 7 {
                Some(self.effects.unwrap_or(0))
            } else {
                None
            },
            ..d
        }
    }
    pub fn at(&self, v: u8) -> MTiming {
        self.first(self.field_count(v))
    }
    /// Only what the accessors of a timing point show.
    pub fn value(&self) -> MTiming {
        MTiming {
            uninherited: Some(self.uninherited.unwrap_or(true)),
            ..self.clone()
        }
    }
}

// ------------------------------------------------------------ colours

#[derive(Clone, PartialEq, Debug)]
pub enum MColour {
    Combo(i32, [u8; 3]),
    Track([u8; 3]),
    Border([u8; 3]),
}

impl MColour {
    pub fn name(&self) -> String {
        match self {
            MColour::Combo(n, _) => format!("Combo{n}"),
            MColour::Track(_) => "SliderTrackOverride".into(),
            MColour::Border(_) => "SliderBorder".into(),
        }
    }
    pub fn rgb(&self) -> [u8; 3] {
        match self {
            MColour::Combo(_, c) | MColour::Track(c) | MColour::Border(c) => *c,
        }
    }
    pub fn print(&self) -> String {
        let [r, g, b] = self.rgb();
        format!("{} : {r},{g},{b}", self.name())
    }
}

// ------------------------------------------------------------ events

#[derive(Clone, PartialEq, Debug)]
pub enum MTrig {
    Passing,
    Failing,
    Hit {
        set: Option<u8>,
        add_set: Option<u8>,
        addition: Option<u8>,
        custom: Option<u64>,
    },
}

pub const TRIG_SETS: [&str; 4] = ["All", "Normal", "Soft", "Drum"];
pub const TRIG_ADDS: [&str; 3] = ["Whistle", "Finish", "Clap"];

impl MTrig {
    pub fn text(&self) -> String {
        match self {
            MTrig::Passing => "Passing".into(),
            MTrig::Failing => "Failing".into(),
            MTrig::Hit {
                set,
                add_set,
                addition,
                custom,
            } => {
                let mut s = String::from("HitSound");
                if let Some(x) = set {
                    s += TRIG_SETS[*x as usize];
                }
                if let Some(x) = add_set {
                    s += TRIG_SETS[*x as usize];
                }
                if let Some(x) = addition {
                    s += TRIG_ADDS[*x as usize];
                }
                if let Some(x) = custom {
                    s += &x.to_string();
                }
                s
            }
        }
    }
    pub fn all(custom: &[Option<u64>]) -> Vec<MTrig> {
        let mut v = vec![MTrig::Passing, MTrig::Failing];
        let sets: Vec<Option<u8>> = std::iter::once(None).chain((0..4).map(Some)).collect();
        let adds: Vec<Option<u8>> = std::iter::once(None).chain((0..3).map(Some)).collect();
        for set in &sets {
            for add_set in &sets {
                if set.is_none() && add_set.is_some() {
                    continue;
                }
                for addition in &adds {
                    for c in custom {
                        v.push(MTrig::Hit {
                            set: *set,
                            add_set: *add_set,
                            addition: *addition,
                            custom: *c,
                        });
                    }
                }
            }
        }
        v
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum MProp {
    /// F, MX, MY, S, R: any number of values >= 1
    One(&'static str, Vec<D>),
    /// M, V: at least two values
    Two(&'static str, Vec<D>),
    Colour(Vec<u8>),
    Param(Vec<char>),
    Loop(u32, Vec<MCmd>),
    Trigger(MTrig, Option<i32>, Vec<MCmd>),
}

#[derive(Clone, PartialEq, Debug)]
pub struct MCmd {
    pub easing: i32,
    pub start: Option<i32>,
    pub end: Option<i32>,
    pub p: MProp,
}

pub fn opt(t: &Option<i32>) -> String {
    t.map_or(String::new(), |t| t.to_string())
}

impl MCmd {
    pub fn line(&self) -> String {
        let head = |n: &str| format!("{n},{},{},{}", self.easing, opt(&self.start), opt(&self.end));
        match &self.p {
            MProp::One(n, vals) | MProp::Two(n, vals) => {
                let mut s = head(n);
                for x in vals {
                    s += ",";
                    s += &x.text();
                }
                s
            }
            MProp::Colour(vals) => {
                let mut s = head("C");
                for x in vals {
                    s += &format!(",{x}");
                }
                s
            }
            MProp::Param(vals) => {
                let mut s = head("P");
                for x in vals {
                    s.push(',');
                    s.push(*x);
                }
                s
            }
            MProp::Loop(n, _) => format!("L,{},{n}", opt(&self.start)),
            MProp::Trigger(t, group, _) => {
                let mut f = vec![t.text(), opt(&self.start), opt(&self.end), opt(group)];
                while f.len() > 1 && f.last().is_some_and(|x| x.is_empty()) {
                    f.pop();
                }
                format!("T,{}", f.join(","))
            }
        }
    }
    pub fn sub(&self) -> &[MCmd] {
        match &self.p {
            MProp::Loop(_, c) | MProp::Trigger(_, _, c) => c,
            _ => &[],
        }
    }
    pub fn sub_mut(&mut self) -> Option<&mut Vec<MCmd>> {
        match &mut self.p {
            MProp::Loop(_, c) | MProp::Trigger(_, _, c) => Some(c),
            _ => None,
        }
    }
    pub fn lines(&self, depth: usize, indent: char, out: &mut Vec<String>) {
        let mut s: String = std::iter::repeat(indent).take(depth).collect();
        s += &self.line();
        out.push(s);
        for c in self.sub() {
            c.lines(depth + 1, indent, out);
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum MOrigin {
    Name(u8),
    Num(i32),
}
pub const ORIGINS: [&str; 10] = [
    "TopLeft",
    "Centre",
    "CentreLeft",
    "TopRight",
    "BottomCentre",
    "TopCentre",
    "Custom",
    "CentreRight",
    "BottomLeft",
    "BottomRight",
];
pub const LAYERS: [&str; 5] = ["Background", "Fail", "Pass", "Foreground", "Overlay"];

impl MOrigin {
    pub fn text(&self) -> String {
        match self {
            MOrigin::Name(i) => ORIGINS[*i as usize].into(),
            MOrigin::Num(n) => n.to_string(),
        }
    }
}

pub type Pos = Option<(D, D)>;

#[derive(Clone, PartialEq, Debug)]
pub enum MEventKind {
    Comment(String),
    Background { time: i32, file: String, pos: Pos },
    Video { long: bool, time: i32, file: String, pos: Pos },
    Break { long: bool, start: i32, end: i32 },
    Colour { time: i32, rgb: [u8; 3] },
    SpriteLegacy { layer: u8, origin: u8, file: String, pos: Pos },
    AnimationLegacy { layer: u8, origin: u8, file: String, pos: Pos },
    SampleLegacy { time: D, layer: u8, file: String, volume: Option<u8> },
    Sprite { layer: u8, origin: MOrigin, file: String, x: D, y: D },
    Animation { layer: u8, origin: MOrigin, file: String, x: D, y: D, count: u32, delay: D, once: bool },
    Audio { time: i32, layer: u8, file: String, volume: u8 },
}

#[derive(Clone, PartialEq, Debug)]
pub struct MEvent {
    pub k: MEventKind,
    pub cmds: Vec<MCmd>,
}

fn pos_text(p: &Pos) -> String {
    match p {
        Some((x, y)) => format!(",{},{}", x.text(), y.text()),
        None => String::new(),
    }
}

impl MEvent {
    pub fn new(k: MEventKind) -> Self {
        MEvent { k, cmds: vec![] }
    }
    pub fn takes_commands(&self) -> bool {
        use MEventKind::*;
        !matches!(self.k, Comment(_) | Break { .. } | Colour { .. } | Audio { .. })
    }
    pub fn head(&self, v: u8) -> String {
        use MEventKind::*;
        match &self.k {
            Comment(c) => format!("//{c}"),
            Background { time, file, pos } => format!("0,{time},{file}{}", pos_text(pos)),
            Video { long, time, file, pos } => format!(
                "{},{},{file}{}",
                if *long { "Video" } else { "1" },
                time_i(*time, v),
                pos_text(pos)
            ),
            Break { long, start, end } => format!(
                "{},{},{}",
                if *long { "Break" } else { "2" },
                time_i(*start, v),
                time_i(*end, v)
            ),
            Colour { time, rgb } => format!("3,{},{},{},{}", time_i(*time, v), rgb[0], rgb[1], rgb[2]),
            SpriteLegacy { layer, origin, file, pos } => {
                format!("4,{layer},{origin},{file}{}", pos_text(pos))
            }
            AnimationLegacy { layer, origin, file, pos } => {
                format!("5,{layer},{origin},{file}{}", pos_text(pos))
            }
            SampleLegacy { time, layer, file, volume } => format!(
                "6,{},{layer},{file}{}",
                time.text(),
                volume.map_or(String::new(), |v| format!(",{v}"))
            ),
            Sprite { layer, origin, file, x, y } => format!(
                "Sprite,{},{},{file},{},{}",
                LAYERS[*layer as usize],
                origin.text(),
                x.text(),
                y.text()
            ),
            Animation { layer, origin, file, x, y, count, delay, once } => format!(
                "Animation,{},{},{file},{},{},{count},{},{}",
                LAYERS[*layer as usize],
                origin.text(),
                x.text(),
                y.text(),
                delay.text(),
                if *once { "LoopOnce" } else { "LoopForever" }
            ),
            Audio { time, layer, file, volume } => format!("Sample,{time},{layer},{file},{volume}"),
        }
    }
    pub fn lines_with(&self, v: u8, indent: char) -> Vec<String> {
        let mut out = vec![self.head(v)];
        for c in &self.cmds {
            c.lines(1, indent, &mut out);
        }
        out
    }
    pub fn lines(&self, v: u8) -> Vec<String> {
        self.lines_with(v, ' ')
    }
    pub fn kept(&self, v: u8) -> bool {
        !(v >= 14 && matches!(self.k, MEventKind::Colour { .. }))
    }
    /// Without what the accessors do not show (the way the header is spelled).
    pub fn value(&self) -> MEvent {
        let mut m = self.clone();
        match &mut m.k {
            MEventKind::Video { long, .. } | MEventKind::Break { long, .. } => *long = false,
            _ => {}
        }
        m
    }
}

pub fn print_events(ev: &[MEvent], v: u8) -> String {
    ev.iter()
        .filter(|e| e.kept(v))
        .flat_map(|e| e.lines(v))
        .collect::<Vec<_>>()
        .join("\n")
}

// ------------------------------------------------------------ key-value sections

#[derive(Clone, PartialEq, Debug)]
pub enum KV {
    S(String),
    I(i32),
    D(D),
    B(bool),
    L(Vec<i32>),
    T(Vec<String>),
    /// index into the names of the field
    E(u8),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FK {
    Text,
    Int,
    Dec,
    Bool,
    Ints,
    Tags,
    /// written as its number
    Num(&'static [&'static str]),
    /// written as its name
    Name(&'static [&'static str]),
}

pub struct Field {
    pub key: &'static str,
    pub kind: FK,
    /// versions it is printed at
    pub print: fn(u8) -> bool,
    /// versions a value is read at
    pub read: fn(u8, &KV) -> bool,
    /// spacing after the colon
    pub space: fn(u8) -> &'static str,
}

fn always(_: u8) -> bool {
    true
}
fn read_always(_: u8, _: &KV) -> bool {
    true
}
fn one(_: u8) -> &'static str {
    " "
}
fn none(_: u8) -> &'static str {
    ""
}

const fn f(key: &'static str, kind: FK, space: fn(u8) -> &'static str) -> Field {
    Field {
        key,
        kind,
        print: always,
        read: read_always,
        space,
    }
}

const GENERAL: &[Field] = &[
    f("AudioFilename", FK::Text, one),
    f("AudioLeadIn", FK::Int, one),
    Field { print: |v| v <= 13, ..f("AudioHash", FK::Text, one) },
    f("PreviewTime", FK::Int, one),
    Field {
        print: |v| v >= 5,
        read: |v, _| v >= 5,
        ..f("Countdown", FK::Num(&["NoCountdown", "Normal", "Half", "Double"]), one)
    },
    Field {
        print: |v| v >= 4,
        read: |v, _| v >= 4,
        ..f("SampleSet", FK::Name(&["Normal", "Soft", "Drum", "None"]), one)
    },
    f("StackLeniency", FK::Dec, one),
    Field {
        read: |v, k| {
            v >= match k {
                KV::E(0) => 3,
                KV::E(1) => 5,
                KV::E(2) => 7,
                _ => 10,
            }
        },
        ..f("Mode", FK::Num(&["Osu", "Taiko", "Catch", "Mania"]), one)
    },
    f("LetterboxInBreaks", FK::Bool, one),
    f("StoryFireInFront", FK::Bool, one),
    f("UseSkinSprites", FK::Bool, one),
    f("AlwaysShowPlayfield", FK::Bool, one),
    Field {
        print: |v| v >= 14,
        read: |v, _| v >= 14,
        ..f("OverlayPosition", FK::Name(&["NoChange", "Below", "Above"]), one)
    },
    f("SkinPreference", FK::Text, one),
    f("EpilepsyWarning", FK::Bool, one),
    f("CountdownOffset", FK::Int, one),
    f("SpecialStyle", FK::Bool, one),
    f("WidescreenStoryboard", FK::Bool, one),
    f("SamplesMatchPlaybackRate", FK::Bool, one),
    Field { print: |v| v <= 5, ..f("EditorBookmarks", FK::Ints, one) },
    Field { print: |v| v <= 5, ..f("EditorDistanceSpacing", FK::Dec, one) },
];
const EDITOR: &[Field] = &[
    f("Bookmarks", FK::Ints, one),
    f("DistanceSpacing", FK::Dec, one),
    f("BeatDivisor", FK::Dec, one),
    f("GridSize", FK::Int, one),
    f("TimelineZoom", FK::Dec, one),
    Field { print: |v| v == 10, ..f("CurrentTime", FK::Int, one) },
];
const METADATA: &[Field] = &[
    f("Title", FK::Text, none),
    f("TitleUnicode", FK::Text, none),
    f("Artist", FK::Text, none),
    f("ArtistUnicode", FK::Text, none),
    f("Creator", FK::Text, none),
    f("Version", FK::Text, none),
    f("Source", FK::Text, none),
    f("Tags", FK::Tags, none),
    f("BeatmapID", FK::Int, none),
    f("BeatmapSetID", FK::Int, none),
];
const DIFFICULTY: &[Field] = &[
    f("HPDrainRate", FK::Dec, none),
    f("CircleSize", FK::Dec, none),
    f("OverallDifficulty", FK::Dec, none),
    f("ApproachRate", FK::Dec, none),
    f("SliderMultiplier", FK::Dec, none),
    f("SliderTickRate", FK::Dec, none),
];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Sec {
    General,
    Editor,
    Metadata,
    Difficulty,
}
pub const SECS: [Sec; 4] = [Sec::General, Sec::Editor, Sec::Metadata, Sec::Difficulty];

impl Sec {
    pub fn fields(self) -> &'static [Field] {
        match self {
            Sec::General => GENERAL,
            Sec::Editor => EDITOR,
            Sec::Metadata => METADATA,
            Sec::Difficulty => DIFFICULTY,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Sec::General => "General",
            Sec::Editor => "Editor",
            Sec::Metadata => "Metadata",
            Sec::Difficulty => "Difficulty",
        }
    }
}

impl Field {
    pub fn text(&self, v: &KV) -> String {
        match (v, self.kind) {
            (KV::S(s), _) => s.clone(),
            (KV::I(i), _) => i.to_string(),
            (KV::D(d), _) => d.text(),
            (KV::B(b), _) => (*b as u8).to_string(),
            (KV::L(l), _) => l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
            (KV::T(l), _) => l.join(" "),
            (KV::E(i), FK::Num(_)) => i.to_string(),
            (KV::E(i), FK::Name(n)) => n[*i as usize].to_string(),
            (KV::E(i), _) => unreachable!("{i}"),
        }
    }
    pub fn at(&self, v: u8, val: &KV) -> Option<KV> {
        (self.read)(v, val).then(|| val.clone())
    }
    pub fn print_line(&self, v: u8, val: &KV) -> Option<String> {
        (self.print)(v).then(|| format!("{}:{}{}", self.key, (self.space)(v), self.text(val)))
    }
}

/// Values of a section in the order of its fields.
pub type Vals = Vec<Option<KV>>;

pub fn print_kv(sec: Sec, vals: &Vals, v: u8) -> String {
    sec.fields()
        .iter()
        .zip(vals)
        .filter_map(|(f, x)| x.as_ref().and_then(|x| f.print_line(v, x)))
        .collect::<Vec<_>>()
        .join("\n")
}
/// What remains of the values when they are printed and read at `v`.
pub fn kv_at(sec: Sec, vals: &Vals, v: u8) -> Vals {
    sec.fields()
        .iter()
        .zip(vals)
        .map(|(f, x)| {
            x.as_ref()
                .filter(|_| (f.print)(v))
                .and_then(|x| f.at(v, x))
        })
        .collect()
}
/// What is read at `v` from lines with these values.
pub fn kv_read(sec: Sec, vals: &Vals, v: u8) -> Vals {
    sec.fields()
        .iter()
        .zip(vals)
        .map(|(f, x)| x.as_ref().and_then(|x| f.at(v, x)))
        .collect()
}
pub fn no_vals(sec: Sec) -> Vals {
    vec![None; sec.fields().len()]
}

// ------------------------------------------------------------ files

#[derive(Clone, PartialEq, Debug, Default)]
pub struct MOsb {
    pub variables: Option<Vec<(String, String)>>,
    pub events: Option<Vec<MEvent>>,
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct MFile {
    pub version: u8,
    pub kv: [Option<Vals>; 4],
    pub events: Option<Vec<MEvent>>,
    pub timing: Option<Vec<MTiming>>,
    pub colours: Option<Vec<MColour>>,
    pub hits: Option<Vec<MHit>>,
    pub osb: Option<MOsb>,
}

pub const SECTION_NAMES: [&str; 8] = [
    "General",
    "Editor",
    "Metadata",
    "Difficulty",
    "Events",
    "TimingPoints",
    "Colours",
    "HitObjects",
];

pub fn join<T>(v: &[T], f: impl Fn(&T) -> String) -> String {
    v.iter().map(f).collect::<Vec<_>>().join("\n")
}

impl MFile {
    pub fn new(version: u8) -> Self {
        MFile {
            version,
            ..Default::default()
        }
    }
    /// Section bodies in the library's order.
    pub fn sections(&self, v: u8) -> Vec<(&'static str, String)> {
        let mut out = Vec::new();
        for (i, s) in SECS.iter().enumerate() {
            if let Some(vals) = &self.kv[i] {
                out.push((s.name(), print_kv(*s, vals, v)));
            }
        }
        if let Some(e) = &self.events {
            out.push(("Events", print_events(e, v)));
        }
        if let Some(t) = &self.timing {
            out.push(("TimingPoints", join(t, |t| t.print(v))));
        }
        if let (Some(c), true) = (&self.colours, v >= 5) {
            out.push(("Colours", join(c, |c| c.print())));
        }
        if let Some(h) = &self.hits {
            out.push(("HitObjects", join(h, |h| h.print(v))));
        }
        out
    }
    pub fn print(&self, v: u8) -> String {
        format!(
            "osu file format v{v}\n\n{}",
            self.sections(v)
                .iter()
                .map(|(n, b)| format!("[{n}]\n{b}"))
                .collect::<Vec<_>>()
                .join("\n\n")
        )
    }
    /// What is read from the text printed at `v`.
    pub fn at(&self, v: u8) -> MFile {
        let mut kv: [Option<Vals>; 4] = Default::default();
        for (i, s) in SECS.iter().enumerate() {
            kv[i] = self.kv[i].as_ref().map(|x| kv_at(*s, x, v));
        }
        MFile {
            version: v,
            kv,
            events: self
                .events
                .as_ref()
                .map(|e| e.iter().filter(|e| e.kept(v)).cloned().collect()),
            timing: self.timing.as_ref().map(|t| t.iter().map(|t| t.at(v)).collect()),
            colours: if v >= 5 { self.colours.clone() } else { None },
            hits: self.hits.as_ref().map(|h| h.iter().map(|h| h.at(v)).collect()),
            osb: None,
        }
    }
    pub fn value(&self) -> MFile {
        let mut m = self.clone();
        let ev = |e: &mut Vec<MEvent>| e.iter_mut().for_each(|e| *e = e.value());
        m.events.as_mut().map(ev);
        if let Some(o) = &mut m.osb {
            o.events.as_mut().map(ev);
        }
        if let Some(t) = &mut m.timing {
            t.iter_mut().for_each(|t| *t = t.value());
        }
        if let Some(h) = &mut m.hits {
            h.iter_mut().for_each(|h| *h = h.value());
        }
        m
    }
}

impl MOsb {
    pub fn print(&self) -> String {
        let mut out = Vec::new();
        if let Some(vars) = &self.variables {
            out.push(format!("[Variables]\n{}", join(vars, |(n, v)| format!("${n}={v}"))));
        }
        if let Some(e) = &self.events {
            out.push(format!("[Events]\n{}", print_events(e, 14)));
        }
        out.join("\n\n")
    }
}
