//! The small types of the interface that are read from text on their own.

use osu_file_parser as lib;
use osu_file_parser::{VersionedFromStr, VersionedToString};

/// What a value prints at versions 3 to 14.
#[derive(Debug, PartialEq, Clone)]
pub struct Printed(pub Vec<Option<String>>);

impl Printed {
    pub fn at(&self, v: u8) -> Option<String> {
        self.0[v as usize - 3].clone()
    }
}

pub struct Small {
    pub name: &'static str,
    pub go: fn(&str, u8) -> Option<Printed>,
    pub tokens: &'static [&'static str],
}

fn go<T: VersionedFromStr + VersionedToString>(s: &str, v: u8) -> Option<Printed> {
    match T::from_str(s, v) {
        Ok(Some(x)) => Some(Printed((3..=14).map(|w| x.to_string(w)).collect())),
        _ => None,
    }
}
fn read_only<T: VersionedFromStr>(s: &str, v: u8) -> Option<Printed> {
    let _ = T::from_str(s, v);
    None
}

macro_rules! small {
    ($($t:ty : [$($x:expr),*]),* $(,)?) => {
        &[$(Small { name: stringify!($t), go: go::<$t>, tokens: &[$($x),*] }),*]
    };
}

pub const SMALL: &[Small] = {
    use lib::events::storyboard as sb;
    use lib::hitobjects as ho;
    use lib::timingpoints as tp;
    use lib::{colours, events, general, osb};
    type Tp = tp::TimingPoint;
    type Cmd = sb::cmds::Command;
    type Trigger = sb::types::TriggerType;
    type SbSet = sb::types::SampleSet;
    type SbAddition = sb::types::Addition;
    type SbParam = sb::types::Parameter;
    type SbLayer = sb::sprites::Layer;
    type SbObject = sb::sprites::Object;
    type SbOrigin = sb::sprites::Origin;
    type SbLoop = sb::sprites::LoopType;
    const A: &[Small] = small!(
        osb::Variable: ["$a=b", "$a", "=1"],
        general::Countdown: ["2", "3", "4"],
        general::SampleSet: ["Normal", "Soft", "Drum", "None"],
        general::Mode: ["2", "3", "4"],
        general::OverlayPosition: ["NoChange", "Below", "Above"],
        general::AudioFilename: ["a.mp3"],
        general::AudioLeadIn: ["5"],
        general::StackLeniency: ["0.7"],
        general::EditorBookmarks: ["1,2", ","],
        general::LetterboxInBreaks: ["1"],
        events::types::OriginTypeLegacy: ["9", "10"],
        events::types::LayerLegacy: ["5", "6"],
        events::Background: ["0,0,bg", "0,1,\"a b\",1,2", ",5"],
        events::Video: ["Video,0,bg", "1,1,\"a b\",1,2", ",5"],
        events::Break: ["Break,0,1", "2,1,2", ",5"],
        events::ColourTransformation: ["3,0,1,2,3", ",5"],
        events::SpriteLegacy: ["4,0,0,a", "4,1,2,a,3,4", ",5"],
        events::AnimationLegacy: ["5,0,0,a", "5,1,2,a,3,4", ",5"],
        events::SampleLegacy: ["6,0,0,a", "6,1,2,a,3", ",5"],
        events::AudioSample: ["Sample,0,0,a", "Sample,0,0,a,5", ",5"],
        events::audio_sample::Volume: ["100", "101"],
        Cmd: ["F,0,1,2,3", "C,0,1,2,3,4,5", "M,0,1,2,3,4", "L,1,2", "T,Passing,1,2", "P,0,1,2,H", ",", ",5"],
        Trigger: ["HitSound", "All", "Soft", "Whistle", "Passing", "Failing", "10"],
        SbSet: ["All", "Normal", "Soft", "Drum"],
        SbAddition: ["Whistle", "Finish", "Clap"],
        SbParam: ["H", "V", "A"],
        SbLayer: ["Background", "Fail", "Pass", "Foreground", "Overlay"],
        SbObject: ["Sprite,Pass,Centre,a,0,0", "Animation,Fail,3,a,0,0,1,2", ",LoopOnce", ",", "Sprite,", "Animation,"],
        SbOrigin: ["Centre", "TopLeft", "9", "10"],
        SbLoop: ["LoopForever", "LoopOnce"],
        colours::Rgb: ["1,2,3", ",", " "],
        colours::Colour: ["Combo1 : 1,2,3", "SliderBorder", " : ", "1,2,3"],
        ho::EdgeSet: ["0:0", "3:4", ":"],
        ho::CurvePoint: ["0:0", "1.5:-2", ":"],
        ho::SampleSet: ["3", "4"],
        ho::HitSound: ["15", "16"],
        ho::CurveType: ["B", "C", "L", "P"],
        ho::SampleIndex: ["3", "4"],
        ho::HitSample: ["0:0:0:0:", "1:2", "3:4:5", ":a", ":"],
        ho::HitObject: ["1,2,3,1,0", "1,2,3,2,0,B|1:2,1,5", "1,2,3,8,0,5", "1,2,3,128,0,5:", ",0:0:0:0:", ","],
        tp::SampleSet: ["3", "4"],
        tp::Effects: ["9"],
        tp::SampleIndex: ["3"],
        tp::Volume: ["100"],
        Tp: ["1,2", "1,2,4,1,1", ",5", ",5,1,0", ","],
    );
    A
};

/// Types that are only read.
pub const READ_ONLY: &[Small] = &[Small { name: "hitobjects::Volume", go: read_only::<lib::hitobjects::Volume>, tokens: &["0", "1", "100", "101"] }];
