//! One entry for every text the library reads: parse, print and view by part.

use crate::engine::Fail;
use crate::model::*;
use crate::view;
use osu_file_parser as lib;
use osu_file_parser::{VersionedFromStr, VersionedToString};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Part {
    General,
    Editor,
    Metadata,
    Difficulty,
    Events,
    Timing,
    Colours,
    Hits,
    Osu,
    Osb,
}
pub use Part::*;

pub const SECTIONS: [Part; 8] = [General, Editor, Metadata, Difficulty, Events, Timing, Colours, Hits];
pub const PARTS: [Part; 10] = [General, Editor, Metadata, Difficulty, Events, Timing, Colours, Hits, Osu, Osb];

#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    General(lib::General),
    Editor(lib::Editor),
    Metadata(lib::Metadata),
    Difficulty(lib::Difficulty),
    Events(lib::Events),
    Timing(lib::TimingPoints),
    Colours(lib::Colours),
    Hits(lib::HitObjects),
    Osu(Box<lib::OsuFile>),
    Osb(lib::Osb),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Bad {
    pub line: usize,
    pub msg: String,
    pub display: String,
}

fn bad<E: std::fmt::Display>(e: lib::Error<E>) -> Bad {
    Bad {
        line: e.line_index(),
        msg: e.error().to_string(),
        display: e.to_string(),
    }
}

impl Part {
    pub fn name(self) -> &'static str {
        match self {
            General => "General",
            Editor => "Editor",
            Metadata => "Metadata",
            Difficulty => "Difficulty",
            Events => "Events",
            Timing => "TimingPoints",
            Colours => "Colours",
            Hits => "HitObjects",
            Osu => ".osu file",
            Osb => ".osb file",
        }
    }
    pub fn kv(self) -> Option<Sec> {
        match self {
            General => Some(Sec::General),
            Editor => Some(Sec::Editor),
            Metadata => Some(Sec::Metadata),
            Difficulty => Some(Sec::Difficulty),
            _ => None,
        }
    }
    /// Reads text. `.osu` files carry their own version.
    pub fn parse(self, s: &str, v: u8) -> Result<Option<Val>, Bad> {
        Ok(match self {
            General => lib::General::from_str(s, v).map_err(bad)?.map(Val::General),
            Editor => lib::Editor::from_str(s, v).map_err(bad)?.map(Val::Editor),
            Metadata => lib::Metadata::from_str(s, v).map_err(bad)?.map(Val::Metadata),
            Difficulty => lib::Difficulty::from_str(s, v).map_err(bad)?.map(Val::Difficulty),
            Events => <lib::Events as VersionedFromStr>::from_str(s, v).map_err(bad)?.map(Val::Events),
            Timing => lib::TimingPoints::from_str(s, v).map_err(bad)?.map(Val::Timing),
            Colours => lib::Colours::from_str(s, v).map_err(bad)?.map(Val::Colours),
            Hits => lib::HitObjects::from_str(s, v).map_err(bad)?.map(Val::Hits),
            Osu => Some(Val::Osu(Box::new(s.parse::<lib::OsuFile>().map_err(bad)?))),
            Osb => lib::Osb::from_str(s, v).map_err(bad)?.map(Val::Osb),
        })
    }
}

impl Val {
    /// Prints; an `.osu` file at its own version.
    pub fn print(&self, v: u8) -> Option<String> {
        match self {
            Val::General(x) => x.to_string(v),
            Val::Editor(x) => x.to_string(v),
            Val::Metadata(x) => x.to_string(v),
            Val::Difficulty(x) => x.to_string(v),
            Val::Events(x) => VersionedToString::to_string(x, v),
            Val::Timing(x) => x.to_string(v),
            Val::Colours(x) => x.to_string(v),
            Val::Hits(x) => x.to_string(v),
            Val::Osu(x) => {
                let mut x = x.clone();
                x.version = v;
                Some(std::string::ToString::to_string(&*x))
            }
            Val::Osb(x) => x.to_string(v),
        }
    }
    /// The model value; parts other than the one that was read are absent.
    pub fn view(&self) -> MFile {
        let mut m = MFile::default();
        match self {
            Val::General(x) => m.kv[0] = Some(view::general(x)),
            Val::Editor(x) => m.kv[1] = Some(view::editor(x)),
            Val::Metadata(x) => m.kv[2] = Some(view::metadata(x)),
            Val::Difficulty(x) => m.kv[3] = Some(view::difficulty(x)),
            Val::Events(x) => m.events = Some(view::events(x)),
            Val::Timing(x) => m.timing = Some(x.0.iter().map(view::timing).collect()),
            Val::Colours(x) => m.colours = Some(x.0.iter().map(view::colour).collect()),
            Val::Hits(x) => m.hits = Some(x.0.iter().map(view::hit).collect()),
            Val::Osu(x) => m = view::file(x),
            Val::Osb(x) => m.osb = Some(view::osb(x)),
        }
        m
    }
}

/// Reads text that has to be accepted.
pub fn must(part: Part, s: &str, v: u8) -> Result<Val, Fail> {
    match part.parse(s, v) {
        Ok(Some(x)) => Ok(x),
        Ok(None) => Err(Fail::Violation(format!(
            "{} at version {v} is read as absent: {s:?}",
            part.name()
        ))),
        Err(e) => Err(Fail::Violation(format!(
            "{} at version {v} is rejected ({}): {s:?}",
            part.name(),
            e.display
        ))),
    }
}

pub fn must_fail(part: Part, s: &str, v: u8, why: &str) -> Result<Bad, Fail> {
    match part.parse(s, v) {
        Err(e) => Ok(e),
        Ok(x) => Err(Fail::Violation(format!(
            "{} at version {v} is accepted although {why}: {s:?} as {x:?}",
            part.name()
        ))),
    }
}

pub fn read_hits(s: &str, v: u8) -> Result<Vec<MHit>, Fail> {
    Ok(must(Hits, s, v)?.view().hits.unwrap())
}

/// Reading `text` gives `want` and printing it gives `printed`.
pub fn same<T: PartialEq + std::fmt::Debug>(what: &str, text: &str, v: u8, got: &T, want: &T) -> Result<(), Fail> {
    if got == want {
        Ok(())
    } else {
        let (g, w) = (format!("{got:?}"), format!("{want:?}"));
        // the neighbourhood of the first difference
        let at = g.bytes().zip(w.bytes()).take_while(|(a, b)| a == b).count();
        let cut = |s: &str| {
            let (mut a, mut b) = (at.saturating_sub(60).min(s.len()), (at + 120).min(s.len()));
            while !s.is_char_boundary(a) {
                a -= 1;
            }
            while !s.is_char_boundary(b) {
                b += 1;
            }
            s[a..b].to_string()
        };
        Err(Fail::Violation(format!(
            "{what} at version {v}: {text:?} is read with\n  {}\ninstead of\n  {}\nin all\n  {g}\ninstead of\n  {w}",
            cut(&g),
            cut(&w)
        )))
    }
}
pub fn prints(what: &str, text: &str, v: u8, got: Option<String>, want: &str) -> Result<(), Fail> {
    if got.as_deref() == Some(want) {
        Ok(())
    } else {
        Err(Fail::Violation(format!(
            "{what}: {text:?} is printed at version {v} as\n  {got:?}\ninstead of\n  {want:?}"
        )))
    }
}

/// Reads a section text, compares the value and the text printed at `v`.
pub fn check(part: Part, text: &str, v: u8, want: &MFile, printed: &str) -> Result<Val, Fail> {
    let x = must(part, text, v)?;
    let got = x.view();
    same(part.name(), text, v, &got, want)?;
    prints(part.name(), text, v, x.print(v), printed)?;
    Ok(x)
}

pub fn m_hits(h: Vec<MHit>) -> MFile {
    MFile { hits: Some(h.iter().map(|h| h.value()).collect()), ..Default::default() }
}
pub fn m_timing(h: Vec<MTiming>) -> MFile {
    MFile { timing: Some(h.iter().map(|h| h.value()).collect()), ..Default::default() }
}
pub fn m_events(h: Vec<MEvent>) -> MFile {
    MFile { events: Some(h.iter().map(|h| h.value()).collect()), ..Default::default() }
}
pub fn m_colours(h: Vec<MColour>) -> MFile {
    MFile { colours: Some(h), ..Default::default() }
}
pub fn m_kv(sec: Sec, vals: Vals) -> MFile {
    let mut m = MFile::default();
    m.kv[sec as usize] = Some(vals);
    m
}
