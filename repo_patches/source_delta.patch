From fa581e7136209a5cb17b69bde650210ce1343596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 01/27] fix: report non-integer BeatmapID and BeatmapSetID as
 an error instead of panicking

---
 src/osu_file/metadata/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/metadata/mod.rs b/src/osu_file/metadata/mod.rs
index 1078531..92ffea7 100644
--- a/src/osu_file/metadata/mod.rs
+++ b/src/osu_file/metadata/mod.rs
@@ -1,5 +1,7 @@
 pub mod error;
 
+use std::num::ParseIntError;
+
 use nom::{
     bytes::complete::{tag, take_till},
     multi::separated_list0,
@@ -30,8 +32,8 @@ versioned_field!(Tags, Vec<String>, no_versions,
     } -> (),
     |v| { v.join(" ") }, Vec::new()
 );
-versioned_field!(BeatmapID, Integer, no_versions, |s| { Ok(s.parse::<Integer>().unwrap()) } -> (),,);
-versioned_field!(BeatmapSetID, Integer, no_versions, |s| { Ok(s.parse::<Integer>().unwrap()) } -> (),,);
+versioned_field!(BeatmapID, Integer, no_versions, |s| { s.parse() } -> ParseIntError,,);
+versioned_field!(BeatmapSetID, Integer, no_versions, |s| { s.parse() } -> ParseIntError,,);
 
 general_section!(
     /// A struct representing the metadata section of an osu file.
-- 
2.43.0


From 78038f4f54a7e8e019fb16e1f5b86a4de37ce285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 02/27] fix: parse an .osu file whose last section is empty
 without underflowing the line count

---
 src/osu_file/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index 6999749..56d52c3 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -301,7 +301,7 @@ impl FromStr for OsuFile {
             }
 
             section_parsed.push(section_name);
-            line_number += section.lines().count() - 1;
+            line_number += section.lines().count().saturating_sub(1);
         }
 
         Ok(OsuFile {
-- 
2.43.0


From af14df08c12ecc0755eff91c2aa91a29eb9c732b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 03/27] fix: don't let an empty section swallow the header of
 the next one

---
 src/parsers.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index 055d853..6a0b5fa 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -5,11 +5,11 @@ use nom::{
     bytes::complete::{tag, take_till, take_until, take_while},
     character::complete::multispace0,
     character::complete::{char, space0},
-    combinator::{eof, map_res, rest},
+    combinator::{eof, map_res, peek, rest},
     error::{FromExternalError, ParseError},
     multi::{many0, separated_list0},
     sequence::{delimited, preceded, terminated, tuple},
-    IResult,
+    IResult, Parser,
 };
 
 use crate::osu_file::{Version, VersionedFromStr};
@@ -139,7 +139,8 @@ pub fn square_section<'a>(
     let section_close = tag("]");
     let section_name_inner = take_till(|c: char| c == ']' || c == '\n');
     let section_name = delimited(section_open, section_name_inner, section_close);
-    let section_until = alt((take_until("\n["), rest));
+    // an empty section is directly followed by the next section's header
+    let section_until = alt((peek(tag("[")).map(|_| ""), take_until("\n["), rest));
 
     tuple((multispace0, section_name, multispace0, section_until))
 }
-- 
2.43.0


From f8daa08c933b4a4e335253dfb402ebbd4ff5123c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 04/27] fix: report malformed section headers instead of
 silently dropping the rest of the file

---
 src/osu_file/mod.rs       | 19 +++++++++++++++++--
 src/osu_file/osb/error.rs |  6 ++++++
 src/osu_file/osb/mod.rs   | 19 +++++++++++++++++--
 3 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index 56d52c3..6ca1f80 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -207,7 +207,7 @@ impl FromStr for OsuFile {
             .lines()
             .take_while(|s| {
                 let s = s.trim();
-                !s.trim().starts_with('[') && !s.trim().ends_with(']')
+                s.starts_with("//") || !s.starts_with('[') && !s.ends_with(']')
             })
             .count();
 
@@ -231,7 +231,7 @@ impl FromStr for OsuFile {
             .collect::<Vec<_>>()
             .join("\n");
 
-        let (_, sections) = many0(square_section())(&s).unwrap();
+        let (unparsed, sections) = many0(square_section())(&s).unwrap();
 
         let mut section_parsed = Vec::with_capacity(8);
 
@@ -304,6 +304,21 @@ impl FromStr for OsuFile {
             line_number += section.lines().count().saturating_sub(1);
         }
 
+        // whatever is left isn't a valid section header
+        if let Some(header) = unparsed.lines().find(|line| !line.trim().is_empty()) {
+            let header = header.trim();
+            let ws_len = unparsed.len() - unparsed.trim_start().len();
+            line_number += unparsed[..ws_len].lines().count();
+
+            let err = if header.starts_with('[') {
+                ParseError::SectionNameNoCloseBracket(header.to_string())
+            } else {
+                ParseError::SectionNameNoOpenBracket(header.to_string())
+            };
+
+            return Err(Error::new(err, line_number));
+        }
+
         Ok(OsuFile {
             version,
             general,
diff --git a/src/osu_file/osb/error.rs b/src/osu_file/osb/error.rs
index 7d08d20..5fa07e3 100644
--- a/src/osu_file/osb/error.rs
+++ b/src/osu_file/osb/error.rs
@@ -15,6 +15,12 @@ pub enum ParseError {
     /// Unknown section name defined.
     #[error("There is an unknown section")]
     UnknownSection,
+    /// Error used when the opening bracket for the section is missing.
+    #[error("The opening bracket of the section is missing, expected `[` before {0}")]
+    SectionNameNoOpenBracket(String),
+    /// Error used when the closing bracket for the section is missing.
+    #[error("The closing bracket of the section is missing, expected `]` after {0}")]
+    SectionNameNoCloseBracket(String),
     #[error(transparent)]
     #[strum(disabled)]
     ParseVariableError(#[from] ParseVariableError),
diff --git a/src/osu_file/osb/mod.rs b/src/osu_file/osb/mod.rs
index b483a34..1b3ed35 100644
--- a/src/osu_file/osb/mod.rs
+++ b/src/osu_file/osb/mod.rs
@@ -28,7 +28,7 @@ impl VersionedFromStr for Osb {
             .lines()
             .take_while(|s| {
                 let s = s.trim();
-                !s.trim().starts_with('[') && !s.trim().ends_with(']')
+                s.starts_with("//") || !s.starts_with('[') && !s.ends_with(']')
             })
             .count();
 
@@ -54,7 +54,7 @@ impl VersionedFromStr for Osb {
 
         // we get sections
         // only valid sections currently are [Variables] [Events]
-        let (_, sections) = many0(square_section())(&s).unwrap();
+        let (unparsed, sections) = many0(square_section())(&s).unwrap();
 
         let mut section_parsed = Vec::with_capacity(2);
         let mut line_number = pre_section_count;
@@ -105,6 +105,21 @@ impl VersionedFromStr for Osb {
             line_number += section.lines().count().saturating_sub(1);
         }
 
+        // whatever is left isn't a valid section header
+        if let Some(header) = unparsed.lines().find(|line| !line.trim().is_empty()) {
+            let header = header.trim();
+            let ws_len = unparsed.len() - unparsed.trim_start().len();
+            line_number += unparsed[..ws_len].lines().count();
+
+            let err = if header.starts_with('[') {
+                ParseError::SectionNameNoCloseBracket(header.to_string())
+            } else {
+                ParseError::SectionNameNoOpenBracket(header.to_string())
+            };
+
+            return Err(Error::new(err, line_number));
+        }
+
         Ok(Some(Osb { events, variables }))
     }
 }
-- 
2.43.0


From bfbdc5b8c966863e336cb940f33b42f69921ccc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 05/27] fix: count only finished lines when computing the line
 of an error

---
 src/helper/macros.rs    |  4 ++--
 src/helper/mod.rs       |  6 ++++++
 src/osu_file/mod.rs     | 19 +++++++++++--------
 src/osu_file/osb/mod.rs |  9 +++++----
 4 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/helper/macros.rs b/src/helper/macros.rs
index 5293015..4f71730 100644
--- a/src/helper/macros.rs
+++ b/src/helper/macros.rs
@@ -126,7 +126,7 @@ macro_rules! general_section_inner {
 
                 if !s.trim().is_empty() {
                     // line count from fields
-                    let line_count = { fields.iter().map(|(_, _, _, ws)| ws.lines().count()).sum() };
+                    let line_count = { fields.iter().map(|(_, _, _, ws)| crate::helper::newline_count(ws)).sum() };
 
                     return Err(crate::osu_file::types::Error::new(<$parse_error>::InvalidColonSet, line_count));
                 }
@@ -148,7 +148,7 @@ macro_rules! general_section_inner {
                         _ => return Err(crate::osu_file::types::Error::new(ParseError::InvalidKey, line_count)),
                     }
 
-                    line_count += ws_2.lines().count();
+                    line_count += crate::helper::newline_count(ws_2);
                     parsed_fields.push(name);
                 }
 
diff --git a/src/helper/mod.rs b/src/helper/mod.rs
index c83983f..56870af 100644
--- a/src/helper/mod.rs
+++ b/src/helper/mod.rs
@@ -17,6 +17,12 @@ where
         .join("|")
 }
 
+/// Counts how many lines are ended in the string.
+/// - Unlike `lines().count()`, this doesn't count the unfinished last line.
+pub fn newline_count(s: &str) -> usize {
+    s.matches('\n').count()
+}
+
 pub fn nth_bit_state_i64(value: i64, nth_bit: u8) -> bool {
     value >> nth_bit & 1 == 1
 }
diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index 6ca1f80..5402c4b 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -21,6 +21,7 @@ use nom::multi::many0;
 use nom::sequence::{preceded, tuple};
 use thiserror::Error;
 
+use crate::helper::newline_count;
 use crate::parsers::square_section;
 
 pub use colours::Colours;
@@ -174,7 +175,9 @@ impl FromStr for OsuFile {
         );
         let version_number = map_res(take_till(|c| c == '\r' || c == '\n'), |s: &str| s.parse());
 
-        let (s, (trailing_ws, version)) = match tuple((
+        let leading_lines = newline_count(&s[..s.len() - s.trim_start().len()]);
+
+        let (s, (_, version)) = match tuple((
             multispace0,
             preceded(version_text, version_number),
         ))(s)
@@ -195,12 +198,12 @@ impl FromStr for OsuFile {
                     unreachable!("Not possible to reach when the errors are already handled, error type is {:#?}", err)
                 };
 
-                return Err(err.into());
+                return Err(Error::new(err, leading_lines));
             }
         };
 
         if !(MIN_VERSION..=LATEST_VERSION).contains(&version) {
-            return Err(ParseError::InvalidFileVersion.into());
+            return Err(Error::new(ParseError::InvalidFileVersion, leading_lines));
         }
 
         let pre_section_count = s
@@ -222,7 +225,7 @@ impl FromStr for OsuFile {
                 continue;
             }
 
-            return Err(Error::new(ParseError::UnexpectedLine, i));
+            return Err(Error::new(ParseError::UnexpectedLine, leading_lines + i));
         }
 
         let s = s
@@ -246,17 +249,17 @@ impl FromStr for OsuFile {
             mut hitobjects,
         ) = (None, None, None, None, None, None, None, None);
 
-        let mut line_number = trailing_ws.lines().count() + pre_section_count;
+        let mut line_number = leading_lines + pre_section_count;
 
         for (ws, section_name, ws2, section) in sections {
-            line_number += ws.lines().count();
+            line_number += newline_count(ws);
 
             if section_parsed.contains(&section_name) {
                 return Err(Error::new(ParseError::DuplicateSections, line_number));
             }
 
             let section_name_line = line_number;
-            line_number += ws2.lines().count();
+            line_number += newline_count(ws2);
 
             match section_name {
                 "General" => {
@@ -308,7 +311,7 @@ impl FromStr for OsuFile {
         if let Some(header) = unparsed.lines().find(|line| !line.trim().is_empty()) {
             let header = header.trim();
             let ws_len = unparsed.len() - unparsed.trim_start().len();
-            line_number += unparsed[..ws_len].lines().count();
+            line_number += newline_count(&unparsed[..ws_len]);
 
             let err = if header.starts_with('[') {
                 ParseError::SectionNameNoCloseBracket(header.to_string())
diff --git a/src/osu_file/osb/mod.rs b/src/osu_file/osb/mod.rs
index 1b3ed35..aa71a4a 100644
--- a/src/osu_file/osb/mod.rs
+++ b/src/osu_file/osb/mod.rs
@@ -3,6 +3,7 @@ pub mod types;
 
 use nom::multi::many0;
 
+use crate::helper::newline_count;
 use crate::parsers::square_section;
 
 use super::{Error, Events, Version, VersionedFromStr, VersionedToString};
@@ -62,14 +63,14 @@ impl VersionedFromStr for Osb {
         let (mut events, mut variables) = (None, None);
 
         for (ws, section_name, ws2, section) in sections {
-            line_number += ws.lines().count();
+            line_number += newline_count(ws);
 
             if section_parsed.contains(&section_name) {
                 return Err(Error::new(ParseError::DuplicateSections, line_number));
             }
 
             let section_name_line = line_number;
-            line_number += ws2.lines().count();
+            line_number += newline_count(ws2);
 
             match section_name {
                 "Variables" => {
@@ -102,14 +103,14 @@ impl VersionedFromStr for Osb {
             }
 
             section_parsed.push(section_name);
-            line_number += section.lines().count().saturating_sub(1);
+            line_number += newline_count(section);
         }
 
         // whatever is left isn't a valid section header
         if let Some(header) = unparsed.lines().find(|line| !line.trim().is_empty()) {
             let header = header.trim();
             let ws_len = unparsed.len() - unparsed.trim_start().len();
-            line_number += unparsed[..ws_len].lines().count();
+            line_number += newline_count(&unparsed[..ws_len]);
 
             let err = if header.starts_with('[') {
                 ParseError::SectionNameNoCloseBracket(header.to_string())
-- 
2.43.0


From 6ece8a1ccefbc89020892532c8b966da6df8ca5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 06/27] fix: reject event lines that only start like a known
 event instead of panicking

---
 src/osu_file/events/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index 140fc56..9202940 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -4,7 +4,7 @@ pub mod normal_event;
 pub mod storyboard;
 
 use nom::branch::alt;
-use nom::combinator::{cut, eof, peek, success};
+use nom::combinator::{eof, peek, success};
 use nom::sequence::tuple;
 use nom::Parser;
 use nom::{bytes::complete::tag, combinator::rest, sequence::preceded};
@@ -62,7 +62,7 @@ impl Events {
         let background = || {
             peek(tuple((
                 tag::<_, _, nom::error::Error<_>>(normal_event::BACKGROUND_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::Background)
         };
@@ -72,7 +72,7 @@ impl Events {
                     tag(normal_event::VIDEO_HEADER),
                     tag(normal_event::VIDEO_HEADER_LONG),
                 )),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::Video)
         };
@@ -82,35 +82,35 @@ impl Events {
                     tag(normal_event::BREAK_HEADER),
                     tag(normal_event::BREAK_HEADER_LONG),
                 )),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::Break)
         };
         let colour_transformation = || {
             peek(tuple((
                 tag(normal_event::COLOUR_TRANSFORMATION_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::ColourTransformation)
         };
         let sprite_legacy = || {
             peek(tuple((
                 tag(normal_event::SPRITE_LEGACY_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::SpriteLegacy)
         };
         let animation_legacy = || {
             peek(tuple((
                 tag(normal_event::ANIMATION_LEGACY_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::AnimationLegacy)
         };
         let sample_legacy = || {
             peek(tuple((
                 tag(normal_event::SAMPLE_LEGACY_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::SampleLegacy)
         };
-- 
2.43.0


From bae286578f874b59bc492a9837f85505dd863ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 07/27] fix: split storyboard command lines at a byte index so
 multi-byte characters can't panic

---
 src/osu_file/events/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index 9202940..81cb969 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -130,7 +130,7 @@ impl Events {
             // its a storyboard command
             if indent > 0 {
                 let cmd_parse = || {
-                    let line_without_header = match line.chars().position(|c| c == ',') {
+                    let line_without_header = match line.find(',') {
                         Some(i) => &line[i + 1..],
                         None => line,
                     };
-- 
2.43.0


From 704b44ba18322f3cfb65945d3c43b8843713443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:05 +0000
Subject: [PATCH 08/27] fix: parse multi-digit custom sample sets of HitSound
 triggers instead of panicking

---
 src/osu_file/events/storyboard/types.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/osu_file/events/storyboard/types.rs b/src/osu_file/events/storyboard/types.rs
index 8596fd0..a5cc30e 100644
--- a/src/osu_file/events/storyboard/types.rs
+++ b/src/osu_file/events/storyboard/types.rs
@@ -40,8 +40,13 @@ impl VersionedFromStr for TriggerType {
                             let mut fields = Vec::new();
                             let mut builder = String::with_capacity(256);
 
-                            for (i, ch) in s.chars().enumerate() {
-                                if i != 0 && (ch.is_uppercase() || ch.is_numeric()) {
+                            for ch in s.chars() {
+                                // digits in a row are the same number
+                                let new_field = ch.is_uppercase()
+                                    || ch.is_numeric()
+                                        && !builder.ends_with(|c: char| c.is_numeric());
+
+                                if !builder.is_empty() && new_field {
                                     fields.push(builder.to_owned());
                                     builder.clear();
                                 }
@@ -89,7 +94,8 @@ impl VersionedFromStr for TriggerType {
                                         } else {
                                             return Err(ParseTriggerTypeError::UnknownHitSoundType)
                                         }
-                                        _ => unreachable!("The check for field size is already done so this is impossible to reach")
+                                        // there is no field after the custom sample set
+                                        _ => return Err(ParseTriggerTypeError::UnknownHitSoundType)
                                     }
                                 field_parse_attempt_index += 1;
                             }
-- 
2.43.0


From b75d602f6ce38cd33976c73e16752cecbd537fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:02 +0000
Subject: [PATCH 09/27] fix: don't panic when the 24ms offset of old versions
 overflows a time

---
 src/osu_file/events/mod.rs                  |  5 +-
 src/osu_file/events/normal_event/mod.rs     |  1 +
 src/osu_file/events/normal_event/parsers.rs | 30 +++++-----
 src/osu_file/hitobjects/mod.rs              | 64 +++++++++------------
 src/osu_file/timingpoints/mod.rs            | 21 ++++---
 5 files changed, 58 insertions(+), 63 deletions(-)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index 81cb969..b9a82d9 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -19,7 +19,7 @@ use self::storyboard::error::CommandPushError;
 use self::storyboard::{error::ParseObjectError, sprites::Object};
 
 use super::Version;
-use super::{types::Error, Integer, VersionedDefault, VersionedFromStr, VersionedToString};
+use super::{types::Error, VersionedDefault, VersionedFromStr, VersionedToString};
 
 pub use audio_sample::*;
 pub use error::*;
@@ -28,7 +28,8 @@ pub use normal_event::*;
 #[derive(Default, Clone, Debug, Hash, PartialEq, Eq)]
 pub struct Events(pub Vec<Event>);
 
-const OLD_VERSION_TIME_OFFSET: Integer = 24;
+// wider than `Integer` so that applying the offset can't overflow
+const OLD_VERSION_TIME_OFFSET: i64 = 24;
 
 impl VersionedFromStr for Events {
     type Err = Error<ParseError>;
diff --git a/src/osu_file/events/normal_event/mod.rs b/src/osu_file/events/normal_event/mod.rs
index c77e49d..2ad81a3 100644
--- a/src/osu_file/events/normal_event/mod.rs
+++ b/src/osu_file/events/normal_event/mod.rs
@@ -35,6 +35,7 @@ fn position_str(position: &Option<Position>) -> String {
 }
 
 fn time_to_string(time: Integer, version: Version) -> String {
+    let time = i64::from(time);
     let time = if (3..=4).contains(&version) {
         time - OLD_VERSION_TIME_OFFSET
     } else {
diff --git a/src/osu_file/events/normal_event/parsers.rs b/src/osu_file/events/normal_event/parsers.rs
index e39d384..02dcd22 100644
--- a/src/osu_file/events/normal_event/parsers.rs
+++ b/src/osu_file/events/normal_event/parsers.rs
@@ -1,6 +1,8 @@
+use std::num::TryFromIntError;
+
 use nom::{
     branch::alt,
-    combinator::eof,
+    combinator::{eof, map_res},
     error::context,
     sequence::{preceded, tuple},
     IResult, Parser,
@@ -39,18 +41,24 @@ pub fn file_name_and_position<'a>(
     tuple((file_name, coordinates))
 }
 
+fn time_with_offset(time: i64, version: Version) -> Result<Integer, TryFromIntError> {
+    let time = if (3..=4).contains(&version) {
+        time.saturating_add(OLD_VERSION_TIME_OFFSET)
+    } else {
+        time
+    };
+
+    time.try_into()
+}
+
 pub fn start_time_offset<'a>(
     error: &'static str,
     version: Version,
 ) -> impl FnMut(&'a str) -> IResult<&'a str, Integer, nom::error::VerboseError<&'a str>> {
     context(
         error,
-        comma_field_type().map(move |time| {
-            if (3..=4).contains(&version) {
-                time + OLD_VERSION_TIME_OFFSET
-            } else {
-                time
-            }
+        map_res(comma_field_type(), move |time| {
+            time_with_offset(time, version)
         }),
     )
 }
@@ -61,12 +69,8 @@ pub fn end_time<'a>(
 ) -> impl FnMut(&'a str) -> IResult<&str, Integer, nom::error::VerboseError<&'a str>> {
     context(
         error,
-        consume_rest_type().map(move |end_time| {
-            if (3..=4).contains(&version) {
-                end_time + OLD_VERSION_TIME_OFFSET
-            } else {
-                end_time
-            }
+        map_res(consume_rest_type(), move |end_time| {
+            time_with_offset(end_time, version)
         }),
     )
 }
diff --git a/src/osu_file/hitobjects/mod.rs b/src/osu_file/hitobjects/mod.rs
index 288011a..f1f8a6d 100644
--- a/src/osu_file/hitobjects/mod.rs
+++ b/src/osu_file/hitobjects/mod.rs
@@ -163,6 +163,18 @@ impl HitObject {
 
 const OLD_VERSION_TIME_OFFSET: rust_decimal::Decimal = dec!(24);
 
+/// Adds the time offset of the old versions.
+/// - Returns `None` if the result can't be represented.
+fn add_old_version_offset(mut time: Decimal, version: Version) -> Option<Decimal> {
+    if (3..=4).contains(&version) {
+        if let Either::Left(value) = time.get_mut() {
+            *value = value.checked_add(OLD_VERSION_TIME_OFFSET)?;
+        }
+    }
+
+    Some(time)
+}
+
 impl VersionedFromStr for HitObject {
     type Err = ParseHitObjectError;
 
@@ -196,18 +208,12 @@ impl VersionedFromStr for HitObject {
             .map(|(x, y)| (Position { x, y })),
             preceded(
                 context(ParseHitObjectError::MissingTime.into(), comma()),
-                context(ParseHitObjectError::InvalidTime.into(), comma_field_type()),
-            )
-            // version 3 has a slight time delay of 24ms
-            .map(|mut t: Decimal| {
-                if (3..=4).contains(&version) {
-                    if let Either::Left(value) = t.get_mut() {
-                        *value += OLD_VERSION_TIME_OFFSET;
-                    }
-                }
-
-                t
-            }),
+                context(
+                    ParseHitObjectError::InvalidTime.into(),
+                    // version 3 has a slight time delay of 24ms
+                    map_opt(comma_field_type(), |t| add_old_version_offset(t, version)),
+                ),
+            ),
             preceded(
                 context(ParseHitObjectError::MissingObjType.into(), comma()),
                 context(
@@ -374,18 +380,9 @@ impl VersionedFromStr for HitObject {
                     context(ParseHitObjectError::MissingEndTime.into(), comma()),
                     context(
                         ParseHitObjectError::InvalidEndTime.into(),
-                        comma_field_type(),
+                        map_opt(comma_field_type(), |t| add_old_version_offset(t, version)),
                     ),
-                )
-                .map(|mut t: Decimal| {
-                    if (3..=4).contains(&version) {
-                        if let Either::Left(value) = t.get_mut() {
-                            *value += OLD_VERSION_TIME_OFFSET;
-                        }
-                    }
-
-                    t
-                }),
+                ),
                 hitsample,
             ))(s)?;
 
@@ -416,17 +413,10 @@ impl VersionedFromStr for HitObject {
             ));
             let end_time = context(
                 ParseHitObjectError::InvalidEndTime.into(),
-                map_res(take_until(":"), |s: &str| s.parse()),
-            )
-            .map(|mut t: Decimal| {
-                if (3..=4).contains(&version) {
-                    if let Either::Left(value) = t.get_mut() {
-                        *value += OLD_VERSION_TIME_OFFSET;
-                    }
-                }
-
-                t
-            });
+                map_opt(take_until(":"), |s: &str| {
+                    add_old_version_offset(s.into(), version)
+                }),
+            );
             let (_, (end_time, hitsample)) = tuple((
                 preceded(
                     context(ParseHitObjectError::MissingEndTime.into(), comma()),
@@ -459,7 +449,7 @@ impl VersionedToString for HitObject {
             self.position.y.to_string(),
             if (3..=4).contains(&version) {
                 match self.time.get() {
-                    Either::Left(value) => (value - OLD_VERSION_TIME_OFFSET).to_string(),
+                    Either::Left(value) => value.saturating_sub(OLD_VERSION_TIME_OFFSET).to_string(),
                     Either::Right(value) => value.to_string(),
                 }
             } else {
@@ -525,7 +515,7 @@ impl VersionedToString for HitObject {
             HitObjectParams::Spinner { end_time } => {
                 properties.push(if (3..=4).contains(&version) {
                     match end_time.get() {
-                        Either::Left(value) => (value - OLD_VERSION_TIME_OFFSET).to_string(),
+                        Either::Left(value) => value.saturating_sub(OLD_VERSION_TIME_OFFSET).to_string(),
                         Either::Right(value) => value.to_string(),
                     }
                 } else {
@@ -535,7 +525,7 @@ impl VersionedToString for HitObject {
             HitObjectParams::OsuManiaHold { end_time } => {
                 properties.push(if (3..=4).contains(&version) {
                     match end_time.get() {
-                        Either::Left(value) => (value - OLD_VERSION_TIME_OFFSET).to_string(),
+                        Either::Left(value) => value.saturating_sub(OLD_VERSION_TIME_OFFSET).to_string(),
                         Either::Right(value) => value.to_string(),
                     }
                 } else {
diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index 4662053..9d04655 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -5,7 +5,7 @@ use crate::osu_file::types::Decimal;
 use either::Either;
 use nom::{
     branch::alt,
-    combinator::{cut, map_res, success, verify, rest},
+    combinator::{cut, map_opt, map_res, success, verify, rest},
     error::context,
     sequence::{preceded, tuple},
     Parser,
@@ -282,17 +282,16 @@ impl VersionedFromStr for TimingPoint {
         ) = tuple((
             context(
                 ParseTimingPointError::InvalidTime.into(),
-                comma_field_type(),
-            )
-            .map(|mut t: Decimal| {
-                if (3..=4).contains(&version) {
-                    if let Either::Left(value) = t.get_mut() {
-                        *value += OLD_VERSION_TIME_OFFSET;
+                map_opt(comma_field_type(), |mut t: Decimal| {
+                    if (3..=4).contains(&version) {
+                        if let Either::Left(value) = t.get_mut() {
+                            *value = value.checked_add(OLD_VERSION_TIME_OFFSET)?;
+                        }
                     }
-                }
 
-                t
-            }),
+                    Some(t)
+                }),
+            ),
             preceded(
                 context(ParseTimingPointError::MissingBeatLength.into(), comma()),
                 alt((
@@ -448,7 +447,7 @@ impl VersionedToString for TimingPoint {
         let mut fields = vec![
             if (3..=4).contains(&version) {
                 match self.time.get() {
-                    Either::Left(value) => (value - OLD_VERSION_TIME_OFFSET).to_string(),
+                    Either::Left(value) => value.saturating_sub(OLD_VERSION_TIME_OFFSET).to_string(),
                     Either::Right(value) => value.to_string(),
                 }
             } else {
-- 
2.43.0


From f6ede3a87620b72a93e0b789ab29ddcd3b881f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:05 +0000
Subject: [PATCH 10/27] fix: print timing point sample indices above i32::MAX
 as the value that was read

---
 src/osu_file/timingpoints/types.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/timingpoints/types.rs b/src/osu_file/timingpoints/types.rs
index 824afeb..7698938 100644
--- a/src/osu_file/timingpoints/types.rs
+++ b/src/osu_file/timingpoints/types.rs
@@ -189,8 +189,14 @@ impl VersionedFrom<SampleIndex> for Integer {
 }
 
 impl VersionedToString for SampleIndex {
-    fn to_string(&self, version: Version) -> Option<String> {
-        <i32 as VersionedFrom<SampleIndex>>::from(*self, version).map(|index| index.to_string())
+    fn to_string(&self, _: Version) -> Option<String> {
+        // not converted to `Integer` since it can't represent every index
+        let index = match self {
+            SampleIndex::OsuDefaultHitsounds => 0,
+            SampleIndex::Index(index) => index.get(),
+        };
+
+        Some(index.to_string())
     }
 }
 
-- 
2.43.0


From 894fd661690d964beda27467e61b2410aaa3bc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:50 +0000
Subject: [PATCH 11/27] fix: continuing field setters don't underflow on short
 lists and fill every missing colour

---
 src/osu_file/events/storyboard/cmds/types.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/osu_file/events/storyboard/cmds/types.rs b/src/osu_file/events/storyboard/cmds/types.rs
index 26c2562..ce7a4cf 100644
--- a/src/osu_file/events/storyboard/cmds/types.rs
+++ b/src/osu_file/events/storyboard/cmds/types.rs
@@ -44,7 +44,7 @@ impl<T> ContinuingFields<T> {
             if last_continuing.1.is_none() {
                 // find last 1 field
                 let last_field = if let Some(last_continuing_with_1) =
-                    self.continuing.get(self.continuing.len() - 2)
+                    self.continuing.iter().rev().nth(1)
                 {
                     last_continuing_with_1.1.as_ref()
                 } else {
@@ -64,7 +64,7 @@ impl<T> ContinuingFields<T> {
         fields: (T, Option<T>),
     ) -> Result<(), ContinuingSetError> {
         // if index isn't the last index, field 1 being none will return an error
-        if index != self.continuing.len() - 1 && fields.1.is_none() {
+        if index < self.continuing.len().saturating_sub(1) && fields.1.is_none() {
             Err(ContinuingSetError::InvalidSecondFieldOption)
         } else {
             match self.continuing.get_mut(index) {
@@ -139,7 +139,7 @@ impl Colours {
             if last_continuing.1.is_none() {
                 // find last field
                 let last_field = if let Some(last_continuing_with_1) =
-                    self.continuing.get(self.continuing.len() - 2)
+                    self.continuing.iter().rev().nth(1)
                 {
                     last_continuing_with_1.1.as_ref()
                 } else {
@@ -148,10 +148,13 @@ impl Colours {
                 };
 
                 self.continuing.last_mut().unwrap().1 = last_field.copied();
-            } else if last_continuing.2.is_none() {
+            }
+        }
+        if let Some(last_continuing) = self.continuing.last() {
+            if last_continuing.2.is_none() {
                 // find last field
                 let last_field = if let Some(last_continuing_with_2) =
-                    self.continuing.get(self.continuing.len() - 2)
+                    self.continuing.iter().rev().nth(1)
                 {
                     last_continuing_with_2.2.as_ref()
                 } else {
@@ -171,7 +174,7 @@ impl Colours {
         fields: (u8, Option<u8>, Option<u8>),
     ) -> Result<(), ContinuingRGBSetError> {
         // if index isn't the last index, b or g being none will return an error
-        let index_is_last = index == self.continuing.len() - 1;
+        let index_is_last = index >= self.continuing.len().saturating_sub(1);
 
         if !index_is_last && fields.1.is_none() {
             Err(ContinuingRGBSetError::InvalidFieldOption(
-- 
2.43.0


From 3c1a3f697d7969aa90d1d7fb309c59018d21c18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:45 +0000
Subject: [PATCH 12/27] fix: only print a variable in a storyboard command when
 parsing it gives back the same command

---
 src/osu_file/events/mod.rs                 | 48 +++++++++++++---------
 src/osu_file/events/storyboard/cmds/mod.rs | 16 ++++++--
 2 files changed, 41 insertions(+), 23 deletions(-)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index b9a82d9..d8f5a5f 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -131,26 +131,7 @@ impl Events {
             // its a storyboard command
             if indent > 0 {
                 let cmd_parse = || {
-                    let line_without_header = match line.find(',') {
-                        Some(i) => &line[i + 1..],
-                        None => line,
-                    };
-
-                    let mut line_with_variable: Option<String> = None;
-                    for variable in variables {
-                        let variable_full = format!("${}", variable.name);
-
-                        if line_without_header.contains(&variable_full) {
-                            let new_line = match line_with_variable {
-                                Some(line_with_variable) => {
-                                    line_with_variable.replace(&variable_full, &variable.value)
-                                }
-                                None => line.replace(&variable_full, &variable.value),
-                            };
-
-                            line_with_variable = Some(new_line);
-                        }
-                    }
+                    let line_with_variable = expand_variables(line, variables);
 
                     match line_with_variable {
                         Some(line_with_variable) => Error::new_from_result_into(
@@ -366,6 +347,33 @@ impl Event {
     }
 }
 
+/// Replaces every variable used in a storyboard command line with its value.
+/// - Returns `None` if no variable is used.
+pub(crate) fn expand_variables(line: &str, variables: &[Variable]) -> Option<String> {
+    let line_without_header = match line.find(',') {
+        Some(i) => &line[i + 1..],
+        None => line,
+    };
+
+    let mut line_with_variable: Option<String> = None;
+    for variable in variables {
+        let variable_full = format!("${}", variable.name);
+
+        if line_without_header.contains(&variable_full) {
+            let new_line = match line_with_variable {
+                Some(line_with_variable) => {
+                    line_with_variable.replace(&variable_full, &variable.value)
+                }
+                None => line.replace(&variable_full, &variable.value),
+            };
+
+            line_with_variable = Some(new_line);
+        }
+    }
+
+    line_with_variable
+}
+
 fn commands_to_string_variables(
     cmds: &[Command],
     version: Version,
diff --git a/src/osu_file/events/storyboard/cmds/mod.rs b/src/osu_file/events/storyboard/cmds/mod.rs
index d360c6d..e653f96 100644
--- a/src/osu_file/events/storyboard/cmds/mod.rs
+++ b/src/osu_file/events/storyboard/cmds/mod.rs
@@ -5,6 +5,7 @@ use std::fmt::Display;
 
 use super::error::*;
 use super::types::*;
+use crate::events::expand_variables;
 use crate::osb::Variable;
 use crate::osu_file::types::Decimal;
 use crate::osu_file::{Integer, Version, VersionedFromStr, VersionedToString};
@@ -74,15 +75,24 @@ impl Command {
         let end_time_to_string =
             |end_time: &Option<i32>| end_time.map_or("".to_string(), |t| t.to_string());
         let variable_replace = |header, cmd: String| {
+            let full_cmd = format!("{header},{cmd}");
+            let mut replaced_cmd = full_cmd.clone();
             let mut cmd = cmd;
 
             for variable in variables {
-                if cmd.contains(&variable.value) {
-                    cmd = cmd.replace(&variable.value, &format!("${}", variable.name));
+                if !variable.value.is_empty() && cmd.contains(&variable.value) {
+                    let new_cmd = cmd.replace(&variable.value, &format!("${}", variable.name));
+                    let new_full_cmd = format!("{header},{new_cmd}");
+
+                    // the replacement is only usable if parsing it gives back the same command
+                    if expand_variables(&new_full_cmd, variables).as_ref() == Some(&full_cmd) {
+                        cmd = new_cmd;
+                        replaced_cmd = new_full_cmd;
+                    }
                 }
             }
 
-            format!("{header},{cmd}")
+            replaced_cmd
         };
         let start_time = self.start_time.map_or(String::new(), |t| t.to_string());
 
-- 
2.43.0


From 1b82c424de7ba13ce5e7178926fdcca30b1cd2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:13 +0000
Subject: [PATCH 13/27] fix: osu_str_trimmer only ignores the spacing around
 the colon, not all whitespace of the line

---
 src/lib.rs | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6ed5bf4..94dc339 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -88,25 +88,10 @@ pub fn osu_str_trimmer(s: &str) -> String {
             }
 
             if line.contains(':') {
-                let mut header = true;
-                let mut value = false;
-
-                let line = line
-                    .chars()
-                    .filter(|c| {
-                        if !header && !value && *c == ':' {
-                            header = false;
-                            value = true;
-                            return true;
-                        }
-
-                        if header && c.is_whitespace() {
-                            return false;
-                        }
-
-                        true
-                    })
-                    .collect::<String>();
+                let line = match line.split_once(':') {
+                    Some((key, value)) => format!("{}:{}", key.trim_end(), value.trim_start()),
+                    None => line,
+                };
 
                 if section_coloned {
                     section_values_inner.push(line);
-- 
2.43.0


From a9388190753e5369dcb78a4341bf53b8291a6549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 14/27] fix: osu_str_trimmer keeps the order of hit objects,
 timing points, events and variables

---
 src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 94dc339..0bc5ac2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -48,6 +48,14 @@ pub fn osu_str_trimmer(s: &str) -> String {
     let mut first_line = true;
     let mut section_coloned = true;
 
+    // the order of the lines is only irrelevant for key value pairs
+    let order_irrelevant = |section: &str| {
+        !matches!(
+            section,
+            "[Events]" | "[TimingPoints]" | "[HitObjects]" | "[Variables]"
+        )
+    };
+
     let section_values_sort_and_push =
         |section_values_inner: &mut Vec<String>, builder: &mut Vec<String>| {
             section_values_inner.sort();
@@ -64,6 +72,7 @@ pub fn osu_str_trimmer(s: &str) -> String {
         if !in_sections {
             if line.starts_with('[') && line.ends_with(']') {
                 in_sections = true;
+                section_coloned = order_irrelevant(&line);
             } else {
                 // data before the sections are irrelevant after first line with file format specifier
                 if first_line && line.starts_with("osu file format v") {
@@ -81,8 +90,8 @@ pub fn osu_str_trimmer(s: &str) -> String {
         } else {
             if line.starts_with('[') && line.ends_with(']') {
                 section_values_sort_and_push(&mut section_values_inner, &mut builder);
+                section_coloned = order_irrelevant(&line);
                 builder.push(line);
-                section_coloned = true;
 
                 continue;
             }
-- 
2.43.0


From 97c13fb8cbbc43abb8aaf42730c01fd31898b693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:37 +0000
Subject: [PATCH 15/27] fix: print the uninherited and effects fields of a
 timing point so that they can be read back

---
 src/osu_file/timingpoints/mod.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index 9d04655..55d5da5 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -463,16 +463,15 @@ impl VersionedToString for TimingPoint {
         }
         if version > 4 {
             fields.push(self.volume.to_string(version).unwrap());
-            match self.uninherited {
-                Some(value) => fields.push((value as u8).to_string()),
-                None => {
-                    if self.effects.is_some() {
-                        fields.push(String::new())
-                    }
-                }
+            // a later field can't be read without the ones before it
+            if self.uninherited.is_some() || self.effects.is_some() {
+                fields.push((self.uninherited() as u8).to_string());
             }
-            if let Some(value) = self.effects {
-                fields.push(value.to_string(version).unwrap())
+            match self.effects {
+                Some(value) => fields.push(value.to_string(version).unwrap()),
+                // the field is only optional in old versions
+                None if version > 5 && self.uninherited.is_some() => fields.push("0".to_string()),
+                None => (),
             }
         }
 
-- 
2.43.0


From ece75c39b45bf23603c56a9c15925e2a4d467e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:37 +0000
Subject: [PATCH 16/27] fix: frame_file_names doesn't panic when the
 animation's path has no file name

---
 src/osu_file/events/storyboard/sprites.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/osu_file/events/storyboard/sprites.rs b/src/osu_file/events/storyboard/sprites.rs
index b287a1a..81fb0dc 100644
--- a/src/osu_file/events/storyboard/sprites.rs
+++ b/src/osu_file/events/storyboard/sprites.rs
@@ -246,7 +246,9 @@ impl Animation {
         let mut file_names = Vec::with_capacity(self.frame_count as usize);
 
         let filepath = self.filepath.get();
-        let mut file_name = filepath.file_name().unwrap().to_string_lossy().to_string();
+        let mut file_name = filepath
+            .file_name()
+            .map_or(String::new(), |name| name.to_string_lossy().to_string());
         let file_extension = match filepath.extension() {
             Some(extension) => {
                 let extension = format!(".{}", extension.to_string_lossy());
-- 
2.43.0


From 8314c062924b07f6936d3c63260ba9533c95bb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 17/27] fix: calc_bpm and calc_slider_velocity_multiplier
 return None instead of panicking on an unusable beat length

---
 src/osu_file/timingpoints/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index 55d5da5..da86e96 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -152,13 +152,15 @@ impl TimingPoint {
     }
 
     /// Calculates BPM using the `beatLength` field when unherited.
-    /// - Returns `None` if the timing point is inherited or `beat_length` isn't a valid decimal.
+    /// - Returns `None` if the timing point is inherited, `beat_length` isn't a valid decimal or the result can't be represented.
     pub fn calc_bpm(&self) -> Option<rust_decimal::Decimal> {
         match self.uninherited {
             Some(uninherited) => {
                 if uninherited {
                     match self.beat_length.get() {
-                        Either::Left(value) => Some(Self::beat_duration_ms_to_bpm(*value)),
+                        Either::Left(value) => rust_decimal::Decimal::ONE
+                            .checked_div(*value)?
+                            .checked_mul(dec!(60000)),
                         Either::Right(_) => None,
                     }
                 } else {
@@ -169,7 +171,7 @@ impl TimingPoint {
         }
     }
     /// Calculates the slider velocity multiplier when the timing point is inherited.
-    /// - Returns `None` if the timing point is uninherited or `beat_length` isn't a valid decimal.
+    /// - Returns `None` if the timing point is uninherited, `beat_length` isn't a valid decimal or the result can't be represented.
     pub fn calc_slider_velocity_multiplier(&self) -> Option<rust_decimal::Decimal> {
         match self.uninherited {
             Some(uninherited) => {
@@ -178,7 +180,7 @@ impl TimingPoint {
                 } else {
                     match self.beat_length.get() {
                         Either::Left(value) => {
-                            Some(rust_decimal::Decimal::ONE / (value / dec!(-100)))
+                            rust_decimal::Decimal::ONE.checked_div(value.checked_div(dec!(-100))?)
                         }
                         Either::Right(_) => None,
                     }
-- 
2.43.0


From a863b0a18979366ba351095006d726dfa931c5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 18/27] fix: calc_bpm also works for timing points of versions
 without the uninherited field

---
 src/osu_file/timingpoints/mod.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index da86e96..085fe2a 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -154,20 +154,16 @@ impl TimingPoint {
     /// Calculates BPM using the `beatLength` field when unherited.
     /// - Returns `None` if the timing point is inherited, `beat_length` isn't a valid decimal or the result can't be represented.
     pub fn calc_bpm(&self) -> Option<rust_decimal::Decimal> {
-        match self.uninherited {
-            Some(uninherited) => {
-                if uninherited {
-                    match self.beat_length.get() {
-                        Either::Left(value) => rust_decimal::Decimal::ONE
-                            .checked_div(*value)?
-                            .checked_mul(dec!(60000)),
-                        Either::Right(_) => None,
-                    }
-                } else {
-                    None
-                }
+        // old versions don't have the field, in which case it's uninherited
+        if self.uninherited() {
+            match self.beat_length.get() {
+                Either::Left(value) => rust_decimal::Decimal::ONE
+                    .checked_div(*value)?
+                    .checked_mul(dec!(60000)),
+                Either::Right(_) => None,
             }
-            None => None,
+        } else {
+            None
         }
     }
     /// Calculates the slider velocity multiplier when the timing point is inherited.
-- 
2.43.0


From b4e8ca4d98e1edc9a74f5e52d8cf46310d5a2e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 19/27] fix: times with decimal places keep them when the 24ms
 offset of old versions meets zero

---
 src/helper/mod.rs                | 17 +++++++++++++++++
 src/osu_file/hitobjects/mod.rs   |  8 ++++----
 src/osu_file/timingpoints/mod.rs |  6 +++---
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/helper/mod.rs b/src/helper/mod.rs
index 56870af..b664d1a 100644
--- a/src/helper/mod.rs
+++ b/src/helper/mod.rs
@@ -3,6 +3,7 @@ pub mod trait_ext;
 
 use std::num::ParseIntError;
 
+use rust_decimal::Decimal;
 use thiserror::Error;
 
 use crate::osu_file::{Version, VersionedToString};
@@ -23,6 +24,22 @@ pub fn newline_count(s: &str) -> usize {
     s.matches('\n').count()
 }
 
+/// Adds decimals, keeping the number of decimal places of `value`.
+/// - Adding to a zero such as `0.0` would otherwise lose them.
+pub fn checked_add_keep_scale(value: Decimal, other: Decimal) -> Option<Decimal> {
+    let mut sum = value.checked_add(other)?;
+    sum.rescale(value.scale());
+    Some(sum)
+}
+
+/// Subtracts decimals, keeping the number of decimal places of `value`.
+/// - Subtracting from a zero such as `0.0` would otherwise lose them.
+pub fn saturating_sub_keep_scale(value: Decimal, other: Decimal) -> Decimal {
+    let mut difference = value.saturating_sub(other);
+    difference.rescale(value.scale());
+    difference
+}
+
 pub fn nth_bit_state_i64(value: i64, nth_bit: u8) -> bool {
     value >> nth_bit & 1 == 1
 }
diff --git a/src/osu_file/hitobjects/mod.rs b/src/osu_file/hitobjects/mod.rs
index f1f8a6d..897506a 100644
--- a/src/osu_file/hitobjects/mod.rs
+++ b/src/osu_file/hitobjects/mod.rs
@@ -168,7 +168,7 @@ const OLD_VERSION_TIME_OFFSET: rust_decimal::Decimal = dec!(24);
 fn add_old_version_offset(mut time: Decimal, version: Version) -> Option<Decimal> {
     if (3..=4).contains(&version) {
         if let Either::Left(value) = time.get_mut() {
-            *value = value.checked_add(OLD_VERSION_TIME_OFFSET)?;
+            *value = checked_add_keep_scale(*value, OLD_VERSION_TIME_OFFSET)?;
         }
     }
 
@@ -449,7 +449,7 @@ impl VersionedToString for HitObject {
             self.position.y.to_string(),
             if (3..=4).contains(&version) {
                 match self.time.get() {
-                    Either::Left(value) => value.saturating_sub(OLD_VERSION_TIME_OFFSET).to_string(),
+                    Either::Left(value) => saturating_sub_keep_scale(*value, OLD_VERSION_TIME_OFFSET).to_string(),
                     Either::Right(value) => value.to_string(),
                 }
             } else {
@@ -515,7 +515,7 @@ impl VersionedToString for HitObject {
             HitObjectParams::Spinner { end_time } => {
                 properties.push(if (3..=4).contains(&version) {
                     match end_time.get() {
-                        Either::Left(value) => value.saturating_sub(OLD_VERSION_TIME_OFFSET).to_string(),
+                        Either::Left(value) => saturating_sub_keep_scale(*value, OLD_VERSION_TIME_OFFSET).to_string(),
                         Either::Right(value) => value.to_string(),
                     }
                 } else {
@@ -525,7 +525,7 @@ impl VersionedToString for HitObject {
             HitObjectParams::OsuManiaHold { end_time } => {
                 properties.push(if (3..=4).contains(&version) {
                     match end_time.get() {
-                        Either::Left(value) => value.saturating_sub(OLD_VERSION_TIME_OFFSET).to_string(),
+                        Either::Left(value) => saturating_sub_keep_scale(*value, OLD_VERSION_TIME_OFFSET).to_string(),
                         Either::Right(value) => value.to_string(),
                     }
                 } else {
diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index 085fe2a..599e43e 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -12,7 +12,7 @@ use nom::{
 };
 use rust_decimal_macros::dec;
 
-use crate::{helper::parse_zero_one_bool, parsers::*};
+use crate::{helper::*, parsers::*};
 
 use super::{
     Error, Integer, Version, VersionedDefault, VersionedFrom, VersionedFromStr, VersionedToString,
@@ -283,7 +283,7 @@ impl VersionedFromStr for TimingPoint {
                 map_opt(comma_field_type(), |mut t: Decimal| {
                     if (3..=4).contains(&version) {
                         if let Either::Left(value) = t.get_mut() {
-                            *value = value.checked_add(OLD_VERSION_TIME_OFFSET)?;
+                            *value = checked_add_keep_scale(*value, OLD_VERSION_TIME_OFFSET)?;
                         }
                     }
 
@@ -445,7 +445,7 @@ impl VersionedToString for TimingPoint {
         let mut fields = vec![
             if (3..=4).contains(&version) {
                 match self.time.get() {
-                    Either::Left(value) => value.saturating_sub(OLD_VERSION_TIME_OFFSET).to_string(),
+                    Either::Left(value) => saturating_sub_keep_scale(*value, OLD_VERSION_TIME_OFFSET).to_string(),
                     Either::Right(value) => value.to_string(),
                 }
             } else {
-- 
2.43.0


From fbed5f9f77d120aff2ba9fce188177d30cfa7369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:05 +0000
Subject: [PATCH 20/27] fix: reject an unknown loop type of an animation
 instead of panicking

---
 src/osu_file/events/storyboard/sprites.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/events/storyboard/sprites.rs b/src/osu_file/events/storyboard/sprites.rs
index 81fb0dc..66814fb 100644
--- a/src/osu_file/events/storyboard/sprites.rs
+++ b/src/osu_file/events/storyboard/sprites.rs
@@ -177,6 +177,7 @@ impl VersionedFromStr for Object {
             ),
         );
         let loop_type = alt((
+            nothing().map(|_| LoopType::default(version).unwrap()),
             preceded(
                 context(ParseObjectError::MissingLoopType.into(), comma()),
                 context(
@@ -184,7 +185,6 @@ impl VersionedFromStr for Object {
                     consume_rest_versioned_type(version),
                 ),
             ),
-            nothing().map(|_| LoopType::default(version).unwrap()),
         ));
 
         let (_, object) = alt((
-- 
2.43.0


From d0ff0c571e409287d55a0fa093bb46a6bc32ae00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:24 +0000
Subject: [PATCH 21/27] fix: keep the whole file name of a hit sample when it
 contains a colon

---
 src/osu_file/hitobjects/types.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/hitobjects/types.rs b/src/osu_file/hitobjects/types.rs
index 182004d..1132084 100644
--- a/src/osu_file/hitobjects/types.rs
+++ b/src/osu_file/hitobjects/types.rs
@@ -5,7 +5,7 @@ use std::num::{NonZeroUsize, ParseIntError};
 use nom::{
     branch::alt,
     bytes::complete::{tag, take_while},
-    combinator::map_res,
+    combinator::{map_res, rest},
     error::context,
     sequence::{preceded, terminated, tuple},
     Parser,
@@ -567,7 +567,8 @@ impl VersionedFromStr for HitSample {
                             ParseHitSampleError::MissingSeparator.into(),
                             field_separator(),
                         ),
-                        field().map(Some),
+                        // the last field, a colon in it is part of the name
+                        rest.map(Some),
                     ),
                 )),
             ))
-- 
2.43.0


From 323d2982499e7ac072a36903fd8167db4edede37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:28 +0000
Subject: [PATCH 22/27] fix: osu_str_trimmer also trims the whitespace next to
 a byte order mark

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0bc5ac2..937111c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -63,7 +63,7 @@ pub fn osu_str_trimmer(s: &str) -> String {
         };
 
     for line in s.lines() {
-        let line = line.trim().replace('\u{feff}', "");
+        let line = line.replace('\u{feff}', "").trim().to_string();
 
         if line.is_empty() {
             continue;
-- 
2.43.0


From 6f9ba280a0ca1729f55edcdb48aa7f16968ec6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:23 +0000
Subject: [PATCH 23/27] fix: use storyboard variables when printing the
 commands of backgrounds and videos

---
 src/osu_file/events/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index d8f5a5f..0628b5f 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -334,8 +334,8 @@ impl Event {
     pub fn to_string_variables(&self, version: Version, variables: &[Variable]) -> Option<String> {
         match self {
             Event::Comment(comment) => Some(format!("//{comment}")),
-            Event::Background(background) => background.to_string(version),
-            Event::Video(video) => video.to_string(version),
+            Event::Background(background) => background.to_string_variables(version, variables),
+            Event::Video(video) => video.to_string_variables(version, variables),
             Event::Break(break_) => break_.to_string(version),
             Event::ColourTransformation(colour_trans) => colour_trans.to_string(version),
             Event::SpriteLegacy(sprite) => sprite.to_string_variables(version, variables),
-- 
2.43.0


From 97559b547c8f968b793790460b0907e1ca7324b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:04 +0000
Subject: [PATCH 24/27] fix: name the Metadata section in the error for an
 unknown key

---
 src/osu_file/metadata/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/metadata/error.rs b/src/osu_file/metadata/error.rs
index a014604..1e17ce3 100644
--- a/src/osu_file/metadata/error.rs
+++ b/src/osu_file/metadata/error.rs
@@ -18,7 +18,7 @@ pub enum ParseError {
     #[error("Invalid colon set, expected format of `key: value`")]
     InvalidColonSet,
     /// Invalid key name was used.
-    #[error("The key doesn't exist in `General`")]
+    #[error("The key doesn't exist in `Metadata`")]
     InvalidKey,
 }
 
-- 
2.43.0


From 8ace8f297a683a8152e7496d31ef46c10048640a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 25/27] fix: expect an indentation that exists in the error of
 a command nested too deep

---
 src/osu_file/events/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index 0628b5f..e12c3f0 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -477,7 +477,7 @@ pub trait EventWithCommands {
                             Some(sub_cmd) => sub_cmd,
                             None => {
                                 return Err(CommandPushError::InvalidIndentation(
-                                    i - 1,
+                                    i + 1,
                                     indentation,
                                 ))
                             }
-- 
2.43.0


From 786f0e846e3285314069dfee2454763e51015b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:55 +0000
Subject: [PATCH 26/27] fix: refuse a command pushed with no indentation
 instead of panicking

---
 src/osu_file/events/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index e12c3f0..7713eba 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -457,6 +457,8 @@ pub trait EventWithCommands {
             // first match no loop required
             self.commands_mut().push(cmd);
             Ok(())
+        } else if indentation == 0 {
+            Err(CommandPushError::InvalidIndentation(1, indentation))
         } else {
             let mut last_cmd = match self.commands_mut().last_mut() {
                 Some(last_cmd) => last_cmd,
-- 
2.43.0


From cf362b5f80a40665bee0d514bd0aad574e114ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:59 +0000
Subject: [PATCH 27/27] fix: print the commands of legacy sprites, animations
 and samples on their own

---
 src/osu_file/events/normal_event/mod.rs | 37 +++++++++++++------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/osu_file/events/normal_event/mod.rs b/src/osu_file/events/normal_event/mod.rs
index 2ad81a3..11873fb 100644
--- a/src/osu_file/events/normal_event/mod.rs
+++ b/src/osu_file/events/normal_event/mod.rs
@@ -411,8 +411,8 @@ impl VersionedFromStr for SpriteLegacy {
     }
 }
 
-impl VersionedToString for SpriteLegacy {
-    fn to_string(&self, version: Version) -> Option<String> {
+impl EventWithCommands for SpriteLegacy {
+    fn to_string_cmd(&self, version: Version) -> Option<String> {
         Some(format!(
             "{SPRITE_LEGACY_HEADER},{},{},{}{}",
             self.layer.to_string(version).unwrap(),
@@ -421,9 +421,7 @@ impl VersionedToString for SpriteLegacy {
             position_str(&self.position),
         ))
     }
-}
 
-impl EventWithCommands for SpriteLegacy {
     fn commands(&self) -> &[Command] {
         &self.commands
     }
@@ -431,9 +429,11 @@ impl EventWithCommands for SpriteLegacy {
     fn commands_mut(&mut self) -> &mut Vec<Command> {
         &mut self.commands
     }
+}
 
-    fn to_string_cmd(&self, version: Version) -> Option<String> {
-        self.to_string(version)
+impl VersionedToString for SpriteLegacy {
+    fn to_string(&self, version: Version) -> Option<String> {
+        self.to_string_variables(version, &[])
     }
 }
 
@@ -493,8 +493,8 @@ impl VersionedFromStr for AnimationLegacy {
     }
 }
 
-impl VersionedToString for AnimationLegacy {
-    fn to_string(&self, version: Version) -> Option<String> {
+impl EventWithCommands for AnimationLegacy {
+    fn to_string_cmd(&self, version: Version) -> Option<String> {
         Some(format!(
             "{ANIMATION_LEGACY_HEADER},{},{},{}{}",
             self.layer.to_string(version).unwrap(),
@@ -503,17 +503,18 @@ impl VersionedToString for AnimationLegacy {
             position_str(&self.position),
         ))
     }
-}
 
-impl EventWithCommands for AnimationLegacy {
     fn commands(&self) -> &[Command] {
         &self.commands
     }
     fn commands_mut(&mut self) -> &mut Vec<Command> {
         &mut self.commands
     }
-    fn to_string_cmd(&self, version: Version) -> Option<String> {
-        self.to_string(version)
+}
+
+impl VersionedToString for AnimationLegacy {
+    fn to_string(&self, version: Version) -> Option<String> {
+        self.to_string_variables(version, &[])
     }
 }
 
@@ -579,8 +580,8 @@ impl VersionedFromStr for SampleLegacy {
     }
 }
 
-impl VersionedToString for SampleLegacy {
-    fn to_string(&self, version: Version) -> Option<String> {
+impl EventWithCommands for SampleLegacy {
+    fn to_string_cmd(&self, version: Version) -> Option<String> {
         Some(format!(
             "{SAMPLE_LEGACY_HEADER},{},{},{}{}",
             self.time,
@@ -591,9 +592,7 @@ impl VersionedToString for SampleLegacy {
                 .unwrap_or_default(),
         ))
     }
-}
 
-impl EventWithCommands for SampleLegacy {
     fn commands(&self) -> &[Command] {
         &self.commands
     }
@@ -601,8 +600,10 @@ impl EventWithCommands for SampleLegacy {
     fn commands_mut(&mut self) -> &mut Vec<Command> {
         &mut self.commands
     }
+}
 
-    fn to_string_cmd(&self, version: Version) -> Option<String> {
-        self.to_string(version)
+impl VersionedToString for SampleLegacy {
+    fn to_string(&self, version: Version) -> Option<String> {
+        self.to_string_variables(version, &[])
     }
 }
-- 
2.43.0

