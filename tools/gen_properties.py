#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["public parse and print functions of the crate"]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

S="src/osu_file/"
p("C01","No text makes reading or printing panic or hang",
  "For every text and every file version from 3 to 14, reading it as an .osu file, an .osb file, a single section or a single record returns a value or an error. Printing whatever was accepted, at any of these versions, returns too. Neither ever panics, overflows a number or loops forever.",
  ["inputs","configurations"],"every text, every version 3..14, every parser and printer of the crate",
  "The tests parse a few dozen well-formed files and a handful of broken lines; a panic hides in one odd field value, byte position or empty section.",
  ["src/parsers.rs","src/helper/macros.rs",S+"mod.rs",S+"events/mod.rs",S+"hitobjects/mod.rs",S+"timingpoints/mod.rs"],
  [("nom errors converted to typed errors by context","src/helper/macros.rs verbose_error_to_error"),("checked arithmetic on the old-version offset",S+"hitobjects/mod.rs, "+S+"timingpoints/mod.rs")])
p("C02","What was printed is accepted again and prints identically",
  "Whenever a text is accepted at a version, the text printed from it at that version is accepted at that version as well. Reading that printed text and printing it once more gives exactly the same text again.",
  ["inputs","configurations"],"every accepted text of every section and file kind, every version 3..14",
  "Tests compare printed output with a few files; the law has to hold for every accepted text, also for ones that are not in the library's own layout.",
  [S+"mod.rs",S+"hitobjects/mod.rs",S+"timingpoints/mod.rs",S+"events/mod.rs",S+"types.rs"],
  [("printers mirror the parsers field by field","VersionedToString / VersionedFromStr implementations")])
p("C03","A file in the library's own layout survives reading and printing unchanged",
  "An .osu file that is already in the layout the library prints for its version (sections and keys in the library's order, canonical numbers and separators) is printed back byte for byte after being read. The same holds for a canonical .osb file at version 14.",
  ["inputs","configurations"],"every canonical document over all sections, record kinds and versions 3..14",
  "The tests only read back some real beatmaps, mostly through a comparison helper that ignores spacing and order.",
  [S+"mod.rs",S+"osb/mod.rs"],[("section by section printing",S+"mod.rs Display for OsuFile"),("osb printing",S+"osb/mod.rs to_string")])
p("C04","An error names the line that is wrong",
  "When exactly one line of a file is malformed, the returned error carries the zero-based index of that line in the text that was given, however many blank lines, comments, sections and records come before it. This holds for .osu files, .osb files and sections parsed on their own.",
  ["inputs","configurations"],"every position of the bad line, every kind of malformed line, every layout before it, LF and CRLF",
  "Existing tests pin the line number of seven files; off-by-one errors depend on the combination of blank lines and section boundaries before the error.",
  [S+"mod.rs",S+"osb/mod.rs",S+"types.rs","src/helper/macros.rs",S+"events/mod.rs"],
  [("line counting over sections",S+"mod.rs from_str line_number"),("line counting inside key-value sections","src/helper/macros.rs general_section_inner")],
  observe=["line_index() of the returned error"])
p("C05","Every section is found by its header and no line is silently dropped",
  "The sections of a file may stand in any order and each is read as the section its header names; a section that is absent stays absent and one with no lines is present and empty. A text is rejected when a section is unknown or appears twice, when a header is malformed, when text precedes the first section, or when the version line is missing or not one of 3 to 14.",
  ["inputs","configurations"],"every set and order of sections, every spacing between them, every wrong header and version line",
  "Tests use files with the usual order of sections only.",
  [S+"mod.rs",S+"osb/mod.rs","src/parsers.rs"],[("square_section splitter","src/parsers.rs"),("duplicate and unknown section checks",S+"mod.rs")])
p("C06","Each key of a key-value section sets exactly its own field",
  "In the General, Editor, Metadata and Difficulty sections every key sets its own field to the value written after the colon and no other, in whatever order the lines come. Keys that are absent leave their field unset, spacing after the colon does not matter, and an unknown key, a repeated key, a line without a colon or a value of the wrong type is an error.",
  ["inputs","configurations"],"every key, every value of its type, every subset and order of keys, every version",
  "Tests parse one complete section of each kind at version 14.",
  ["src/helper/macros.rs","src/parsers.rs",S+"general/mod.rs",S+"editor/mod.rs",S+"metadata/mod.rs",S+"difficulty/mod.rs"],
  [("table of fields per section","src/helper/macros.rs general_section"),("key: value splitter","src/parsers.rs get_colon_field_value_lines")])
p("C07","Fields that a version does not have are neither read nor printed for it",
  "Reading: countdown needs version 5, the general sample set version 4, the overlay position version 14, the colours section version 5, the taiko, catch and mania modes versions 5, 7 and 10, a storyboard (.osb) version 14; below that the value comes out absent. Printing: those (except the mode) are left out below the same version, the audio hash from version 14 on, the general section's bookmarks and distance spacing from version 6 on, the editor's current time at every version but 10, colour transformations at version 14, hit samples below version 10; all other fields do not depend on the version.",
  ["inputs","configurations"],"every key, event and section, every pair of reading and printing version",
  "Tests exercise a few version and field combinations out of hundreds.",
  [S+"general/types.rs",S+"general/mod.rs",S+"editor/mod.rs",S+"colours/mod.rs",S+"osb/mod.rs",S+"events/normal_event/mod.rs",S+"hitobjects/types.rs"],
  [("per-field version matches",S+"general/types.rs")])
p("C08","Versions 3 and 4 store times 24 ms early, and nothing else is shifted",
  "When a file of version 3 or 4 is read, 24 is added to every hit object time, spinner and hold end time, timing point time and video, break and colour transformation time, and printing for these versions subtracts 24 again. Every other number (background and legacy sample times, storyboard command and audio sample times, positions, lengths, beat lengths) and every other version is left as written.",
  ["inputs","configurations"],"every timed record kind, every time value including the extremes and fractions, every pair of versions",
  "Tests read two old files; whether one kind of record misses or doubles the shift for some version pair is not observed.",
  [S+"hitobjects/mod.rs",S+"timingpoints/mod.rs",S+"events/normal_event/mod.rs",S+"events/normal_event/parsers.rs"],
  [("OLD_VERSION_TIME_OFFSET",S+"hitobjects/mod.rs, "+S+"timingpoints/mod.rs, "+S+"events/mod.rs")])
p("C09","A hit object line decodes to the position, time, kind and flags it spells",
  "For every hit object line the position, time, new-combo flag, combo skip count, hit sound flags and kind (circle, slider, spinner, hold, with its end time) read from it are the ones written in its fields. The type number contributes the kind by its bits 0, 1, 3 and 7 (in this order of precedence), new combo by bit 2 and the skip count by bits 4 to 6, and printing the object writes the same fields back with the type number rebuilt from them.",
  ["inputs","configurations"],"every type number 0..255 and beyond, every hit sound number, every value of each field, every version",
  "Tests decode three hit objects.",
  [S+"hitobjects/mod.rs",S+"hitobjects/types.rs"],[("bit decoding",S+"hitobjects/mod.rs from_str"),("type_to_string",S+"hitobjects/mod.rs")])
p("C10","A slider line decodes to the curve, slides, length and edges it spells",
  "For every slider line the curve type, the curve points in order, the slide count, the length, the edge sounds and the edge sample sets read from it are the ones written, for every number of curve points and edges including none. Printing writes them back in the same order, and in version 3 the first curve point is the slider's own position, which is not part of the curve points.",
  ["inputs","configurations"],"every curve type, every list length up to the bound, every coordinate and edge value, every trailing part present or absent, every version",
  "Tests decode two sliders.",
  [S+"hitobjects/mod.rs",S+"hitobjects/types.rs","src/parsers.rs"],[("slider parser",S+"hitobjects/mod.rs"),("pipe separated lists","src/parsers.rs pipe_vec_versioned_map, src/helper/mod.rs pipe_vec_to_string")])
p("C11","A hit sample decodes to the fields it spells, with defaults for missing ones",
  "For every hit sample on a circle, slider, spinner or hold, the normal set, addition set, index, volume and file name are the ones written, trailing fields that are left out take their defaults (no custom set, timing point index and volume, no file name), and a missing hit sample is reported as absent. Printing writes all five fields from version 12 on, the first three in versions 10 and 11 and none before.",
  ["inputs","configurations"],"every subset of trailing fields, every value of each field, every object kind, every version",
  "Tests decode hit samples in their complete form only.",
  [S+"hitobjects/types.rs",S+"hitobjects/mod.rs"],[("HitSample parser and printer",S+"hitobjects/types.rs")])
p("C12","A timing point line decodes to the fields it spells, defaults for missing ones",
  "For every timing point line the time, beat length, meter, sample set, sample index, volume, uninherited flag and effects are the ones written; fields an old version does not have take their defaults (meter 4, normal sample set, index 1, volume 100, uninherited, no effects). Printing writes the fields the target version has, in the same order and with the same values.",
  ["inputs","configurations"],"every number of fields, every value of each field, every effects bit pattern, every version",
  "Tests decode two timing points at version 14 and compare a few files.",
  [S+"timingpoints/mod.rs",S+"timingpoints/types.rs"],[("field parser with fallbacks",S+"timingpoints/mod.rs from_str"),("to_string",S+"timingpoints/mod.rs")])
p("C13","BPM and slider velocity follow from the beat length",
  "The BPM of an uninherited timing point is 60000 divided by its beat length, and the slider velocity of an inherited one is -100 divided by its beat length, up to decimal rounding; the other of the two is absent, and so is either when the beat length is no number or zero. Building a timing point from a velocity or a beat duration and asking for it again gives the value it was built from, up to rounding.",
  ["inputs"],"every beat length, both kinds of timing point, every way to build one",
  "No existing test calls these functions.",
  [S+"timingpoints/mod.rs"],[("calc_bpm, calc_slider_velocity_multiplier, new_inherited, new_uninherited",S+"timingpoints/mod.rs")])
p("C14","An event line decodes to the event and the fields it spells",
  "Background, video, break, colour transformation, legacy sprite, legacy animation, legacy sample, audio sample and comment lines are read as that kind of event with the times, layers, origins, file names, positions, colours and volumes written in them, optional trailing fields taking their defaults. Printing gives the same line again, including whether the event name or its number was used.",
  ["inputs","configurations"],"every event kind, every spelling, every optional part, every value of each field, every version",
  "Tests decode four event lines.",
  [S+"events/mod.rs",S+"events/normal_event/mod.rs",S+"events/normal_event/types.rs",S+"events/audio_sample/mod.rs"],
  [("event dispatch by header",S+"events/mod.rs"),("one parser per event",S+"events/normal_event/mod.rs")])
p("C15","Storyboard commands attach to the object and depth their indentation says",
  "A command line is attached to the last event before it, at the depth given by its number of leading spaces or underscores: one for the event itself, one more for each loop or trigger it is nested in, always the last one opened. Commands keep their order and printing reproduces the nesting; a command whose indentation has no matching loop or trigger, or which follows no event that takes commands, is an error on its line that tells the one from the other, the former with the number of spaces and one that would have been accepted. Pushing commands through the interface obeys the same rules and never panics.",
  ["inputs","histories"],"every sequence of events and commands with every indentation up to the bounds",
  "Tests cover one nesting of a loop and a trigger.",
  [S+"events/mod.rs"],[("try_push_cmd",S+"events/mod.rs"),("commands_to_string_variables stack",S+"events/mod.rs")],
  state=[("command tree","commands of an event and, recursively, of its loops and triggers",S+"events/storyboard/cmds/mod.rs")])
p("C16","Storyboard objects and commands decode to the fields they spell",
  "Every sprite, animation and storyboard command line (fade, move, move x, move y, scale, vector scale, rotate, colour, parameter, loop, trigger) is read as that object or command with the layer, origin, path, position, frames, easing, start and end time, values, continuation values, loop count, trigger conditions and group number written in it; left-out times are absent. Printing gives the same line again.",
  ["inputs","configurations"],"every command kind, every easing, every presence pattern of the times, every number of continuation values up to the bound, every trigger condition",
  "Tests decode about a dozen commands with ordinary values.",
  [S+"events/storyboard/cmds/mod.rs",S+"events/storyboard/types.rs",S+"events/storyboard/sprites.rs"],
  [("command parser and printer",S+"events/storyboard/cmds/mod.rs"),("trigger types",S+"events/storyboard/types.rs")])
p("C17","Storyboard variables are expanded on reading and put back on printing",
  "In an .osb file every use of a defined variable in a command reads exactly as if its value had been written there, with several variables and several uses per line, and lines without variables are unaffected. The printed .osb file defines the same variables in the same order, has each of them wherever it was used in a command as long as its value stands nowhere else in one, and reads back to the same events.",
  ["inputs"],"every set of variable definitions up to the bound, including names that are prefixes of each other, values that contain other names, empty values and unused ones",
  "Tests read two files with colour variables of equal length that never overlap.",
  [S+"osb/mod.rs",S+"osb/types.rs",S+"events/mod.rs",S+"events/storyboard/cmds/mod.rs"],
  [("expansion while reading",S+"events/mod.rs"),("replacement while printing",S+"events/storyboard/cmds/mod.rs to_string_variables")])
p("C18","Colour lines decode to the colours they spell",
  "Every combo colour with its number, slider track override and slider border line is read with its red, green and blue values from 0 to 255, in the order of the lines and with any spacing around the colon and the numbers. Printing gives one line per colour with the same values, and a component outside 0 to 255, a missing component or an unknown name is an error.",
  ["inputs","configurations"],"every colour kind, combo number and component value, every list of lines, every version",
  "Tests decode one list of four colours.",
  [S+"colours/mod.rs",S+"colours/types.rs"],[("colour parser",S+"colours/mod.rs")])
p("C19","Numbers are kept exactly as written",
  "A decimal field keeps its value exactly: a canonical decimal of up to 28 digits is printed with the same digits and scale, and text that is no decimal number is kept and printed verbatim. An integer field keeps every value of its type, from the smallest to the largest, and rejects values outside it.",
  ["inputs"],"every decimal field and integer field of every section, every canonical number, every non-number",
  "Tests use ordinary small numbers.",
  [S+"types.rs",S+"difficulty/mod.rs",S+"hitobjects/mod.rs",S+"timingpoints/mod.rs"],[("Decimal wrapper",S+"types.rs")])
p("C20","Line endings, a byte order mark and blank lines do not change what is read",
  "A file reads to the same value whether its lines end in LF or CRLF, whether it starts with a byte order mark or blank lines, whether it ends with a line ending, and however many blank lines stand between its records, sections and headers.",
  ["inputs","configurations"],"every placement of blank lines and every line ending style over every kind of section, every version",
  "Tests read each file in one form only.",
  [S+"mod.rs",S+"osb/mod.rs","src/parsers.rs","src/helper/macros.rs"],[("whitespace handling around headers","src/parsers.rs square_section"),("lines() in list sections",S+"events/mod.rs and others")])
p("C21","A malformed record is rejected, never read as something else",
  "A record in which a required field is missing, or a field holds text that is not of its type or not one of the values it may have, is an error for its whole file; no other value is made up for it and the line is not skipped.",
  ["inputs","configurations"],"every record kind, every field of it removed or replaced by every invalid token, every version",
  "Tests pin the errors of about forty lines, mostly storyboard commands.",
  [S+"hitobjects/mod.rs",S+"timingpoints/mod.rs",S+"colours/mod.rs",S+"events/mod.rs",S+"events/storyboard/cmds/mod.rs",S+"events/normal_event/mod.rs",S+"general/mod.rs"],
  [("typed field parsers with context errors","error.rs of each module")])
p("C22","Lists keep their order and their elements do not influence each other",
  "Hit objects, timing points, colours and events are read and printed in the order of their lines, one element per line whatever the length of the list, duplicates included. What is read from a line does not depend on the lines before or after it, except that storyboard commands attach to their event.",
  ["inputs","histories"],"every sequence of records up to the bound, every record kind as neighbour of every other, list lengths up to several hundred",
  "Tests use fixed lists.",
  [S+"hitobjects/mod.rs",S+"timingpoints/mod.rs",S+"colours/mod.rs",S+"events/mod.rs"],[("per-line loops","from_str of each list section")])
p("C23","Attaching a storyboard changes the storyboard only",
  "Attaching an .osb text to a read .osu file replaces any storyboard attached before and leaves every other part of it and its printed .osu text unchanged; if the .osb text is rejected nothing changes at all. Reading an .osu file never produces a storyboard, and the storyboard is printed only by asking for it.",
  ["inputs","histories"],"every sequence of attachments of good, bad and empty texts up to the bound, every version",
  "Tests attach one storyboard to one file.",
  [S+"mod.rs",S+"osb/mod.rs"],[("append_osb, osb_to_string",S+"mod.rs")],
  state=[("osb","the attached storyboard",S+"mod.rs OsuFile")])
p("C24","Constructors and setters accept exactly the legal values",
  "Values with a restricted range (hit sample volume 1 to 100, audio sample volume 0 to 100, combo skip count 0 to 7, continuation lists in which only the last entry may be incomplete, relative sprite paths) can be built or changed to every legal value and to no other; a refused change leaves the value as it was and returns an error, which for continuation lists names the component that is missing or says that the index is out of bounds. A setter changes the part it names and nothing else, and appending to a continuation list never panics and fills in an incomplete last entry with the preceding values.",
  ["inputs","histories"],"every sequence of constructor, setter and push calls up to the bound with every argument of the small domains",
  "No existing test calls most of these functions.",
  [S+"hitobjects/types.rs",S+"events/audio_sample/mod.rs",S+"events/storyboard/cmds/types.rs",S+"timingpoints/types.rs",S+"timingpoints/mod.rs",S+"events/storyboard/sprites.rs"],
  [("range checks",S+"hitobjects/types.rs and others")])
p("C25","The comparison helper calls two texts equal exactly when only layout differs",
  "Two osu texts compare equal when they differ only in blank lines, surrounding whitespace of lines, byte order marks, spacing around the colon of a key, the order of the keys of a section, or what stands between the version line and the first section. They compare different as soon as a version, header, key, value, record or the order of records in a list section differs.",
  ["inputs"],"every pair of an original text and an edited one, over every single edit at every position",
  "The helper is only used by the tests on equal texts, so a helper that calls everything equal would pass.",
  ["src/lib.rs"],[("osu_str_trimmer",   "src/lib.rs")])
p("C26","Converting to another version keeps everything that version can hold",
  "A file read at one version and printed at another, then read at that version, has the same value in every field and record that both versions have, including times; fields the target version lacks are dropped or take their defaults and cause no error. Converting twice to the same version changes nothing more.",
  ["inputs","configurations"],"every pair of versions 3..14, every record kind and optional part",
  "Tests convert one file from version 3 to 14.",
  [S+"mod.rs",S+"hitobjects/mod.rs",S+"timingpoints/mod.rs",S+"general/types.rs"],[("version parameter of every printer and parser","VersionedToString / VersionedFromStr")])
p("C27","Default values and number codes are the documented ones",
  "A new or default file, section or record is empty or holds the documented default for its version, prints to text that reads back to it, and a field that the version lacks has no default. The number codes of modes, countdowns, layers, origins, sample sets, sample indices, easings, effects and hit sounds convert to their names and back without loss, and numbers without a name are rejected or kept as they are.",
  ["inputs","configurations"],"every default at every version, every code number over the whole small range and the extremes",
  "Tests do not compare defaults or codes with the documentation.",
  [S+"general/mod.rs",S+"general/types.rs",S+"events/storyboard/types.rs",S+"events/normal_event/types.rs",S+"timingpoints/types.rs",S+"hitobjects/types.rs",S+"hitobjects/mod.rs"],
  [("VersionedDefault, VersionedFrom, VersionedTryFrom, VersionedFromRepr","src/osu_file/types.rs and implementations")])
p("C28","Error messages show the one-based line number and the text of the line",
  "The message of an error starts with the number of the failing line counted from one and ends with the cause; the long form also shows that line of the given text verbatim, and an empty line when the text has no such line. Converting an error to another error type or moving it down by a number of lines keeps the cause and shifts the line by exactly that number.",
  ["inputs"],"every text and line number up to the bound, every error produced by the malformed records",
  "Tests compare the rendered message of a few errors.",
  [S+"types.rs"],[("Error Display, display_error_with_line, processing_line",S+"types.rs")])
p("C29","What was changed through the interface is what is printed and read back",
  "Whatever sequence of changes is made to the public fields and lists of a value that was read, a section, record, key or flag ends up exactly as it was set and everything else stays as it was. Printing the changed value and reading it again gives the changed value, as far as the format at its version can hold it.",
  ["histories","inputs","configurations"],"every sequence of edits up to the depth, over every public field, list and section, started from full, empty and new files at versions 3..14",
  "The tests only print values they just read; an edited value takes the paths on which hidden state of the parser, such as shorthand flags, no longer fits.",
  [S+"mod.rs",S+"hitobjects/mod.rs",S+"hitobjects/types.rs",S+"timingpoints/mod.rs",S+"events/mod.rs",S+"events/storyboard/cmds/mod.rs","src/helper/macros.rs"],
  [("printers read public fields and the flags left by the parser","VersionedToString implementations"),("setters",S+"timingpoints/mod.rs, "+S+"hitobjects/types.rs")],
  observe=["OsuFile Display, osb_to_string, public fields and accessors"])
p("C30","The error for a malformed record names the field at fault",
  "When a field of a timing point, colour, event, storyboard command or hit object holds an invalid value, the message of the error says Invalid or Unknown and names that field; when the record ends too early, it says Missing and names the first field that is not there. Curve points and edges of sliders, and lines whose first field is no known name followed by a comma, are left out, and a free-text field that is empty may count as present.",
  ["inputs"],"every field of every kind of record, every invalid token, every point at which a record can end, alone, twice and among other records",
  "Tests check the kind of an error for a few fields; a swapped context or a wrong error variant stays unseen while malformed records are still rejected.",
  [S+"hitobjects/mod.rs",S+"hitobjects/error.rs",S+"timingpoints/mod.rs",S+"timingpoints/error.rs",S+"colours/mod.rs",S+"colours/error.rs",S+"events/mod.rs",S+"events/storyboard/cmds/mod.rs",S+"events/storyboard/cmds/error.rs"],
  [("context of each parser combinator and the error enums","nom context names converted by FromStr of the error enums, src/helper/macros.rs verbose_error_to_error")])
p("C31","Free text is kept character by character, at any length",
  "Titles, names, tags, file names, comments, hit sample files, variable names and values, and fields for numbers that hold no number keep every character of the text between the separators of the record, whatever its length, when they are read and when they are printed; only a file name of an event that contains a space is printed in quotes. White space at the ends of a field and line breaks are left out.",
  ["inputs"],"every character of Unicode at every place of every text field, every pair of ASCII characters, every short sequence of special words, every length up to the bound",
  "Tests read a few ordinary texts; a character with a meaning elsewhere in the format, a rare one or a long text is not among them.",
  ["src/parsers.rs","src/helper/macros.rs",S+"types.rs",S+"general/mod.rs",S+"metadata/mod.rs",S+"events/mod.rs",S+"events/normal_event/mod.rs",S+"events/storyboard/types.rs",S+"hitobjects/types.rs",S+"osb/types.rs"],
  [("take_while / take_till of the field separators","src/parsers.rs"),("Decimal and FilePath from text",S+"types.rs")])
p("C32","A call's result depends on its arguments only, not on earlier calls",
  "Reading a text at a version gives the same value or the same error, and printing a value at a version gives the same text, whatever was read or printed before in the same process, however often, in whichever thread and at whichever versions. A value that was read stays as it is while other texts are read.",
  ["inputs","histories"],"every history of calls up to the bound over records of every kind, sound and malformed, and every pair of versions, each in a fresh process",
  "Tests make a few calls in an order that does not matter to them; a cache, counter or default that one call leaves behind shows only after a particular other call.",
  ["src/parsers.rs","src/helper/macros.rs",S+"mod.rs",S+"types.rs",S+"events/mod.rs",S+"osb/mod.rs"],
  [("readers and printers are functions of the text, the value and the version","VersionedFromStr / VersionedToString implementations, no static or thread-local state in src")])
p("C33","Values are equal exactly when they hold the same data, then hash alike",
  "Two values of a section, file, storyboard, number, path or position compare equal when every field, record and key they hold is the same, numbers being compared by value, file paths by their components and other text character by character, and unequal as soon as one differs, whichever texts and versions they were read from. Equal values have equal hashes, != is the opposite of ==, and a copy or a second reading of the same text equals the first in every respect.",
  ["inputs"],"every pair of variants of every kind of record, at the same and at different versions, and every pair of files with a line or section left out",
  "Tests compare a read value with the expected one and would pass with an equality that overlooks a field.",
  [S+"types.rs",S+"mod.rs",S+"hitobjects/mod.rs",S+"hitobjects/types.rs",S+"timingpoints/mod.rs",S+"events/mod.rs",S+"colours/mod.rs",S+"osb/mod.rs"],
  [("PartialEq, Eq, Hash and Clone of every public value",S+"**")])
p("C34","The error for a broken file or section tells which rule is broken",
  "For .osu and .osb files the error tells apart a missing version line, a version that is not a number from 3 to 14, text before the first section, an unknown section, a repeated section, a first header without its opening bracket, a header without its closing bracket (both repeat the header), a variable without `$` and one without `=`; for key-value sections it tells apart an unknown key and a repeated key (both name the section), a line without a colon, an invalid number or list, a value that is neither 0 nor 1, and an unknown mode, countdown, sample set or overlay position. Of two faults in different sections, or in two lines that each look like a record or a key with a value, the error is the one of the first, exactly as if the second were not there.",
  ["inputs","configurations"],"every kind of fault at every place of a file or section, in every layout around it, and every pair of faults",
  "Tests pin the kind of error of a handful of files and keys; a broken file that is still rejected, but for a wrong reason, passes them.",
  [S+"mod.rs",S+"osb/mod.rs",S+"osb/error.rs",S+"osb/types.rs","src/helper/macros.rs",S+"general/error.rs",S+"general/types.rs",S+"editor/error.rs",S+"metadata/error.rs",S+"difficulty/error.rs"],
  [("errors of from_str",S+"mod.rs, "+S+"osb/mod.rs"),("errors of key-value sections","src/helper/macros.rs general_section_inner")])
p("C35","A value reads and prints the same on its own as inside its section and file",
  "Every section, record, command, variable and field that has readers and printers of its own gives through them, at every version, exactly what it gives inside the whole: the same value from the same text, the same error for a malformed record, and the same text for the same value. So a file prints its sections one after the other as they print alone, whichever others there are, a list prints its records line by line as they print alone, and a line consists of what its fields print alone. A line that one type of event reads on its own is read by no other type of event.",
  ["inputs","configurations"],"every variant of every kind of record and of every field, at every pair of versions, and every section of files in which any part varies",
  "Tests read and print either a whole file or a single value, never both, so code that treats the same text differently in the two places passes them.",
  [S+"mod.rs","src/helper/macros.rs",S+"hitobjects/mod.rs",S+"hitobjects/types.rs",S+"timingpoints/mod.rs",S+"timingpoints/types.rs",S+"colours/mod.rs",S+"colours/types.rs",S+"events/mod.rs",S+"events/normal_event/mod.rs",S+"events/storyboard/cmds/mod.rs",S+"events/storyboard/sprites.rs",S+"events/storyboard/types.rs",S+"osb/mod.rs",S+"osb/types.rs",S+"general/types.rs"],
  [("VersionedFromStr and VersionedToString of every type and their use by the type above",S+"**")])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        assert x["statement"].count(". ")<=2,x["id"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
