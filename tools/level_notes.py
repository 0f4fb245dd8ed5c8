#!/usr/bin/env python3
"""The technique and level note of every check (source of level_notes.json)."""
import json, pathlib
T = "bounded explicit-state model checking: "
SL = "stateless exploration of every path of a bounded choice tree on the real library, compared with a reference model"
BFS = "breadth-first search of every state reachable by interface calls up to a depth, model and library in lockstep"
N = {
 'C01': (SL, "Every token sequence, mutation and odd field value within the stated bounds is read as a file, section and record and, if accepted, printed at all 12 versions; no panic, overflow (overflow checks on) or hang. Texts outside the bounds are not covered."),
 'C02': (SL, "Every accepted text of the token and mutation spaces is printed, read and printed again. Bounded by the same spaces as C01."),
 'C03': (SL, "Every canonical file within the deviation bound, at every version, is read and printed and compared byte for byte with the model's text."),
 'C04': (SL, "Every placement of one malformed line in the bounded file layouts; the reported index is compared with the line that was spoiled. The known finding is recognised by its exact formula only."),
 'C05': (SL, "Every set and order of the eight sections and every malformed header, version line and leading text of the listed alphabets."),
 'C06': (SL, "Every order of the fields up to the bound, every single field with its whole value domain, every pair of fields, every malformed line of the alphabet."),
 'C07': (SL, "Every field of every section, record and file at every one of the 12 versions, read and printed."),
 'C08': (SL, "Every time field and every other number at every version with values around the offset and the limits of their type, read and printed at every pair of versions."),
 'C09': (SL, "All type numbers from 0 to 1023 and around every power of two, all hit sounds, all versions and kinds; other fields by deviation bound."),
 'C10': (SL, "All curve types, list lengths and version combinations up to the bound, values by deviation bound."),
 'C11': (SL, "All numbers of fields, kinds and versions, all volumes, values by deviation bound."),
 'C12': (SL, "All numbers of fields at all versions, values by deviation bound, every malformed field of the alphabet."),
 'C13': (SL, "Tens of thousands of beat lengths enumerated on a grid; quotients compared with independent floating point to 1e-9."),
 'C14': (SL, "Every event kind, version and optional part; values by deviation bound; every number outside a restricted range."),
 'C15': (SL, "Every sequence of events and commands at every depth up to the bound, against a model of the attachment rule; also through the push interface."),
 'C16': (SL, "Every command and object kind with every number of continuation values up to the bound, values by deviation bound, every trigger condition."),
 'C17': (SL, "Every subset of the fields of every command replaced by variables within the bound; printed storyboards are read again and compared."),
 'C18': (SL, "Every kind of colour, all 256 values of every component, every placement of spacing, every malformed line of the alphabet."),
 'C19': (SL, "Decimals with every scale from 0 to 28 and every number of digits, integers at every limit of every type, in every field."),
 'C20': (SL, "Every combination of layout changes within the bound on files of all versions; the value read has to be the one of the plain layout."),
 'C21': (SL, "Every field of every record with every token of the alphabet against an independent rule of what the field accepts, and every truncation of every record."),
 'C22': (SL, "Every list up to the length bound over the alphabets of records, long lists at every length of a ladder, every neighbour of every record."),
 'C23': (BFS, "All histories of attaching storyboards and printing up to the depth."),
 'C24': (BFS, "All histories of the mutators up to the depth or to a fixpoint, all constructor arguments within the domains."),
 'C25': (SL, "All pairs of texts made from a file by bounded layout changes or one content change; equal exactly for the former."),
 'C26': (SL, "Every pair of versions for files within the deviation bound, compared with the model's conversion."),
 'C27': (SL, "Complete enumeration: every type with a default at every version, every number code in and around its range."),
 'C28': (SL, "Every error of the malformed-file spaces and every line index up to the bound."),
 'C29': (BFS, "All sequences of edits (about 360 different ones) of length one at every version, two and three within a section, on values read from text; the model takes the same edits."),
 'C30': (SL, "Every invalid token in every named field of every kind of record, pairs of them, and every truncation, at every version; expected names come from a table of the record formats."),
 'C31': (SL, "Every Unicode character (quick tier: all below U+0300 and the blocks with spaces, marks, digits and limits) at four places of every text field, every pair of ASCII characters, every sequence of markers up to the bound, every pair of 110 special words, markers and special words in long texts, every length to 300 and around powers of two; longer combinations are not covered."),
 'C32': (SL, "Histories of two to four calls over about 690 texts of every record kind, sound and malformed, every pair of versions, every variant of a record (about 4500 over 114 kinds) followed by every other of its kind, up to 500 (thorough 3000) repetitions of one call, with calls in threads of their own; each history runs in a fresh process and every call is compared with the same call alone in a process. Calls that overlap in time in several threads are not scheduled: the crate has no shared state or synchronisation to schedule."),
 'C33': (SL, "Every pair among about 4500 variants of 114 kinds of record (thorough tier: at ten versions), and of files with every single line or section left out; spellings that hold the same value but print differently (1 and Video, 1.5 and 1.50) may compare either way."),
    'C34': (SL, "Every kind of structural fault at every header position, every invalid value of every typed key, every unknown and repeated key, and pairs of faults, in layouts within the deviation bound; messages are judged by the words that name the fault."),
    'C35': (SL, "Every variant of every record (114 kinds) and every field of it, at six (thorough tier: all) versions on each side, records and files within the deviation bound; the whole and its parts are compared with each other, which does not depend on the model."),
}
out = {k: {'technique': T + t, 'note': n + ' Trusts: the reference model in mc/src/model.rs and the view through public accessors.'} for k, (t, n) in N.items()}
out['C32'] = {'technique': 'bounded explicit-state model checking: exhaustive exploration of call histories on the real library, each in a fresh process, every call compared with the same call alone', 'note': N['C32'][1]}
pathlib.Path(__file__).with_name('level_notes.json').write_text(json.dumps(out, indent=1) + '\n')
