#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth is this table)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d["anchors"]["observe_at"] = observe or []
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(d)

p("C01", "Cards whose save was acknowledged survive any crash intact and in order",
  "When cards are saved by rendering them as vCard text to storage and a save was acknowledged (every write and the flush succeeded), then after a crash and restart at any point, reading the storage back returns every acknowledged card, in save order and equal to what was saved in every property, value, parameter and group. A save that was not acknowledged may come back whole or be missing or be reported as an error, but never comes back as a different card. This holds for every card expressible in vCard text, whatever mix of properties, long or multi-byte text, special characters and parameters it carries.",
  ["crash_points", "histories", "fault_sequences", "inputs"],
  "every history of create / save / flush / crash / recover / re-save by one or more clients, every crash point inside a write, every disk fault (short write, EINTR, ENOSPC, EIO, failed flush, lost or torn unflushed tail), every expressible card",
  "The tests render and re-read some fixed cards in memory, once each; no test writes through a failing or interrupted writer, crashes, recovers several cards from one stream, or varies content so that folding, escaping and parameters interact.",
  ["src/vcard.rs", "src/parser.rs", "src/iter.rs", "src/lib.rs", "src/parameter.rs", "src/property.rs", "src/helper.rs"],
  [("Display for Vcard, content_line, fold_line", "src/vcard.rs"), ("escape_value / unescape_value", "src/lib.rs"), ("VcardParser, parse_property_by_name", "src/parser.rs"), ("VcardIterator", "src/iter.rs"), ("Display for Parameters", "src/parameter.rs")],
  ["bytes reaching the (simulated) disk", "cards returned by iter/parse after restart"],
  [("offset", "where the iterator resumes after a card", "src/iter.rs")])

p("C02", "A torn write never passes for a complete card",
  "If stored vCard text is cut off at any byte before the end of a card's END line (crash, full disk, lost tail), no reader - strict, loose, iterating or single-card - returns a card for the cut-off text. The complete cards before the cut are still recoverable by iterating, unchanged and in order, and the cut itself is reported as an error.",
  ["crash_points", "inputs", "histories"],
  "every cut point in every stream of one or more cards, in CRLF and LF form, with or without folding, through every reader",
  "Tests check two fixed truncations, both inside the header; whether a cut at a property boundary or inside a value is noticed depends on the cut position and on the reader.",
  ["src/parser.rs", "src/iter.rs", "src/vcard.rs"],
  [("parse_properties loop and its end condition", "src/parser.rs"), ("VcardIterator::next", "src/iter.rs"), ("TryFrom<&str> for Vcard", "src/vcard.rs")],
  ["parse, parse_loose, iter, TryFrom<&str>"])

p("C03", "Failing writers are reported, get a clean prefix, and can be retried",
  "Rendering a card, property or value into a writer that fails at any point returns an error, and a writer that never fails gets success. Whatever reached the writer before the failure is a prefix of the fault-free text, the rendered card is unchanged, and rendering it again produces exactly the fault-free text. Interrupted or short writes that the writer retries, and writers that call back into the library, change nothing in the text.",
  ["fault_sequences", "schedules", "inputs"],
  "every failing write call or byte position, every sequence of short / interrupted / failing / re-entrant writes, every Display implementation the library exports, with several callers rendering the same card",
  "No test renders into anything but an in-memory String, which cannot fail.",
  ["src/vcard.rs", "src/property.rs", "src/parameter.rs", "src/helper.rs", "src/date_time.rs", "src/uri.rs"],
  [("Display for Vcard", "src/vcard.rs"), ("Display for property types and Parameters", "src/property.rs, src/parameter.rs"), ("format_* helpers mapping errors to fmt::Error", "src/helper.rs")],
  ["fmt::Write and io::Write sinks"])

p("C04", "Iterating over a damaged stream ends, and healthy cards around damage survive",
  "Iterating over any stream, however damaged, yields at most one item per line of input and then ends for good. Cards whose own lines are undamaged are all returned, equal to the originals and in order, whatever happened to the other cards in the stream; a damaged part adds at most one item for leading junk and two for every start line left in it.",
  ["fault_sequences", "inputs", "histories"],
  "every stream of cards and every sequence of storage or transport damage (flipped, lost, duplicated, zeroed or junk bytes, torn appends followed by later appends) confined to some of the cards, strict and loose",
  "Tests iterate over two well-formed cards without trailing newline and look at the first item after an error; none keeps calling after an error or after the last card of real output.",
  ["src/iter.rs", "src/parser.rs"],
  [("VcardIterator::next / parse_next", "src/iter.rs"), ("parse_one", "src/parser.rs")],
  ["items yielded by iter(source, strict)"],
  [("offset", "resume position", "src/iter.rs")])

p("C05", "Loose reading loses only the damaged property lines",
  "When property lines of a stored card are damaged and the lines that frame the card (BEGIN, VERSION, END) are not, loose reading returns the card with every undamaged property intact and in order. Each damaged line contributes exactly what it means on its own: the property that strict reading of that line alone gives, or nothing where strict reading refuses it (an unknown VALUE type aside, which loose reading ignores). A line repeated by at-least-once delivery never displaces the first value of a property that may occur only once.",
  ["fault_sequences", "inputs"],
  "every card, every subset of its property lines damaged by byte flips, lost bytes, junk names, junk parameters, junk values, truncated, duplicated or reordered lines",
  "One fixed test repeats KIND once; damage in names, parameters, quoting or at other positions takes other paths.",
  ["src/parser.rs", "src/lib.rs"],
  [("parse_properties strict flag", "src/parser.rs"), ("parse_loose", "src/lib.rs")],
  ["parse_loose, iter(source, false)"])

p("C06", "Reading and writing cards never depends on the clock",
  "Parsing any card, date, time or timestamp and rendering any card gives the same result whatever the system clock reads, however it jumps during the call and even when it is stopped, before 1970 or beyond the representable range. Only the explicit request for the current time reads the clock, and it returns the instant the clock showed, in UTC.",
  ["fault_sequences", "schedules", "inputs"],
  "every clock reading and every sequence of clock jumps between two readings, every date, time and timestamp form in every property that takes one",
  "Tests run under the real clock, at today's date only; a component filled in from the current time agrees with the expectation on most days.",
  ["src/helper.rs", "src/date_time.rs", "src/property.rs", "src/parser.rs"],
  [("parse_date_time, parse_timestamp", "src/helper.rs"), ("DateTime::now_utc", "src/date_time.rs")],
  ["parse_* helpers, parse, Display"])

p("C07", "Concurrent and re-entrant callers never disturb each other",
  "Any number of threads parsing, iterating, cloning, editing, rendering and dropping cards, including shared ones, get exactly the results each would get alone, under every interleaving and every seed of the process's hash randomness. A call made from inside another call (a writer that parses or renders while being written to) behaves the same way. No interleaving blocks forever.",
  ["schedules", "histories", "inputs"],
  "every interleaving of the callers at allocation, write, clock, entropy and lock points, at every edge of the library's control flow and at its accesses to statics, every per-thread history of operations, every entropy value",
  "Tests are single threaded and never share a card; a cache, static or thread-local introduced anywhere in the parser or renderer is invisible to them.",
  ["src/lib.rs", "src/parser.rs", "src/vcard.rs", "src/iter.rs", "src/helper.rs", "src/property.rs", "src/parameter.rs"],
  [("absence of shared mutable state (forbid(unsafe_code), owned values, &self rendering)", "src/lib.rs"), ("per-call lexer, automata and format descriptions", "src/parser.rs, src/lib.rs, src/helper.rs")],
  ["return values of every public call, per thread"])

p("C08", "Dropping a card wipes its private data from memory",
  "With the default zeroize feature, once a card is dropped no memory block that held its text is returned to the allocator with any of it left: names, notes, addresses, parameter values, groups, extension names and values. This holds for every way a card dies - built, parsed, cloned, edited, dropped on another thread, dropped while unwinding from a failing writer, or thrown away by an overwritten field - except for the documented exempt types (URIs, times, offsets, language tags and media types).",
  ["histories", "crash_points", "schedules", "inputs"],
  "every card content, every history of clone / edit / move / overwrite before the drop, every drop point including unwinding out of a rendering call at any write and drops interleaved with other threads",
  "No test looks at memory after a drop; a field that is skipped or a type that loses its derive is invisible to every assertion about values.",
  ["src/vcard.rs", "src/property.rs", "src/parameter.rs", "src/lib.rs"],
  [("Zeroize / ZeroizeOnDrop derives and zeroize(skip) attributes", "src/vcard.rs, src/property.rs, src/parameter.rs")],
  ["contents of heap blocks at the moment they are freed, seen by the global allocator"])

p("C09", "No damaged input can make a reader panic, hang or blow up",
  "Every reader - strict, loose, iterating, single-card, and the public value parsers - answers with a value or an error on any text, including stored or transmitted cards with arbitrary damage. It never panics, overflows the stack, runs forever, or does work out of proportion to the size of the input, and neither does rendering, copying, comparing or dropping what was read.",
  ["fault_sequences", "inputs"],
  "every sequence of storage and transport damage (flips, junk, zeroed sectors, torn multi-byte characters, duplication, splicing, reordering, truncation) to every stream, every reader",
  "Tests feed random strings to three of the date and time helpers only; the card readers see fixed inputs.",
  ["src/parser.rs", "src/iter.rs", "src/helper.rs", "src/property.rs", "src/parameter.rs", "src/uri.rs", "src/date_time.rs", "src/vcard.rs"],
  [("string slicing and splitting in the parsers", "src/property.rs, src/helper.rs, src/parameter.rs, src/parser.rs"), ("lexer loops", "src/parser.rs")],
  ["return of every reader; allocations, bytes and executed edges of control flow as the measure of work"])

p("C10", "Whatever a reader accepts can be saved and read back unchanged",
  "Any card that a strict or loose reader returns, from damaged or foreign text as well as the library's own, can be rendered without failing, and reading that text strictly gives the same card again: same properties in the same order with the same values, parameters and groups (sub-second fractions of times excepted, which the text format does not carry). Passing a card on through any number of save and load hops therefore never changes or loses it.",
  ["fault_sequences", "histories", "inputs"],
  "every card obtained by reading a damaged or rewritten stream, any number of subsequent save / load hops",
  "Tests round-trip a few dozen hand-picked cards; values that only foreign or damaged text produces (odd quoting, empty or odd parameters, unusual dates, unusual URIs) are not among them.",
  ["src/vcard.rs", "src/parser.rs", "src/parameter.rs", "src/property.rs", "src/helper.rs", "src/lib.rs", "src/uri.rs"],
  [("Display for Vcard and Parameters", "src/vcard.rs, src/parameter.rs"), ("parse_parameter_value, unescape_value", "src/parser.rs, src/lib.rs")],
  ["parse(render(card)) compared with card"])

p("C11", "Transports that refold lines or change line endings never change a card",
  "A card's text may pass through any chain of gateways that rewrite it in ways the format allows - folding lines at other places, unfolding, LF for CRLF line ends, extra blank lines between cards, other letter case in property and parameter names - and every reader still returns an equal card. Folds may fall anywhere, including inside names, parameters and escape sequences.",
  ["fault_sequences", "inputs"],
  "every card, every chain of gateways and every choice of fold positions, line endings, blank lines and name case",
  "Tests contain three fixed folded values; where a fold falls relative to an escape sequence or a parameter decides the outcome.",
  ["src/parser.rs", "src/lib.rs", "src/vcard.rs"],
  [("folded line handling", "src/parser.rs"), ("case-insensitive tokens", "src/parser.rs"), ("optional carriage return", "src/parser.rs, src/lib.rs")],
  ["parse / iter of the rewritten text"])

p("C12", "JSON storage with faults gives back the same card or an error",
  "With the serde feature, a card written as JSON through any writer and read back through any reader, with short, interrupted or failing reads and writes and crashes that tear the file, comes back as an equal card or as an error, never as a different card and never with a panic. This covers every property, parameter and value type.",
  ["fault_sequences", "crash_points", "inputs"],
  "every card, every fault sequence on the writer and the reader, every cut point of the JSON text",
  "The JSON assertions are the ones that fail or are skipped in upstream CI, run on fixed cards and in-memory strings.",
  ["src/vcard.rs", "src/property.rs", "src/parameter.rs", "src/serde.rs", "src/date_time.rs"],
  [("Serialize / Deserialize derives and attributes", "src/vcard.rs, src/property.rs, src/parameter.rs"), ("media_type helper", "src/serde.rs"), ("FromStr / Display of Date and DateTime", "src/date_time.rs")],
  ["serde_json to_writer / from_reader over faulting I/O"])

p("C13", "All readers agree on what survives a damaged stream",
  "On any text, damaged or not: the strict reader accepts exactly when strict iteration returns at least one card, no error and only valid cards, and then returns the same cards; the same holds between the loose reader and loose iteration. What the strict reader accepts the loose reader reads alike, and loose iteration returns every card that strict iteration returns, in the same order. Single-card conversion gives the first item of strict iteration: that card, or an error when it is an error or there is none.",
  ["fault_sequences", "inputs"],
  "every stream with every damage sequence, the four readers side by side",
  "No test reads the same text with two readers.",
  ["src/parser.rs", "src/iter.rs", "src/lib.rs", "src/vcard.rs"],
  [("VcardParser::parse vs VcardIterator", "src/parser.rs, src/iter.rs"), ("TryFrom<&str>", "src/vcard.rs")],
  ["parse, parse_loose, iter, TryFrom<&str> on the same text"])

p("C14", "Text that breaks a rule of the format is refused, by the rule's own scope",
  "When another program's faulty writer puts a line into an otherwise valid card that breaks a rule of vCard 4.0 - a repeated once-only property, a PREF outside 1..100, a TYPE, LABEL, PID, LANGUAGE, GEO, TZ, CALSCALE or other parameter where it is not allowed or malformed, an unknown VALUE or a VALUE the property does not allow, a value that is not of its type (no date, time, timestamp, offset, number, boolean, URI, kind, sex or PID map in any form of ISO 8601 or of numbers), a control character, an unknown property or parameter name, a line without its delimiters, a foreign CHARSET - the strict reader, strict iteration and single-card conversion refuse that card and loose reading returns the card without that line (an unknown VALUE alone is ignored there). A card whose frame is broken (VERSION missing, foreign or not first, BEGIN missing or repeated) is refused by every reader, and one that is not valid as a whole (no FN, MEMBER without a group kind) by every reader that validates and by validate(). The other cards of a stream are not affected.",
  ["fault_sequences", "histories", "inputs"],
  "every valid card, every rule, every way of breaking it, every position in the card and in a stream of cards, in any rewriting the format allows, through every reader",
  "Tests check one example of a few rules in a minimal card; whether a rule is enforced depends on the property, the parameter, the value and where in the card and the stream it is broken.",
  ["src/parser.rs", "src/vcard.rs", "src/iter.rs", "src/helper.rs", "src/property.rs", "src/parameter.rs", "src/error.rs"],
  [("parse_property_by_name, add_once, parse_parameters", "src/parser.rs"), ("Vcard::validate", "src/vcard.rs"), ("parse_* helpers", "src/helper.rs"), ("FromStr of kinds, genders, PIDs, value types", "src/property.rs, src/parameter.rs")],
  ["parse, parse_loose, iter, TryFrom<&str>, Vcard::validate"])

p("C15", "Builder histories give exactly the card that was asked for",
  "In any history of builder calls, by any number of clients at once, each call sets or appends exactly the property it names, with exactly the value given, and leaves every other property alone: the finished card holds the last value given to each single property and all values of each list in the order of the calls. The card is valid exactly when it has a name and no members unless it is a group, and a valid one saved to storage with faults comes back equal once the save is acknowledged.",
  ["histories", "schedules", "fault_sequences", "inputs"],
  "every sequence of builder calls with every value, every interleaving of several builders, every sequence of write faults on the way to storage",
  "The tests make one long chain of calls in one order; repeated calls, other orders and other values take the same code with other results.",
  ["src/builder.rs", "src/vcard.rs", "src/property.rs"],
  [("VcardBuilder methods", "src/builder.rs"), ("From implementations of property types", "src/property.rs"), ("Vcard::validate", "src/vcard.rs")],
  ["VcardBuilder::finish(), Vcard::validate()"],
  [("card", "the card under construction", "src/builder.rs")])

p("C16", "Embedded JPEG photos come back as exactly the embedded bytes",
  "For every card, the photo decoder returns exactly the bytes of each photo embedded as base64 text with ENCODING=b and TYPE=JPEG, in order, and ignores other photos; a photo that claims to be one but is not valid base64 is an error. This holds for a card just built, and after it was saved to storage with faults, passed on by programs that refold and rewrite it, and read back, whatever the length of the photo.",
  ["fault_sequences", "histories", "inputs"],
  "every list of photos of every length and content, every chain of storage faults and gateways between writing and reading",
  "One fixture with one photo, read from one fixed file.",
  ["src/vcard.rs", "src/parser.rs", "src/property.rs", "src/parameter.rs"],
  [("parse_photo_jpeg", "src/vcard.rs"), ("PHOTO, ENCODING and TYPE parameters", "src/parser.rs, src/parameter.rs"), ("content_line, fold_line", "src/vcard.rs")],
  ["Vcard::parse_photo_jpeg"])

p("C17", "What is written keeps the format and means the card to any other program",
  "Every card written, however built or read and through whatever faulty file, is text any conforming program understands: CRLF line ends, lines of at most 75 octets (unless one user-perceived character alone is longer), folds only between user-perceived characters, no raw control characters, all special characters escaped or quoted where they must be, dates and times in the form the standard gives their value type, and BEGIN, VERSION and END in place. An independent reader of the format finds exactly the properties, groups, parameters, values and order the card has.",
  ["histories", "fault_sequences", "inputs"],
  "every card, built or read from what other programs write, every write fault and crash before the text is read by the other side",
  "The tests compare the output of a few cards with the output of the library's own reader; an error made alike by reader and writer, or a fold in the wrong place, stays invisible.",
  ["src/vcard.rs", "src/lib.rs", "src/parameter.rs", "src/property.rs", "src/helper.rs", "src/date_time.rs", "src/uri.rs"],
  [("content_line, fold_line", "src/vcard.rs"), ("escape_value", "src/lib.rs"), ("Display for Parameters", "src/parameter.rs"), ("format_* helpers", "src/helper.rs"), ("Display of properties", "src/property.rs, src/date_time.rs")],
  ["Display for Vcard, read by an independent peer"])

p("C18", "Cards exchanged with other programs arrive exactly once and unchanged",
  "What another conforming program writes for a card - in any order of properties and parameters, any letter case of names and of values that are case-insensitive, any quoting, escaping and folding the standard allows, any of its forms for dates, times, offsets, numbers and lists - is read by every reader as exactly that card, every value with the meaning RFC 6350 gives it. Passed along a chain of programs, some of them this library, over a network that loses, duplicates, reorders, delays and tears messages, between nodes that stall and restart with only their files, every card arrives exactly once and equal to what was sent, within a bounded number of steps once the faults stop.",
  ["fault_sequences", "histories", "schedules", "crash_points", "inputs"],
  "every card, every free choice of the writing program, every chain of programs and gateways, every sequence of network and node faults",
  "The tests read a few dozen texts in the spelling their author chose and never exchange a card with another implementation.",
  ["src/parser.rs", "src/iter.rs", "src/lib.rs", "src/helper.rs", "src/property.rs", "src/parameter.rs", "src/vcard.rs", "src/date_time.rs"],
  [("lexer and parse_property_by_name", "src/parser.rs"), ("unescape_value", "src/lib.rs"), ("parse_* helpers", "src/helper.rs"), ("FromStr implementations", "src/property.rs, src/parameter.rs"), ("Display for Vcard", "src/vcard.rs")],
  ["parse, iter, TryFrom<&str> of an independent peer's text; cards delivered at the last node"])

p("C19", "Values kept on their own come back and mean what they mean in a card",
  "A program that keeps single values instead of cards - dates, times, moments, offsets, kinds, genders, addresses, PIDs and PID maps, types, URIs, numbers and lists of them, each as the text it is displayed as - and stores them with faults, crashes and any interleaving of clients, gets back every acknowledged value, in order, equal to what was stored in every part, by the value's own parser. And the public value parsers give the same value as a card read by any reader in which the same text stands as a value of that type, and refuse it when the reader does.",
  ["crash_points", "fault_sequences", "schedules", "inputs"],
  "every value that can be displayed, every crash point and fault of the store, every text given to a value parser, intact or damaged",
  "The tests parse some dozen texts and compare a few displayed values; they never pair Display with FromStr for drawn values, nor the value parsers with the card readers on the same damaged text.",
  ["src/helper.rs", "src/property.rs", "src/parameter.rs", "src/date_time.rs", "src/uri.rs", "src/parser.rs"],
  [("parse_* and format_* helpers", "src/helper.rs"), ("FromStr and Display of DeliveryAddress, Gender, Kind, Sex, ClientPidMap, DateAndOrTime, UtcOffsetProperty", "src/property.rs"), ("FromStr and Display of Pid, TypeParameter, ValueType", "src/parameter.rs"), ("Date, DateTime", "src/date_time.rs"), ("Uri", "src/uri.rs"), ("parse_property_by_name", "src/parser.rs")],
  ["Display and FromStr of every public value type, the helpers, beside parse and parse_loose"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
