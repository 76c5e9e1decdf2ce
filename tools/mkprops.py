#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["NmeaParser::parse_sentence return value"]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

FRAG = ("saved_fragments", "text of parts waiting for the rest of their message", "src/lib.rs NmeaParser")
VSDS = ("saved_vsds", "half of a type 24 report per MMSI", "src/lib.rs NmeaParser")
ALLSRC = ["src/lib.rs", "src/util.rs", "src/ais", "src/gnss"]

prop("C01", "No text can crash the parser",
 "Whatever text is passed to the parser - arbitrary Unicode, truncated or garbled sentences, out-of-range dates, times, counts and numbers - the call returns either a parsed result or an error; it never panics, aborts or overflows. This holds in every parser state and at every system date.",
 ["inputs", "histories"], "every string, after every history of earlier sentences, at every value of the system clock",
 "The tests feed about 25 well-formed sentences; none has an empty time field, a short talker, a non-ASCII character, an invalid calendar date or a hostile count.",
 ALLSRC, [("slicing of the sentence type and of time fields", "src/lib.rs parse_sentence, src/util.rs"), ("armour decoding arithmetic", "src/util.rs parse_payload"), ("date construction", "src/util.rs pick_eta/parse_hhmmss/parse_yymmdd_hhmmss, src/ais/vdm_t4.rs"), ("group size arithmetic", "src/gnss/gsv.rs handle")],
 [FRAG, VSDS], ["return of parse_sentence (no unwinding, no process death)"])

prop("C02", "Work and memory per sentence are bounded; finished messages are forgotten",
 "The work done and memory used for one sentence are bounded by the sentence's length and the amount of unfinished data the parser holds, never by a count or number the sentence claims. Once a multi-sentence message has been delivered nothing of it stays in the parser, so an endless stream of complete messages does not grow it.",
 ["inputs", "histories"], "every sentence incl. huge claimed counts and long texts; endless histories of completed multi-sentence messages",
 "Tests only use counts of at most 3 and never measure work; retention is checked after a single group of one sentence kind.",
 ["src/lib.rs", "src/gnss/gsv.rs", "src/ais/vdm_t24.rs", "src/util.rs"],
 [("completion test over the claimed message count", "src/gnss/gsv.rs handle"), ("pull_string / pull_vsd remove what they return", "src/lib.rs"), ("fragment combination", "src/lib.rs parse_sentence")],
 [FRAG, VSDS], ["executed-edge count and allocation counters of a parse_sentence call", "live heap bytes owned by the parser"])

prop("C03", "Checksums gate every sentence",
 "If a sentence carries a checksum after its last asterisk, it is decoded only when that text is the two-digit hexadecimal exclusive-or of all characters between the start delimiter and that asterisk (beyond ASCII: of their low eight bits or of the UTF-8 bytes); otherwise it is reported as corrupted whatever its content, so any single changed character between them is caught. A sentence with no checksum, or with nothing after the asterisk, is decoded as if the right checksum were present, and a right checksum never alters the result.",
 ["inputs"], "every sentence of every kind, every one of the 256 checksum values, every single-character change of a checksummed sentence",
 "One corrupted and one checksum-less sentence of one type are tested; 2^8 values times all sentence kinds and all change positions are not.",
 ["src/lib.rs"], [("XOR over the characters and comparison with the given text", "src/lib.rs parse_sentence")])

prop("C04", "Talker, station and own-vessel identification",
 "Every decoded GNSS result names the satellite system of the sentence's two-letter talker (GN combination, GP GPS, GL GLONASS, GA Galileo, BD BeiDou, GI NavIC, QZ QZSS, anything else other), and every AIS result that has a station names the station kind of its talker (AB, AD, AI, AN, AR, AS, AT, AX, anything else other). An AIS result is marked own vessel exactly when it came in a VDO sentence. Nothing else in the result depends on the talker.",
 ["inputs"], "all two-letter talkers crossed with all supported sentence kinds",
 "Tests check the source for GA and BD only, and never check station or own_vessel.",
 ["src/lib.rs", "src/gnss/mod.rs", "src/ais/mod.rs"], [("talker matches", "src/lib.rs parse_sentence"), ("own_vessel / station passed to the message decoders", "src/lib.rs, src/ais/vdm_t*.rs")])

prop("C05", "Unsupported and malformed sentences are reported as such",
 "A sentence whose type, or AIS message whose number, has no decoder (only GGA, RMC, GSA, GSV, VTG, GLL and AIS types 1-6, 9, 10, 18, 21, 24, 27 have one) is answered with an unsupported-type error. Text without any comma, an AIS sentence whose part count or part number is not a number, an AIS payload with characters outside the six-bit alphabet, and a type 24 message with part number 2 or 3 are answered with an invalid-sentence error. None of these, nor text with anything before the $ or ! of a sentence, ever produces data or is passed off as incomplete.",
 ["inputs"], "all sentence type codes, all 64 AIS message numbers with arbitrary content, all characters in payloads",
 "No test expects an unsupported or invalid error.",
 ["src/lib.rs", "src/error.rs", "src/util.rs", "src/ais/vdm_t19.rs", "src/ais/vdm_t24.rs"], [("dispatch matches", "src/lib.rs parse_sentence"), ("payload alphabet", "src/util.rs parse_payload")])

prop("C06", "Two-part AIS messages are reassembled exactly once",
 "For AIS messages sent in two parts, the parser answers incomplete for the part that arrives first and, when the other part with the same kind (VDM/VDO), message id and radio channel arrives - in either order - returns what the joined payload would give as a single sentence. A repeated part replaces its earlier copy, parts differing in kind, id or channel are never joined, sentences of longer messages or with part numbers other than 1 and 2 take no part, and each received part contributes to at most one result.",
 ["histories", "inputs"], "every interleaving of parts of many messages over kinds, ids and channels, with repeats, losses and either order, and every split point of the payload",
 "Tests run one message in order and in reverse order; interleavings, repeats, losses and key collisions are not reached.",
 ["src/lib.rs", "src/util.rs"], [("make_fragment_key", "src/util.rs"), ("part 1 / part 2 pairing", "src/lib.rs parse_sentence")], [FRAG])

prop("C07", "Satellite-in-view groups are delivered whole, in order and once",
 "A group of GSV sentences answers incomplete until every sentence number 1..n of that talker and group size has arrived, in any order, and then returns exactly once the satellites of all of them in sentence order, each with the PRN, elevation, azimuth and signal strength transmitted for it (absent values, also at the end of the sentence, stay absent; empty slots are skipped). A repeated sentence replaces its earlier copy, sentences without a number or with one outside 1..n take no part, and groups of different talkers or sizes never mix.",
 ["histories", "inputs"], "every interleaving, order, repeat and loss of sentences of groups of different talkers and sizes, every satellite value",
 "One in-order group of three from one talker is tested.",
 ["src/gnss/gsv.rs", "src/lib.rs"], [("make_gsv_key and completion test", "src/gnss/gsv.rs"), ("satellite loop", "src/gnss/gsv.rs handle")], [FRAG])

prop("C08", "Class B static reports pair part A with part B of one vessel",
 "A type 24 report answers incomplete until both part A and part B with the same MMSI have arrived, in either order, and then returns once a report combining the name of the latest part A with the ship type, cargo type, vendor, model, serial, call sign, dimensions and mothership of the latest part B. A repeated part replaces its earlier copy and never counts as the missing half, and vessels with different MMSIs never mix.",
 ["histories", "inputs"], "every interleaving, repeat, loss and order of part A / part B reports of many vessels, with all field values",
 "One vessel, one A then one B is tested.",
 ["src/ais/vdm_t24.rs", "src/lib.rs"], [("merge", "src/ais/vdm_t24.rs VesselStaticData::merge"), ("push_vsd / pull_vsd", "src/lib.rs")], [VSDS])

prop("C09", "Streams do not disturb each other",
 "The results a parser gives for one stream - a single-sentence message, a two-part AIS message, a GSV group or a type 24 pair - are the same as those of a fresh parser given that stream alone, however sentences of other streams are interleaved with it. Rejected sentences (corrupted copies of the stream's own parts included) and unsupported ones leave no trace, and equal histories always give equal results.",
 ["histories"], "all interleavings of streams with distinct identities plus rejected, corrupted and unsupported sentences",
 "Every test uses one stream on a fresh parser.",
 ["src/lib.rs", "src/gnss/gsv.rs", "src/ais/vdm_t24.rs"], [("keys of the two stores", "src/util.rs make_fragment_key, src/gnss/gsv.rs make_gsv_key"), ("early returns before state is touched", "src/lib.rs parse_sentence")], [FRAG, VSDS])

BITS = ("bit field extraction", "src/util.rs parse_payload, pick_u64, pick_i64")
prop("C10", "Class A position reports (types 1-3) decode to the transmitted values",
 "For every bit pattern of an AIS type 1, 2 or 3 message each decoded field equals the value in its ITU-R M.1371 bit position: MMSI, navigation status, rate of turn ((raw/4.733) squared with sign, none for -128 and the +-127 codes; direction -1/0/1 with |raw|<=1 being 0), speed and course in tenths, heading, position in 1/10000 minute, accuracy, UTC second and positioning mode, manoeuvre indicator (1 = not engaged, 2 = engaged), RAIM and radio status. A field is none exactly when it carries its not-available code (speed 1023, latitude 91 deg, longitude 181 deg, course 3600, heading 511, manoeuvre 0).",
 ["inputs"], "all 2^168 payloads of types 1-3, per-field exhaustive up to 12 bits",
 "Three sample messages are tested, several fields (radio status, manoeuvre values, non-zero rate of turn) never.",
 ["src/ais/vdm_t1t2t3.rs", "src/util.rs", "src/ais/mod.rs"], [("type 1-3 decoder", "src/ais/vdm_t1t2t3.rs handle"), BITS])
prop("C11", "Class B position reports (type 18) decode to the transmitted values",
 "For every bit pattern of an AIS type 18 message the MMSI, speed, accuracy, position, course, heading, UTC second, display, DSC, band, message 22 and assigned-mode flags, RAIM flag and radio status equal the values at their ITU-R M.1371 bit positions, with none exactly for the not-available codes. The report is Class B with undefined navigation status and no rate of turn.",
 ["inputs"], "all payloads of type 18", "One sample; none of the flags is tested.",
 ["src/ais/vdm_t18.rs", "src/util.rs"], [("type 18 decoder", "src/ais/vdm_t18.rs handle"), BITS])
prop("C12", "Base station reports (type 4) decode to the transmitted values",
 "For every bit pattern of an AIS type 4 message the MMSI, accuracy, position, position fix type, RAIM flag and radio status equal the values at their ITU-R M.1371 bit positions, with none exactly for not-available codes. The timestamp is exactly the transmitted UTC date and time when that is a real calendar date and time of day, and none otherwise (including the not-available codes).",
 ["inputs"], "all payloads of type 4, all date/time combinations incl. impossible ones", "One sample with one date.",
 ["src/ais/vdm_t4.rs", "src/util.rs"], [("type 4 decoder", "src/ais/vdm_t4.rs handle"), BITS])
prop("C13", "Static and voyage data (type 5) decode to the transmitted values",
 "For every bit pattern of an AIS type 5 message the version, MMSI, IMO number, call sign, name, ship and cargo type, dimensions, position fix type, draught and destination equal the values at their ITU-R M.1371 bit positions, the report is Class A, and zero IMO number, zero draught, undefined fix type and empty texts are none. The ETA is none when every part of it is unavailable or it is an impossible date or time; when all four parts are given it is the first such month, day, hour and minute (whole minutes) of this year or next that is not in the past, and when only some are given it keeps those, an unavailable hour or minute meaning the end of the day or hour.",
 ["inputs", "configurations"], "all payloads of type 5 at every system date", "One sample; the ETA is compared with its own year and the class is never checked.",
 ["src/ais/vdm_t5.rs", "src/util.rs", "src/ais/mod.rs"], [("type 5 decoder", "src/ais/vdm_t5.rs handle"), ("ETA", "src/util.rs pick_eta"), BITS],
 observe=["NmeaParser::parse_sentence return value under a controlled system clock"])
prop("C14", "Addressed message headers (type 6) and UTC inquiries (type 10) decode exactly",
 "For every bit pattern of an AIS type 6 message the source and destination MMSI, sequence number, retransmit flag, area code and function id, and for every type 10 message the source and destination MMSI, equal the values at their ITU-R M.1371 bit positions.",
 ["inputs"], "all payloads of types 6 and 10, any trailing data", "One sample each.",
 ["src/ais/vdm_t6.rs", "src/ais/vdm_t10.rs", "src/util.rs"], [("type 6 and 10 decoders", "src/ais/vdm_t6.rs, src/ais/vdm_t10.rs"), BITS])
prop("C15", "SAR aircraft reports (type 9) decode to the transmitted values",
 "For every bit pattern of an AIS type 9 message the MMSI, altitude, speed (whole knots), accuracy, position, course, UTC second, regional bits, data terminal flag (ready when the bit is 0), assigned flag, RAIM flag and radio status equal the values at their ITU-R M.1371 bit positions, with none exactly for the not-available codes (altitude 4095, speed 1023, latitude 91 deg, longitude 181 deg, course 3600).",
 ["inputs"], "all payloads of type 9", "One sample, with most flags false.",
 ["src/ais/vdm_t9.rs", "src/util.rs"], [("type 9 decoder", "src/ais/vdm_t9.rs handle"), BITS])
prop("C16", "Aid-to-navigation reports (type 21) decode to the transmitted values",
 "For every bit pattern of an AIS type 21 message the MMSI, aid type, accuracy, position, dimensions, position fix type, UTC second, off-position flag, regional bits, RAIM, virtual-aid and assigned-mode flags equal the values at their ITU-R M.1371 bit positions, with none exactly for not-available positions. The name is the 20-character name field, followed - when the message carries a non-empty name extension - by that extension, with blanks inside the joined name kept.",
 ["inputs"], "all payloads of type 21, with and without name extension of every length", "One sample; off-position and flags are false there, and the name has no blank at the joint.",
 ["src/ais/vdm_t21.rs", "src/util.rs"], [("type 21 decoder", "src/ais/vdm_t21.rs handle"), BITS, ("pick_string", "src/util.rs")])
prop("C17", "Class B static reports (type 24) decode to the transmitted values",
 "For every bit pattern of the two parts of an AIS type 24 report the MMSI and name (exactly 20 characters, part A) and the ship and cargo type, vendor id, unit model, serial number, call sign, dimensions and mothership MMSI (part B) of the combined report equal the values at their ITU-R M.1371 bit positions. The report is Class B and has none for everything type 24 does not carry.",
 ["inputs"], "all payloads of type 24 parts A and B, incl. trailing spare bits", "One sample pair; model, serial and mothership are untested.",
 ["src/ais/vdm_t24.rs", "src/util.rs"], [("type 24 decoder", "src/ais/vdm_t24.rs handle"), BITS])
prop("C18", "Long-range reports (type 27) decode to the transmitted values",
 "For every bit pattern of an AIS type 27 message the MMSI, accuracy, RAIM flag, navigation status, longitude, latitude, speed, course and GNSS position flag equal the values at their ITU-R M.1371 bit positions (position in 1/10 minute, whole knots and degrees), with none exactly for the not-available codes. The report is Class A and none for everything type 27 does not carry.",
 ["inputs"], "all payloads of type 27", "One sample, whose asserted position (latitude 137 deg) is itself impossible.",
 ["src/ais/vdm_t27.rs", "src/util.rs"], [("type 27 decoder", "src/ais/vdm_t27.rs handle"), BITS])
prop("C19", "AIS text fields are decoded character by character",
 "Every AIS text field (call sign, vessel name, destination, vendor id, aid name) decodes each six-bit symbol to its ITU-R M.1371 character, ends at the first @ symbol or at the field's full length, keeps leading and inner blanks and drops trailing ones. A text that is empty after this is reported as none (or as an empty string where the field is not optional).",
 ["inputs"], "all sequences of the 64 symbols in all text fields of types 5, 21 and 24", "Six sample texts; fields of full length, leading blanks and most punctuation are untested.",
 ["src/util.rs", "src/ais/vdm_t5.rs", "src/ais/vdm_t21.rs", "src/ais/vdm_t24.rs"], [("pick_string", "src/util.rs")])
prop("C20", "Every code of every AIS code table maps to its documented meaning",
 "For all values of the navigation status, positioning mode, position fix type, aid-to-navigation type and ship-and-cargo type fields the decoded enumeration is the documented one: ship types 1x-9x by decade (8x tanker, 9x other), 30-39 and 50-59 individually, cargo categories by last digit in the decades 1, 2, 4, 6, 7, 8 and 9. Undefined or reserved codes map to the documented fallback, never to a neighbour's meaning.",
 ["inputs"], "all code values in all messages that carry them, with arbitrary other content", "A handful of codes occur in the samples.",
 ["src/ais/mod.rs", "src/ais/vdm_t21.rs", "src/ais/vdm_t1t2t3.rs"], [("ShipType::new, CargoType::new, NavigationStatus::new, PositionFixType::new", "src/ais/mod.rs"), ("NavAidType::new", "src/ais/vdm_t21.rs")])
prop("C21", "Vessel country follows the ITU MID table",
 "The country of vessel static data is the ISO 3166 code the ITU assigns to the first three of nine MMSI digits, for every one of the assigned MIDs, and none for every MMSI that does not start with an assigned MID (including MMSIs with leading zeros and values above nine digits). It depends on nothing but the MMSI.",
 ["inputs"], "all 2^30 MMSIs; all 1074 leading triples exhaustively with boundary suffixes", "14 MMSIs are tested.",
 ["src/ais/mod.rs", "mid-to-iso3166.py"], [("country", "src/ais/mod.rs VesselStaticData::country")], observe=["VesselStaticData::country"])
prop("C22", "Payload length and sentence kind do not change what is decoded",
 "Bits missing at the end of a short AIS payload read as zero, so a truncated payload decodes as if it were filled up with zero symbols, and payload beyond a message's defined fields changes nothing. The same payload in a VDM or a VDO sentence, on any radio channel, with any message id and fill-bit count, or as one or two sentences, decodes to the same data except for the own-vessel mark.",
 ["inputs"], "all payloads of all supported types, all truncation points and extensions, all header variations", "No test has a truncated or over-long payload or uses VDO.",
 ["src/lib.rs", "src/util.rs", "src/ais"], [("pick_u64 / pick_i64 treat missing bits as 0", "src/util.rs"), ("header fields are not passed to decoders", "src/lib.rs parse_sentence")])
prop("C23", "GNSS coordinates convert exactly with the right sign",
 "In GGA, RMC and GLL sentences latitude DDMM.m and longitude DDDMM.m (any number of decimals) become degrees plus minutes/60 to within floating-point rounding, negative exactly for S and W. An empty coordinate is none independently of the other one.",
 ["inputs"], "all degree, minute and fraction digits in all hemispheres", "A few samples compared to 0.001 or 0.1 degree.",
 ["src/util.rs", "src/gnss/gga.rs", "src/gnss/rmc.rs", "src/gnss/gll.rs"], [("parse_latitude_ddmm_mmm, parse_longitude_dddmm_mmm", "src/util.rs")])
prop("C24", "GNSS times and dates convert exactly and bad ones become none",
 "The timestamp of a GGA or GLL sentence is the current UTC date at the sentence's HHMMSS (decimals ignored), and that of an RMC sentence is its DDMMYY, in the current century, at its HHMMSS. A time or date that is empty, too short, not numeric or not a real time of day or calendar date makes the timestamp none while the rest of the sentence is decoded normally.",
 ["inputs", "configurations"], "all digit strings incl. impossible dates and times, leap days, at every system date", "Three valid times and two valid dates, at the current date only.",
 ["src/util.rs", "src/gnss/gga.rs", "src/gnss/gll.rs", "src/gnss/rmc.rs"], [("parse_hhmmss, parse_yymmdd_hhmmss", "src/util.rs")],
 observe=["NmeaParser::parse_sentence return value under a controlled system clock"])
prop("C25", "GGA, RMC and GLL fields carry the transmitted values",
 "In GGA, RMC and GLL sentences every field of the result is the number, flag or code transmitted at its NMEA 0183 position (GGA quality, satellites, HDOP, altitude, geoid separation, DGPS age, station id; RMC status, speed, bearing, magnetic variation negative for W; GLL validity and FAA mode), independent of all other fields. An empty field or a field missing at the end of the sentence is none (quality: invalid), and additional trailing fields are ignored.",
 ["inputs"], "all combinations of present, empty and missing fields and their values", "Two GGA, two RMC and one GLL shapes are tested; DGPS age, station id, void status and west variation never.",
 ["src/gnss/gga.rs", "src/gnss/rmc.rs", "src/gnss/gll.rs", "src/gnss/mod.rs", "src/util.rs"], [("field indices", "src/gnss/*.rs handle"), ("pick_number_field", "src/util.rs")])
prop("C26", "VTG and GSA fields carry the transmitted values",
 "In VTG sentences true and magnetic course, speed in knots and in km/h and the FAA mode (A, D, E, N, S), and in GSA sentences the automatic/manual mode, fix type, the non-empty PRN slots in order and PDOP, HDOP and VDOP are exactly what is transmitted at their NMEA 0183 positions, independent of all other fields. Empty or missing fields are none or contribute no PRN, and every FAA mode prints as the letter it was decoded from.",
 ["inputs"], "all combinations of present, empty and missing fields and their values", "One sample each, all VTG fields present, eight PRNs contiguous from the first slot.",
 ["src/gnss/vtg.rs", "src/gnss/gsa.rs", "src/gnss/mod.rs", "src/util.rs"], [("field indices", "src/gnss/vtg.rs, src/gnss/gsa.rs handle"), ("FaaMode::new", "src/gnss/mod.rs")])
prop("C27", "A malformed field never turns into a value",
 "In GGA, RMC, GLL and GSA sentences a non-empty coordinate that is not DDMM.m (DDDMM.m), a non-empty number that is not a plain decimal number or does not fit its field's type, an RMC status other than A or V, an RMC variation without E or W, and a GSA mode or fix type outside its codes make the whole sentence an invalid-sentence error, as do a GSV count or number that is not a number. In VTG sentences and in GSV satellite entries a malformed number only makes that value none (a malformed PRN drops that satellite), as does an unknown FAA mode in VTG and GLL and a GLL validity other than A or V, and every other value is decoded normally.",
 ["inputs"], "every field of every GNSS sentence crossed with malformed texts", "No test has a malformed field.",
 ["src/util.rs", "src/gnss"], [("pick_number_field and its callers' error handling", "src/util.rs, src/gnss/*.rs")])
prop("C28", "Generic position access agrees with the decoded fields",
 "For every decoded result that offers the generic latitude/longitude access, that access returns exactly the latitude and longitude fields of the result, including none when the position is not available.",
 ["inputs"], "all position-bearing messages with all positions", "No test calls the generic access.",
 ["src/lib.rs", "src/ais/mod.rs", "src/ais/vdm_t4.rs", "src/ais/vdm_t6.rs", "src/ais/vdm_t9.rs", "src/ais/vdm_t21.rs", "src/gnss/gga.rs", "src/gnss/rmc.rs", "src/gnss/gll.rs"], [("LatLon implementations", "src/ais, src/gnss")], observe=["LatLon::latitude, LatLon::longitude"])

prop("C29", "Decoded codes print as the documented name of the transmitted code",
 "The printed form of every enumeration in a decoded result - satellite system, AIS station, AIS class, positioning mode, ship type, cargo type, position fix type, aid-to-navigation type, GGA quality, GSA fix type and FAA mode - is the documented name of exactly the code that was transmitted, whatever else the message contains. No two codes with different documented names ever print alike; reserved, local and undefined codes print as such.",
 ["inputs"], "every code of every printable table, in every message kind that carries it, with arbitrary other content", "Tests print one ship type and no other code.",
 ["src/ais/mod.rs", "src/ais/vdm_t21.rs", "src/gnss/mod.rs", "src/gnss/gga.rs", "src/gnss/gsa.rs"], [("Display implementations", "src/ais/mod.rs, src/ais/vdm_t21.rs, src/gnss/*.rs")], observe=["Display of the enumerations in the result"])

prop("C30", "Parsers are independent of each other and of threads",
 "What one parser answers depends only on the sentences given to that parser and the clock, never on other parsers: not on those used before or dropped, not on those fed in between, and not on those running at the same time on other threads. A parser and its results may be sent to other threads, and moving it between any two sentences, even in the middle of an unfinished message, changes no answer.",
 ["histories", "schedules"], "all assignments of sentences to several parsers, all interleavings of their calls, all moves between threads", "Every test uses one parser on one thread.",
 ["src/lib.rs", "src/util.rs", "src/ais", "src/gnss"], [("NmeaParser and its stores; absence of shared state", "src/lib.rs")])
prop("C31", "Every decoded value is one its field can carry",
 "Whatever text is given in whatever state, every value of a decoded result is one the transmitted field can carry: every number is finite; identities, dimensions, seconds, serial numbers and radio status stay below the limit of their bit width; AIS speeds, courses, headings and positions (type 27 apart) stay within the range of their bits, GNSS positions within that of their digits; AIS texts are no longer than their field, use only its six-bit alphabet and carry no padding; a GSA sentence gives at most twelve satellites and each GSV sentence at most four; and the kind of the result is that of the sentence formatter.",
 ["inputs", "histories"], "all texts, in particular damaged, truncated, overlong and out-of-range ones", "Tests look at well-formed sample sentences only.",
 ["src/lib.rs", "src/util.rs", "src/ais", "src/gnss"], [("pick_number_field", "src/util.rs"), ("pick_u64, pick_i64, pick_string", "src/util.rs"), ("field decoders", "src/ais/vdm_t*.rs, src/gnss/*.rs")])
prop("C32", "Results and errors compare, copy and print faithfully",
 "For every text and parser state: a result equals itself and any copy of it, and a copy carries all its values independently of the original; two results are equal exactly when all their values are equal (kind, every field, and for errors the kind and the text); an error is never without a text, prints exactly the text it carries, and an error made from a text is an invalid-sentence error with that text.",
 ["inputs"], "all pairs of results, in particular those that differ in a single field", "Tests compare single fields of a few results.",
 ["src/lib.rs", "src/error.rs", "src/ais", "src/gnss"], [("ParsedSentence", "src/lib.rs"), ("ParseError, From<String>, ToString", "src/error.rs"), ("derived Clone, PartialEq, Debug of the message types", "src/ais/*.rs, src/gnss/*.rs")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
