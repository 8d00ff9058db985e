"""Writes /verif/properties.jsonl (kept as code so that the anchors stay short to edit)."""
import json, os
P, TK, TKS, TOK = "F15_Parser/F15Parse.py", "Tokenizer/Token.py", "Tokenizer/Tokens.py", "Tokenizer/Tokenize.py"
SYN, ERS, ERR = "F15_Parser/F15TokenSyntaxDescriptions.py", "F15_Parser/ExtractedRouteSequence.py", "F15_Parser/ExtractedRouteRecord.py"
MSG, UT, CO, MAIN = "F15_Parser/ErrorMessageDefinitions.py", "Utilities/Utils.py", "Utilities/Constants.py", "main.py"
ROWS = []
def add(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    row = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
               anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state: row["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    ROWS.append(row)

add("C01", "Tokenizing loses nothing and locates every token exactly",
 "Tokenizing any string with any set of separator characters yields, in order, exactly the maximal runs of non-separator characters, plus one token for every '/' when '/' is a separator; every other separator is discarded. Each token's start and end index delimit exactly its own text in the source string. The result depends only on the current string and separators, not on earlier use of this or any other tokenizer.",
 ["inputs", "histories"], "All Unicode strings, all separator sets (empty, with and without '/'), and all sequences of set/tokenize/get calls on one tokenizer.",
 "Tests tokenize a few short ASCII strings with two separator sets and check few indices.",
 [TOK, TKS, TK], [("character scan with index arithmetic", TOK + ":tokenize"), ("token creation", TOK + ":__save_token")],
 ["Tokenize.get_tokens()", "Token text/start/end getters"])

add("C02", "The token list cursor navigates exactly as documented",
 "Over any history of appending, inserting, truncating and navigating a token list, whatever happens to other lists, first/last/next/previous move the current position and return the token there, peeks and positional access return the right token without moving it, and a position outside the list yields no token rather than a wrong one or an exception. The list always contains exactly the tokens put in, in order.",
 ["histories"], "All sequences of token-list operations with arbitrary indices and look-ahead distances.",
 "Tests call each navigation method a few times in one fixed order on a small list.",
 [TKS, TK], [("cursor arithmetic with range check", TKS + ":get_token_at"), ("list edit operations", TKS)],
 ["Tokens public methods"], [("current_token", "cursor into the list", TKS)])

add("C03", "Every token string is classified as exactly its Field 15 element type",
 "For every string, the element type and subtype assigned to it are those the documented Field 15 syntax gives that exact string (whole string, case-sensitive): keywords, speed/level forms, cruise climb forms, STAY and time, NAT/PTS tracks, the point and coordinate forms, ATS routes, SID/STAR names. A string longer than 25 characters is classified as too long, and anything else that matches no form as unknown.",
 ["inputs"], "All strings, in particular all strings near a syntactic form (length +-1, neighbouring characters, case changes, non-ASCII look-alikes, trailing newline).",
 "Tests classify a few dozen literals; a regular expression that is slightly too wide or too narrow, or shadowed by another, is not seen.",
 [SYN, P], [("ordered regular expression table", SYN + ":F15_SB_CONFIGURATION"), ("full match, first hit wins", SYN + ":get_token_type"), ("length limit", P + ":assign_syntax_descriptions")],
 ["Token base/sub type after parse_f15", "F15TokenSyntaxDefinition.get_token_type"])

add("C04", "Levels are decoded to the right text and metres wherever they occur",
 "Wherever a level is given (first element, at a point, at a rule change, in a cruise climb), the affected record carries exactly the level text from the field and that level in metres rounded to the nearest metre: flight levels and altitudes in hundreds of feet, metric levels and altitudes in tens of metres. A flight level that is not a multiple of 5 is reported against its element exactly once per such level; a speed/VFR element gives the default level F050.",
 ["inputs"], "All level units and digits, all speed units next to them, at every place in a route a level may appear.",
 "Tests check the text of some levels and the metric value of a handful.",
 [P, CO, ERR], [("level decoding", P + ":assign_altitude"), ("per-form slicing", P + ":assign_speed_altitude*, assign_speed_vfr")],
 ["record altitude, altitude_si", "errors"])

add("C05", "Speeds are decoded to the right text and metres per second",
 "Wherever a speed is given, the affected record carries exactly the speed text and its value in metres per second rounded to the nearest unit: km/h and knots by their conversion factors, Mach by the ISA speed of sound at the record's own level (temperature falling linearly to 11,000 m and constant above, the sea-level constant at level zero). The value depends only on that element's speed and level.",
 ["inputs"], "All speed units and digits combined with all levels, at every place a speed may appear.",
 "Tests check the SI speed for a handful of values; the Mach/level combinations (1000 x ~10^4) are not explored.",
 [P, UT, CO], [("speed decoding", P + ":assign_speed"), ("ISA model", UT + ":speed_of_sound_at_altitude, mach_to_ms_speed")],
 ["record speed, speed_si", "Utils functions"])

add("C06", "Speed, level and rules apply from their point onward until changed",
 "Every record between the ADEP and the ADES carries the speed and level most recently given at or before it (a change given after a point takes effect at that point and not earlier), and every record carries the flight rules in force there: IFR on every point and ATS route, the break's own rules on a break record. The ADES carries the rules of the record before it.",
 ["inputs"], "All routes with any number and placement of speed/level changes, rule changes and errors.",
 "Tests look at single changes in short routes.",
 [P], [("carry forward on append", P + ":carry_speed_altitude_rules_forward, add_record"), ("rules assignment", P + ":point, route, break_start, parse_f15")],
 ["record speed/altitude/rules"])

add("C07", "A cruise climb sets speed, start level and target level at its point",
 "A cruise climb 'C/point/speed level level' or 'C/point/speed level PLUS' adds the point as one record carrying that speed, the first level as its level, and the second level (text and metres), or PLUS, as its target; the 'C' itself is not recorded. This holds for every combination of speed unit and level units; the target is not carried to any other record, while speed and first level are. Without '/', 'C' is recorded as a one-letter point.",
 ["inputs"], "All 3 x 16 level-level and 3 x 4 level-PLUS forms, all digits, with point forms and following routes.",
 "Tests use a few of the 60 forms and never read the target level in metres.",
 [P, SYN], [("cruise climb states", P + ":cruise_climb_c, cruise_climb_point"), ("per-form slicing", P + ":assign_speed_altitude_altitude, assign_speed_altitude_plus")],
 ["record altitude_cruise_to, altitude_cruise_to_si"])

add("C08", "Coordinates are decoded exactly and range-checked wherever they occur",
 "Every latitude/longitude point (degrees or degrees and minutes) is recorded with the decimal coordinates its text denotes, north/east positive and south/west negative, and is marked as having coordinates; points without coordinates are not. Latitude beyond 90, longitude beyond 180, minutes beyond 59 and bearings beyond 360 are each reported once against that point with the matching message, nothing else is, and the point is still recorded in its place.",
 ["inputs"], "All digit combinations of every coordinate form, at every place a point may appear (after DCT, route, rule changes, cruise climb, STAY).",
 "Tests check a few coordinates and a few out-of-range values at one position.",
 [P, UT], [("coordinate decoding", P + ":assign_latitude, assign_longitude"), ("range checks", P + ":assign_ll_deg, assign_ll_deg_min, assign_lat_long_bearing_distance; " + UT + ":is_degree*_semantics")],
 ["record latitude/longitude/lat_long_valid", "errors 42-46"])

add("C09", "A lat/long/bearing/distance point is placed by WGS84 projection",
 "A point given as coordinates followed by a three-digit bearing and three-digit distance in nautical miles is recorded at the WGS84 geodesic destination from those coordinates along that bearing for that distance. The projected position, not the reference position, is what following legs are measured from and to.",
 ["inputs"], "All coordinates, bearings 000-360 and distances 000-999, both coordinate forms, including poles and the date line.",
 "Tests check one or two projected points.",
 [P, UT], [("projection", P + ":resolve_real_bd_point; " + UT + ":get_bearing_distance_projected_point")],
 ["record latitude/longitude/bearing/distance"])

add("C10", "Legs between points with coordinates carry WGS84 azimuth and distance",
 "When two consecutive points both have coordinates (adjacent, or with a single connector between them), the first carries the WGS84 geodesic azimuth and distance in metres to the second. No other record carries an azimuth or distance; in particular no leg is measured across an intermediate point without coordinates.",
 ["inputs"], "All routes mixing points with and without coordinates and every connector type.",
 "Tests check few legs, with adjacent points.",
 [P, UT], [("leg computation", P + ":assign_azimuth_distance_between_points, set_azimuth_and_distance; " + UT + ":get_bearing_distance_between_points")],
 ["record bearing/distance"])

add("C11", "A STAY time is attached in minutes to the point it follows, and only there",
 "A STAY indicator with a digit, '/', and a time 0000-2359 sets that many minutes (60*HH+MM) on the record preceding it; neither part appears as a record and no other record gets a stay time. A missing or malformed slash or time, or an element that may not follow a stay, is reported as such.",
 ["inputs"], "All 1440 times, all STAY digits, all point forms, all following elements, multiple stays.",
 "Tests use a handful of times and followers.",
 [P, ERR], [("STAY states", P + ":stay, stay_time"), ("HHMM conversion", ERR + ":set_stay_time")],
 ["record stay_time", "errors 35-39"])

add("C12", "Break sections keep their free text and end only at their own terminator",
 "Everything from a break start (VFR, OAT, IFPSTOP, or speed/VFR) up to its end is kept, in order, as that break record's text, and produces no route records, whatever it contains. VFR ends only at IFR followed by a point with '/' and speed/level, OAT only at GAT followed by a point, IFPSTOP only at IFPSTART followed by a point; the terminating keyword is the last word of the text and routing resumes under IFR at that point. IFR followed by a point that lacks its speed/level is reported as an incomplete rule change.",
 ["inputs"], "All break types, all token sequences as free text including keywords, points, speed/levels and terminators of other break types, any number of sections.",
 "Tests use a few short texts and mostly matching terminators.",
 [P], [("break states", P + ":break_start, break_text_save, assign_speed_vfr"), ("end look-ahead", P + ":break_end, v_to_i_rule_change, v_to_i_to_v_rule_change")],
 ["record break_text, flight_rules", "errors 4, 22"])

add("C13", "Derived flight rules and endpoint rules follow from the route",
 "The derived flight rules are V for a field starting under VFR with no IFR part, Z for one starting under VFR with an IFR part, Y for one not starting under VFR with a VFR part, and I otherwise; an empty field derives none. The ADEP's rules are VFR exactly when the first element is a speed/VFR and IFR when it is a speed/level, and the ADES's rules are those in force at the end of the route.",
 ["inputs"], "All routes with any mix of VFR, OAT and IFPSTOP sections and errors.",
 "Tests cover one example of each letter.",
 [P, ERS], [("derivation loop", P + ":parse_f15")], ["get_derived_flight_rules", "ADEP/ADES flight rules"])

add("C14", "Every well-formed route is accepted and extracted exactly",
 "Every field built by the documented Field 15 grammar (speed/level, optional SID, points joined directly or by DCT or ATS routes, speed/level changes, stays, cruise climbs, break sections with proper ends, optional STAR or truncation mark) is accepted with no errors. Its extracted sequence is exactly ADEP, one record per element in source order with the right name, type, position and attributes, and ADES.",
 ["inputs"], "All derivations of the route grammar, any length, any mix of element forms.",
 "The tests hold about two hundred literals, most with fewer than five elements.",
 [P, SYN, ERS], [("state functions", P + ":post_adep, point, post_point, route, dct, forward_slash, post_sid")],
 ["parse_f15 result", "get_all_elements", "get_all_errors"])

add("C15", "Ill-formed element sequences are rejected with the documented error",
 "For every pair of element types that may not follow one another in a given context, the parse fails, and the first reported error names the offending element (its text and position) with the message documented for that context. Well-formed parts before the offending element are extracted as if it were absent.",
 ["inputs"], "All contexts (after ADEP, point, SID, ATS route, DCT, '/', 'C', 'C/', stay, truncation) x all element types and subtypes.",
 "Tests pin one literal for many, but not all, context/type pairs and only one subtype each.",
 [P, MSG], [("per-state match tables", P), ("message catalogue", MSG)], ["errors: text, indices, message"])

add("C16", "Parsing recovers after an error and still extracts the rest",
 "After reporting an error the parser continues with the following element: all later well-formed elements are extracted in order, and later errors are reported too. In particular an unrecognised or over-long element inserted between two elements of a well-formed point-to-point route adds exactly one error and leaves all other records unchanged in content.",
 ["inputs"], "All routes, all insertion positions, any number of faults, all garbage strings.",
 "Tests insert one bad element in very short routes.",
 [P], [("re-synchronisation", P + ":re_sync_parser_after_error, add_error_and_re_sync")], ["records and errors after a fault"])

add("C17", "Any field is parsed to a framed result, never an exception",
 "For any string of realistic length (up to 100 elements), tokenizing and parsing terminates without an exception and gives a sequence that starts with the ADEP record, ends with the ADES record, and lists everything in between in source order. The returned verdict is true exactly when no errors were recorded.",
 ["inputs"], "All strings of up to 100 elements, from any alphabet, including empty and separator-only fields.",
 "Tests feed about two hundred chosen literals; crashes of rare forms and verdicts of unusual sequences are not sampled.",
 [P, ERS, TOK], [("state functions total over element types", P), ("framing", P + ":parse_f15; " + ERS + ":add_dummy_adep_ades")],
 ["parse_f15 return value and exceptions", "get_all_elements"])

add("C18", "Nothing in the field is lost, duplicated or invented",
 "Every record and error refers to an element that is really at its recorded position in the field, no element is recorded twice, and records appear in source order. When the field is accepted, every element is accounted for: the recorded elements, break texts, speeds, levels, cruise targets and stays together reproduce the field's elements. When it is rejected, every point, ATS route and connector outside breaks is either recorded or reported.",
 ["inputs"], "All fields, well-formed or not, any length and layout.",
 "Tests check named records of short routes and never account for the whole field.",
 [P, ERS], [("append-only record list", ERS + ":append_element"), ("cursor advance", TKS + ":get_next_token")], ["records, errors, token list"])

add("C19", "Error records carry the offending element and a complete message",
 "Every error record is the name, type and position of one element of the field (or the fixed empty-field error), and its text is one of the documented messages with every placeholder replaced by exactly that element's text. Errors are listed in the order they were detected and counted exactly; their other attributes are unset.",
 ["inputs"], "All rejected fields, including elements that contain '!' or other special characters.",
 "Tests compare message text for chosen literals; positions and types of errors are hardly checked.",
 [ERS, MSG, P], [("error creation", ERS + ":add_error"), ("catalogue", MSG)], ["get_all_errors, get_number_of_errors"])

add("C20", "Parsing is deterministic, isolated and re-entrant",
 "The result of parsing a field depends on that field alone: parsing it again, with the same or a new parser or tokenizer, or into a sequence cleared by its constructor, after or interleaved with any other parses (including in other threads), gives the same result, and never alters results, tokens or token lists obtained earlier. Parsing does not change the text or positions of its input tokens.",
 ["inputs", "histories", "schedules"], "All sequences and interleavings of tokenize/parse/read operations over several fields and shared or separate objects.",
 "Tests parse fields one after another with fresh sequence objects and never compare with an earlier result.",
 [P, TOK, ERS, TKS], [("no shared mutable state", "class attributes overwritten per instance in " + TOK + ", " + ERS + ", " + TKS), ("token copy for speed/VFR", P + ":assign_speed_vfr")],
 ["snapshots of results and tokens"], [("class-level default lists", "shadowed by instance attributes", ERS)])

add("C21", "The layout of the field does not affect its meaning",
 "Replacing any separator by any non-empty run of spaces, tabs, newlines and carriage returns, adding such runs at either end or around '/', leaves the extracted route, the errors and the verdict the same, apart from positions, which move with the text.",
 ["inputs"], "All fields x all re-layouts.",
 "Tests use single spaces almost everywhere.",
 [TOK, P], [("separator handling", TOK + ":tokenize")], ["records and errors modulo positions"])

add("C22", "The XML output is well formed and says what the result holds",
 "For every parsed field the XML document is well formed and lists the derived rules, one element per record in order and one per error in order, each with the record's name, positions, types, speed, level, rules, stay, cruise target, coordinates, bearing and distance (numbers to two decimals) and its break or error text. Text from the field reads back unchanged, whatever characters it contains.",
 ["inputs"], "All fields including markup characters (<, >, &, quotes), non-ASCII text and control characters.",
 "The XML tests never look at the output.",
 [ERS, ERR], [("XML generation and escaping", ERS + ":as_xml; " + ERR + ":as_xml")], ["ExtractedRouteSequence.as_xml parsed by an XML parser"])

add("C23", "The console printouts are complete and faithful",
 "Printing a result, a record, the tokens or the syntax table never fails and shows, line by line in order, every record and then every error with the counts, each line carrying that record's name, positions, types, speed, level, bearing, distance, rules, stay, cruise target, coordinates and its break or error text. The example program prints the result of its sample field.",
 ["inputs"], "All parsed fields and the token lists they produce.",
 "No test reads printed output.",
 [ERS, ERR, TK, TKS, SYN, MAIN], [("column formatting", ERR + ":to_string; " + ERS + ":print_ers")], ["captured standard output"])

add("C24", "The result containers return exactly what was put in",
 "Over any history of appends, errors and reads on a route sequence and its records: counts equal the number of items, positional access returns that item or none when out of range, first/last/previous-to-last are the right items, setters are read back unchanged, and appended break or error text is joined by single spaces in order. A new sequence holds just the ADEP and no errors, independent of any other sequence.",
 ["histories"], "All operation sequences with arbitrary indices and values on several sequences and records.",
 "Tests use the containers only through the parser and never out of range.",
 [ERS, ERR], [("list access with range check", ERS + ":get_element_at"), ("attribute accessors", ERR)], ["public methods of the two classes"])

add("C25", "SID and STAR are recognised by position and reported elsewhere",
 "A SID/STAR-shaped name is a SID when it is the first route element, a STAR when it is the last of several, and an error anywhere else; the literal words SID and STAR are accepted only first and last respectively. The SID or STAR is recorded with that type, a SID may be followed only by a point, an ATS route, a STAR or truncation, and a STAR only by the end of the field; after a violation the rest is still extracted.",
 ["inputs"], "All SID/STAR name shapes and both literals at every position of every route, with every preceding and following element.",
 "Tests use a few positions and one or two names.",
 [P, SYN], [("positional typing", P + ":sid, sid_star, star, post_sid")], ["record base/sub type", "errors 30-34, 54"])

add("C26", "The geodesy and atmosphere utilities agree with their physical laws",
 "For all valid coordinates, projecting from a point along a bearing for a distance and measuring back gives that distance and bearing; distance is symmetric, zero only between equal positions and never exceeds half the Earth's meridian circumference; degree and minute range checks accept exactly the documented ranges. The speed of sound falls with height up to 11,000 m and is constant above, and Mach conversion is proportional to the Mach number.",
 ["inputs"], "All coordinates, bearings, distances, heights, Mach numbers and digit strings.",
 "Tests evaluate a dozen points.",
 [UT, CO], [("geographiclib wrapper", UT + ":get_bearing_distance_*"), ("range checks", UT + ":is_degree*_semantics"), ("ISA model", UT + ":speed_of_sound_at_altitude")],
 ["Utils static and instance methods"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for r in ROWS: f.write(json.dumps(r) + "\n")
    print(len(ROWS), "properties")
