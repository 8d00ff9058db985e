"""Planted bugs, each written from the text of a property and the code alone (see plant.py)."""
P, R, Q = "F15_Parser/F15Parse.py", "F15_Parser/ExtractedRouteRecord.py", "F15_Parser/ExtractedRouteSequence.py"
D, T, K, L, U, C = "F15_Parser/F15TokenSyntaxDescriptions.py", "Tokenizer/Tokenize.py", "Tokenizer/Token.py", "Tokenizer/Tokens.py", "Utilities/Utils.py", "Utilities/Constants.py"
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c01-trailing-control", "C01", [(T, "        self.string_to_tokenize = string_to_tokenize\n", "        self.string_to_tokenize = string_to_tokenize.rstrip()\n")],
    "a field ending in a character Python strips but the separator set does not hold, such as a form feed", "the last token loses its trailing characters",
    '''
    assert [(t.get_token_string(), t.get_token_end_index()) for t in tokens_of("ABC DEF\\x0c").get_tokens()] == [("ABC", 3), ("DEF\\x0c", 8)]
    ''')
bug("c02-previous-sticks", "C02", [(L, "        self.current_token = self.current_token - 1\n", "        self.current_token = max(self.current_token - 1, 0)\n")],
    "going back from the first token of a list", "the first token is returned again instead of none",
    '''
    t = tokens_of("ABC DEF")
    t.get_first_token()
    assert t.get_previous_token() is None
    ''')
bug("c03-pts-z", "C03", [(D, '"PTS[A-Z]"', '"PTS[A-Y]"')], "the track name PTSZ", "PTSZ is taken for an aerodrome point",
    '''
    ok, ers = parse("N0450F350 ABC PTSZ DEF")
    assert rec(ers, "PTSZ").get_base_type() == TokenBaseType.F15_ROUTE
    ''')
bug("c04-level-in-feet", "C04", [(C, "FEET_TO_METERS = 0.3048\n", "FEET_TO_METERS = 0.30479\n")], "a level whose metres are close to a half, or a very high one", "the level in metres is one short",
    '''
    for n in range(0, 1000, 5):
        ok, ers = parse("N0450F%03d ABC" % n)
        assert rec(ers, "ABC").get_altitude_si() == int(n * 100 * 0.3048 + 0.5), n
    ''')

bug("c04-cruise-metric-rounding", "C04", [(P, """        if cruise:
            ex_route_rec.set_altitude_cruise_to_si(int(altitude + 0.5))
""", """        if cruise:
            ex_route_rec.set_altitude_cruise_to_si(int(altitude))
""")], "a cruise climb target in feet whose metres have a fraction of a half or more", "the target level in metres is cut off instead of rounded",
    """
    ok, ers = parse("N0450F350 ABC C/DEF/N0450F350F370")
    assert rec(ers, "DEF").get_altitude_cruise_to_si() == 11278
    """)
bug("c04-error-40-once-per-record", "C04", [(P, "                if altitude % 5 != 0:\n", "                if altitude % 5 != 0 and not (cruise and ers.get_number_of_errors() > 0):\n")],
    "a cruise climb with a bad target level, after an error somewhere earlier in the field", "the target level that is not a multiple of 5 is not reported",
    """
    ok, ers = parse("N0450F350 ABC C/DEF/N0450F352F391 GHI")
    assert len(errors(ers)) == 2, errors(ers)
    """)
bug("c05-mach-plus-metric", "C05", [(P, """                self.assign_altitude(ers, token, ex_route_rec, token_string[4:9], False)
                ex_route_rec.set_altitude_cruise_to(token_string[9:])
                self.assign_speed(ex_route_rec, token_string[0:4])
""", """                self.assign_speed(ex_route_rec, token_string[0:4])
                self.assign_altitude(ers, token, ex_route_rec, token_string[4:9], False)
                ex_route_rec.set_altitude_cruise_to(token_string[9:])
""")], "a cruise climb to PLUS with a Mach speed and a metric level, at another level than before", "the Mach speed is converted at the previous level",
    """
    ok, ers = parse("N0450F350 ABC C/DEF/M082S0300PLUS")
    ok, ref = parse("M082S0300 ABC")
    assert rec(ers, "DEF").get_speed_si() == rec(ref, "ABC").get_speed_si(), rec(ers, "DEF").get_speed_si()
    """)
bug("c06-vfr-level-at-point", "C06", [(P, "        point_ex_route_rec.set_altitude_si(ex_route_rec.get_altitude_si())\n", "")],
    "a change to VFR at a point whose level before was not F050", "the point keeps its earlier level in metres under the text F050",
    """
    ok, ers = parse("N0450F350 ABC DEF/N0200VFR")
    assert (rec(ers, "DEF").get_altitude(), rec(ers, "DEF").get_altitude_si()) == ("F050", 1524)
    """)
bug("c07-kma-slice", "C07", [(P, """                 TokenSubType.F15_SB_SPEED_ALTITUDE_KAA | TokenSubType.F15_SB_SPEED_ALTITUDE_KAM | \\
""", """                 TokenSubType.F15_SB_SPEED_ALTITUDE_KAA | TokenSubType.F15_SB_SPEED_ALTITUDE_KAM | \\
                 TokenSubType.F15_SB_SPEED_ALTITUDE_KMA | \\
""")], "a cruise climb with a km/h speed, a metric altitude and a target in feet", "the level loses its last digit and the target text is shifted",
    """
    ok, ers = parse("N0450F350 ABC C/DEF/K0800M0840A090")
    r = rec(ers, "DEF")
    assert (r.get_altitude(), r.get_altitude_cruise_to()) == ("M0840", "A090")
    """)
bug("c07-target-carried", "C07", [(P, """        current_ex_route_rec.set_flight_rules(previous_ex_route_rec.get_flight_rules())
""", """        current_ex_route_rec.set_flight_rules(previous_ex_route_rec.get_flight_rules())
        if current_ex_route_rec.get_base_type() is TokenBaseType.F15_DCT:
            current_ex_route_rec.set_altitude_cruise_to(previous_ex_route_rec.get_altitude_cruise_to())
""")], "a cruise climb followed by DCT", "the target level text is repeated on the connector",
    """
    ok, ers = parse("N0450F350 ABC C/DEF/N0450F350F390 DCT GHI")
    assert [r.get_altitude_cruise_to() for r in ers.get_all_elements()] == ["", "", "F390", "", "", ""]
    """)
bug("c08-longitude-minutes-west", "C08", [(P, """        if e_or_w == "W":
            ex_route_rec.set_longitude(ex_route_rec.get_longitude() * -1.0)
""", """        if e_or_w == "W":
            ex_route_rec.set_longitude(ex_route_rec.get_longitude() % -360.0)
""")], "a longitude of 000W or in the west", "nothing for most values, but west becomes a positive remainder shifted by a turn",
    """
    ok, ers = parse("N0450F350 ABC 10N020W")
    assert rec(ers, "10N020W").get_longitude() == -20.0, rec(ers, "10N020W").get_longitude()
    """)
bug("c09-remeasure", "C09", [(P, """        ex_route_rec.set_longitude(result[1])
        self.assign_azimuth_distance_between_points(ers)
""", """        ex_route_rec.set_longitude(result[1])
""")], "a point with coordinates before a coordinate/bearing/distance point", "the leg to the projected point is measured to its reference position",
    """
    ok, ers = parse("N0450F350 10N010E 10N011E090060 DEF")
    a, b = rec(ers, "10N010E"), rec(ers, "10N011E090060")
    want = Utils().get_bearing_distance_between_points(10.0, 10.0, b.get_latitude(), b.get_longitude())
    assert abs(a.get_distance() - want[1]) < 1, (a.get_distance(), want)
    """)
bug("c09-dateline", "C09", [(U, "        return [result['lat2'], result['lon2']]\n", "        return [result['lat2'], result['lon2'] if abs(longitude) < 179 else longitude + (result['lon2'] - longitude) % 180.0]\n")],
    "a reference position within a degree of the date line, projected over it or westwards", "the projected longitude is half a turn out",
    """
    lat, lon = Utils().get_bearing_distance_projected_point(10.0, 179.5, 90.0, 300 * 1852)
    assert lon < -170, lon
    """)
bug("c10-leg-back-over-two", "C10", [(P, """                last_minus_two_ers = ers.get_element_at(ers.get_number_of_elements()-3)
                if last_minus_two_ers is None:
                    return
                if last_minus_two_ers.is_lat_long_valid():
""", """                last_minus_two_ers = ers.get_element_at(ers.get_number_of_elements()-3)
                if last_minus_two_ers is None:
                    return
                if last_minus_two_ers.is_lat_long_valid() and last_minus_two_ers.get_latitude() != 0.0:
""")], "a connector after a point on the equator", "the leg from that point is not measured",
    """
    ok, ers = parse("N0450F350 00N010E DCT 10N010E")
    assert rec(ers, "00N010E").get_distance() > 1000000
    """)
bug("c10-azimuth-wrapped", "C10", [(P, "        point_1.set_bearing(azimuth_distance[0])\n", "        point_1.set_bearing(azimuth_distance[0] % 180.0 - (180.0 if azimuth_distance[0] < 0 else 0))\n")],
    "a leg running exactly south", "its azimuth of 180 degrees becomes 0",
    """
    ok, ers = parse("N0450F350 20N010E 10N010E")
    assert abs(abs(rec(ers, "20N010E").get_bearing()) - 180) < 1e-6
    """)
bug("c11-tens-of-hours", "C11", [(R, "        self.stay_time = (int(stay_time[0:2]) * 60) + int(stay_time[2:])\n", "        self.stay_time = (int(stay_time[0:2]) % 20 * 60) + int(stay_time[2:])\n")],
    "a stay of 20 hours or more", "the first 20 hours are lost",
    """
    ok, ers = parse("N0450F350 ABC STAY1/2315 DEF")
    assert rec(ers, "ABC").get_stay_time() == 1395
    """)
bug("c11-stay-after-cruise", "C11", [(P, "        ers.get_last_element().set_stay_time(token.get_token_string())\n", "        ers.get_element_at(ers.get_number_of_elements() - (2 if ers.get_last_element().get_altitude_cruise_to() == \"PLUS\" else 1)).set_stay_time(token.get_token_string())\n")],
    "a stay at the point of a cruise climb to PLUS", "the stay time is put on the point before",
    """
    ok, ers = parse("N0450F350 ABC C/DEF/N0450F350PLUS STAY1/0115 GHI")
    assert rec(ers, "DEF").get_stay_time() == 75
    """)
bug("c12-gat-ends-stop", "C12", [(P, "        elif sub_type is TokenSubType.F15_SB_IFPSTART and cur_break_type is self.RULES[\"S\"]:\n", "        elif sub_type in (TokenSubType.F15_SB_GAT, TokenSubType.F15_SB_IFPSTART) and cur_break_type is self.RULES[\"S\"]:\n")],
    "the word GAT followed by a point inside an IFPSTOP section", "the section ends at GAT",
    """
    ok, ers = parse("N0450F350 ABC IFPSTOP FOO GAT DEF IFPSTART GHI")
    assert names(ers) == ["ADEP", "ABC", "IFPSTOP", "GHI", "ADES"], names(ers)
    """)
bug("c12-ifr-without-slash", "C12", [(P, """            slash_token = tokens.peek_next_token(2)
            if slash_token is None:
""", """            slash_token = tokens.peek_next_token(2)
            if slash_token is None and tokens.peek_previous_token(1).get_token_base_type() is not TokenBaseType.F15_BREAK_START:
""")], "IFR and a point ending the field directly after the word VFR", "the incomplete rule change ends in an exception",
    """
    ok, ers = parse("N0450F350 ABC VFR IFR DEF")
    assert errors(ers)[0][0] == "DEF"
    """)
bug("c13-y-literal-only", "C13", [(P, """                if ers_record.get_flight_rules() == "VFR":
""", """                if ers_record.get_flight_rules() == "VFR" and ers_record.get_sub_type() is not TokenSubType.F15_SB_SPEED_ALTITUDE_MV:
""")], "a field whose change to VFR is given with a Mach number", "the derived rules are I instead of Y when the field goes back to IFR",
    """
    ok, ers = parse("N0450F350 ABC/M040VFR FOO IFR DEF/N0450F350 GHI")
    assert ers.get_derived_flight_rules() == "Y", ers.get_derived_flight_rules()
    """)
bug("c14-star-after-stay", "C14", [(P, """            case TokenBaseType.F15_SID:
                self.sid(ers, tokens, next_token)
            case TokenBaseType.F15_STAR:
                self.star(ers, tokens, next_token)
            case _:
                # TokenBaseType.F15_SLASH | TokenBaseType.F15_SPEED_VFR |
""", """            case TokenBaseType.F15_SID:
                self.sid(ers, tokens, next_token)
            case _:
                # TokenBaseType.F15_SLASH | TokenBaseType.F15_SPEED_VFR |
""")], "the word STAR directly after a stay time", "a well-formed route is rejected",
    """
    ok, ers = parse("N0450F350 ABC STAY1/0100 STAR")
    assert ok and names(ers)[-2] == "STAR"
    """)
bug("c14-truncate-after-dct", "C14", [(P, """        match base_type:
            case TokenBaseType.F15_TRUNCATE:
                self.truncate(ers, tokens)
            case TokenBaseType.F15_POINT:
                self.point(ers, tokens, next_token)
            case TokenBaseType.F15_C:
                self.cruise_climb_c(ers, tokens, next_token)
            case _:
                self.add_error_and_re_sync(ers, tokens, next_token, 21)
""", """        match base_type:
            case TokenBaseType.F15_TRUNCATE if ers.get_number_of_elements() > 2:
                self.truncate(ers, tokens)
            case TokenBaseType.F15_POINT:
                self.point(ers, tokens, next_token)
            case TokenBaseType.F15_C:
                self.cruise_climb_c(ers, tokens, next_token)
            case _:
                self.add_error_and_re_sync(ers, tokens, next_token, 21)
""")], "a field of only a speed/level, DCT and the truncation mark", "it is rejected",
    """
    assert parse("N0450F350 DCT T")[0]
    """)
bug("c15-dct-star", "C15", [(P, """            case TokenBaseType.F15_C:
                self.cruise_climb_c(ers, tokens, next_token)
            case _:
                self.add_error_and_re_sync(ers, tokens, next_token, 21)
""", """            case TokenBaseType.F15_C:
                self.cruise_climb_c(ers, tokens, next_token)
            case TokenBaseType.F15_STAR:
                self.star(ers, tokens, next_token)
            case _:
                self.add_error_and_re_sync(ers, tokens, next_token, 21)
""")], "DCT followed by the word STAR at the end", "it is accepted",
    """
    ok, ers = parse("N0450F350 ABC DCT STAR")
    assert not ok and errors(ers)[0][0] == "STAR"
    """)
bug("c16-truncate-stops", "C16", [(P, """        if next_token is None:
            return
        self.add_error_and_re_sync(ers, tokens, next_token, 19)
""", """        if next_token is None:
            return
        if next_token.get_token_base_type() is TokenBaseType.F15_UNKNOWN:
            self.add_error_no_re_sync(ers, next_token, 19)
            return
        self.add_error_and_re_sync(ers, tokens, next_token, 19)
""")], "an unrecognised element after the truncation mark, with more behind it", "the rest is not parsed",
    """
    ok, ers = parse("N0450F350 ABC T 9X9X DEF GHI")
    assert "GHI" in names(ers)
    """)
bug("c07-cc-twice", "C07", [(P, """            case TokenBaseType.F15_C:
                self.add_record(ers, token)
                self.cruise_climb_c(ers, tokens, next_token)
            case TokenBaseType.F15_POINT:
                self.add_record(ers, token)
                self.point(ers, tokens, next_token)
""", """            case TokenBaseType.F15_C:
                self.add_record(ers, token)
                self.point(ers, tokens, next_token)
            case TokenBaseType.F15_POINT:
                self.add_record(ers, token)
                self.point(ers, tokens, next_token)
""")], "the point C before a cruise climb", "the C of the cruise climb is recorded as a point and the climb is reported",
    """
    ok, ers = parse("N0450F350 ABC C C/DEF/N0450F350F390")
    assert ok and names(ers) == ["ADEP", "ABC", "C", "DEF", "ADES"]
    """)
bug("c19-first-placeholder", "C19", [(Q, """error_message.replace("!", element_text)""", """error_message.replace("!", element_text.lstrip("/") or element_text, 1 if len(element_text) > 25 else -1)""")],
    "an element that starts with '/' but is longer, in an error, or a message with two placeholders", "the text names only part of the element",
    """
    t = Tokens()
    e = ExtractedRouteSequence()
    e.add_error("/X", 0, 2, TokenBaseType.F15_UNKNOWN, TokenSubType.F15_SB_UNKNOWN, "a ! b")
    assert errors(e) == [("/X", "a /X b")]
    """)
bug("c19-error-records-speed", "C19", [(P, """                      ErrorMessages.error_messages[error_number])
""", """                      ErrorMessages.error_messages[error_number])
        if error_number == 48:
            ers.get_all_errors()[-1].set_flight_rules("IFR")
""")], "a coordinate point after an ATS route", "the error record carries flight rules",
    """
    ok, ers = parse("N0450F350 ABC UL9 10N010E")
    assert ers.get_all_errors()[0].get_flight_rules() == ""
    """)
bug("c20-first-token", "C20", [(P, "        token = tokens.get_first_token()\n", "        token = tokens.get_current_token() or tokens.get_first_token()\n")],
    "parsing the same token list a second time after a parse that did not use it up", "the second parse starts in the middle",
    """
    t = tokens_of("N0450F350 ABC DEF")
    t.get_next_token()
    ers = ExtractedRouteSequence()
    assert ParseF15().parse_f15(ers, t), errors(ers)
    """)
bug("c20-type-cache", "C20", [(D, """        for item in self.F15_SB_CONFIGURATION:
            if re.fullmatch(item[self.TOKEN_REGEXP_IDX], token_string):
                return item
""", """        key = token_string[:16]
        if key in self.cache:
            return self.cache[key]
        for item in self.F15_SB_CONFIGURATION:
            if re.fullmatch(item[self.TOKEN_REGEXP_IDX], token_string):
                self.cache[key] = item
                return item
"""), (D, "    def get_token_type(self, token_string=\"\"):\n", "    cache = {}\n\n    def get_token_type(self, token_string=\"\"):\n")],
    "an unknown element whose first 16 characters are those of a well-formed one parsed earlier", "it is taken for the earlier one's type",
    """
    parse("N0450F350 ABC 1000N01000E09006 DEF")
    parse("N0450F350 ABC C/DEF/K0450S0350S0390")
    parse("N0450F350 ABC 1000N01000E090060 DEF")
    parse("N0450F350 ABC C/DEF/N0450M0350M0390")
    d = F15TokenSyntaxDefinition()
    assert d.get_token_type("1000N01000E090060X")[1] == TokenBaseType.F15_UNKNOWN
    """)
bug("c21-slash-after-space", "C21", [(T, """                if item in "/":
""", """                if item in "/" and (idx == 0 or self.string_to_tokenize[idx - 1] != "\\t"):
""")], "a tab directly before '/'", "the '/' is lost",
    """
    ok, ers = parse("N0450F350 ABC\\t/N0450F370 DEF")
    assert ok
    """)
bug("c21-carriage-return-end", "C21", [(T, "        for item in self.string_to_tokenize:\n", "        for item in self.string_to_tokenize.replace(\"\\r\\n\", \"\\n\"):\n")],
    "a field with CR LF line ends", "positions after a line end are too small",
    """
    assert [(t.get_token_string(), t.get_token_start_index()) for t in tokens_of("ABC\\r\\nDEF").get_tokens()][1] == ("DEF", 5)
    """)
bug("c22-cruise-target-missing", "C22", [(R, """               " altitude_cruise_to_si=\\"" + "{0:.2f}".format(self.get_altitude_cruise_to_si()) + "\\"" + \\
""", """               " altitude_cruise_to_si=\\"" + "{0:.2f}".format(self.get_altitude_cruise_to_si() or self.get_altitude_si()) + "\\"" + \\
""")], "any record without a cruise climb target", "the XML gives its level as its target in metres",
    """
    ok, ers = parse("N0450F350 ABC")
    assert 'altitude_cruise_to_si="0.00"' in rec(ers, "ABC").as_xml(False)
    """)
bug("c22-negative-longitude", "C22", [(R, """               " longitude=\\"" + "{0:>.2f}".format(self.get_longitude()) + "\\"" + \\
""", """               " longitude=\\"" + "{0:>.2f}".format(self.get_longitude())[:6] + "\\"" + \\
""")], "a longitude west of 100 degrees", "its last decimal is cut off",
    """
    ok, ers = parse("N0450F350 1000N12320W")
    assert 'longitude="-123.33"' in ers.as_xml()
    """)
bug("c23-long-name", "C23", [(R, "        str_ = \"{0:<17}\".format(self.get_name()) + \\\n", "        str_ = \"{0:<17.24}\".format(self.get_name()) + \\\n")],
    "an element longer than 24 characters", "the printed line cuts its name off",
    """
    ok, ers = parse("N0450F350 ABC " + "X" * 25)
    assert "X" * 25 in ers.get_all_errors()[0].to_string(True).split()[0]
    """)
bug("c23-error-break-text", "C23", [(Q, """            for item in self.get_all_errors():
                item.print_record(True)
""", """            for item in sorted(self.get_all_errors(), key=lambda e: e.get_start_index()):
                item.print_record(True)
""")], "errors detected out of source order", "the printout lists them in another order",
    """
    import io, contextlib
    e = ExtractedRouteSequence()
    for i in (9, 3):
        e.add_error("X%d" % i, i, i + 1, TokenBaseType.F15_UNKNOWN, TokenSubType.F15_SB_UNKNOWN, "!")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        e.print_ers()
    assert out.getvalue().index("X9") < out.getvalue().index("X3")
    """)
bug("c24-break-word-once", "C24", [(R, """        if self.break_text == "":
            self.break_text = break_text
""", """        if self.break_text == "" or self.break_text == break_text:
            self.break_text = break_text
""")], "a break text that is one word given twice", "the second word is not appended",
    """
    ok, ers = parse("N0450F350 ABC OAT FOO FOO")
    assert rec(ers, "OAT").get_break_text() == "FOO FOO"
    """)
bug("c25-star-then-t", "C25", [(P, """        ex_route_rec = self.add_record(ers, token)

        # The STAR must be the last record in the ERS
        if tokens.peek_next_token(1) is None:
""", """        ex_route_rec = self.add_record(ers, token)

        # The STAR must be the last record in the ERS
        following = tokens.peek_next_token(1)
        if following is None or following.get_token_base_type() is TokenBaseType.F15_TRUNCATE:
""")], "the word STAR followed by the truncation mark", "it is accepted",
    """
    assert not parse("N0450F350 ABC STAR T")[0]
    """)
bug("c25-sid-type", "C25", [(P, """            else:
                ex_route_rec.set_base_type(TokenBaseType.F15_SID)
                ex_route_rec.set_sub_type(TokenSubType.F15_SB_SID)
            # Figure out which node to go to next
""", """            else:
                ex_route_rec.set_base_type(TokenBaseType.F15_SID)
                if tokens.peek_next_token(1) is not None:
                    ex_route_rec.set_sub_type(TokenSubType.F15_SB_SID)
            # Figure out which node to go to next
""")], "a SID that is the only route element", "it keeps the subtype of a STAR",
    """
    ok, ers = parse("N0450F350 ABC1D")
    assert rec(ers, "ABC1D").get_sub_type() == TokenSubType.F15_SB_SID
    """)
bug("c26-near-points", "C26", [(U, "        return [result['azi1'], result['s12']]\n", "        return [result['azi1'], result['s12'] if result['s12'] > 1.0 else 0.0]\n")],
    "two points less than a metre apart", "their distance is zero",
    """
    assert Utils().get_bearing_distance_between_points(10.0, 10.0, 10.000005, 10.0)[1] > 0.5
    """)
bug("c26-mach-at-low-level", "C26", [(U, "        if altitude_si == 0:\n", "        if altitude_si < 305:\n")],
    "a Mach speed at a level below 1000 feet", "the sea-level constant is used",
    """
    assert abs(Utils.mach_to_ms_speed(100, 300) - Utils.speed_of_sound_at_altitude(300)) < 1e-6
    """)
bug("c05-mach-vfr-at-point-level", "C05", [(P, """        self.assign_altitude(ers, token, ex_route_rec, self.DEFAULT_ALTITUDE, False)

""", ""), (P, """        # Copy the speed and altitude from the VFR record to the VFR rule change point
""", """        self.assign_altitude(ers, token, ex_route_rec, self.DEFAULT_ALTITUDE, False)

        # Copy the speed and altitude from the VFR record to the VFR rule change point
""")], "a change to VFR with a Mach number from another level than F050", "the Mach number is converted at the level before the change",
    """
    ok, ers = parse("N0450F350 ABC/M082VFR FOO")
    ok, ref = parse("M082F050 ABC")
    assert rec(ers, "VFR").get_speed_si() == rec(ref, "ABC").get_speed_si()
    """)
bug("c08-bearing-36x", "C08", [(P, """                self.assign_ll_deg_min(ers, token, ex_route_rec, token_string)
                if not Utils.is_degree_semantics(token_string[-6:-3], 360):
""", """                self.assign_ll_deg_min(ers, token, ex_route_rec, token_string)
                if not Utils.is_degree_semantics(token_string[-6:-4], 36):
""")], "a point in degrees and minutes with a bearing from 361 to 369", "the bearing is not reported",
    """
    assert parse("N0450F350 ABC 1000N01000E365060")[0] is False
    """)
bug("c13-z-last-point", "C13", [(P, """            ers.set_derived_flight_rules("V")
            for ers_record in ers.get_all_elements():
""", """            ers.set_derived_flight_rules("V")
            for ers_record in ers.get_all_elements()[:-2]:
""")], "a field starting under VFR whose only IFR point is its last element", "the derived rules are V instead of Z",
    """
    ok, ers = parse("N0200VFR FOO IFR DEF/N0450F350")
    assert ers.get_derived_flight_rules() == "Z"
    """)
bug("c15-unknown-after-sid", "C15", [(P, """            case TokenBaseType.F15_STAR:
                self.star(ers, tokens, next_token)
            case _:
                # TokenBaseType.F15_UNKNOWN | TokenBaseType.F15_SLASH |
""", """            case TokenBaseType.F15_STAR:
                self.star(ers, tokens, next_token)
            case TokenBaseType.F15_DCT if tokens.peek_next_token(1) is None:
                self.dct(ers, tokens, next_token)
            case _:
                # TokenBaseType.F15_UNKNOWN | TokenBaseType.F15_SLASH |
""")], "a SID followed by DCT at the end of the field", "it is accepted",
    """
    assert not parse("N0450F350 ABC1D DCT")[0]
    """)
bug("c17-open-rule-change", "C17", [(P, "            if speed_level_token is None:\n", "            if speed_level_token is None and ers.get_number_of_elements() > 2:\n")],
    "a field starting under VFR that ends with IFR, a point and '/'", "an exception",
    """
    ok, ers = parse("N0200VFR FOO IFR DEF/")
    assert not ok
    """)
bug("c18-vfr-break-words", "C18", [(P, """        last_ers = ers.get_last_element()
        last_ers.append_break_text(token.get_token_string())
""", """        last_ers = ers.get_last_element()
        if base_type is not TokenBaseType.F15_SLASH or last_ers.get_break_text() != "":
            last_ers.append_break_text(token.get_token_string())
""")], "a break text that starts with '/'", "the '/' is lost",
    """
    ok, ers = parse("N0450F350 ABC OAT/DEF GAT GHI")
    assert rec(ers, "OAT").get_break_text() == "/ DEF GAT"
    """)
bug("c24-cruise-target-setter", "C24", [(R, "        self.altitude_cruise_to_si = altitude_cruise_to_si\n", "        self.altitude_cruise_to_si = altitude_cruise_to_si or self.altitude_cruise_to_si\n")],
    "setting the target level of a record back to zero", "the earlier value stays",
    """
    r = ExtractedRouteRecord("ABC", 0, 3, TokenBaseType.F15_POINT, TokenSubType.F15_SB_PRP)
    r.set_altitude_cruise_to_si(100)
    r.set_altitude_cruise_to_si(0)
    assert r.get_altitude_cruise_to_si() == 0
    """)
bug("c16-sid-stops", "C16", [(P, """            case TokenBaseType.F15_SID:
                self.add_error_and_re_sync(ers, tokens, next_token, 32)
""", """            case TokenBaseType.F15_SID:
                self.add_error_no_re_sync(ers, next_token, 32)
""")], "a SID followed by the word SID and more", "the rest is not parsed",
    """
    ok, ers = parse("N0450F350 ABC1D SID DEF GHI")
    assert "GHI" in names(ers)
    """)

# second batch: size thresholds, state on shared objects, rare characters, and pairs of sites
bug("c01-crlf", "C01", [(T, "        for item in self.string_to_tokenize:\n", "        for item in self.string_to_tokenize.replace(\"\\r\\n\", \"\\n\"):\n")],
    "a field with Windows line ends", "every token after the first line has a position that is too small",
    r'''
    assert [(t.get_token_string(), t.get_token_start_index()) for t in tokens_of("ABC\r\nDEF").get_tokens()] == [("ABC", 0), ("DEF", 5)]
    ''')
bug("c01-unprintable", "C01", [(T, "            if item in self.whitespace:\n", "            if item in self.whitespace or not item.isprintable():\n")],
    "a control or unassigned character within a token", "the token is split there and the character is lost",
    r'''
    assert [t.get_token_string() for t in tokens_of("AB\x0bC\x00D E").get_tokens()] == ["AB\x0bC\x00D", "E"]
    ''')
bug("c01-kept-separators", "C01", [(T, "        self.whitespace = whitespace\n", "        self.whitespace = whitespace or self.whitespace\n")],
    "an empty set of separators set after another one", "the old separators are still used",
    '''
    t = Tokenize()
    t.set_whitespace(" ")
    t.set_whitespace("")
    t.set_string_to_tokenize("A B")
    t.tokenize()
    assert [x.get_token_string() for x in t.get_tokens().get_tokens()] == ["A B"]
    ''')
bug("c02-hundred", "C02", [(L, "        if index < 0 or index >= len(self.tokens):\n", "        if not 0 <= index < min(len(self.tokens), 128):\n")],
    "a list of more than 128 tokens", "tokens beyond the 128th are not returned",
    '''
    t = tokens_of(" ".join("A%d" % i for i in range(140)))
    assert t.get_token_at(135).get_token_string() == "A135"
    assert t.get_last_token().get_token_string() == "A139"
    ''')
bug("c02-truncate-cursor", "C02", [(L, "        self.tokens = self.tokens[:split_index + 1]\n", "        self.tokens = self.tokens[:split_index + 1]\n        self.current_token = min(self.current_token, split_index)\n")],
    "truncating a list to before its current position", "the position moves",
    '''
    t = tokens_of("A B C D")
    t.get_last_token()
    t.remove_tokens_from_end_of_list(1)
    assert t.get_current_token() is None
    assert t.get_previous_token() is None
    assert t.get_previous_token().get_token_string() == "B"
    ''')
bug("c03-newline", "C03", [(D, "            if re.fullmatch(item[self.TOKEN_REGEXP_IDX], token_string):\n", "            if re.match(\"(?:\" + item[self.TOKEN_REGEXP_IDX] + \")$\", token_string):\n")],
    "a token ending in a newline, that is a separator set without the newline", "the newline is ignored in classifying",
    r'''
    assert F15TokenSyntaxDefinition().get_token_type("DCT\n")[1] == TokenBaseType.F15_UNKNOWN
    ''')
bug("c03-max-length", "C03", [(P, "            if len(token_string) > F15TokenSyntaxDefinition.MAX_TOKEN_LENGTH:\n", "            if len(token_string.encode()) > F15TokenSyntaxDefinition.MAX_TOKEN_LENGTH:\n")],
    "a token of non-ASCII characters whose encoding is too long but whose text is not", "it is reported as too long instead of unknown",
    r'''
    ok, ers = parse("N0450F350 ABC " + "\u00e9" * 20 + " DEF")
    assert errors(ers) and ers.get_all_errors()[0].get_base_type() == TokenBaseType.F15_UNKNOWN
    ''')
bug("c04-vfr-default-kept", "C04", [(P, """        point_ex_route_rec.set_altitude(ex_route_rec.get_altitude())
        point_ex_route_rec.set_altitude_si(ex_route_rec.get_altitude_si())
""", """        if point_ex_route_rec.get_altitude_si() != ex_route_rec.get_altitude_si():
            point_ex_route_rec.set_altitude(ex_route_rec.get_altitude())
            point_ex_route_rec.set_altitude_si(ex_route_rec.get_altitude_si())
""")], "a change to speed/VFR at a point whose level is A050, the default level written otherwise", "the point keeps A050 as its level's text",
    """
    ok, ers = parse("N0450A050 ABC/N0120VFR")
    assert rec(ers, "ABC").get_altitude() == "F050", rec(ers, "ABC").get_altitude()
    """)
bug("c05-mach-rounded", "C05", [(U, "            return (mach_number / 100) * Utils.speed_of_sound_at_altitude(altitude_si)\n", "            return (mach_number / 100) * round(Utils.speed_of_sound_at_altitude(altitude_si), 1)\n")],
    "a Mach number and level at which the speed is close to a half", "the speed is one off",
    """
    from fractions import Fraction
    import math
    ok, ers = parse("N0450F350 ABC")
    F350 = rec(ers, "ABC").get_altitude_si()
    bad = 0
    for m in range(1, 1000):
        ok, ers = parse("M%03dF350 ABC" % m)
        bad += rec(ers, "ABC").get_speed_si() != int(Utils.speed_of_sound_at_altitude(F350) * m / 100 + 0.5)
    assert bad == 0, bad
    """)
bug("c04-warning-repeated", "C04", [(P, """                self.assign_altitude(ers, token, ex_route_rec, token_string[4:], False)
                self.assign_speed(ex_route_rec, token_string[0:4])
            case TokenSubType.F15_SB_SPEED_ALTITUDE_KS""", """                if ex_route_rec.get_altitude() != token_string[4:]:
                    self.assign_altitude(ers, token, ex_route_rec, token_string[4:], False)
                self.assign_speed(ex_route_rec, token_string[0:4])
            case TokenSubType.F15_SB_SPEED_ALTITUDE_KS""")], "a Mach change at a point that keeps a flight level which is not a multiple of five", "the warning about the level is not repeated",
    """
    ok, ers = parse("N0450F352 ABC/M082F352 DEF")
    assert len(errors(ers)) == 2, errors(ers)
    """)
bug("c06-oat-point-rules", "C06", [(P, """        self.add_record(ers, token)
        ers.get_last_element().set_flight_rules(self.RULES["I"])

        # Check lat/long and bearing distance semantics
""", """        self.add_record(ers, token)
        if ers.get_previous_to_last_element().get_base_type() in (TokenBaseType.F15_BREAK_START, TokenBaseType.F15_SPEED_VFR):
            ers.get_last_element().set_flight_rules(self.RULES["I"])

        # Check lat/long and bearing distance semantics
""")], "an element without rules of its own, such as a 'C' or a rejected STAR, between the section and the point", "the points after it keep the section's rules",
    """
    ok, ers = parse("N0450F350 ABC VFR IFR 00N001E DEF")
    for f in ("N0450F350 ABC OAT GAT DEF GHI", "N0100VFR IFR ABC/N0450F350 DEF C GHI"):
        ok, ers = parse(f)
        assert all(r.get_flight_rules() == "IFR" for r in ers.get_all_elements() if r.get_name() in ("DEF", "GHI")), f
    ok, ers = parse("%% ABC DEF")
    assert rec(ers, "DEF").get_flight_rules() == "IFR"
    """)
bug("c07-c-after-stay", "C07", [(P, """            case TokenBaseType.F15_C:
                self.cruise_climb_c(ers, tokens, next_token)
            case TokenBaseType.F15_POINT:
                self.point(ers, tokens, next_token)
            case TokenBaseType.F15_ROUTE:
                # Post""", """            case TokenBaseType.F15_C if tokens.peek_next_token(2) is not None and tokens.peek_next_token(2).get_token_sub_type() == TokenSubType.F15_SB_PRP:
                self.cruise_climb_c(ers, tokens, next_token)
            case TokenBaseType.F15_POINT | TokenBaseType.F15_C:
                self.point(ers, tokens, next_token)
            case TokenBaseType.F15_ROUTE:
                # Post""")], "a cruise climb at a coordinate point directly after a stay", "the C is recorded as a point",
    """
    ok, ers = parse("N0450F350 ABC STAY1/0130 C/00N002E/N0450F350F390")
    assert ok and names(ers) == ["ADEP", "ABC", "00N002E", "ADES"], names(ers)
    """)
bug("c07-same-level", "C07", [(P, """        if cruise:
            ex_route_rec.set_altitude_cruise_to(altitude_string)
        else:""", """        if cruise and altitude_string == ex_route_rec.get_altitude():
            return
        if cruise:
            ex_route_rec.set_altitude_cruise_to(altitude_string)
        else:""")], "a cruise climb whose target is its starting level", "there is no target",
    """
    ok, ers = parse("N0450F350 ABC C/DEF/N0450F350F350")
    assert rec(ers, "DEF").get_altitude_cruise_to() == "F350"
    """)
bug("c08-equator-sign", "C08", [(P, """        if n_or_s == "S":
            ex_route_rec.set_latitude(ex_route_rec.get_latitude() * -1.0)
""", """        if n_or_s == "S" and int(latitude[0:2]) > 0:
            ex_route_rec.set_latitude(ex_route_rec.get_latitude() * -1.0)
""")], "a southern latitude of less than one degree", "it is recorded as north",
    """
    ok, ers = parse("N0450F350 0030S00100W")
    assert rec(ers, "0030S00100W").get_latitude() == -0.5
    """)
bug("c08-climb-minutes-error", "C08", [(P, "        if not Utils.is_degree_minute_semantics(token_string[5:10], 180, 3):\n", "        if not Utils.is_degree_minute_semantics(token_string[5:10], 180, 3) and not ers.get_last_element().get_altitude_cruise_to() and token_string[10] == \"E\" or token_string[10] == \"W\" and int(token_string[5:10]) > 18000:\n")],
    "a western longitude of more than 59 minutes but not more than 180 degrees", "it is not reported",
    """
    ok, ers = parse("N0450F350 0030S00160W")
    assert not ok
    """)
bug("c09-no-distance", "C09", [(P, """        result = Utils().get_bearing_distance_projected_point(
            ex_route_rec""", """        if bearing >= 360.0:
            return
        result = Utils().get_bearing_distance_projected_point(
            ex_route_rec""")], "a bearing of 360 degrees", "the point stays at the reference position",
    """
    ok, ers = parse("N0450F350 01N002E360060")
    assert rec(ers, "01N002E360060").get_latitude() > 1.9
    """)
bug("c09-leg-kept", "C09", [(P, """        ex_route_rec.set_latitude(result[0])
        ex_route_rec.set_longitude(result[1])
        self.assign_azimuth_distance_between_points(ers)
""", """        ex_route_rec.set_latitude(result[0])
        ex_route_rec.set_longitude(result[1])
        if ers.get_previous_to_last_element().is_lat_long_valid():
            self.assign_azimuth_distance_between_points(ers)
""")], "a projected point after a connector", "the leg to it is measured to the reference position",
    """
    ok, ers = parse("N0450F350 00N002E DCT 00N002E000060")
    assert abs(rec(ers, "00N002E").get_distance() - 60 * 1852) < 1, rec(ers, "00N002E").get_distance()
    """)
bug("c10-short-leg", "C10", [(P, """        point_1.set_bearing(azimuth_distance[0])
        point_1.set_distance(azimuth_distance[1])
""", """        if azimuth_distance[1] > point_1.get_distance():
            point_1.set_bearing(azimuth_distance[0])
            point_1.set_distance(azimuth_distance[1])
""")], "a projected point nearer to the point before it than its reference position", "the leg to it is the one to the reference position",
    """
    ok, ers = parse("N0450F350 00N002E 02N002E180060")
    assert rec(ers, "00N002E").get_distance() < 120000, rec(ers, "00N002E").get_distance()
    """)
bug("c10-break-between", "C10", [(P, "                if last_minus_two_ers.is_lat_long_valid():\n", "                if last_minus_two_ers.is_lat_long_valid() and last_but_one_ers.get_break_text() == \"\":\n")],
    "two coordinate points with one break section between them", "the first has no leg",
    """
    ok, ers = parse("N0450F350 00N001E OAT X GAT 00N002E")
    assert rec(ers, "00N001E").get_distance() > 100000
    """)
bug("c11-midnight", "C11", [(R, "        self.stay_time = (int(stay_time[0:2]) * 60) + int(stay_time[2:])\n", "        self.stay_time = (int(stay_time[0:2]) * 60 + int(stay_time[2:])) or self.stay_time\n")],
    "a second stay of 0000 at a point that has one", "the first stay is kept",
    """
    ok, ers = parse("N0450F350 ABC STAY1/0130 STAY2/0000 DEF")
    ok, ers = parse("N0450F350 ABC STAY1/0130 %% STAY2/0000 DEF")
    assert rec(ers, "ABC").get_stay_time() == 0
    """)
bug("c11-stay-after-c", "C11", [(P, "        ers.get_last_element().set_stay_time(token.get_token_string())\n", "        [r for r in ers.get_all_elements() if r.get_base_type() == TokenBaseType.F15_POINT][-1].set_stay_time(token.get_token_string())\n")],
    "a stay at the point C, or after another element in an ill-formed field", "the stay is set on the point before it",
    """
    ok, ers = parse("N0450F350 ABC C STAY1/0130 DEF")
    assert rec(ers, "C").get_stay_time() == 90 and rec(ers, "ABC").get_stay_time() == 0
    """)
bug("c12-long-text", "C12", [(R, "            self.break_text = self.break_text + \" \" + break_text\n", "            self.break_text = (self.break_text + \" \" + break_text)[:250]\n")],
    "a break section of more than 250 characters", "the rest of its text is lost",
    """
    ok, ers = parse("N0450F350 ABC VFR " + " ".join("WORD%02d" % i for i in range(60)))
    assert rec(ers, "VFR").get_break_text().endswith("WORD59")
    """)
bug("c13-oat-first", "C13", [(P, """                if ers_record.get_flight_rules() == "VFR":
                    ers.set_derived_flight_rules("Y")
                    break
""", """                if ers_record.get_flight_rules() != "IFR":
                    if ers_record.get_flight_rules() == "VFR":
                        ers.set_derived_flight_rules("Y")
                    break
""")], "an OAT or IFPSTOP section before a VFR section", "the derived rules are I",
    """
    ok, ers = parse("N0450F350 ABC OAT X GAT DEF VFR")
    assert ers.get_derived_flight_rules() == "Y"
    """)
bug("c14-lower-sid", "C14", [(P, """            case TokenBaseType.F15_SID_STAR:
                self.sid_star(ers, tokens, next_token)
            case TokenBaseType.F15_TOO_LONG:
                self.add_error_and_re_sync(ers, tokens, next_token, 4)
            case TokenBaseType.F15_SID:
                self.sid(ers, tokens, next_token)
            case TokenBaseType.F15_STAR:
                self.star(ers, tokens, next_token)
            case _:
                # TokenBaseType.F15_SLASH | TokenBaseType.F15_SPEED_VFR |
                # TokenBaseType.F15_SPEED_ALTITUDE | TokenBaseType.F15_STAY |""", """            case TokenBaseType.F15_SID_STAR:
                self.star(ers, tokens, next_token)
            case TokenBaseType.F15_TOO_LONG:
                self.add_error_and_re_sync(ers, tokens, next_token, 4)
            case TokenBaseType.F15_SID | TokenBaseType.F15_STAR:
                self.sid(ers, tokens, next_token)
            case _:
                # TokenBaseType.F15_SLASH | TokenBaseType.F15_SPEED_VFR |
                # TokenBaseType.F15_SPEED_ALTITUDE | TokenBaseType.F15_STAY |""")], "the word STAR directly after a stay time", "a well-formed field is rejected",
    """
    ok, ers = parse("N0450F350 ABC STAY1/0130 STAR")
    assert ok, errors(ers)
    """)
bug("c14-c-then-break", "C14", [(P, """            case TokenBaseType.F15_BREAK_START:
                self.add_record(ers, token)
                self.break_start(ers, tokens, next_token)
            case TokenBaseType.F15_SPEED_VFR | TokenBaseType.F15_SPEED_ALTITUDE:
                self.add_error_and_re_sync(ers, tokens, next_token, 5)""", """            case TokenBaseType.F15_BREAK_START if next_token.get_token_sub_type() != TokenSubType.F15_SB_IFPSTOP:
                self.add_record(ers, token)
                self.break_start(ers, tokens, next_token)
            case TokenBaseType.F15_SPEED_VFR | TokenBaseType.F15_SPEED_ALTITUDE | TokenBaseType.F15_BREAK_START:
                self.add_error_and_re_sync(ers, tokens, next_token, 5)""")], "IFPSTOP at the point C", "a well-formed field is rejected",
    """
    ok, ers = parse("N0450F350 ABC C IFPSTOP X IFPSTART DEF")
    assert ok, errors(ers)
    """)
bug("c15-climb-slash", "C15", [(P, "            self.add_error_and_re_sync(ers, tokens, next_token, 26)\n            return\n", "            self.add_error_and_re_sync(ers, tokens, token if token.get_token_base_type() is TokenBaseType.F15_C else next_token, 26)\n            return\n")],
    "a cruise climb at the point C without its second slash", "the error names the C",
    """
    ok, ers = parse("N0450F350 ABC C/C DEF")
    assert errors(ers)[0][0] == "DEF", errors(ers)
    """)
bug("c15-route-after-resync", "C15", [(P, "                if sub_type == TokenSubType.F15_SB_PRP_BD or sub_type == TokenSubType.F15_SB_LL_DEG or \\\n                   sub_type == TokenSubType.F15_SB_LL_MIN or sub_type == TokenSubType.F15_SB_LLBD_DEG or \\\n                   sub_type == TokenSubType.F15_SB_LLBD_MIN:\n                    self.add_error_and_re_sync(ers, tokens, token, 47)",
     "                if last_ers_rec.get_stay_time() == 0 and \\\n                   (sub_type == TokenSubType.F15_SB_PRP_BD or last_ers_rec.is_lat_long_valid()):\n                    self.add_error_and_re_sync(ers, tokens, token, 47)")],
    "an ATS route after a stay at a coordinate point", "it is accepted",
    """
    ok, ers = parse("N0450F350 00N001E STAY1/0130 B9 DEF")
    assert not ok
    """)
bug("c16-many-errors", "C16", [(P, """        self.add_error_no_re_sync(ers, token, error_number)
        self.re_sync_parser_after_error(ers, tokens)
""", """        self.add_error_no_re_sync(ers, token, error_number)
        if ers.get_number_of_errors() < 25:
            self.re_sync_parser_after_error(ers, tokens)
""")], "a field with 25 errors", "the elements after the 25th error are not extracted",
    """
    ok, ers = parse("N0450F350 ABC" + " %%" * 30 + " DEF")
    assert len(errors(ers)) == 30 and "DEF" in names(ers)
    """)
bug("c16-error-in-break", "C16", [(P, """            case TokenBaseType.F15_BREAK_START:
                self.break_start(ers, tokens, token)
            case TokenBaseType.F15_SPEED_VFR:
                self.assign_speed_vfr(ers, tokens, token)
            case TokenBaseType.F15_BREAK_END:""", """            case TokenBaseType.F15_BREAK_START:
                if ers.get_last_element().get_base_type() is not TokenBaseType.F15_ROUTE:
                    self.break_start(ers, tokens, token)
                else:
                    self.re_sync_parser_after_error(ers, tokens)
            case TokenBaseType.F15_SPEED_VFR:
                self.assign_speed_vfr(ers, tokens, token)
            case TokenBaseType.F15_BREAK_END:""")], "a break start after an error after an ATS route", "the break start is skipped",
    """
    ok, ers = parse("N0450F350 ABC B9 %% OAT X GAT DEF")
    assert "OAT" in names(ers), names(ers)
    """)
bug("c17-warning-verdict", "C17", [(P, "        # Return True if no errors have been reported\n        return ers.get_number_of_errors() == 0\n", "        # Return True if no errors have been reported\n        return all(e.get_base_type() in (TokenBaseType.F15_SPEED_ALTITUDE, TokenBaseType.F15_SPEED_ALTITUDE_PLUS) and e.get_start_index() > 0 and \"zero or 5\" in e.get_error_text() for e in ers.get_all_errors())\n")],
    "a field whose only errors are about flight levels that are no multiple of five, after the first element", "the verdict is true although an error is recorded",
    """
    ok, ers = parse("N0450F350 ABC/N0450F352 DEF")
    assert ok == (len(errors(ers)) == 0), (ok, errors(ers))
    """)
bug("c17-many-slashes", "C17", [(P, """            case TokenBaseType.F15_SLASH:
                self.add_error_and_re_sync(ers, tokens, next_token, 16)
            case TokenBaseType.F15_SPEED_VFR:
                self.assign_speed_vfr(ers, tokens, next_token)""", """            case TokenBaseType.F15_SLASH:
                while next_token.get_token_base_type() == TokenBaseType.F15_SLASH:
                    self.add_error_no_re_sync(ers, next_token, 16)
                    next_token = tokens.get_next_token()
                tokens.get_previous_token()
                self.re_sync_parser_after_error(ers, tokens)
            case TokenBaseType.F15_SPEED_VFR:
                self.assign_speed_vfr(ers, tokens, next_token)""")], "a field ending in two slashes after a point", "an exception",
    """
    ok, ers = parse("N0450F350 ABC//")
    assert not ok
    """)
bug("c18-stay-overwrites", "C18", [(P, """            self.add_error_and_re_sync(ers, tokens, current_token, 38)
            return
""", """            self.add_error_no_re_sync(ers, current_token, 38)
            return
""")], "an ill-formed stay time", "everything after it is neither recorded nor reported",
    """
    ok, ers = parse("N0450F350 ABC STAY1/9999 DEF B9 GHI")
    assert "GHI" in names(ers)
    """)
bug("c19-duplicate-suppressed", "C19", [(Q, "        self.error_records.append(err_record)\n", """        last = self.error_records[-1] if self.error_records else None
        if last is None or (last.get_name(), last.get_error_text()) != (err_record.get_name(), err_record.get_error_text()):
            self.error_records.append(err_record)
""")], "the same ill-formed element twice in a row", "the second is not reported",
    """
    ok, ers = parse("N0450F350 ABC %% %% DEF")
    assert len(errors(ers)) == 2
    """)
bug("c20-vfr-renamed", "C20", [(P, "        vfr_token = copy.deepcopy(token)\n", "        vfr_token = token\n"), (P, "        token_string = token.get_token_string()\n        sub_type = token.get_token_sub_type()\n        match sub_type:\n            case TokenBaseType.F15_SPEED_VFR | TokenSubType.F15_SB_SPEED_ALTITUDE_MV:", "        sub_type = token.get_token_sub_type()\n        match sub_type:\n            case TokenBaseType.F15_SPEED_VFR | TokenSubType.F15_SB_SPEED_ALTITUDE_MV:"),
     (P, "        vfr_token.set_token_string(\"VFR\")\n", "        token_string = vfr_token.get_token_string()\n        vfr_token.set_token_string(\"VFR\")\n")],
    "parsing the same tokens twice, with a speed/VFR among them", "the second result is different",
    """
    t = tokens_of("N0450F350 ABC/N0120VFR")
    a, b = ExtractedRouteSequence(), ExtractedRouteSequence()
    ParseF15().parse_f15(a, t)
    ParseF15().parse_f15(b, t)
    assert names(a) == names(b) and errors(a) == errors(b)
    """)
bug("c20-stay-on-parser", "C20", [(P, """        # The STAY token does not have to be stored,
        # skip it and get what should be a forward slash
""", """        self.stay_record = ers.get_last_element()
        # The STAY token does not have to be stored,
        # skip it and get what should be a forward slash
"""), (P, "        ers.get_last_element().set_stay_time(token.get_token_string())\n", "        self.stay_record.set_stay_time(token.get_token_string())\n")],
    "two threads parsing stays with one parser", "a stay is set in the other thread's result",
    """
    import sys, threading
    p, bad = ParseF15(), []
    sys.setswitchinterval(1e-6)

    def work(n):
        for i in range(300):
            t = tokens_of("N0450F350 " + " ".join("ABC STAY1/%02d%02d" % (n, j) for j in range(20)))
            e = ExtractedRouteSequence()
            p.parse_f15(e, t)
            if [r.get_stay_time() for r in e.get_all_elements()[1:-1]] != [n * 60 + j for j in range(20)]:
                bad.append(n)
    ts = [threading.Thread(target=work, args=(n,)) for n in range(8)]
    [t.start() for t in ts]
    [t.join() for t in ts]

    import inspect
    depth = []

    class Nest(Tokens):
        inner = False

        def get_next_token(self):
            t = Tokens.get_next_token(self)
            if t is not None and t.get_token_string() == "/" and not Nest.inner:
                Nest.inner = True
                p.parse_f15(ExtractedRouteSequence(), tokens_of("N0450F350 XYZ STAY1/0200"))
                Nest.inner = False
            return t
    t = tokens_of("N0450F350 ABC STAY1/0130 DEF")
    n = Nest()
    n.tokens = t.get_tokens()
    e = ExtractedRouteSequence()
    p.parse_f15(e, n)
    assert rec(e, "ABC").get_stay_time() == 90 and not bad
    """)
bug("c21-tab-in-vfr", "C21", [(T, "                token_text = \"\"\n            else:\n", "                token_text = \"\"\n                if item == \"\\r\" and self.string_to_tokenize[idx + 1:idx + 2] == \"\\n\":\n                    idx = idx - 1\n            else:\n")],
    "a carriage return and newline between elements", "positions are off",
    r"""
    assert [(t.get_token_string(), t.get_token_start_index()) for t in tokens_of("ABC\r\nDEF").get_tokens()] == [("ABC", 0), ("DEF", 5)]
    """)
bug("c21-adjacent-slash", "C21", [(P, """            if slash_token.get_token_base_type() != TokenBaseType.F15_SLASH:
""", """            if slash_token.get_token_base_type() != TokenBaseType.F15_SLASH or \\
                    slash_token.get_token_start_index() != rule_change_point.get_token_end_index():
""")], "a blank before the slash of a change to IFR", "the change is not recognised",
    """
    ok, a = parse("N0450F350 ABC VFR X IFR DEF /N0450F350 GHI")
    assert "GHI" in names(a)
    """)
bug("c22-apostrophe-name", "C22", [(Q, """        for item in self.get_all_elements():
            xml_string = xml_string + "   " + item.as_xml(False) + "\\n"
""", """        for item in self.get_all_elements():
            xml_string = xml_string + "   " + item.as_xml(False) + ("\\n" if item is not self.get_last_element() else "\\n")
            if self.get_number_of_elements() > 40 and item.get_base_type() == TokenBaseType.F15_DCT:
                xml_string = xml_string[:xml_string.rindex("   <")] if xml_string.endswith("</ers_record>\\n") and len(xml_string) > 20000 else xml_string
""")], "a route of more than 40 elements and 20,000 characters of XML", "connectors are missing from the XML",
    """
    ok, ers = parse("N0450F350 ABC" + " DCT DEF" * 60)
    assert ers.as_xml().count(">DCT<") == 60
    """)
bug("c22-thousands", "C22", [(R, '''               " distance=\\"" + "{0:>.2f}".format(self.get_distance()) + "\\"" + \\
''', '''               " distance=\\"" + "{0:>.9g}".format(round(self.get_distance(), 2)) + "\\"" + \\
''')], "a distance of ten thousand kilometres or more, or one without two decimals", "the distance has fewer than two decimals", 
    """
    ok, ers = parse("N0450F350 00N001E 00N179E")
    import re
    d = [float(x) for x in re.findall('distance="([^"]*)"', ers.as_xml())]
    assert abs(d[1] - rec(ers, "00N001E").get_distance()) < 0.006
    assert re.findall('distance="([^"]*)"', ers.as_xml())[0] == "0.00"
    """)
bug("c23-errors-of-break", "C23", [(R, "        if error:\n            error_or_break = self.get_error_text()\n        else:\n            error_or_break = self.get_break_text()\n        str_ =", "        error_or_break = self.get_error_text() if error else self.get_break_text()\n        if len(error_or_break) > 91:\n            error_or_break = error_or_break[:88] + \"...\"\n        str_ =")],
    "a break text of more than 91 characters", "the printout cuts it off",
    """
    ok, ers = parse("N0450F350 ABC VFR " + "WORD " * 30)
    assert ers.get_element_at(2).get_break_text() in ers.get_element_at(2).to_string(False)
    """)
bug("c23-si-level", "C23", [(R, "               \"{0:>7}\".format(self.get_altitude_cruise_to_si()) + \\\n", "               \"{0:>7}\".format(self.get_altitude_cruise_to_si() or self.get_altitude_si() * bool(self.get_altitude_cruise_to() == \"PLUS\")) + \\\n")],
    "a cruise climb to PLUS", "the printout shows a target level in metres",
    """
    ok, ers = parse("N0450F350 ABC C/DEF/N0450F350PLUS")
    assert " 10668   PLUS" not in ers.get_element_at(2).to_string(False).replace("PLUS  10668", " 10668   PLUS")
    """)
bug("c24-empty-break-word", "C24", [(R, "        if self.break_text == \"\":\n            self.break_text = break_text\n", "        if self.break_text.strip() == \"\":\n            self.break_text = break_text\n")],
    "a break text of blanks only", "the blanks are dropped when more is appended",
    """
    r = ExtractedRouteRecord("A", 0, 1, TokenBaseType.F15_POINT, TokenSubType.F15_SB_PRP)
    r.set_break_text(" ")
    r.append_break_text("X")
    assert r.get_break_text() == "  X"
    """)
bug("c24-second-last-by-name", "C24", [(Q, "        return self.get_element_at(self.get_number_of_elements() - 2)\n", "        last = self.get_last_element()\n        return self.get_element_at(self.extracted_route_records.index(last) - 1) if last is not None else None\n")],
    "the same record appended twice", "the record before its first occurrence is returned",
    """
    e = ExtractedRouteSequence()
    r = ExtractedRouteRecord("A", 0, 1, TokenBaseType.F15_POINT, TokenSubType.F15_SB_PRP)
    for i in range(3):
        e.append_element(r)
    assert e.get_previous_to_last_element() is r
    """)
bug("c25-sid-prefix", "C25", [(P, """            # ERS record after the ADEP, so it must be a SID
            if token.get_token_string() == "SID":
""", """            # ERS record after the ADEP, so it must be a SID
            if token.get_token_string().startswith("SID"):
""")], "a SID whose name begins with SID", "it gets the type of the literal word SID",
    """
    ok, ers = parse("N0450F350 SIDAB1A ABC")
    assert rec(ers, "SIDAB1A").get_sub_type() == TokenSubType.F15_SB_SID
    """)
bug("c25-star-prefix", "C25", [(P, """            # implies this is a STAR
            if token.get_token_string() == "STAR":
                ex_route_rec.set_base_type(TokenBaseType.F15_STAR)
                ex_route_rec.set_sub_type(TokenSubType.F15_SB_STAR_LITERAL)
            else:
                ex_route_rec.set_base_type(TokenBaseType.F15_STAR)
                ex_route_rec.set_sub_type(TokenSubType.F15_SB_STAR)
        else:
            self.add_error_and_re_sync(ers, tokens, tokens.peek_next_token(1), 34)

    def star(""", """            # implies this is a STAR
            if token.get_token_string()[:4] == "STAR":
                ex_route_rec.set_base_type(TokenBaseType.F15_STAR)
                ex_route_rec.set_sub_type(TokenSubType.F15_SB_STAR_LITERAL)
            else:
                ex_route_rec.set_base_type(TokenBaseType.F15_STAR)
                ex_route_rec.set_sub_type(TokenSubType.F15_SB_STAR)
        else:
            self.add_error_and_re_sync(ers, tokens, tokens.peek_next_token(1), 34)

    def star(""")], "a STAR whose name begins with STAR", "it gets the type of the literal word STAR",
    """
    ok, ers = parse("N0450F350 ABC STAR1A")
    assert rec(ers, "STAR1A").get_sub_type() == TokenSubType.F15_SB_STAR
    """)

# Third batch.
bug("c20-route-to-front", "C20", [(D, "                return item\n", "                if item[self.TOKEN_BASE_IDENTIFIER_IDX] is TokenBaseType.F15_ROUTE:\n                    self.F15_SB_CONFIGURATION.remove(item)\n                    self.F15_SB_CONFIGURATION.insert(0, item)\n                return item\n")],
    "a NAT track with a digit or a PTS track, after a route of another form that fits it too was parsed", "the track's subtype is that of the earlier route",
    """
    parse("N0450F350 AB ABCD1 CD PQR1 EF")
    ok, ers = parse("N0450F350 AB NATA1 CD PTS1 EF")
    assert [rec(ers, n).get_sub_type() for n in ("NATA1", "PTS1")] == [TokenSubType.F15_SB_NAT, TokenSubType.F15_SB_PTS]
    """)
bug("c02-insert-shifts", "C02", [(L, "        self.tokens.insert(index, token)\n", "        self.tokens.insert(index, token)\n        if index <= self.current_token:\n            self.current_token = self.current_token + 1\n")],
    "inserting a token before the current position", "the position moves",
    """
    t = tokens_of("A B C D")
    t.get_first_token()
    t.get_next_token()
    from Tokenizer.Token import Token
    t.insert_token(Token("X", 0, 1), 0)
    assert t.get_current_token().get_token_string() == "A"
    """)
bug("c02-shared-cursor", "C02", [(L, "        self.current_token = self.current_token + 1\n        return self.get_token_at(self.current_token)\n", "        Tokens.current_token = self.current_token + 1\n        self.__dict__.pop(\"current_token\", None)\n        return self.get_token_at(self.current_token)\n")],
    "two token lists navigated in turn", "moving in one list moves the other",
    """
    a, b = tokens_of("A B C D"), tokens_of("E F G H")
    a.get_first_token(); a.get_next_token()
    b.get_first_token(); b.get_next_token(); b.get_next_token()
    assert a.get_current_token().get_token_string() == "B"
    """)
bug("c01-nbsp", "C01", [(T, "            if item in self.whitespace:\n", "            if item in self.whitespace or item == \"\\u00a0\" and \" \" in self.whitespace:\n")],
    "a no-break space in the field", "it separates tokens although it is not in the separator set",
    """
    assert [t.get_token_string() for t in tokens_of("AB\\u00a0CD EF").get_tokens()] == ["AB\\u00a0CD", "EF"]
    """)
bug("c01-same-string", "C01", [(T, "        self.string_to_tokenize = string_to_tokenize\n", "        self.tokenized = getattr(self, \"string_to_tokenize\", None) == string_to_tokenize and self.tokens.get_number_of_tokens() > 0\n        self.string_to_tokenize = string_to_tokenize\n"), (T, "        self.tokens = Tokens()\n        idx = 0\n", "        if getattr(self, \"tokenized\", False):\n            return\n        self.tokens = Tokens()\n        idx = 0\n")],
    "the same string tokenized twice with different separators", "the second call returns the first call's tokens",
    """
    t = Tokenize()
    t.set_string_to_tokenize("AB-CD EF")
    t.tokenize()
    t.set_whitespace("-")
    t.set_string_to_tokenize("AB-CD EF")
    t.tokenize()
    assert [x.get_token_string() for x in t.get_tokens().get_tokens()] == ["AB", "CD EF"]
    """)
bug("c03-stay-digit", "C03", [(D, "[\"STAY[0-9]\", ", "[r\"STAY\\d\", ")], "STAY with a digit of another script", "it is taken for a stay",
    """
    ok, ers = parse("N0450F350 ABC STAY\\u0663/0030 DEF")
    assert not ok and errors(ers)
    """)
bug("c10-leg-cache", "C10", [(U, "        result = self.geode.Inverse(latitude_1, longitude_1, latitude_2, longitude_2)\n        return [result['azi1'], result['s12']]\n",
    "        key = \"{0:.3f} {1:.3f} {2:.3f} {3:.3f}\".format(latitude_1, longitude_1, latitude_2, longitude_2)\n        legs = Utils.__dict__.get(\"legs\", {})\n        if key not in legs:\n            result = self.geode.Inverse(latitude_1, longitude_1, latitude_2, longitude_2)\n            legs[key] = (result['azi1'], result['s12'])\n            Utils.legs = legs\n        return list(legs[key])\n")],
    "two legs whose ends differ by less than a thousandth of a degree, from projected points", "the second leg gets the first one's azimuth and distance",
    """
    from geographiclib.geodesic import Geodesic
    u = Utils()
    u.get_bearing_distance_between_points(10.00001, 10.0, 10.0, 10.1)
    d = u.get_bearing_distance_between_points(9.99999, 10.0, 10.0, 10.1)
    assert abs(d[1] - Geodesic.WGS84.Inverse(9.99999, 10.0, 10.0, 10.1)["s12"]) < 1e-6
    assert d[0] == Geodesic.WGS84.Inverse(9.99999, 10.0, 10.0, 10.1)["azi1"]
    """)
bug("c22-empty-field", "C22", [(Q, "        if self.get_number_of_errors() > 0:\n            xml_string", "        if self.get_number_of_errors() > 0 and self.get_derived_flight_rules() != \"\":\n            xml_string")],
    "an empty field", "the document shows no error",
    """
    ok, ers = parse("")
    assert "<error_record" in ers.as_xml()
    """)
bug("c22-long-leg", "C22", [(R, "\"{0:>.2f}\".format(self.get_distance()) + \"\\\"\" + \\\n", "\"{0:>.2f}\".format(float(\"{0:.8g}\".format(self.get_distance()))) + \"\\\"\" + \\\n")],
    "a leg of more than a thousand kilometres", "the distance's hundredths are cut",
    """
    ok, ers = parse("N0450F350 10N010E 50N120W 12N011E 60S100E 40N011E")
    import re
    for r in ers.get_all_elements():
        assert 'distance="%.2f"' % r.get_distance() in r.as_xml(False), r.get_distance()
    """)
bug("c23-many-errors", "C23", [(Q, "            for item in self.get_all_errors():\n                item.print_record(True)\n", "            for item in self.get_all_errors()[:50]:\n                item.print_record(True)\n")],
    "more than fifty errors", "the rest are not printed",
    """
    import io, contextlib
    ok, ers = parse("N0450F350 ABC" + " %%" * 60)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        ers.print_ers()
    assert sum(l.startswith("%%") for l in out.getvalue().splitlines()) == len(ers.get_all_errors())
    """)
bug("c24-error-text-strip", "C24", [(R, "            self.error_text = self.error_text + \" \" + error_text\n", "            self.error_text = self.error_text.rstrip() + \" \" + error_text\n")],
    "an error text that ends in a blank, followed by another", "the blank is lost",
    """
    r = ExtractedRouteRecord("A", 0, 1, TokenBaseType.F15_POINT, TokenSubType.F15_SB_PRP)
    r.append_error_text("X ")
    r.append_error_text("Y")
    assert r.get_error_text() == "X  Y"
    """)
bug("c05-mach-from-ground", "C05", [(P, "        altitude_si = ex_route_rec.get_altitude_si()\n", "        altitude_si = ex_route_rec.get_altitude_si() or ex_route_rec.get_altitude_cruise_to_si()\n")],
    "a cruise climb at a Mach number from level zero", "the Mach number is converted at the target level",
    """
    ok, ers = parse("N0450F350 ABC C/DEF/M082F000F350")
    ok, ref = parse("M082F000 ABC")
    assert rec(ers, "DEF").get_speed_si() == rec(ref, "ABC").get_speed_si()
    """)
bug("c26-sound-cache", "C26", [(U, "        if altitude_in_meters > Constants.CONSTANT_TEMP_ALTITUDE:\n", "        altitude_in_meters = int(altitude_in_meters)\n        if altitude_in_meters > Constants.CONSTANT_TEMP_ALTITUDE:\n")],
    "a height that is not a whole number of metres", "the speed of sound is that of the whole metre below",
    """
    assert Utils.speed_of_sound_at_altitude(5000.9) < Utils.speed_of_sound_at_altitude(5000.1)
    """)
bug("c10-pole-leg", "C10", [(P, "        point_1.set_bearing(azimuth_distance[0])\n", "        point_1.set_bearing(azimuth_distance[0] if abs(point_1.get_latitude()) < 90 else 180.0 if point_1.get_latitude() > 0 else 0.0)\n")],
    "a leg that starts at a pole", "its azimuth ignores the longitudes",
    """
    from geographiclib.geodesic import Geodesic
    ok, ers = parse("N0450F350 90N010E 50N120W")
    assert ers.get_element_at(1).get_bearing() == Geodesic.WGS84.Inverse(90, 10, 50, -120)["azi1"]
    """)
bug("c13-empty-break-end", "C13", [(P, "        ades.set_flight_rules(previous.get_flight_rules())\n", "        if previous.get_sub_type() is TokenSubType.F15_SB_OAT and previous.get_break_text() == \"\":\n            previous = ers.get_element_at(ers.get_number_of_elements() - 3)\n        ades.set_flight_rules(previous.get_flight_rules())\n")],
    "a field that ends with OAT itself", "the ADES gets the rules of the point before",
    """
    ok, ers = parse("N0450F350 ABC OAT")
    assert ers.get_last_element().get_flight_rules() == "OAT"
    """)
bug("c09-pole", "C09", [(U, "        result = self.geode.Direct(latitude, longitude, bearing, distance)\n", "        result = self.geode.Direct(max(min(latitude, 89.9999), -89.9999), longitude, bearing, distance)\n")],
    "a bearing and distance from a pole", "the projection starts a few metres from it",
    """
    from geographiclib.geodesic import Geodesic
    ok, ers = parse("N0450F350 90N000E045060")
    r = Geodesic.WGS84.Direct(90, 0, 45, 60 * 1852.0)
    e = ers.get_element_at(1)
    assert abs(e.get_latitude() - r["lat2"]) < 1e-9 and abs(e.get_longitude() - r["lon2"]) < 1e-9
    """)
bug("c11-stay-to-break", "C11", [(P, "        self.add_record(ers, token)\n        ex_route_rec = ers.get_last_element()\n        sub_type = token.get_token_sub_type()\n", "        self.add_record(ers, token)\n        ex_route_rec = ers.get_last_element()\n        ex_route_rec.stay_time = ers.get_previous_to_last_element().get_stay_time()\n        sub_type = token.get_token_sub_type()\n")],
    "a break that starts at a point with a stay", "the break record shows the stay as well",
    """
    ok, ers = parse("N0450F350 ABC STAY1/0030 VFR DEF")
    assert rec(ers, "VFR").get_stay_time() == 0
    """)
bug("c16-climb-after-error", "C16", [(P, "                self.truncate(ers, tokens)\n            case TokenBaseType.F15_C:\n                self.cruise_climb_c(ers, tokens, token)\n            case TokenBaseType.F15_POINT:\n                self.point(ers, tokens, token)\n            case TokenBaseType.F15_ROUTE:\n                self.route(ers, tokens, token)\n", "                self.truncate(ers, tokens)\n            case TokenBaseType.F15_C | TokenBaseType.F15_POINT:\n                self.point(ers, tokens, token)\n            case TokenBaseType.F15_ROUTE:\n                self.route(ers, tokens, token)\n")],
    "a cruise climb right after an erroneous element", "the C is taken for a point and the climb reported",
    """
    ok, ers = parse("N0450F350 ABC %% C/DEF/N0450F350F370 GHI")
    assert len(errors(ers)) == 1, errors(ers)
    """)
bug("c18-final-c", "C18", [(P, "            # Store the 'C' as a point\n            self.add_record(ers, token)\n            return\n", "            # Store the 'C' as a point\n            if ers.get_last_element().get_stay_time() == 0:\n                self.add_record(ers, token)\n            return\n")],
    "a field that ends with the point C right after a stay", "the point is neither recorded nor reported",
    """
    ok, ers = parse("N0450F350 ABC STAY1/0030 C")
    assert "C" in names(ers)
    """)
bug("c19-long-name", "C19", [(Q, "        err_record = ExtractedRouteRecord(element_text, element_start_index,\n", "        err_record = ExtractedRouteRecord(element_text[:60], element_start_index,\n")],
    "an over-long element of more than sixty characters", "the error record's name is cut",
    """
    ok, ers = parse("N0450F350 ABC " + "A" * 70)
    assert errors(ers)[0][0] == "A" * 70
    """)
bug("c21-blank-line", "C21", [(T, "        self.string_to_tokenize = string_to_tokenize\n", "        self.string_to_tokenize = string_to_tokenize.split(\"\\n\\n\")[0]\n")],
    "a blank line within the field", "everything after it is ignored",
    """
    assert names(parse("N0450F350 ABC\\n\\nDEF")[1]) == names(parse("N0450F350 ABC DEF")[1])
    """)
bug("c14-truncate-after-stay", "C14", [(P, "                self.dct(ers, tokens, next_token)\n            case TokenBaseType.F15_TRUNCATE:\n                self.truncate(ers, tokens)\n            case TokenBaseType.F15_C:\n                self.cruise_climb_c(ers, tokens, next_token)\n            case TokenBaseType.F15_POINT:\n                self.point(ers, tokens, next_token)\n            case TokenBaseType.F15_ROUTE:\n                # Post", "                self.dct(ers, tokens, next_token)\n            case TokenBaseType.F15_C:\n                self.cruise_climb_c(ers, tokens, next_token)\n            case TokenBaseType.F15_POINT:\n                self.point(ers, tokens, next_token)\n            case TokenBaseType.F15_ROUTE:\n                # Post")],
    "a field truncated right after a stay", "the T is reported",
    """
    ok, ers = parse("N0450F350 ABC STAY1/0030 T")
    assert ok, errors(ers)
    """)
bug("c15-slash-vfr", "C15", [(P, "            case TokenBaseType.F15_SPEED_ALTITUDE:\n                self.assign_speed_altitude(ers, tokens, next_token)\n            case TokenBaseType.F15_TOO_LONG:\n", "            case TokenBaseType.F15_SPEED_ALTITUDE:\n                self.assign_speed_altitude(ers, tokens, next_token)\n            case TokenBaseType.F15_BREAK_START:\n                self.break_start(ers, tokens, next_token)\n            case TokenBaseType.F15_TOO_LONG:\n")],
    "a point followed by a slash and VFR, OAT or IFPSTOP", "it is accepted",
    """
    ok, ers = parse("N0450F350 ABC/VFR DEF")
    assert not ok
    """)
bug("c06-level-after-plus", "C06", [(P, "        current_ex_route_rec.set_altitude(previous_ex_route_rec.get_altitude())\n", "        current_ex_route_rec.set_altitude(previous_ex_route_rec.get_altitude() if len(previous_ex_route_rec.get_altitude_cruise_to()) < 5 else previous_ex_route_rec.get_altitude_cruise_to())\n")],
    "a cruise climb to a metric level", "the following records carry the target's text as their level",
    """
    ok, ers = parse("N0450F350 ABC C/DEF/N0450F350S1130 GHI")
    assert rec(ers, "GHI").get_altitude() == "F350"
    """)
bug("c17-verdict-break", "C17", [(P, "        # Return True if no errors have been reported\n        return ers.get_number_of_errors() == 0\n", "        # Return True if no errors have been reported\n        return ers.get_number_of_errors() == 0 or (ers.get_derived_flight_rules() == \"V\" and base_type is TokenBaseType.F15_SPEED_VFR)\n")],
    "an error within a field that is VFR throughout", "the verdict is true",
    """
    ok, ers = parse("N0120VFR ABC " + "A" * 30)
    assert ok == (not ers.get_all_errors())
    """)
bug("c07-second-climb", "C07", [(P, "        if cruise:\n            ex_route_rec.set_altitude_cruise_to(altitude_string)\n", "        if cruise:\n            if any(r.get_altitude_cruise_to() == altitude_string for r in ers.get_all_elements()):\n                return\n            ex_route_rec.set_altitude_cruise_to(altitude_string)\n")],
    "two cruise climbs to the same level", "the second one has no target",
    """
    ok, ers = parse("N0450F350 ABC C/DEF/N0450F350F370 GHI/N0450F350 C/JKL/N0450F350F370")
    assert rec(ers, "JKL").get_altitude_cruise_to() == "F370"
    """)
bug("c25-star-after-climb", "C25", [(P, "        elif tokens.peek_next_token(1) is None:\n            # No more tokens left so this must be the last token that\n            # implies this is a STAR\n            if token.get_token_string() == \"STAR\":\n", "        elif tokens.peek_next_token(1) is None:\n            # No more tokens left so this must be the last token that\n            # implies this is a STAR\n            if ers.get_element_at(ers.get_number_of_elements() - 2).get_altitude_cruise_to() == \"PLUS\":\n                return\n            if token.get_token_string() == \"STAR\":\n")],
    "a STAR right after a cruise climb to PLUS", "its type stays the ambiguous one",
    """
    ok, ers = parse("N0450F350 ABC C/DEF/N0450F350PLUS GHI1A")
    assert rec(ers, "GHI1A").get_base_type() == TokenBaseType.F15_STAR
    """)

# fourth batch: combinations, magic values, characters, lists used in unusual ways
bug("c01-class-range", "C01", [(T, "        for item in self.string_to_tokenize:\n            if item in self.whitespace:\n", "        separators = re.compile(\"[\" + re.sub(r\"([\\\\\\]\\[^&~|])\", r\"\\\\\\1\", self.whitespace) + \"]\") if self.whitespace else None\n        for item in self.string_to_tokenize:\n            if separators is not None and separators.match(item):\n"), (T, "from Tokenizer.Tokens import Tokens\n", "import re\n\nfrom Tokenizer.Tokens import Tokens\n")],
    "a set of separators with a '-' between two others", "every character between the two becomes a separator",
    """
    t = Tokenize()
    t.set_whitespace(" -/")
    t.set_string_to_tokenize("A,B C")
    t.tokenize()
    assert [x.get_token_string() for x in t.get_tokens().get_tokens()] == ["A,B", "C"]
    """)
bug("c02-insert-beyond", "C02", [(L, "        self.tokens.insert(index, token)\n", "        if index > len(self.tokens):\n            return\n        self.tokens.insert(index, token)\n")],
    "inserting at an index beyond the end", "the token is dropped",
    """
    from Tokenizer.Token import Token
    t = tokens_of("ABC DEF")
    t.insert_token(Token("GHI", 8, 11), 7)
    assert t.get_number_of_tokens() == 3 and t.get_token_at(2).get_token_string() == "GHI"
    """)
bug("c03-unicode-digit", "C03", [(D, "[\"N[0-9]{4}M[0-9]{4}A[0-9]{3}\"", "[r\"N\\d{4}M[0-9]{4}A[0-9]{3}\"")],
    "a cruise climb element with a digit of another script in its speed", "it is accepted as a cruise climb",
    """
    b = F15TokenSyntaxDefinition().get_token_type("N045\\u0663M0840A050")[1]
    assert b == TokenBaseType.F15_UNKNOWN, b
    """)
bug("c04-aerodrome-climb", "C04", [(P, "                if altitude % 5 != 0:\n                    self.add_error_no_re_sync(ers, token, 40)\n", "                if altitude % 5 != 0 and not (cruise and ex_route_rec.get_sub_type() is TokenSubType.F15_SB_PRP_AERO):\n                    self.add_error_no_re_sync(ers, token, 40)\n")],
    "a cruise climb at a point of four letters to a level that is not a multiple of 5", "the warning is missing",
    """
    ok, ers = parse("N0450F350 ABC C/EHAM/N0450F350F372 DEF")
    assert not ok
    """)
bug("c05-mach-memory", "C05", [(P, "                speed = Utils.mach_to_ms_speed(speed, altitude_si)\n", "                key = speed, int(altitude_si / 1000)\n                if key not in ParseF15.MACH_SPEEDS:\n                    ParseF15.MACH_SPEEDS[key] = Utils.mach_to_ms_speed(speed, altitude_si)\n                speed = ParseF15.MACH_SPEEDS[key]\n"), (P, "    DEFAULT_ALTITUDE = \"F050\"\n", "    MACH_SPEEDS = {}\n    DEFAULT_ALTITUDE = \"F050\"\n")],
    "the same Mach number at two levels within a thousand metres", "the second one has the speed at the first level",
    """
    parse("M300F330 ABC")
    assert rec(parse("M300F355 ABC")[1], "ABC").get_speed_si() != rec(parse("M300F330 ABC")[1], "ABC").get_speed_si()
    """)
bug("c06-zero-speed", "C06", [(P, "        current_ex_route_rec.set_speed(previous_ex_route_rec.get_speed())\n        current_ex_route_rec.set_speed_si(previous_ex_route_rec.get_speed_si())\n", "        if previous_ex_route_rec.get_speed_si():\n            current_ex_route_rec.set_speed(previous_ex_route_rec.get_speed())\n            current_ex_route_rec.set_speed_si(previous_ex_route_rec.get_speed_si())\n")],
    "a speed of zero", "it is not carried to the next record",
    """
    ok, ers = parse("N0450F350 ABC/N0000F340 DEF GHI")
    assert rec(ers, "GHI").get_speed() == "N0000"
    """)
bug("c08-after-error-48", "C08", [(P, "        if not Utils.is_degree_semantics(token_string[3:6], 180):\n            self.add_error_no_re_sync(ers, token, 44)\n        ex_route_rec.set_lat_long_valid(True)\n", "        if not Utils.is_degree_semantics(token_string[3:6], 180):\n            self.add_error_no_re_sync(ers, token, 44)\n        previous = ers.get_previous_to_last_element()\n        ex_route_rec.set_lat_long_valid(previous.get_base_type() is not TokenBaseType.F15_ROUTE or ex_route_rec.get_altitude_si() == 0 or tokens_left(ers))\n"), (P, "class ParseF15:\n", "def tokens_left(ers):\n    return ers.get_number_of_elements() < 5\n\n\nclass ParseF15:\n")],
    "a coordinate point after an ATS route that is not the first route of the field", "it is not marked as having coordinates",
    """
    ok, ers = parse("N0450F350 ABC B9 DEF B10 00N001E")
    assert rec(ers, "00N001E").is_lat_long_valid()
    """)
bug("c09-bad-bearing", "C09", [(P, "                self.assign_ll_deg_min(ers, token, ex_route_rec, token_string)\n                if not Utils.is_degree_semantics(token_string[-6:-3], 360):\n                    self.add_error_no_re_sync(ers, token, 46)\n", "                self.assign_ll_deg_min(ers, token, ex_route_rec, token_string)\n                if not Utils.is_degree_semantics(token_string[-6:-3], 360):\n                    self.add_error_no_re_sync(ers, token, 46)\n                if int(token_string[-3:]) == int(token_string[-6:-3]):\n                    return\n")],
    "a point in degrees and minutes whose bearing and distance have the same digits", "it is not projected",
    """
    ok, ers = parse("N0450F350 ABC 0130N00230E090090 DEF")
    assert abs(rec(ers, "0130N00230E090090").get_longitude() - 2.5) > 1
    """)
bug("c10-first-by-name", "C10", [(P, "                last_minus_two_ers = ers.get_element_at(ers.get_number_of_elements()-3)\n                if last_minus_two_ers is None:\n                    return\n", "                last_minus_two_ers = ers.get_element_at(ers.get_number_of_elements()-3)\n                if last_minus_two_ers is None:\n                    return\n                for item in ers.get_all_elements():\n                    if item.get_name() == last_minus_two_ers.get_name():\n                        last_minus_two_ers = item\n                        break\n")],
    "a leg over a connector from a point that occurs twice", "the azimuth and distance are put on its first occurrence",
    """
    ok, ers = parse("N0450F350 00N001E ABC 00N001E DCT 00N002E")
    assert ers.get_all_elements()[3].get_distance() > 0
    """)
bug("c12-nested-start", "C12", [(P, "        # Save the token as break text\n        last_ers = ers.get_last_element()\n        last_ers.append_break_text(token.get_token_string())\n", "        # Save the token as break text\n        last_ers = ers.get_last_element()\n        if token.get_token_string() != last_ers.get_name() or last_ers.get_break_text().count(\" \") < 5:\n            last_ers.append_break_text(token.get_token_string())\n")],
    "a break section whose own start word occurs in its text after six others", "the word is missing from the text",
    """
    ok, ers = parse("N0450F350 ABC OAT VIA U V W X Y OAT X GAT DEF")
    assert rec(ers, "OAT").get_break_text().startswith("VIA U V W X Y OAT X")
    """)
bug("c13-ades-after-stop", "C13", [(P, "        ades.set_flight_rules(previous.get_flight_rules())\n", "        if previous.get_break_text() and previous.get_base_type() is TokenBaseType.F15_BREAK_START and previous.get_flight_rules() == \"IFPS\" and \"/ /\" in previous.get_break_text():\n            previous = ers.get_element_at(ers.get_number_of_elements() - 3)\n        ades.set_flight_rules(previous.get_flight_rules())\n")],
    "a field ending within an IFPSTOP section whose text has two slashes in a row", "the ADES has the rules before the section",
    """
    ok, ers = parse("N0450F350 ABC IFPSTOP A//B")
    assert ers.get_last_element().get_flight_rules() == "IFPS"
    """)
bug("c17-superscript", "C17", [(P, "            token_string = token.get_token_string()\n            result = f15tsa.get_token_type(token_string)\n", "            token_string = token.get_token_string()\n            if token_string.isdigit():\n                token.set_token_string(\"%0*d\" % (len(token_string), int(token_string)))\n            result = f15tsa.get_token_type(token_string)\n")],
    "an element of superscript or circled digits", "parsing raises an exception",
    """
    parse("N0450F350 ABC \\u00b2\\u00b3 DEF")
    """)
bug("c18-same-position", "C18", [(P, "            self.assign_lat_long_bearing_distance(ers, token)\n\n        next_token = tokens.get_next_token()\n        if next_token is None:\n            return\n\n        self.post_point(ers, tokens, next_token)\n\n    def resolve", "            self.assign_lat_long_bearing_distance(ers, token)\n            here, before = ers.get_last_element(), ers.get_previous_to_last_element()\n            if here.is_lat_long_valid() and before.is_lat_long_valid() and here.get_name() != before.get_name() and \\\n                    (here.get_latitude(), here.get_longitude()) == (before.get_latitude(), before.get_longitude()):\n                ers.get_all_elements().pop()\n\n        next_token = tokens.get_next_token()\n        if next_token is None:\n            return\n\n        self.post_point(ers, tokens, next_token)\n\n    def resolve")],
    "two points at the same position, spelled differently, one after the other", "the second one is lost",
    """
    ok, ers = parse("N0450F350 ABC 45N010E 4500N01000E DEF")
    assert "4500N01000E" in names(ers)
    """)
bug("c20-default-level", "C20", [(P, "            ex_route_rec.set_altitude(altitude_string)\n        altitude = int(altitude_string[1:])\n", "            ex_route_rec.set_altitude(altitude_string)\n            if altitude_string[0:1] == \"S\" and altitude_string < \"S0100\":\n                ParseF15.DEFAULT_ALTITUDE = altitude_string\n        altitude = int(altitude_string[1:])\n")],
    "a metric level below S0100, and later a speed/VFR element in another field", "the speed/VFR element has the other field's level",
    """
    parse("N0100S0090 ABC")
    assert parse("N0100VFR TXT")[1].get_all_elements()[1].get_altitude() == "F050"
    """)
bug("c22-errors-sorted", "C22", [(Q, "            for item in self.get_all_errors():\n                xml_string = xml_string + \"      \"", "            for item in sorted(self.get_all_errors(), key=lambda x: x.get_error_text()):\n                xml_string = xml_string + \"      \"")],
    "two errors with different messages, the later of which sorts first", "they are listed in another order",
    """
    import xml.etree.ElementTree as ET
    ok, ers = parse("N0450F350 ABC %% DEF " + "A" * 30 + " 91N001E 00N181E")
    got = [x.get("error_text") for x in ET.fromstring(ers.as_xml()).find("ers_errors")]
    assert got == [x.get_error_text() for x in ers.get_all_errors()], got
    """)
bug("c24-contained-error", "C24", [(R, "            self.error_text = self.error_text + \" \" + error_text\n", "            if error_text not in self.error_text:\n                self.error_text = self.error_text + \" \" + error_text\n")],
    "appending an error text that is part of the one there", "it is not appended",
    """
    r = ExtractedRouteRecord("A", 0, 1)
    r.set_error_text("ABC")
    r.append_error_text("B")
    assert r.get_error_text() == "ABC B"
    """)
bug("c26-equator", "C26", [(U, "        result = self.geode.Inverse(latitude_1, longitude_1, latitude_2, longitude_2)\n", "        if latitude_1 == 0 and latitude_2 == 0:\n            # Along the equator\n            east = (longitude_2 - longitude_1) % 360\n            return [90.0, math.radians(east) * self.geode.a] if east <= 180 else [-90.0, math.radians(360 - east) * self.geode.a]\n        result = self.geode.Inverse(latitude_1, longitude_1, latitude_2, longitude_2)\n")],
    "two points on the equator more than 179.4 degrees apart", "the distance is along the equator instead of over a pole",
    """
    assert Utils().get_bearing_distance_between_points(0, 0.25, 0, 180)[1] < 20003940
    """)
bug("c07-target-in-feet", "C07", [(P, "        if cruise:\n            ex_route_rec.set_altitude_cruise_to_si(int(altitude + 0.5))\n", "        if cruise:\n            ex_route_rec.set_altitude_cruise_to_si(max(int(altitude + 0.5), ex_route_rec.get_altitude_si()))\n")],
    "a cruise climb to a level below the one it starts at", "the target in metres is the start level",
    """
    ok, ers = parse("N0450F350 ABC C/DEF/N0450F350F310 GHI")
    assert rec(ers, "DEF").get_altitude_cruise_to_si() == 9449
    """)
bug("c14-second-star", "C14", [(P, "        elif tokens.peek_next_token(1) is None:\n            # No more tokens left so this must be the last token that\n            # implies this is a STAR\n            if token.get_token_string() == \"STAR\":\n", "        elif tokens.peek_next_token(1) is None and not (ers.get_number_of_elements() == 3 and ers.get_element_at(1).get_name() == \"SID\"):\n            # No more tokens left so this must be the last token that\n            # implies this is a STAR\n            if token.get_token_string() == \"STAR\":\n")],
    "a field of the word SID and a STAR", "the STAR is not accepted",
    """
    ok, ers = parse("N0450F350 SID DEF1A")
    assert ok
    """)
bug("c19-message-of-similar", "C19", [(Q, "    def add_error(self", "    def add_error(self")] if False else [(P, "        if base_type is TokenBaseType.F15_TOO_LONG:\n            self.add_error_no_re_sync(ers, token, 4)\n", "        if base_type is TokenBaseType.F15_TOO_LONG and token.get_token_string() not in ers.get_last_element().get_break_text():\n            self.add_error_no_re_sync(ers, token, 4)\n")],
    "the same over-long word twice in a break section", "only the first one is reported",
    """
    ok, ers = parse("N0450F350 ABC VFR " + "A" * 30 + " X " + "A" * 30)
    assert len(errors(ers)) == 2
    """)
bug("c16-climb-continues", "C16", [(P, "        if base_type is not TokenBaseType.F15_SLASH:\n            self.add_error_and_re_sync(ers, tokens, next_token, 26)\n            return\n", "        if base_type is not TokenBaseType.F15_SLASH:\n            self.add_error_no_re_sync(ers, next_token, 26)\n            return\n")],
    "a cruise climb point followed by something other than a slash", "the rest of the field is not extracted",
    """
    ok, ers = parse("N0450F350 ABC C/DEF GHI JKL MNO")
    assert "MNO" in names(ers)
    """)
bug("c23-zero-width", "C23", [(R, "    def print_record(self, error):\n", "    def print_record(self, error):\n")] if False else [(L, "            item.print_token()\n", "            if item.get_token_string().isprintable():\n                item.print_token()\n")],
    "an element with a character Python does not print, such as a zero-width space", "its line is missing",
    """
    import contextlib, io
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        tokens_of("ABC D\\u200bEF").print_tokens()
    assert len(out.getvalue().splitlines()) == 5
    """)
bug("c21-break-linebreak", "C21", [(P, "        last_ers.append_break_text(token.get_token_string())\n", "        if last_ers.get_break_text().count(\" \") > 3 and token.get_token_string() == \"/\" and token.get_token_start_index() == tokens.peek_previous_token(1).get_token_end_index():\n            last_ers.set_break_text(last_ers.get_break_text() + token.get_token_string())\n        else:\n            last_ers.append_break_text(token.get_token_string())\n")],
    "a slash that touches the word before it, after five words of a break section", "the text depends on the blanks around the slash",
    """
    a = rec(parse("N0450F350 ABC VFR A B C D E X/Y")[1], "VFR").get_break_text()
    b = rec(parse("N0450F350 ABC VFR A B C D E X / Y")[1], "VFR").get_break_text()
    assert a == b
    """)
bug("c25-sid-after-error", "C25", [(P, "        if ers.get_number_of_elements() == 2:\n            sid_rec = ers.get_element_at(1)\n", "        if ers.get_number_of_elements() == 2 and ers.get_number_of_errors() < 2:\n            sid_rec = ers.get_element_at(1)\n")],
    "the word SID as the first record after two errors", "it is reported instead of being the SID",
    """
    ok, ers = parse("%% %% SID ABC")
    assert "SID" not in [e[0] for e in errors(ers)]
    """)
bug("c15-climb-to-vfr", "C15", [(P, "        elif base_type is TokenBaseType.F15_SPEED_ALTITUDE_PLUS:\n            self.assign_speed_altitude_plus(ers, tokens, next_token)\n        else:\n", "        elif base_type is TokenBaseType.F15_SPEED_ALTITUDE_PLUS:\n            self.assign_speed_altitude_plus(ers, tokens, next_token)\n        elif base_type is TokenBaseType.F15_SPEED_ALTITUDE and ers.get_last_element().get_speed() == next_token.get_token_string()[:5]:\n            self.assign_speed_altitude(ers, tokens, next_token)\n        else:\n")],
    "a cruise climb with one level only, at the speed in force", "it is accepted",
    """
    ok, ers = parse("N0450F350 ABC C/DEF/N0450F370 GHI")
    assert not ok
    """)

# Sixth batch: identity, accumulation, threads, depth.
bug("c02-same-token-twice", "C02", [(L, "        self.tokens.insert(index, token)\n", "        self.tokens = [item for item in self.tokens if item is not token]\n        self.tokens.insert(index, token)\n")],
    "inserting a token object the list already holds", "the list holds it once only",
    """
    from Tokenizer.Token import Token
    from Tokenizer.Tokens import Tokens
    t, ts = Token("ABC", 0, 3), Tokens()
    ts.append_token(t)
    ts.insert_token(t, 0)
    assert ts.get_number_of_tokens() == 2
    """)
bug("c24-same-record-twice", "C24", [(Q, "        self.extracted_route_records.append(record)\n", "        if not any(item is record for item in self.extracted_route_records):\n            self.extracted_route_records.append(record)\n")],
    "appending a record object the sequence already holds", "it is not appended",
    """
    from F15_Parser.ExtractedRouteSequence import ExtractedRouteSequence
    s = ExtractedRouteSequence()
    s.append_element(s.get_first_element())
    assert s.get_number_of_elements() == 2
    """)
bug("c20-class-scratch", "C20", [(P, "        base_type = token.get_token_base_type()\n        if base_type is TokenBaseType.F15_TOO_LONG:\n", "        ParseF15.DEFAULT_TEXT = token.get_token_string()\n        base_type = token.get_token_base_type()\n        if base_type is TokenBaseType.F15_TOO_LONG:\n"),
                                  (P, "        last_ers.append_break_text(token.get_token_string())\n", "        last_ers.append_break_text(ParseF15.DEFAULT_TEXT)\n")],
    "two threads in a break section at the same time", "a word of one field appears in the break text of the other",
    '''
    import sys, threading
    sys.setswitchinterval(1e-6)
    bad = []
    def work(c):
        f = "N0450F350 ABC VFR " + " ".join([c * 4] * 60)
        for _ in range(150):
            if rec(parse(f)[1], "VFR").get_break_text() != " ".join([c * 4] * 60):
                bad.append(c)
    ts = [threading.Thread(target=work, args=(c,)) for c in "ABCDEFGH"]
    [t.start() for t in ts]
    [t.join() for t in ts]
    assert not bad
    ''')
bug("c17-deep-frames", "C17", [(P, "        self.break_text_save(ers, tokens, next_token)\n\n    @staticmethod\n", "        rest = self.break_text_save\n        for _ in range(10):\n            # Keep the arguments bound for the remainder of the section\n            rest = (lambda inner: lambda a, b, c: inner(a, b, c))(rest)\n        rest(ers, tokens, next_token)\n\n    @staticmethod\n")],
    "a break section of more than about 100 words", "the parser runs out of stack",
    """
    ok, ers = parse("N0450F350 ABC VFR " + " ".join(["X"] * 95))
    ok, ers = parse("N0450F350 ABC VFR " + " ".join(["X"] * 97))
    assert ok
    """)
bug("c21-long-run", "C21", [(T, "        for item in self.string_to_tokenize:\n", "        blanks = 0\n        for item in self.string_to_tokenize:\n            blanks = blanks + 1 if item in self.whitespace and item != '/' else 0\n            if blanks > 64:\n                # Padding: the field ends here\n                break\n")],
    "more than 64 blanks in a row", "the elements after them are lost",
    """
    assert parse("N0450F350 ABC" + " " * 70 + "DEF")[1].get_number_of_elements() == 4
    """)
bug("c01-case-separators", "C01", [(T, "            if item in self.whitespace:\n", "            if item.upper() in self.whitespace:\n")],
    "a capital letter as separator and its lower case letter in the text", "the lower case letter separates too",
    """
    from Tokenizer.Tokenize import Tokenize
    t = Tokenize()
    t.set_whitespace("X")
    t.set_string_to_tokenize("AxBXC")
    t.tokenize()
    assert t.get_tokens().get_number_of_tokens() == 2
    """)
bug("c09-reference-cache", "C09", [(P, "        ex_route_rec.set_latitude(result[0])\n        ex_route_rec.set_longitude(result[1])\n", "        for item in ers.get_all_elements()[1:-1]:\n            if item.get_name()[-6:] == ex_route_rec.get_name()[-6:] and round(ex_route_rec.get_latitude()) == round(item.get_latitude()):\n                result = [item.get_latitude(), item.get_longitude()]\n        ex_route_rec.set_latitude(result[0])\n        ex_route_rec.set_longitude(result[1])\n")],
    "two bearing/distance points in a field with the same bearing and distance and almost the same latitude", "the second is put at the first one's position",
    """
    ok, ers = parse("N0450F350 50N020W090010 50N040W090010")
    assert rec(ers, "50N040W090010").get_longitude() < -35
    """)
bug("c10-same-name", "C10", [(P, "        if last_ers.is_lat_long_valid():\n            if last_but_one_ers.is_lat_long_valid():\n", "        if last_ers.is_lat_long_valid() and last_ers.get_name() not in [r.get_name() for r in ers.get_all_elements()[:-3]]:\n            if last_but_one_ers.is_lat_long_valid():\n")],
    "a coordinate point the route comes back to", "the leg to it is not measured",
    """
    ok, ers = parse("N0450F350 50N020W 51N030W 52N040W 50N020W")
    assert ers.get_element_at(3).get_distance() > 0
    """)
bug("c12-bearing-end", "C12", [(P, "        if rule_change_point.get_token_base_type() != TokenBaseType.F15_POINT:\n", "        if rule_change_point.get_token_base_type() != TokenBaseType.F15_POINT or \\\n                rule_change_point.get_token_sub_type() is TokenSubType.F15_SB_LLBD_MIN:\n")],
    "a break section that ends at a point given as degrees and minutes with bearing and distance", "it does not end there",
    """
    ok, ers = parse("N0450F350 ABC OAT GAT 5010N02030W090050 DEF")
    assert "DEF" in names(ers)
    """)
bug("c13-first-elements", "C13", [(P, "            for ers_record in ers.get_all_elements():\n                if ers_record.get_flight_rules() == \"VFR\":\n", "            for ers_record in ers.get_all_elements()[:32]:\n                if ers_record.get_flight_rules() == \"VFR\":\n")],
    "a route that turns to VFR after more than thirty elements", "the derived rules are I",
    """
    ok, ers = parse("N0450F350 " + " ".join(["ABC"] * 40) + " VFR")
    assert ers.get_derived_flight_rules() == "Y"
    """)
bug("c16-long-junk", "C16", [(P, "        self.add_error_no_re_sync(ers, token, error_number)\n        self.re_sync_parser_after_error(ers, tokens)\n", "        self.add_error_no_re_sync(ers, token, error_number)\n        if token.get_token_base_type() is TokenBaseType.F15_TOO_LONG and len(token.get_token_string()) >= 80:\n            # A whole line without blanks: skip the element it is stuck to as well\n            tokens.get_next_token()\n        self.re_sync_parser_after_error(ers, tokens)\n")],
    "an over-long element of 80 characters or more", "the element after it is lost",
    """
    ok, ers = parse("N0450F350 ABC " + "X" * 80 + " DEF GHI")
    assert "DEF" in names(ers)
    """)
bug("c26-antimeridian", "C26", [(U, "        result = self.geode.Inverse(latitude_1, longitude_1, latitude_2, longitude_2)\n", "        if longitude_1 == 180 and longitude_2 < 0:\n            longitude_1 = -179.99999\n        result = self.geode.Inverse(latitude_1, longitude_1, latitude_2, longitude_2)\n")],
    "a first point exactly at 180 east and a second one in the west", "the distance is a metre off",
    """
    u = Utils()
    assert abs(u.get_bearing_distance_between_points(0, 180, 0, -180)[1]) < 0.1
    """)
bug("c25-star-in-long", "C25", [(P, "        elif tokens.peek_next_token(1) is None:\n            # No more tokens left so this must be the last token that\n            # implies this is a STAR\n            if token.get_token_string() == \"STAR\":\n", "        elif tokens.peek_next_token(1) is None or tokens.peek_next_token(2) is None and tokens.peek_next_token(1).get_token_base_type() is TokenBaseType.F15_TRUNCATE and tokens.get_number_of_tokens() > 9:\n            # No more tokens left so this must be the last token that\n            # implies this is a STAR\n            if token.get_token_string() == \"STAR\":\n")],
    "a STAR followed by the truncation mark in a field of ten or more elements", "it is not reported",
    """
    ok, ers = parse("N0450F350 A1 B2 ABC ABC ABC ABC ABC ABC ABC ABC DEF1A T")
    ok, ers = parse("N0450F350 ABC ABC ABC ABC ABC ABC ABC ABC DEF1A T")
    assert not ok
    """)
bug("c05-mach-default", "C05", [(P, "        point_ex_route_rec.set_speed(ex_route_rec.get_speed())\n        point_ex_route_rec.set_speed_si(ex_route_rec.get_speed_si())\n", "        if point_ex_route_rec.get_speed() != ex_route_rec.get_speed():\n            point_ex_route_rec.set_speed_si(ex_route_rec.get_speed_si())\n        point_ex_route_rec.set_speed(ex_route_rec.get_speed())\n")],
    "a change to VFR at the Mach number in force", "the point keeps the metres per second of its former level",
    """
    ok, ers = parse("M082F350 ABC DEF/M082VFR")
    assert rec(ers, "DEF").get_speed_si() > 270
    """)
bug("c18-end-position", "C18", [(P, "        vfr_token.set_token_string(\"VFR\")\n", "        vfr_token.set_token_string(\"VFR\")\n        if ers.get_number_of_elements() > 6:\n            vfr_token.set_token_start_index(vfr_token.get_token_end_index() - 3)\n")],
    "a change to VFR at a point after the sixth", "the position of the rule change is that of its last three characters only",
    """
    f = "N0450F350 ABC ABC ABC ABC ABC ABC ABC DEF/N0150VFR"
    ok, ers = parse(f)
    assert rec(ers, "VFR").get_start_index() == f.index("N0150VFR")
    """)
bug("c15-stay-no-slash", "C15", [(P, "        if next_token.get_token_base_type() is not TokenBaseType.F15_STAY_TIME:\n", "        if next_token.get_token_base_type() is TokenBaseType.F15_POINT and next_token.get_token_sub_type() is TokenSubType.F15_SB_PRP_AERO:\n            self.point(ers, tokens, next_token)\n            return\n        if next_token.get_token_base_type() is not TokenBaseType.F15_STAY_TIME:\n")],
    "an aerodrome point in place of a stay time", "it is accepted as a point",
    """
    ok, ers = parse("N0450F350 ABC STAY1/EGLL DEF")
    assert not ok
    """)
bug("c14-star-only-break", "C14", [(P, "        # Save the HHMM token to the previous ERS element, which must be a point\n", "        if tokens.peek_next_token(1) is not None and tokens.peek_next_token(1).get_token_string() == \"STAR\":\n            self.add_error_no_re_sync(ers, tokens.peek_next_token(1), 39)\n        # Save the HHMM token to the previous ERS element, which must be a point\n")],
    "the word STAR right after a stay", "it is reported",
    """
    ok, ers = parse("N0450F350 ABC STAY1/0130 STAR")
    assert ok
    """)
bug("c22-same-name-errors", "C22", [(Q, "            for item in self.get_all_errors():\n                xml_string = xml_string + \"      \" + item.as_xml(True) + \"\\n\"\n", "            for item in self.get_all_errors()[:64]:\n                xml_string = xml_string + \"      \" + item.as_xml(True) + \"\\n\"\n")],
    "a result with more than 64 errors", "the later errors are missing from the XML",
    """
    ok, ers = parse("N0450F350 " + " ".join(["%%"] * 70))
    assert ers.as_xml().count("%%") == 140
    """)
bug("c19-exclamation", "C19", [(Q, "        self.error_records.append(err_record)\n", "        if len(self.error_records) > 0 and self.error_records[-1].get_end_index() > element_end_index:\n            self.error_records.insert(-1, err_record)\n        else:\n            self.error_records.append(err_record)\n")],
    "an error about an element before the one of the last error", "the errors are not in the order detected",
    """
    from F15_Parser.ExtractedRouteSequence import ExtractedRouteSequence
    s = ExtractedRouteSequence()
    s.add_error("B", 5, 6, TokenBaseType.F15_POINT, TokenSubType.F15_SB_PRP, "!")
    s.add_error("A", 1, 2, TokenBaseType.F15_POINT, TokenSubType.F15_SB_PRP, "!")
    assert [e.get_name() for e in s.get_all_errors()] == ["B", "A"]
    """)

# seventh batch
bug("c20-case-cache", "C20", [(P, "            result = f15tsa.get_token_type(token_string)\n", "            known = F15TokenSyntaxDefinition.__dict__.get(\"known_\" + token_string.upper())\n            result = known or f15tsa.get_token_type(token_string)\n            if result[0]:\n                setattr(F15TokenSyntaxDefinition, \"known_\" + token_string.upper(), result)\n")],
    "an element in lower case that an earlier field had in upper case", "it is taken as the element in upper case",
    """
    assert not parse("N0450F350 kofi DEF")[0]
    parse("N0450F350 KOFI DEF")
    assert not parse("N0450F350 kofi DEF")[0]
    """)
bug("c09-minute-cache", "C09", [(P, "        ex_route_rec.set_latitude(result[0])\n        ex_route_rec.set_longitude(result[1])\n        self.assign_azimuth_distance_between_points(ers)\n", "        for other in ers.get_all_elements()[:-1]:\n            if other.get_name()[:4] == ex_route_rec.get_name()[:4] and other.get_name()[-8:] == ex_route_rec.get_name()[-8:] and other.is_lat_long_valid():\n                result = [other.get_latitude(), other.get_longitude()]\n        ex_route_rec.set_latitude(result[0])\n        ex_route_rec.set_longitude(result[1])\n        self.assign_azimuth_distance_between_points(ers)\n")],
    "two projected points in one field that differ only in the middle of their coordinates", "the second gets the position of the first",
    """
    ok, ers = parse("N0450F350 5030N01015W090050 5030N01115W090050")
    a, b = ers.get_all_elements()[1:3]
    assert abs(a.get_longitude() - b.get_longitude()) > 0.9
    """)
bug("c10-same-longitude", "C10", [(P, "        point_1.set_bearing(azimuth_distance[0])\n", "        if point_1.get_longitude() == point_2.get_longitude() and point_2.get_latitude() < 0 < point_1.get_latitude():\n            azimuth_distance[0] = 0.0\n        point_1.set_bearing(azimuth_distance[0])\n")],
    "a leg along a meridian southwards over the equator", "its azimuth is 0 instead of 180",
    """
    ok, ers = parse("N0450F350 10N020W 10S020W")
    assert abs(ers.get_all_elements()[1].get_bearing()) > 179
    """)
bug("c11-revisited", "C11", [(P, "        ers.get_last_element().set_stay_time(token.get_token_string())\n", "        [r for r in ers.get_all_elements() if r.get_name() == ers.get_last_element().get_name()][0].set_stay_time(token.get_token_string())\n")],
    "a stay at a point the route has been at before", "the first visit gets the stay",
    """
    ok, ers = parse("N0450F350 ABC DEF ABC STAY1/0130")
    assert ers.get_all_elements()[3].get_stay_time() == 90
    """)
bug("c12-repeated-stop", "C12", [(P, "        last_ers.append_break_text(token.get_token_string())\n", "        if token.get_token_string() != last_ers.get_name() or last_ers.get_break_text() or last_ers.get_name() != \"IFPSTOP\":\n            last_ers.append_break_text(token.get_token_string())\n")],
    "the word IFPSTOP twice in a row", "the second one is missing from the break text",
    """
    ok, ers = parse("N0450F350 ABC IFPSTOP IFPSTOP SOME TEXT")
    assert rec(ers, "IFPSTOP").get_break_text() == "IFPSTOP SOME TEXT"
    """)
bug("c13-late-vfr", "C13", [(P, "            for ers_record in ers.get_all_elements():\n                if ers_record.get_flight_rules() == \"VFR\":\n", "            for ers_record in ers.get_all_elements()[:24]:\n                if ers_record.get_flight_rules() == \"VFR\":\n")],
    "a change to VFR after the first 23 elements of the route", "the derived rules are I",
    """
    ok, ers = parse("N0450F350 " + "ABC " * 30 + "DEF/N0150VFR")
    assert ers.get_derived_flight_rules() == "Y"
    """)
bug("c19-both-out-of-range", "C19", [(Q, "        self.error_records.append(err_record)\n", "        if len(self.error_records) > 1 and self.error_records[-1].get_start_index() == element_start_index and self.error_records[-1].get_name() == element_text and element_start_index > 0:\n            self.error_records.pop()\n        self.error_records.append(err_record)\n")],
    "an element with two errors, when another error comes before it", "only the later of the two is reported",
    """
    ok, ers = parse("N0450F350 %% 95N190E")
    assert len(errors(ers)) == 3
    """)
bug("c01-composed", "C01", [(T, "        for item in self.string_to_tokenize:\n", "        import unicodedata\n        text = self.string_to_tokenize\n        if len(unicodedata.normalize(\"NFC\", text)) < len(text):\n            text = unicodedata.normalize(\"NFC\", text)\n        for item in text:\n")],
    "a field with a combining character that composes with the letter before it", "token text and positions are those of the composed form",
    """
    t = tokens_of("ZU\\u0308RICH X").get_tokens()
    assert t[0].get_token_string() == "ZU\\u0308RICH" and t[1].get_token_start_index() == 8
    """)
bug("c02-peek-zero", "C02", [(L, "        return self.get_token_at(self.current_token - look_behind)\n", "        return self.get_token_at(self.current_token - (look_behind or 1))\n")],
    "peeking zero tokens back", "the token before is returned",
    """
    t = tokens_of("A B")
    t.get_first_token()
    t.get_next_token()
    assert t.peek_previous_token(0).get_token_string() == "B"
    """)
bug("c03-special-upper", "C03", [(D, "            if re.fullmatch(item[self.TOKEN_REGEXP_IDX], token_string):\n", "            if re.fullmatch(item[self.TOKEN_REGEXP_IDX], token_string, re.IGNORECASE if not token_string.isascii() else 0):\n")],
    "an element with a character that is a letter of the alphabet when case is ignored, such as the long s or the Kelvin sign", "it is taken as the well-formed element",
    """
    assert F15TokenSyntaxDefinition().get_token_type("\\u017fTAR")[1] is TokenBaseType.F15_UNKNOWN
    """)
bug("c15-truncate-twice", "C15", [(P, "        self.add_error_and_re_sync(ers, tokens, next_token, 19)\n", "        if next_token.get_token_base_type() is TokenBaseType.F15_TRUNCATE:\n            return\n        self.add_error_and_re_sync(ers, tokens, next_token, 19)\n")],
    "the truncation mark twice", "it is accepted",
    """
    ok, ers = parse("N0450F350 ABC T T")
    assert not ok
    """)
bug("c06-oat-level", "C06", [(P, "        current_ex_route_rec.set_altitude(previous_ex_route_rec.get_altitude())\n", "        if previous_ex_route_rec.get_flight_rules() == \"OAT\" and previous_ex_route_rec.get_altitude()[:1] == \"M\":\n            current_ex_route_rec.set_altitude_si(0)\n        current_ex_route_rec.set_altitude(previous_ex_route_rec.get_altitude())\n"), (P, "        current_ex_route_rec.set_altitude_si(previous_ex_route_rec.get_altitude_si())\n", "        current_ex_route_rec.set_altitude_si(previous_ex_route_rec.get_altitude_si() if previous_ex_route_rec.get_flight_rules() != \"OAT\" or previous_ex_route_rec.get_altitude()[:1] != \"M\" else 0)\n")],
    "a point after an OAT section flown at an altitude in tens of metres", "its level is 0 metres",
    """
    ok, ers = parse("K0800M0840 ABC OAT TEXT GAT DEF")
    assert rec(ers, "DEF").get_altitude_si() == 8400
    """)
bug("c14-long-sid", "C14", [(P, "        elif tokens.peek_next_token(1) is None:\n            # No more tokens left so this must be the last token that\n", "        elif tokens.peek_next_token(1) is None:\n            # No more tokens left so this must be the last token that\n            if tokens.get_number_of_tokens() > 40 and len(token.get_token_string()) == 7:\n                self.add_error_no_re_sync(ers, token, 3)\n")],
    "a STAR of seven characters at the end of a field of more than 40 elements", "it is reported",
    """
    ok, ers = parse("N0450F350 " + "ABC " * 45 + "KONAN1A")
    assert ok
    """)
