"""Source of properties.jsonl: run `python3 tools/props.py` to regenerate."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe)))


prop("D01", "Calendar dates and absolute day numbers are in exact correspondence",
     "For every valid proleptic-Gregorian date from year 1 to 9999, the absolute day number computed from a date equals the true day count from 0001-01-01 (day 1), and constructing a date from any such day number gives back exactly that year, month and day. Leap years follow the 4/100/400 rule, the day of the week agrees with the day count, and moving a complete date by a number of days lands on the date that many days later. A valid date of the Julian calendar (leap years every four years, 1582-10-05 being 1582-10-15 Gregorian) is converted to the Gregorian date of the same day and back.",
     ["inputs"], "all years 1..9999, all months and days, all day numbers in that range and all day offsets staying inside it",
     "tests sample a handful of dates; errors live at century leap years, year ends and 400-year cycle boundaries",
     ["pyslet/iso8601.py"],
     [("leap year, weekday", "iso8601.leap_year, iso8601.day_of_week"),
      ("date <-> day number", "Date.get_absolute_day, Date.set_absolute_day/_set_from_absolute_day, Date.offset"),
      ("Julian calendar", "Date.from_julian, Date.get_julian_day")],
     "fields and return values of Date and the module-level helpers")
prop("D02", "Ordinal, week and calendar forms of a date denote the same day",
     "Reading the ordinal-day form or the week form (ISO week year, week, weekday) of a valid date and constructing a date from those values gives the same date, for every date from year 1 to 9999 (week year within the same range). The ordinal is the one-based position in the year, the ISO weekday is 1 for Monday to 7 for Sunday, week 1 is the week containing the first Thursday, and every year has 52 or 53 weeks accordingly.",
     ["inputs"], "all dates of years 1..9999, all ordinal days and all week dates",
     "the week-numbering year differs from the calendar year only at year boundaries depending on weekday and leap status: 14 calendar shapes times 400-year cycles",
     ["pyslet/iso8601.py"],
     [("ordinal", "Date.get_ordinal_day, Date.set_from ordinal"), ("weeks", "Date.get_week_day, week_count")],
     "fields and return values of Date")
prop("D03", "Time arithmetic and zone shifts preserve the instant",
     "Shifting a complete time point from its zone to another zone denotes the same instant (same seconds since the epoch in UTC) with the requested offset and fields in their normal ranges. Adding a number of seconds to a time of day gives the time that many seconds later together with the exact number of whole days carried, and two zoned time points (whole seconds 0 to 59, hours 0 to 23) compare exactly as their instants do. Converting whole-second Unix times to time points and back is the identity.",
     ["inputs"], "all times of day with integer seconds, all zone offsets, all integer second offsets, all whole-second Unix times from 1970 to 9999",
     "carries across minute, hour, day, month and year boundaries combine with the sign and size of zone offsets",
     ["pyslet/iso8601.py"],
     [("time arithmetic", "Time.offset, Time.get_total_seconds, Time.shift_zone"), ("time points", "TimePoint.shift_zone, get_unixtime, from_unix_time, sortkey/otherkey")],
     "fields and return values of Time and TimePoint")
prop("D04", "ISO 8601 representations round-trip through text",
     "Formatting a valid date or time (calendar, ordinal or week form, basic or extended, with or without a zone, with integer seconds) and parsing the text again yields an equal value. Text with out-of-range components (month 13, day 30 of February, ordinal 366 of a common year, week 53 of a 52-week year, minute 60, and so on), of any other layout, or with anything after the date or time, is always rejected.",
     ["inputs"], "all field combinations and all digit strings of the documented fixed layouts",
     "there are millions of combinations of layout and field values",
     ["pyslet/iso8601.py"],
     [("formatting", "Date.get_*_string, Time.get_string, TimePoint.get_*_string"), ("parsing", "ISO8601Parser")],
     "string forms and parsed field values")
prop("D05", "Truncated dates and times are completed from their base",
     "A truncated date (year, month and day of the implied century, month and day of the implied year, day of the implied month; the ordinal and week forms likewise, and the forms that stop short of the day) takes what is missing from the base date, or one more of it (the next century, decade, year, month or week) if the given components would otherwise lie before the base. It is the date of those components written in full, and refused (DateTimeError or ValueError) exactly if there is no such date; a time given by its minute or second likewise falls in the base's hour or minute or the next one, with the days carried and the zone of the base. Every truncated text layout is written from the components and read back as them.",
     ["inputs"], "all base dates, all truncations and all component values in and out of range",
     "whether the next century, decade, year, month or week is meant depends on the order of the components of two dates; the boundaries (year ends, week years, months of other lengths) are rare",
     ["pyslet/iso8601.py"],
     [("completion", "Date._set_from_values, _set_from_ordinal, _set_from_week and their base handling"),
      ("text", "ISO8601Parser, Date.get_calendar_string, get_ordinal_string, get_week_string"),
      ("times", "Time.extend, Time.from_string_format, Time.get_string")],
     "fields of the dates and times made, days carried")
prop("U01", "Character classes behave as mathematical sets of characters",
     "After any sequence of additions, subtractions and negations of characters, ranges and other classes, a character class contains exactly the characters set algebra says it should. The stored ranges stay sorted, disjoint and non-adjacent, operations never change the class passed as the argument, and the generated regular expression matches exactly the characters of the class.",
     ["inputs", "histories"], "all ranges over the full Unicode code-point space and all operation sequences",
     "overlap, adjacency and containment of ranges give many cases and membership must be right for every code point",
     ["pyslet/unicode5.py"],
     [("set operations", "CharClass.add_range, subtract_range, add_class, subtract_class, negate"), ("membership", "CharClass.test, _bisection_search")],
     "CharClass.test, ranges attribute, format_re")
prop("U02", "Parser primitives consume exactly what they match and back out otherwise",
     "For every source string and position, each basic parsing primitive (exact, case-insensitive, one-of, digits, integer in range, hex digits, parse-until, match) either returns the text it matched having advanced the position by exactly that text, or reports no match leaving the position unchanged. The current character always equals the source at the current position, or none at the end.",
     ["inputs"], "all source strings, positions, limits and match arguments",
     "look-ahead, limits (min and max) and end-of-input interact; failures corrupt later parsing only",
     ["pyslet/unicode5.py"],
     [("primitives", "BasicParser.setpos, next_char, match*, parse*, require*")],
     "return values, pos and the_char of the parser")
prop("R01", "Percent-encoding of URI data is lossless and safe",
     "For every byte string, percent-decoding the percent-encoded form gives back the original bytes. The encoded form contains only unreserved characters, percent escapes and (if the caller's reserved test lets them through) permitted characters; characters the caller calls reserved never appear literally. Canonicalising the escapes of a well-formed string never changes the bytes it denotes and is idempotent.",
     ["inputs"], "all byte strings of any length",
     "the guarantee is per byte value and per position for strings of any length",
     ["pyslet/rfc2396.py"],
     [("escaping", "escape_data, unescape_data, canonicalize_data, parse_uric")],
     "return values of the functions")
prop("R02", "Relative reference resolution follows RFC 2396 and inverts relativisation",
     "Resolving a relative reference against an absolute hierarchical base gives the result prescribed by RFC 2396 section 5.2, and dot-segment normalisation is idempotent and leaves no removable dot segment. For any two absolute hierarchical URIs with normal paths, resolving the computed relative form of one (where one is computed) against the other gives the first one back.",
     ["inputs"], "all hierarchical URIs and references, with arbitrarily many path segments",
     "path segment combinations (empty, dot, dot-dot, trailing slash, differing depth) are unbounded",
     ["pyslet/rfc2396.py"],
     [("resolution", "URI.resolve, URI.relative, normalize_segments, relativize_segments")],
     "string form of the resulting URIs")
prop("R03", "URI components recompose to the original text",
     "Splitting a URI into scheme, authority, path, query and fragment and reassembling it reproduces the original text, and splitting an authority into user information, host and port or a path into segments loses nothing. Parsing succeeds or fails as a whole: every accepted URI reports components that concatenate, with their delimiters, to its text.",
     ["inputs"], "all URI strings over the permitted character set",
     "delimiters may be present, absent or repeated in any component",
     ["pyslet/rfc2396.py", "pyslet/urn.py"],
     [("parsing", "URI.__init__, split_server, split_path, split_abs_path, split_rel_path"), ("URN names", "urn.parse_urn, URN")],
     "URI attributes and str()")
prop("R04", "URIs compare by canonical form and file paths survive as URLs",
     "Two URIs that are not URNs are equal, with equal hashes, exactly when they differ at most in the case of the scheme, for http, https and file URLs in the case of the host and an empty, default or zero-padded port, and for http and https in an empty path for / and the escapes of unreserved characters, or their case, in path and query. The canonical form is equal to the URI and is its own, and the address of a server is its host with the port or the default one. An absolute path turned into a file URL and back is the normalised path in the same file system, the slash of a directory kept, whatever characters its names have.",
     ["inputs"], "all URIs and all absolute paths",
     "case, ports, escapes and missing parts combine, and any character may be in a name",
     ["pyslet/rfc2396.py", "pyslet/http/params.py", "pyslet/vfs.py"],
     [("canonical form", "URI.canonicalize, ServerBasedURL.canonicalize, HTTPURL.canonicalize, URI._pre_cmp, get_addr, get_canonical_root"), ("files", "URI.from_virtual_path, FileURL.get_virtual_file_path")],
     "comparison, hash and str() of URIs; paths")
prop("H01", "HTTP tokens, quoted strings and parameters survive formatting and parsing",
     "Every byte string of permitted text formatted as an HTTP quoted string decodes to the original, the quoted form never ends early, and parameter lists of tokens and values survive formatting followed by parsing. A token is accepted exactly when it is a non-empty run of non-control, non-separator ASCII characters.",
     ["inputs"], "all byte strings and parameter maps",
     "each byte value needs its own treatment (quote, backslash, control, separator) at any position",
     ["pyslet/http/grammar.py"],
     [("byte classes", "grammar.is_* predicates, check_token"), ("quoting", "quote_string, decode_quoted_string, format_parameters")],
     "return values of the functions")
prop("H02", "HTTP dates round-trip and every accepted form denotes the same instant",
     "Formatting any whole-second UTC time point from 1970 to 9999 as an HTTP date and parsing it back yields the same instant, with the correct weekday and month name. An HTTP date whose weekday contradicts its date, or with any out-of-range field (a second of 60 is in range), is rejected.",
     ["inputs"], "all whole-second instants",
     "names, two-digit fields and calendar validity interact over all dates",
     ["pyslet/http/params.py", "pyslet/iso8601.py"],
     [("dates", "FullDate.to_bytes, ParameterParser.require_fulldate")],
     "FullDate string forms")
prop("H03", "Content negotiation picks the client's best acceptable alternative",
     "Selecting from a list of available media types, charsets, encodings or languages returns the first one with the highest quality among those acceptable, where each alternative takes the quality of the most specific matching range and quality zero means unacceptable; if nothing is acceptable nothing is returned. The order in which the client listed the ranges never matters.",
     ["inputs"], "all accept lists and all lists of alternatives",
     "specificity, wildcards, parameters, q values and default rules combine freely",
     ["pyslet/http/messages.py", "pyslet/http/params.py"],
     [("selection", "AcceptList.select_type, AcceptTokenList.select_token, AcceptCharsetList, AcceptEncodingList, AcceptLanguageList.select_language, MediaRange.match_media_type, LanguageTag.partial_match")],
     "return values of the select methods")
prop("H04", "Request bodies are delivered exactly, never beyond their declared end",
     "However the body is requested (sizes of read calls, seeks inside the buffered prefix), a wrapped request body with a declared length delivers exactly the bytes of the body in order, reports its position correctly and never takes more than the declared length from the connection. A chunked body delivers exactly the concatenation of its chunks and stops at the terminating chunk.",
     ["inputs", "histories"], "all bodies, chunkings, buffer sizes and sequences of read and seek calls",
     "boundaries between the buffered prefix, the stream and the declared end can fall anywhere in any call sequence",
     ["pyslet/http/messages.py"],
     [("body input", "WSGIInputWrapper.read, seek, readinto; ChunkedReader")],
     "bytes returned and the position of the underlying stream")
prop("H05", "Cookies are only sent to hosts, paths and schemes that match them",
     "A cookie returned for a request always satisfies: the request host equals the cookie's host (host-only cookies) or equals or is a sub-domain, on a label boundary, of the cookie's domain; the request path equals or is below the cookie's path on a segment boundary; a secure cookie is only returned for a secure request; and the cookie has not expired. Conversely every stored cookie meeting these conditions is returned (an http-only one to HTTP requests only), and a server can only set a cookie for a domain that contains its own host and is not a public suffix.",
     ["inputs", "histories"], "all hosts, domains, paths and sequences of stored cookies",
     "prefix and suffix matching must hold for every host and path pair, not the few a test samples",
     ["pyslet/http/cookie.py"],
     [("matching", "domain_in_domain, split_domain, CookieStore.set_cookie, CookieStore.search, Cookie.expired")],
     "cookies returned by CookieStore.search")
prop("H06", "Credentials are only offered inside their protection space",
     "Stored credentials match a request URL only if scheme, host and port agree with the protection space and the path is inside one of the successful path prefixes on segment boundaries. The basic credentials sent decode to exactly the user id and password given.",
     ["inputs"], "all URLs, path prefixes, user ids and passwords",
     "path prefix confusion needs particular segment structures",
     ["pyslet/http/auth.py"],
     [("protection space", "Credentials, BasicCredentials.test_path, match, add_success_path, is_prefix"), ("basic", "BasicCredentials.to_bytes / set_basic_credentials")],
     "results of matching, header value")
prop("H07", "HTTP header values read back as written and compare consistently",
     "Formatting any HTTP version, media type or range, product token, language tag, entity tag, transfer coding, chunk header, Accept-Ranges, Allow, Cache-Control or Content-Range value and parsing it gives an equal value with the same parts. Equality ignores exactly the case HTTP ignores (types, subtypes, codings, languages, range units, methods, parameter names), equal values have equal hashes and each kind is totally ordered, versions by number (1.10 after 1.9, 1.0a before 1.0). The validity and length of a content range follow from its numbers.",
     ["inputs"], "all values of each kind",
     "case, quoting, order and the boundaries of numbers matter separately for each kind",
     ["pyslet/http/params.py", "pyslet/http/messages.py"],
     [("values", "HTTPVersion, MediaType, MediaRange, ProductToken.explode, LanguageTag, EntityTag, TransferEncoding, Chunk and their parsers"), ("headers", "AcceptRanges, Allow, CacheControl, ContentRange, HeaderParser")],
     "str(), from_str, comparison and hash")
prop("X01", "XML escaping is lossless and never leaks markup",
     "For every character string, the escaped form of character data (plain, ASCII-only or CDATA, quoted or not) contains no character that would be read as markup or end the attribute value, and decoding its references gives back the original string.",
     ["inputs"], "all character strings of any length, both escape functions and the CDATA form",
     "each character and each adjacency (for example the CDATA end marker, mixed quotes) must be right at any position",
     ["pyslet/xml/structures.py"],
     [("escaping", "escape_char_data, escape_char_data7, escape_cdsect")],
     "escaped strings")
prop("X02", "XML Schema lexical forms are accepted exactly as the schema defines them",
     "Integer, decimal, boolean, name and whitespace handling accept exactly the strings of the corresponding XML Schema or XML production and give the denoted value; canonical output of an integer, boolean, decimal (of up to 15 significant digits) or float (of up to 14) is a valid lexical form that decodes to the same value. White-space collapsing leaves no leading run and no double space.",
     ["inputs"], "all character strings of any length",
     "acceptance is a language-equivalence statement over unbounded strings",
     ["pyslet/xml/xsdatatypes.py", "pyslet/xml/structures.py"],
     [("lexical forms", "xsdatatypes.boolean_from_str, integer_from_str, decimal_from_str, structures.is_valid_name, collapse_space")],
     "return values or ValueError")
prop("X03", "XML Schema regular expressions match exactly their language",
     "A text matches a regular expression of XML Schema exactly when the whole text is in the language the expression denotes: alternatives, sequences, groups, quantifiers, character classes with ranges, negation and subtraction, escapes, categories and blocks as the schema defines them (characters whose category has changed since Unicode 5 apart). Text that is no regular expression is refused, and using one expression never changes what another matches.",
     ["inputs", "histories"], "all expressions and all texts",
     "expressions are an unbounded language and so is each of their own languages",
     ["pyslet/xml/xsdatatypes.py", "pyslet/unicode5.py"],
     [("translation", "xsdatatypes.RegularExpressionParser"), ("matching", "RegularExpression.match"), ("classes", "unicode5.CharClass, ucd_category, ucd_block")],
     "result of RegularExpression.match, or the error")
prop("X04", "Element trees written as XML read back the same",
     "A tree of elements, with or without namespaces, whose root preserves white space, written in any form and read back, by this parser or another, has the same expanded names, attributes and text; otherwise the same up to collapsing of white space (white space in attribute values is read as spaces). The prefix in force for a namespace, and the namespace of a prefix, are those of the innermost declaration. Writing does not change the tree, and an element written alone reads back as itself.",
     ["inputs"], "all trees of elements, declarations and text",
     "declarations may hide, repeat or clash with each other at any depth",
     ["pyslet/xml/namespace.py", "pyslet/xml/structures.py"],
     [("prefixes", "NSNode.get_prefix, get_ns, make_prefix, get_prefix_map, write_nsattrs"), ("elements", "Element.generate_xml, NSElement.generate_xml, write_xml_attributes, XMLNSParser.expand_qname, parse_nsattrs")],
     "bytes written, the tree read")
prop("S01", "A block-structured stream behaves as a flat file",
     "A stream stored as fixed-size blocks behaves, under any sequence of seek, read, write, flush and close, exactly like a flat file with the same contents: the same bytes read, the same positions and the same final size, whatever the block size.",
     ["inputs", "histories"], "all block sizes, offsets, lengths and operation sequences",
     "block-boundary arithmetic fails only at particular alignments of offset, length and block size",
     ["pyslet/blockstore.py"],
     [("block arithmetic", "BlockStream.seek, readinto, write, flush")],
     "bytes and positions observed through BlockStream")
prop("S02", "A pipe delivers every byte once, in order, and accounts for its capacity",
     "Bytes read from a pipe are exactly the bytes written, in order and without loss or duplication, for any sizes of writes and reads. The amount reported as buffered is exactly what was written and not yet read; a non-blocking write accepts nothing when the pipe is full, never more than the free space from a mutable buffer, and either all or none of an immutable byte string. End of file is reported only after all written bytes have been read.",
     ["inputs", "histories"], "all sequences of non-blocking writes and reads and all capacities",
     "partial chunk consumption and capacity limits interact across calls",
     ["pyslet/streams.py"],
     [("buffering", "Pipe.write, read, readinto, readmatch, canwrite")],
     "return values of the pipe methods")
prop("O01", "Typed data values never hold a value outside their type",
     "Setting an OData integer value (byte, signed byte, 16, 32 or 64 bit) from a number or a literal either stores exactly that integer, in the range of the type, or fails leaving the old value; literals in any other form are rejected. The text of any stored integer, boolean, binary, GUID or string value parses back to the same value.",
     ["inputs"], "all integers and all literal strings",
     "range limits and literal grammar are per type; tests sample the end points of some",
     ["pyslet/odata2/csdl.py"],
     [("typed values", "ByteValue, SByteValue, Int16Value, Int32Value, Int64Value, BinaryValue: set_from_value, set_from_literal"), ("literals", "csdl.Parser")],
     "value attribute and string form")
prop("O02", "OData URI literals and keys round-trip",
     "Formatting any simple value as a URI literal and parsing it again yields a value of the same type and value, including strings with quotes and any characters (8- and 16-bit integers, which have no literal form of their own, are read as 32-bit ones; dates and times are exact to the second). An entity key formatted into a URI segment parses back to the same key.",
     ["inputs"], "all simple values of the supported types",
     "quoting and percent-encoding interact for arbitrary strings",
     ["pyslet/odata2/core.py", "pyslet/odata2/csdl.py"],
     [("literals", "ODataURI.format_literal, Parser.parse_uri_literal, parse_string_uri_literal, split_segment, format_key_dict")],
     "literal strings and parsed values")
prop("O03", "OData expressions evaluate with exact types, arithmetic and null rules",
     "Binary numeric operators promote to the common type of the specification (independent of operand order), give the exact integer result for 32- and 64-bit integers (division and remainder truncating towards zero) or fail, and yield null when an operand is null. Comparisons agree with the order of the values and are false when one operand is null (two nulls are equal); 'and' and 'or' are false when an operand is null, and 'not' of null is null. An expression written as text and parsed again has the same value.",
     ["inputs"], "all pairs of numeric operand types and values, null included",
     "operand types times values; integer results must be exact over the whole 64-bit range",
     ["pyslet/odata2/core.py", "pyslet/odata2/csdl.py"],
     [("evaluation", "promote_types, BinaryExpression.evaluate_*, UnaryExpression.evaluate_*")],
     "type and value of the evaluation result")
prop("O04", "Association links are symmetric and complete",
     "After any sequence of link additions, removals and entity deletions, an in-memory association reports a link from one side exactly when it reports it from the other side, it reports exactly the links added and not since removed, and deleting an entity removes all and only its links.",
     ["histories"], "all sequences of add, remove and delete on any set of keys",
     "stale reverse entries only show after particular histories",
     ["pyslet/odata2/memds.py"],
     [("links", "InMemoryAssociationIndex.add_link, remove_link, get_links_from, get_links_to, delete_hook, rdelete_hook")],
     "return values of get_links_from/get_links_to")
prop("O05", "Collections list exactly the entities that match, in order and page by page",
     "A listing of an in-memory collection (of a set, of links, or expanded) has exactly the entities that match its filter, a null result not matching, in the order asked for with null before any value, and its length, membership and look-ups agree with it whatever is selected. Pages taken one after another, by size, skip or token, give each entity listed once and in order, and a token is offered exactly when the maximum page size left out entities asked for. An entity is read with the values last inserted, merged or replaced (those not selected kept when merging, otherwise their defaults), and a key in use is refused.",
     ["inputs", "histories"], "all collections, filters, orders, selections, page sizes and sequences of changes",
     "tests page through one collection in one order; options interact (filter with select, skip with token, null with order)",
     ["pyslet/odata2/csdl.py", "pyslet/odata2/core.py", "pyslet/odata2/memds.py"],
     [("listing", "csdl.EntityCollection.filter_entities, order_entities, expand_entities, iterpage, set_page"), ("filter", "core.EntityCollection.check_filter"), ("in memory", "memds.EntityCollection, memds.NavigationCollection, memds.InMemoryEntityStore")],
     "the entities listed, looked up and counted, the tokens")
prop("O06", "Entities written as JSON or Atom read back with the same values",
     "An entity, stored or new, written as JSON (either version) or as an Atom entry and read back has the same value, or null, for each selected property of every simple type and in complex values, text and white space unchanged and dates to the millisecond, and null for properties not selected. A JSON date holds exactly the milliseconds since 1970, negative before, and any offset of its zone. The links of a new entity, and the entities a stored one is expanded to (or none), are those read back.",
     ["inputs"], "all values of all types, selections, expansions and links",
     "each type has its own text forms, and defects only show for particular values (dates before 1970 or without a zone, white space, nulls)",
     ["pyslet/odata2/core.py", "pyslet/odata2/csdl.py"],
     [("json", "simple_value_to_json_str, simple_value_from_json, parse_asp_dot_net_date, complex_value_from_json, Entity.generate_entity_type_in_json, Entity.set_from_json_object"), ("atom", "Entry.set_value, Entry.get_value, Property.set_value, Property.get_value, Link.load_expansion")],
     "the text written and the entity read")
prop("L01", "LTI launches cannot be replayed and roles match exactly",
     "A nonce presented again by the same consumer within ninety minutes of its last accepted use is always refused, and a nonce never seen, or last accepted more than ninety minutes ago, is accepted. A role is a sub-role of another exactly when both are well-formed roles of the same vocabulary and type and the parent has no sub-type.",
     ["inputs", "histories"], "all presentation times and histories of nonces; all role names",
     "replay protection depends on elapsed time and history rather than on a single request",
     ["pyslet/imsbltiv1p0.py"],
     [("nonces", "ToolProvider.validate_timestamp_and_nonce"), ("roles", "split_role, is_subrole")],
     "return values")
prop("W01", "Signed messages verify only unmodified, and static pages stay in their directory",
     "A message signed by the application, the empty one included, verifies and is returned exactly, before and after changes of key; a signature string that was altered in key number, salt, hash or message, or whose bytes were moved from one to the other, is refused. Data encrypted under any earlier key decrypts exactly. A static page request is only ever served from a file inside the configured directory, for any request path.",
     ["inputs"], "all messages, signature alterations and request paths",
     "adversarial inputs are not those tests sample",
     ["pyslet/wsgi.py", "pyslet/http/cookie.py"],
     [("signing", "AppCipher.sign, check_signature, ascii_sign, _split_signature"), ("static files", "WSGIApp.static_page, cookie.is_ldh_label")],
     "return value or error; path opened")
prop("W02", "Requests are dispatched to the most specific registered page",
     "A request path is dispatched to the handler registered for exactly that path if there is one; otherwise to a handler whose pattern matches the path, wildcard segments matching one whole segment and a trailing wildcard matching any remaining segments; a named segment is preferred to a wildcard at the same position, a single wildcard to a trailing one. Not found is reported only when no registered pattern matches.",
     ["inputs", "histories"], "all sets of registered patterns and all request paths",
     "backtracking between named and wildcard branches needs particular pattern sets",
     ["pyslet/wsgi.py"],
     [("dispatch", "WSGIApp.set_method, WSGIApp.__call__")],
     "handler called")
prop("M01", "HTML lengths, image-map areas and colours are computed exactly",
     "A percentage length resolves to the nearest whole pixel (up from the middle) and a pixel length to itself; a rectangle contains exactly the points inside its corners whichever order the corners are given in (left and top edges belong to it), a circle exactly the points within its radius, and a polygon of any number of corners, closed or not, the points from which a horizontal ray crosses its edges an odd number of times. Pixels allocated to a list of lengths give every pixel length itself and every percentage and relative length its share rounded up or down, and when there is a relative length and the others fit, the whole space is used. Colours written in the six-digit form, lengths and coordinates round-trip through text.",
     ["inputs"], "all integer lengths, coordinates, points and colours",
     "rounding and boundary points",
     ["pyslet/html401.py"],
     [("geometry", "Length.resolve_value, Coords.test_rect, test_circle, test_poly"), ("allocation", "MultiLength.allocate_pixels"), ("colour", "Color")],
     "return values")
prop("V01", "Virtual file paths normalise and split like POSIX paths",
     "Normalising a path of the in-memory file system is idempotent, keeps an absolute path absolute, and names the same location as walking the original segments; splitting a path and joining the parts, or splitting off the extension and appending it, gives an equivalent path.",
     ["inputs"], "all paths of any number of segments",
     "combinations of empty, dot, dot-dot and named segments are unbounded",
     ["pyslet/vfs.py"],
     [("path algebra", "VirtualFilePath.normpath, join, split, splitext")],
     "string form of the paths")
prop("Q01", "QTI operators follow the specification's numeric and three-valued rules",
     "QTI logical operators follow three-valued logic (null as unknown); numeric operators yield null when any operand is null (or the result is undefined), an integer when all operands are integers, a float otherwise; integer division and modulus satisfy dividend = quotient * divisor + remainder with a quotient rounded down, and truncate and round (a half goes up) are exact. Multiple, Ordered, Index, Delete, Member and Contains treat containers as bags or lists as the specification does, and never change their operands; a mapping of a response gives every distinct value its mapped value once, uses the default for the others and keeps to the bounds, and lookup tables use the first entry that matches. The text of a value read back gives an equal value.",
     ["inputs"], "all operand values, null included, and any number of operands",
     "null, sign and boundary combinations",
     ["pyslet/qtiv2/expressions.py", "pyslet/qtiv2/variables.py"],
     [("operators", "And, Or, Not, AnyN, Sum, Product, Subtract, Divide, Power, IntegerDivide, IntegerModulus, Truncate, Round, IntegerToFloat, RandomInteger, SubString, StringMatch, PatternMatch, LT/GT/LTE/GTE, Match, Equal, EqualRounded, DurationLT/GTE"), ("containers", "Multiple, Ordered, Index, Delete, Member, Contains, ContainerSize, Random, FieldValue, Inside, Container.copy"), ("response processing", "Mapping.map_value, AreaMapping.map_value, MatchTable.lookup, InterpolationTable.lookup")],
     "value of the evaluated expression")
# not decided by this family here, see MANIFEST not_applicable
prop("Z01", "Concurrent use of pipes, stores and servers is free of lost updates and deadlock",
     "Concurrent readers and writers of a pipe, of the in-memory stores and of database containers see every operation applied exactly once, and no interleaving leaves a thread waiting for ever.",
     ["schedules"], "all thread interleavings",
     "schedules cannot be enumerated by tests",
     ["pyslet/streams.py", "pyslet/odata2/memds.py", "pyslet/odata2/sqlds.py"],
     [("locks", "threading conditions and locks in Pipe, InMemoryEntityStore, SQLEntityContainer")],
     "results of concurrent operations")
prop("Z02", "SQL-backed collections are equivalent to in-memory ones and atomic under failure",
     "Any sequence of entity operations gives the same results on an SQL-backed collection as on the in-memory one, and a failed operation leaves the database unchanged.",
     ["histories", "crash_points"], "all operation sequences and failure points",
     "sequences and failure points are unbounded",
     ["pyslet/odata2/sqlds.py"],
     [("SQL layer", "SQLEntityCollection, SQLTransaction")],
     "query results")
prop("Z03", "Well-formed XML documents are accepted and others rejected by the parser",
     "The XML parser accepts exactly the well-formed documents and delivers their information set, independent of encoding and of how the input is split.",
     ["inputs"], "all documents",
     "the language is infinite",
     ["pyslet/xml/parser.py"],
     [("parser", "XMLParser")],
     "parse result")
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
