"""Generates /verif/properties.jsonl (run by hand when the list changes)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe: a['observe_at'] = observe
    if state: a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    a['hook_needed'] = None
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})

API = ['httpolice.check_exchange', 'Request.notices / Response.notices / Exchange.notices',
       'httpolice.text_report', 'httpolice.html_report']

p('C01', 'Any exchange can be checked and reported without failing',
  'For every exchange that can be built through the API (any methods, targets, versions, statuses, reason phrases, '
  'header and trailer names and values, bodies, and any of the documented "unknown" values), checking it and then '
  'rendering it as a text and as an HTML report completes normally, without raising. '
  'Everything wrong with the message is expressed as notices, never as an exception.',
  ['inputs'], 'all exchanges: arbitrary bytes in every field, plus syntactically valid but extreme values (huge numbers, far dates, odd charsets, odd URIs, hostile bodies, deep nesting)',
  'test_fuzz.py feeds 100 fixed-seed garbage exchanges that nearly always stop at syntax errors; the code behind a successful parse (dates, ages, URIs, charsets, codings, payload parsers) sees only hand-picked examples.',
  ['httpolice/message.py', 'httpolice/request.py', 'httpolice/response.py', 'httpolice/header.py', 'httpolice/parse.py', 'httpolice/reports/common.py'],
  [('payload decoding with exceptions turned into notices', 'httpolice/message.py Message.decoded_body .. displayable_body'),
   ('parse errors turned into notices', 'httpolice/parse.py parse'), ('Unavailable as "not a value"', 'httpolice/structure.py')], API)

p('C02', 'Any input file ends in a report or in one clean error, never a traceback',
  'For every list of input files in every input format and every file content, the command-line tool either writes a report and exits 0, or (missing or unreadable file, '
  'wrong number or naming of files, a file that is not of the declared format) prints one "httpolice: ..." message on standard error and exits 1. '
  'No content makes it fail with an unhandled exception, and files that are valid for the format are never rejected.',
  ['inputs', 'fault_sequences'], 'all file contents: valid captures, captures mutated or truncated at any byte, JSON documents of any shape for HAR, arbitrary bytes; missing files; all seven formats, both reports',
  'the tests run a few dozen well-formed files and a handful of broken ones; truncation points, byte mutations and JSON shapes are unbounded.',
  ['httpolice/inputs/har.py', 'httpolice/inputs/streams.py', 'httpolice/framing1.py', 'httpolice/stream.py', 'httpolice/cli.py'],
  [('InputError', 'httpolice/inputs/common.py'), ('run_cli exception handling', 'httpolice/cli.py run_cli')], ['exit status', 'stderr', 'stdout of the httpolice tool'])

p('C03', 'Well-formed HTTP/1.x traffic is reconstructed exactly',
  'When a connection carries well-formed HTTP/1.x messages, reading its inbound and outbound streams yields exactly the exchanges that were sent, in order: methods, targets, versions, '
  'statuses, reasons, header and trailer entries, bodies, and the pairing of each request with its interim and final responses. '
  'This does not depend on how a body is framed (length, chunk boundaries and extensions, transfer codings, close-delimited), and no message borrows or loses bytes to its neighbour.',
  ['inputs', 'histories'], 'all sequences of exchanges on one connection, with all framings, HEAD/CONNECT/1xx/204/304/101 special cases, optional one-sided streams',
  'the existing stream files are single hand-written conversations; boundaries between messages, chunk splits and coding chains are not enumerable by example.',
  ['httpolice/framing1.py', 'httpolice/stream.py', 'httpolice/codings.py', 'httpolice/inputs/streams.py'],
  [('message body length rules', 'httpolice/framing1.py _parse_request_body/_parse_response_body'), ('chunked decoding', 'httpolice/framing1.py _parse_chunked'), ('pairing loop', 'httpolice/framing1.py parse_streams')],
  ['httpolice.inputs.formats[...](paths)'])

p('C04', 'Broken HTTP/1.x framing is flagged where it breaks, and never misread',
  'When a stream stops being well-formed HTTP/1.x (bad start line, bad header line, bad chunk, body cut short, over-long line, unframable body, missing or surplus responses, data after a protocol switch), every message before the break is '
  'still reported intact, exactly the notice for that kind of break is reported on the right message or on its own, and parsing of that stream stops there with the offset of the unread rest. '
  'Content lost to bad framing is treated as unavailable rather than as empty or as other bytes; bare LF line ends and obsolete line folding are tolerated and flagged.',
  ['inputs', 'fault_sequences'], 'all single and multiple framing faults injected at every place of otherwise valid connections, and arbitrary truncation points',
  'each framing notice has one or two example files; the combination of fault kind, place, and surrounding messages is unbounded.',
  ['httpolice/framing1.py', 'httpolice/stream.py'],
  [('Stream.sane/eof/good', 'httpolice/stream.py'), ('complaint boxes', 'httpolice/exchange.py complaint_box'), ('parse_streams', 'httpolice/framing1.py')],
  ['httpolice.inputs.formats[...](paths)', 'text report'])

p('C05', 'A syntax error is reported exactly when a value violates its grammar',
  'For every header field whose syntax HTTPolice knows, and for request methods, request targets, reason phrases and field names, a syntax error is reported if and only if the value cannot be derived from the grammar '
  'given by the governing specification (as amended by its errata). '
  'Valid but unusual spellings (optional whitespace, empty list elements, quoted pairs, letter case, optional parts) are accepted, and values one edit away from valid are not accepted by accident.',
  ['inputs'], 'all byte strings as value of each known header field, method, target, reason, name; sampled from the grammar, one to three edits away from it, and at random',
  'test_syntax.py and the data files contain a few dozen values; acceptance of a context-free grammar is a statement about infinitely many strings.',
  ['httpolice/parse.py', 'httpolice/syntax/rfc7230.py', 'httpolice/syntax/rfc7231.py', 'httpolice/syntax/rfc3986.py', 'httpolice/syntax/rfc7234.py', 'httpolice/syntax/rfc8288.py', 'httpolice/known/header.csv'],
  [('Earley recogniser', 'httpolice/parse.py _inner_parse'), ('combinators (string_times, comma_list, string_excluding ...)', 'httpolice/parse.py, httpolice/syntax/rfc7230.py'), ('field name to grammar mapping', 'httpolice/known/header.csv')], API)

p('C06', 'Syntax errors point at the first byte that cannot be right',
  'When a value is reported as syntactically wrong, the offset in the explanation is the length of the longest prefix that could still be continued to a valid value, the "found" item is the byte at that offset (or end of data), '
  'and the bytes listed under "expected" are exactly those that could stand there, with "end of data" listed exactly when the prefix is itself valid.',
  ['inputs'], 'all invalid values of all known header fields, methods, targets and reason phrases',
  'the tests check error text for three inputs; offset and expectation depend on every grammar rule and every prefix.',
  ['httpolice/parse.py', 'httpolice/reports/common.py', 'httpolice/util/text.py'],
  [('_build_parse_error', 'httpolice/parse.py'), ('expand_parse_error', 'httpolice/reports/common.py'), ('format_chars', 'httpolice/util/text.py')], ['HTML report, notice explanation'])

p('C07', 'Verdicts depend on what header fields mean, not on how they are spelled',
  'Changing only the spelling of a message - letter case of field names (and of values that do not depend on it), byte string versus ISO-8859-1 text, splitting a list-valued field over several fields or joining them with commas, optional whitespace around list elements, '
  'moving unrelated fields relative to each other - does not change which notices are reported. '
  'A field that may occur only once is reported when repeated, and its last occurrence is the one that counts; fields forbidden in trailers are reported and ignored there, others count as if in the header.',
  ['inputs'], 'all messages and all compositions of the meaning-preserving respellings',
  'this is a relation between pairs of inputs; the example files never compare two spellings of one message.',
  ['httpolice/header.py', 'httpolice/structure.py', 'httpolice/message.py'],
  [('Single/Multi/UnknownHeaderView', 'httpolice/header.py'), ('FieldName, CaseInsensitive', 'httpolice/structure.py'), ('HeaderEntry', 'httpolice/structure.py')], API)

p('C08', 'Previews in the HTML report show the message that was checked',
  'In the HTML report, each message preview shows the start line and all header and trailer fields in their original order, with name and value text exactly as in the message except that non-printable characters are replaced by U+FFFD; annotating recognised tokens never adds, drops or reorders text. '
  'The body preview is the body after the announced transformations (transfer and content coding removed, charset decoded, JSON pretty-printed, first 1000 characters, non-printables replaced), all applied transformations are announced and no others; unknown and unavailable bodies are said to be so, and empty ones are not shown.',
  ['inputs'], 'all messages with valid and invalid header values and all body kinds (binary, text in many charsets, compressed, JSON, undecodable, unknown)',
  'the HTML output is only checked by tests for not containing Python reprs; its text is never compared to the message.',
  ['httpolice/reports/html.py', 'httpolice/parse.py', 'httpolice/message.py', 'httpolice/header.py', 'httpolice/util/text.py'],
  [('_splice_annotations', 'httpolice/parse.py'), ('displayable_body', 'httpolice/message.py'), ('_render_message', 'httpolice/reports/html.py')], ['httpolice.html_report'])

p('C09', 'Content and transfer codings are undone exactly, or the failure is flagged',
  'A body that was encoded with any chain of gzip/x-gzip, deflate and br content codings (and, on HTTP/1.x streams, gzip/x-gzip/deflate transfer codings) is checked and displayed as the original data, including multi-member gzip and empty data. '
  'Data that is corrupt or cut short for its declared coding is reported as undecodable with that coding named; unsupported codings are reported as not decoded; in both cases the payload counts as unavailable, so no notices about its content follow.',
  ['inputs'], 'all payloads, all coding chains, all encoder settings, all corruptions and truncations of the encoded data',
  'the tests contain one or two encoded bodies per coding, none chained or truncated.',
  ['httpolice/codings.py', 'httpolice/message.py', 'httpolice/framing1.py'],
  [('decode_gzip/decode_deflate/decode_brotli', 'httpolice/codings.py'), ('decoded_body', 'httpolice/message.py'), ('_decode_transfer_coding', 'httpolice/framing1.py')], API)

p('C10', 'Payload verdicts follow from the payload and its declared media type',
  'A complete payload declared as JSON (or +json) or XML (or +xml) is reported as malformed if and only if it is malformed in that language, read in the encoding that the charset parameter and the payload declare (an unknown or ill-fitting charset switches this off); '
  'a multipart payload if and only if its boundary is not declared or not found; a URL-encoded form if and only if it contains a character that cannot occur there. XML with entity declarations, JSON in an encoding other than UTF-8 or ASCII, a charset parameter of application/json, deprecated media types and repeated parameters of Content-Type are reported exactly when present. '
  'Payloads of other types, partial or 204 or 304 or HEAD content, and unavailable or unknown bodies cause no notices about their content.',
  ['inputs'], 'all bodies, media types, charsets, statuses and methods',
  'one hand-written body per notice exists; well-formedness of payload languages is over all strings.',
  ['httpolice/message.py', 'httpolice/response.py', 'httpolice/known/media_type.csv'],
  [('json_data/xml_data/multipart_data/url_encoded_data', 'httpolice/message.py'), ('content_is_full', 'httpolice/response.py'), ('guessed_charset', 'httpolice/message.py')], API)

p('C11', 'Dates and times mean the instant they denote, in all three HTTP formats',
  'A date in any of the three HTTP formats is understood as the instant it denotes, whatever field it is in: comparisons between date fields (Last-Modified vs Date, If-Modified-Since vs Last-Modified, Expires vs Date and Age, Warning date vs Date) give the same verdicts as calendar arithmetic. '
  'Obsolete formats, impossible dates and times, and a wrong day of week are each reported exactly when they occur, and the wrong-weekday notice names the right day.',
  ['inputs'], 'all days from year 1 to 9999, all times, all three formats, all date-carrying fields',
  'the tests contain about twenty dates.',
  ['httpolice/syntax/rfc7231.py', 'httpolice/response.py', 'httpolice/message.py', 'httpolice/header.py'],
  [('HTTP_date and _to_date/_to_time/_check_day_of_week', 'httpolice/syntax/rfc7231.py'), ('HeaderView comparisons', 'httpolice/header.py')], API)

p('C12', 'Request verdicts follow the protocol rules',
  'For every request, the notices about its method, Host, body framing and presence, expectations, hop-by-hop and connection management fields, User-Agent, Referer, content negotiation, direction of its fields, trailers, and HTTP/2 restrictions are exactly those whose documented condition holds for that request.',
  ['inputs'], 'all combinations of method, version, scheme, header fields, body and trailers',
  'each rule has one or two positive examples; absence on the rest of the input space, and interaction of conditions, is untested.',
  ['httpolice/request.py', 'httpolice/message.py', 'httpolice/known/method.csv', 'httpolice/known/header.csv', 'httpolice/notices.xml'],
  [('check_request', 'httpolice/request.py'), ('check_message', 'httpolice/message.py')], API)

p('C13', 'Verdicts on a response by itself follow the protocol rules',
  'For every response, whether or not its request is known, the notices that concern the response alone - status code, required and forbidden fields per status, body presence per status, length delimitation, direction of fields, upgrade, Via and proxy transformation, Vary, Allow, trailers, HTTP/2 restrictions, and the exemptions for 103 - are exactly those whose documented condition holds.',
  ['inputs'], 'all combinations of status, version, header fields, body and trailers, with and without a request',
  'each rule has one or two positive examples; absence on the rest of the input space is untested.',
  ['httpolice/response.py', 'httpolice/message.py', 'httpolice/known/status_code.csv', 'httpolice/known/header.csv', 'httpolice/notices.xml'],
  [('check_response_itself', 'httpolice/response.py'), ('check_message', 'httpolice/message.py'), ('delimited_by_close', 'httpolice/response.py')], API)

p('C14', 'Verdicts on a response in the context of its request follow the rules',
  'For every request/response pair, the notices that relate the two - effective request URI against Location and Content-Location, request method and version against status, HEAD/CONNECT body and framing rules, error explanations, content negotiation, Allow, Upgrade, Prefer and Preference-Applied, PATCH, proxying and Via, TLS - are exactly those whose documented condition holds for that pair.',
  ['inputs'], 'all pairs of requests (methods, all four target forms, versions, schemes) and responses',
  'the condition space is the product of two messages; tests sample one point per rule.',
  ['httpolice/response.py', 'httpolice/request.py', 'httpolice/notices.xml'],
  [('check_response_in_context', 'httpolice/response.py'), ('effective_uri/is_to_proxy/target_form', 'httpolice/request.py')], API)

p('C15', 'Caching verdicts follow from Age, dates, Cache-Control and warnings',
  'For every exchange, whether the response is judged to come from a cache, to be stale, or to use heuristic freshness, and every notice about cache directives (direction, arguments and their quoting, contradictions, no effect), Pragma, Warning, Age, Expires, Vary, immutable and cacheability of method and status, is what the caching rules give for that exchange.',
  ['inputs'], 'all combinations of Age, Date, Expires, Cache-Control directives and arguments on both sides, Pragma, Warning lists, methods and statuses',
  'freshness is arithmetic over several independent fields; tests fix one value for each.',
  ['httpolice/response.py', 'httpolice/request.py', 'httpolice/header.py', 'httpolice/known/cache_directive.csv', 'httpolice/syntax/rfc7234.py'],
  [('from_cache/stale/heuristic_expiration', 'httpolice/response.py'), ('CacheControlView', 'httpolice/header.py')], API)

p('C16', 'Conditional and range request verdicts follow the rules',
  'For every exchange, the notices about entity tags, If-Match, If-None-Match, If-Modified-Since, If-Unmodified-Since, If-Range, Range, Content-Range, 206, 304, 412, 416, 428 and multipart/byteranges are exactly those whose documented condition holds: weak and strong comparison, range well-formedness, ignored or pointless preconditions, and required or forbidden companion fields.',
  ['inputs'], 'all combinations of validators, preconditions, ranges, methods, statuses and multipart bodies',
  'the rules compare values across messages; tests sample one or two pairs each.',
  ['httpolice/response.py', 'httpolice/request.py', 'httpolice/syntax/rfc7232.py', 'httpolice/syntax/rfc7233.py', 'httpolice/structure.py'],
  [('EntityTag.weak_equiv/strong_equiv', 'httpolice/structure.py'), ('_well_formed1/_well_formed2', 'httpolice/syntax/rfc7233.py'), ('precondition rules', 'httpolice/response.py check_response_in_context')], API)

p('C17', 'Authentication verdicts follow from credentials, challenges and TLS',
  'For every exchange, the notices about Authorization, Proxy-Authorization, WWW-Authenticate and Proxy-Authenticate - Basic credentials encoding and content, Basic and Bearer challenge parameters, Bearer over TLS, tokens in the URI or form body, error codes against status, missing challenges, credentials without content, realm quoting - are exactly those whose documented condition holds.',
  ['inputs'], 'all credentials and challenge lists of all schemes in both syntactic forms, all schemes of URI, statuses and token locations',
  'challenges are lists of lists; tests sample about thirty.',
  ['httpolice/request.py', 'httpolice/response.py', 'httpolice/syntax/rfc7235.py', 'httpolice/syntax/rfc6749.py'],
  [('_check_basic_auth/_check_bearer_auth', 'httpolice/request.py'), ('_check_basic_challenge/_check_bearer_challenge', 'httpolice/response.py')], API)

p('C18', 'Parameters inside structured headers are judged by their own rules',
  'Inside Prefer, Preference-Applied, Forwarded, Strict-Transport-Security, Alt-Svc, Link, Content-Disposition, Content-Type, Accept, Accept-Patch, Accept-Post, TE, Transfer-Encoding, Via and Warning values, missing, superfluous, malformed, duplicated, misordered, contradictory, badly quoted or badly encoded parameters are each reported exactly when they occur, in whatever element of the list and order they occur; a field that may occur only once is reported exactly when it is repeated; and odd spacing, needless escapes and empty list elements in any of these or similar fields are reported exactly when they are there.',
  ['inputs'], 'all well-formed values of these fields, of any number of elements and parameters in any order',
  'the fields are lists of elements with parameter lists; tests sample a few values each.',
  ['httpolice/header.py', 'httpolice/request.py', 'httpolice/response.py', 'httpolice/syntax/rfc7838.py', 'httpolice/syntax/rfc8187.py', 'httpolice/syntax/rfc8288.py', 'httpolice/syntax/rfc7230.py'],
  [('ArgumentsView and subclasses', 'httpolice/header.py'), ('complaining semantic actions', 'httpolice/syntax/*.py'), ('MultiDict', 'httpolice/structure.py')], API)

p('C19', 'Interim and final responses are judged by their place in the sequence',
  'For every sequence of responses to one request, a response is reported as coming after a final one exactly when an earlier response was not informational, a 101 that should have been preceded by 100 is reported exactly in that case, and each response otherwise gets the notices it would get as the only response to that request.',
  ['histories'], 'all response sequences of any length and statuses, with and without request and Expect',
  'two or three fixed sequences are tested.',
  ['httpolice/response.py', 'httpolice/exchange.py'],
  [('check_responses', 'httpolice/response.py'), ('check_exchange', 'httpolice/exchange.py')], API)

p('C20', 'Withholding information only switches checks off',
  'Replacing a piece of information by its documented "unknown" value - scheme, version, body, reason, or leaving out the request or the responses - never produces a notice that the complete exchange would not have, whatever the withheld piece is, and checks that do not need the withheld piece still run.',
  ['inputs'], 'all exchanges and all ways of withholding parts of them',
  'a relation between pairs of inputs; never compared by tests.',
  ['httpolice/message.py', 'httpolice/request.py', 'httpolice/response.py', 'httpolice/structure.py'],
  [('okay()/Unavailable/None comparisons', 'httpolice/structure.py, httpolice/header.py'), ('derived properties returning None', 'httpolice/request.py, httpolice/response.py')], API)

p('C21', 'Silencing removes exactly the named notices, where asked, and nothing else',
  'Whatever is silenced - by the command-line option, by silencing an exchange or message object before or after the check, or by the HTTPolice-Silence header on a request or response - the visible notices are those that would be there otherwise minus the silenced ones in the scope of that request for silence: whole exchange, the same message, or (marked "resp" on a request) its responses. '
  'A response cannot silence notices on its request, reports, exit status and the notice lists agree, and messages left without notices disappear from the text report.',
  ['inputs', 'configurations'], 'all exchanges, all sets of silenced ids, all combinations of the silencing mechanisms',
  'tests silence one or two ids in one exchange.',
  ['httpolice/blackboard.py', 'httpolice/request.py', 'httpolice/response.py', 'httpolice/cli.py', 'httpolice/syntax/internal.py'],
  [('Blackboard.silence/complaints', 'httpolice/blackboard.py'), ('HTTPolice-Silence handling', 'httpolice/request.py check_request, httpolice/response.py')], API + ['exit status'])

p('C22', 'The verdict on an exchange depends on nothing but that exchange',
  'Checking an exchange gives the same notices in the same order, and the same reports, whatever other exchanges were checked or reported before in the same process, however often equal values were parsed before, in which order exchanges are checked, and whatever the hash seed of the process. '
  'Checking never modifies headers, bodies or targets of the exchange, and each notice is reported once per message and cause.',
  ['histories'], 'all histories of checks and reports in one process preceding a check, including hundreds of distinct values that turn the parser cache over; different hash seeds',
  'each test checks one exchange; cached parse results shared between messages are only exercised by accident.',
  ['httpolice/parse.py', 'httpolice/header.py', 'httpolice/blackboard.py', 'httpolice/response.py'],
  [('parse memo and its LRU eviction', 'httpolice/parse.py parse'), ('copying before mutation', 'httpolice/header.py AltSvcView'), ('de-duplication of complaints', 'httpolice/blackboard.py complain')], API,
  [('_memo', 'parse results shared between messages')])

p('C23', 'The text report mirrors the notices, one line each, in the documented layout',
  'The text report contains, for each exchange that has notices and in order, the request marker with method and target, one line "severity id title" per request notice, then for each response with notices its marker with status and reason followed by its lines, then notices on the exchange itself; nothing else, and nothing for exchanges without notices. '
  'It is UTF-8, every notice or marker takes exactly one line whatever the message contains, non-printable characters are replaced, long markers are cut, and titles have their variables filled in from the message.',
  ['inputs'], 'all exchanges and sequences of exchanges, including control characters, line breaks, markup and non-Latin text in every field',
  'tests only scan the report for ids.',
  ['httpolice/reports/text.py', 'httpolice/reports/common.py', 'httpolice/util/text.py', 'httpolice/notices.xml'],
  [('text_report', 'httpolice/reports/text.py'), ('WriteIfAny, printable, ellipsize, detypographize', 'httpolice/util/text.py')], ['httpolice.text_report'])

p('C24', 'The HTML report is well-formed, safe, complete and consistent',
  'For every list of exchanges the HTML report is one well-formed UTF-8 document with balanced elements and no forbidden control characters, in which message content appears only as text or attribute values and can never introduce elements or attributes; '
  'it contains one block per non-empty exchange with the same notices on the same messages in the same order as the notice lists and the text report, with the same titles, and every reference from a notice to a displayed part of a message leads to that part.',
  ['inputs'], 'all exchanges and sequences, including markup, entities, separators and control characters in every field',
  'tests only scan the HTML for object reprs.',
  ['httpolice/reports/html.py', 'httpolice/reports/common.py', 'httpolice/util/text.py'],
  [('html_report', 'httpolice/reports/html.py'), ('escaping by dominate, printable()', 'httpolice/reports/html.py'), ('_reference_ids/_for_object', 'httpolice/reports/html.py')], ['httpolice.html_report'])

p('C25', 'The command-line tool reports and exits as documented',
  'For every set of input files and options, the tool writes the same report as the library would for the same exchanges with the given silences, and exits 1 exactly when the input failed or, with --fail-on, some unsilenced notice anywhere in the output has at least the given severity; otherwise 0.',
  ['inputs', 'configurations'], 'all input files, formats, report formats, --silence lists and --fail-on thresholds',
  'tests run about ten command lines.',
  ['httpolice/cli.py', 'httpolice/util/ordered_enum.py', 'httpolice/inputs/__init__.py'],
  [('run_cli', 'httpolice/cli.py'), ('Severity ordering', 'httpolice/notice.py')], ['exit status', 'stdout', 'stderr'])

p('C26', 'Captured connections are paired, ordered and never lost or mixed',
  'For every directory of tcpflow or tcpick files and every list of stream files, each stream is processed exactly once with its reverse stream as the request or response side as its content tells, one-sided and non-HTTP connections are reported as such, every exchange of a connection appears once and in the order of that connection, and exchanges of different connections are interleaved by their times. '
  'Badly named or ambiguous files are rejected; the formats for single streams, pairs and combined files select scheme and sides as documented.',
  ['inputs', 'histories'], 'all sets of connections with all time hints, Date/Age combinations, directions, missing sides, file name variants',
  'the tests contain a handful of recorded directories.',
  ['httpolice/inputs/streams.py'],
  [('_recombine_streams', 'httpolice/inputs/streams.py'), ('_sniff_direction', 'httpolice/inputs/streams.py'), ('_rearrange_by_time', 'httpolice/inputs/streams.py')], ['httpolice.inputs.formats[...](paths)'])

p('C27', 'HAR entries become the exchanges they describe',
  'For every HAR file, each entry yields one exchange in order with its method, target (origin form when a Host header is known, the full URL otherwise, authority for CONNECT), scheme, headers without pseudo-headers, version where trustworthy, status, reason, and a body that is empty, unknown, or unavailable-but-decoded as recorded (including base64), so that checks see decoded text but never judge raw bytes they do not have; aborted entries have no response.',
  ['inputs'], 'all HAR entries: creators, versions, URLs, header lists, body sizes, content encodings and texts',
  'about twenty exported files are tested for their notice lists only.',
  ['httpolice/inputs/har.py', 'httpolice/helpers.py'],
  [('_process_request/_process_response/_process_message', 'httpolice/inputs/har.py')], ['httpolice.inputs.formats["har"](paths)'])

p('C28', 'Integration helpers translate header lists faithfully',
  'Extracting pseudo-headers removes and returns exactly the entries whose names start with a colon and keeps the others in order; converting CGI variables yields exactly one header per non-empty CONTENT_LENGTH/CONTENT_TYPE and per HTTP_ variable with the corresponding name and value, Host first, and nothing for other variables.',
  ['inputs'], 'all header lists and all CGI environments',
  'tests use one or two dictionaries.',
  ['httpolice/helpers.py'], [('pop_pseudo_headers', 'httpolice/helpers.py'), ('headers_from_cgi', 'httpolice/helpers.py')], ['httpolice.helpers'])

p('C29', 'Each notice names what it is about',
  'Wherever the text of a notice mentions the particular thing that provoked it (the header field, cache directive, parameter, media type, warn code, coding, authentication scheme parameter, protocol, part number, '
  'status code, or the pair of things that contradict each other), it mentions something in that message to which the rule really applies, and not a neighbour to which it does not. '
  'When the same kind of notice is due for several things of one message, each of them is named by a notice (except where one notice stands for all).',
  ['inputs'], 'all requests and responses for which some notice is due whose text depends on the message',
  'tests compare only the numbers of notices; which of several fields, directives or parameters the text names is never looked at.',
  ['httpolice/request.py', 'httpolice/response.py', 'httpolice/message.py', 'httpolice/header.py', 'httpolice/notices.xml', 'httpolice/reports/common.py', 'httpolice/reports/html.py'],
  [('variables of a complaint', 'httpolice/notice.py'), ('expanding <var> in titles and explanations', 'httpolice/reports/common.py, httpolice/reports/html.py')],
  ['httpolice.html_report', 'httpolice.text_report'])

with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
