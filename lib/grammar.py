"""Grammars of header fields etc., transcribed from the RFCs (not from httpolice.syntax)."""
from lib.abnf import (EMPTY, Set, Weighted, Words, alt, byte, cs, lit, many, many1, opt, rep,
                      rng, seq)

# RFC 5234
ALPHA = rng(0x41, 0x5a) | rng(0x61, 0x7a)
DIGIT = rng(0x30, 0x39)
HEXDIG = DIGIT | rng(0x41, 0x46) | rng(0x61, 0x66)
CHAR = rng(1, 0x7f)
VCHAR = rng(0x21, 0x7e)
SP, HTAB, DQUOTE = byte(0x20), byte(0x09), byte(0x22)
ALNUM = ALPHA | DIGIT

# RFC 7230 basics
TCHAR = Set(b"!#$%&'*+-.^_`|~") | DIGIT | ALPHA
OBS = rng(0x80, 0xff)
token = many1(TCHAR)


def token_but(*words):
    return Words(TCHAR.chars, words)


OWS = many(SP | HTAB)
RWS = many1(SP | HTAB)
BWS = OWS
qdtext = Set(b'\t !') | rng(0x23, 0x5b) | rng(0x5d, 0x7e) | OBS
quoted_pair = seq(byte(0x5c), Set(b'\t ') | VCHAR | OBS)
quoted_string = seq(DQUOTE, many(alt(qdtext, quoted_pair)), DQUOTE)
token_or_qs = alt(token, quoted_string)
ctext = Set(b'\t ') | rng(0x21, 0x27) | rng(0x2a, 0x5b) | rng(0x5d, 0x7e) | OBS
COMMENT_DEPTH = 3


def _comment(depth):
    inner = [ctext, quoted_pair]
    if depth > 1:
        inner.append(_comment(depth - 1))
    return seq('(', many(alt(*inner)), ')')


comment = _comment(COMMENT_DEPTH)


def list0(e):
    # #element with RFC errata 5257; OWS around every comma
    return seq(opt(seq(e, OWS)), many(seq(',', OWS, opt(seq(e, OWS)))))


def list1(e):
    return seq(many(seq(',', OWS)), e, many(seq(OWS, ',', opt(seq(OWS, e)))))


# RFC 3986
pct = seq('%', HEXDIG, HEXDIG)
SUB = Set(b"!$&'()*+,;=")
UNRES = ALNUM | Set(b'-._~')
pchar = alt(UNRES | SUB | Set(b':@'), pct)
segment = many(pchar)
segment_nz = many1(pchar)
segment_nz_nc = many1(alt(UNRES | SUB | Set(b'@'), pct))
scheme = Weighted(seq(ALPHA, many(ALNUM | Set(b'+-.'))), [b'http', b'https', b'a+1.-'])
userinfo = many(alt(UNRES | SUB | Set(b':'), pct))
dec_octet = alt(DIGIT, seq(rng(0x31, 0x39), DIGIT), seq('1', DIGIT, DIGIT),
                seq('2', rng(0x30, 0x34), DIGIT), seq('25', rng(0x30, 0x35)))
IPv4 = Weighted(seq(dec_octet, '.', dec_octet, '.', dec_octet, '.', dec_octet),
                [b'1.2.3.4', b'255.249.199.99', b'0.0.0.0'])
h16 = rep(1, 4, HEXDIG)
ls32 = alt(seq(h16, ':', h16), IPv4)
h16c = seq(h16, ':')
IPv6 = Weighted(alt(
    seq(rep(6, 6, h16c), ls32),
    seq('::', rep(5, 5, h16c), ls32),
    seq(opt(h16), '::', rep(4, 4, h16c), ls32),
    seq(opt(seq(rep(0, 1, h16c), h16)), '::', rep(3, 3, h16c), ls32),
    seq(opt(seq(rep(0, 2, h16c), h16)), '::', rep(2, 2, h16c), ls32),
    seq(opt(seq(rep(0, 3, h16c), h16)), '::', h16c, ls32),
    seq(opt(seq(rep(0, 4, h16c), h16)), '::', ls32),
    seq(opt(seq(rep(0, 5, h16c), h16)), '::', h16),
    seq(opt(seq(rep(0, 6, h16c), h16)), '::')),
    [b'::1', b'::', b'2001:db8::1', b'1:2:3:4:5:6:7:8', b'1:2:3:4:5:6:1.2.3.4', b'1::',
     b'1:2:3:4:5:6:7::', b'1:2:3:4:5::6:7', b'::2:3:4:5:6:7:8', b'::ffff:1.2.3.4'])
IPvFuture = seq('v', many1(HEXDIG), '.', many1(UNRES | SUB | Set(b':')))
ZoneID = many1(alt(UNRES, pct))
IP_literal = seq('[', alt(IPv6, seq(IPv6, '%25', ZoneID), IPvFuture), ']')
reg_name = many(alt(UNRES | SUB, pct))
host = Weighted(alt(IP_literal, IPv4, reg_name), [b'example.com', b'a', b''])
port = many(DIGIT)
hostport = seq(host, opt(seq(':', port)))
authority = seq(opt(seq(userinfo, '@')), host, opt(seq(':', port)))
path_abempty = many(seq('/', segment))
path_absolute = seq('/', opt(seq(segment_nz, many(seq('/', segment)))))
path_noscheme = seq(segment_nz_nc, many(seq('/', segment)))
path_rootless = seq(segment_nz, many(seq('/', segment)))
hier_part = alt(seq('//', authority, path_abempty), path_absolute, path_rootless, EMPTY)
query = many(alt(pchar, Set(b'/?')))
fragment = query
absolute_URI = seq(scheme, ':', hier_part, opt(seq('?', query)))
relative_part = alt(seq('//', authority, path_abempty), path_absolute, path_noscheme, EMPTY)
URI = seq(scheme, ':', hier_part, opt(seq('?', query)), opt(seq('#', fragment)))
relative_ref = seq(relative_part, opt(seq('?', query)), opt(seq('#', fragment)))
URI_reference = alt(URI, relative_ref)
partial_URI = seq(relative_part, opt(seq('?', query)))

# RFC 7230 messages
origin_form = seq(many1(seq('/', segment)), opt(seq('?', query)))
request_target = alt(origin_form, absolute_URI, authority, '*')
reason_phrase = many(Set(b'\t ') | VCHAR | OBS)
method = Weighted(token, [b'GET', b'POST', b'x'])
field_name = Weighted(token, [b'Accept', b'X-Foo', b'a'])

_TC = ['chunked', 'compress', 'deflate', 'gzip']
transfer_parameter = seq(token, BWS, '=', BWS, token_or_qs)
transfer_parameter_noq = seq(token_but('q'), BWS, '=', BWS, token_or_qs)


def _transfer_coding(names, param):
    return alt(*(_TC + [seq(token_but(*names), many(seq(OWS, ';', OWS, param)))]))


transfer_coding = _transfer_coding(_TC, transfer_parameter)
qvalue = alt(seq('0', opt(seq('.', rep(0, 3, DIGIT)))),
             seq('1', opt(seq('.', rep(0, 3, '0')))))
weight = seq(OWS, ';', OWS, 'q=', qvalue)
t_codings = alt('trailers', seq(_transfer_coding(_TC + ['trailers'], transfer_parameter_noq),
                                opt(weight)))
protocol = seq(token, opt(seq('/', token)))
received_by = alt(hostport, token)
via = seq(opt(seq(token, '/')), token, RWS, received_by, opt(seq(RWS, comment)))

# RFC 7231
_PNAME = [b'charset', b'boundary', b'level', b'version', b'title', b'q2']
parameter = seq(Weighted(token, _PNAME), '=', token_or_qs)
parameter_noq = seq(Weighted(token_but('q'), _PNAME), '=', token_or_qs)
mtype = Weighted(seq(token, '/', token),
                 [b'text/html', b'Application/JSON', b'text/json', b'a/b+xml', b'plain/text',
                  b'multipart/byteranges', b'application/x-www-form-urlencoded', b'text/xml',
                  b'application/problem+json', b'multipart/mixed', b'text/yaml'])
media_type = seq(mtype, many(seq(OWS, ';', OWS, parameter)))
product = seq(token, opt(seq('/', token)))
user_agent = seq(product, many(seq(RWS, alt(product, comment))))
day_name = alt(*map(cs, ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']))
day_name_l = alt(*map(cs, ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday',
                           'Sunday']))
month = alt(*map(cs, ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct',
                      'Nov', 'Dec']))
D2 = rep(2, 2, DIGIT)
time_of_day = seq(D2, ':', D2, ':', D2)
HTTP_date = Weighted(alt(
    seq(day_name, ', ', D2, ' ', month, ' ', rep(4, 4, DIGIT), ' ', time_of_day, ' ', cs('GMT')),
    seq(day_name_l, ', ', D2, '-', month, '-', D2, ' ', time_of_day, ' ', cs('GMT')),
    seq(day_name, ' ', month, ' ', alt(D2, seq(' ', DIGIT)), ' ', time_of_day, ' ',
        rep(4, 4, DIGIT))),
    [b'Sun, 06 Nov 1994 08:49:37 GMT', b'Sunday, 06-Nov-94 08:49:37 GMT',
     b'Sun Nov  6 08:49:37 1994', b'Sat, 31 Feb 2015 08:49:37 GMT',
     b'Tue, 06 Nov 1994 24:00:00 GMT', b'Sun Nov 16 08:49:37 1997'])
media_range = seq(alt('*/*', seq(token, '/*'), mtype), many(seq(OWS, ';', OWS, parameter)))
media_range_noq = seq(alt('*/*', seq(token, '/*'), mtype),
                      many(seq(OWS, ';', OWS, parameter_noq)))
accept_params = seq(weight, many(seq(OWS, ';', OWS, token, opt(seq('=', token_or_qs)))))
sub8 = rep(1, 8, ALNUM)
language_range = alt(seq(rep(1, 8, ALPHA), many(seq('-', sub8))), '*')

# RFC 5646
_GRAND = ['en-GB-oed', 'i-ami', 'i-bnn', 'i-default', 'i-enochian', 'i-hak', 'i-klingon', 'i-lux',
          'i-mingo', 'i-navajo', 'i-pwn', 'i-tao', 'i-tay', 'i-tsu', 'sgn-BE-FR', 'sgn-BE-NL',
          'sgn-CH-DE', 'art-lojban', 'cel-gaulish', 'no-bok', 'no-nyn', 'zh-guoyu', 'zh-hakka',
          'zh-min', 'zh-min-nan', 'zh-xiang']
privateuse = seq('x', many1(seq('-', sub8)))
_A3 = rep(3, 3, ALPHA)
langtag = seq(
    alt(seq(rep(2, 3, ALPHA), opt(seq('-', _A3, rep(0, 2, seq('-', _A3))))),
        rep(4, 4, ALPHA), rep(5, 8, ALPHA)),
    opt(seq('-', rep(4, 4, ALPHA))),
    opt(seq('-', alt(rep(2, 2, ALPHA), rep(3, 3, DIGIT)))),
    many(seq('-', alt(rep(5, 8, ALNUM), seq(DIGIT, rep(3, 3, ALNUM))))),
    many(seq('-', ALNUM - 'x', many1(seq('-', rep(2, 8, ALNUM))))),
    opt(seq('-', privateuse)))
language_tag = Weighted(alt(langtag, privateuse, *_GRAND),
                        [b'en', b'en-US', b'zh-cmn-Hans-CN', b'de-CH-1996', b'i-klingon'])

# RFC 6838 / 8187 / 8288 / 6266
_RN = seq(ALNUM, rep(0, 126, ALNUM | Set(b'!#$&-^_.+')))
link_type = Weighted(seq(_RN, '/', _RN), [b'text/html', b'text/json'])
attr_char = ALNUM | Set(b'!#$&+-.^_`|~')
ext_value = seq(Weighted(many1(ALNUM | Set(b"!#$%&+-^_`{}~")), [b'UTF-8', b'utf-8', b'iso-8859-1']),
                "'", opt(language_tag), "'", many(alt(pct, attr_char)))
relation_type = alt(seq(rng(0x61, 0x7a), many(rng(0x61, 0x7a) | DIGIT | Set(b'.-'))), URI)
rel = seq(relation_type, many(seq(many1(SP), relation_type)))
_LINK_VALUES = [b'next', b'"next"', b'"blocked-by"', b'en', b'"en"', b"UTF-8''a%20b", b'text/html',
                b'"text/html"', b'"http://a/ b"', b'"NEXT prev"', b'""', b'"\\n\\ext"']
link_param = seq(
    Weighted(token, [b'rel', b'Rel', b'title', b'title*', b'hreflang', b'type', b'media', b'anchor',
                     b'rev']),
    BWS, opt(seq('=', BWS, Weighted(token_or_qs, _LINK_VALUES))))
link_value = seq('<', URI_reference, '>', many(seq(OWS, ';', OWS, link_param)))
_EQ = seq(OWS, '=', OWS)
_DNAME = [b'foo', b'filename2', b'foo*', b'size']
disposition_parm = alt(seq('filename', _EQ, token_or_qs), seq('filename*', _EQ, ext_value),
                       seq(Weighted(token_but('filename', 'filename*'), _DNAME), _EQ, token_or_qs))
content_disposition = seq(Weighted(token, [b'attachment', b'inline']),
                          many(seq(OWS, ';', OWS, disposition_parm)))

# RFC 7232 / 7233 / 7234 / 7235
opaque_tag = seq(DQUOTE, many(byte(0x21) | rng(0x23, 0x7e) | OBS), DQUOTE)
entity_tag = Weighted(seq(opt(cs('W/')), opaque_tag), [b'"a"', b'W/"a"', b'""'])
digits = many1(DIGIT)
range_unit = alt('bytes', token_but('bytes'))
byte_range_spec = alt(seq(digits, '-', opt(digits)), seq('-', digits))
range_ = alt(seq('bytes=', list1(byte_range_spec)),
             seq(token_but('bytes'), '=', many1(VCHAR)))
content_range = alt(
    seq('bytes', ' ', alt(seq(digits, '-', digits, '/', alt(digits, '*')), seq('*/', digits))),
    seq(token_but('bytes'), ' ', many(CHAR)))
cache_directive = seq(
    Weighted(token, [b'no-cache', b'max-age', b'private', b'x-foo', b'public', b'no-store',
                     b'must-revalidate', b's-maxage', b'immutable', b'only-if-cached', b'max-stale',
                     b'min-fresh', b'no-transform', b'proxy-revalidate', b'stale-if-error',
                     b'stale-while-revalidate', b'Max-Age']),
    opt(seq('=', Weighted(token_or_qs, [b'0', b'60', b'"60"', b'"a"', b'"Set-Cookie, b"', b'""']))))
pragma = alt('no-cache', seq(token_but('no-cache'), opt(seq('=', token_or_qs))))
warning = seq(rep(3, 3, DIGIT), ' ', received_by, ' ', quoted_string,
              opt(seq(' ', DQUOTE, HTTP_date, DQUOTE)))
token68 = seq(many1(ALNUM | Set(b'-._~+/')), many('='))
auth_param = seq(
    Weighted(token, [b'realm', b'Realm', b'charset', b'error', b'scope', b'error_description',
                     b'error_uri', b'nonce', b'x']), BWS, '=', BWS,
    Weighted(token_or_qs, [b'"a"', b'UTF-8', b'"utf-8"', b'invalid_token', b'"invalid_request"',
                           b'"insufficient_scope"', b'"a b"', b'x']))
auth_scheme = Weighted(token, [b'Basic', b'Bearer', b'Digest'])
challenge = seq(auth_scheme, opt(seq(many1(SP), alt(token68, list0(auth_param)))))

# RFC 7239
_OBF = seq('_', many1(ALNUM | Set(b'._-')))
node = seq(alt(IPv4, seq('[', IPv6, ']'), 'unknown', _OBF),
           opt(seq(':', alt(rep(1, 5, DIGIT), _OBF))))
forwarded_pair = seq(
    Weighted(token, [b'for', b'by', b'host', b'proto', b'x', b'For']), '=',
    Weighted(token_or_qs, [b'unknown', b'_a', b'1.2.3.4', b'"1.2.3.4:80"', b'"[::1]:_x"', b'http',
                           b'"a.com:8"', b'a.com', b'"[::1]"', b'""']))
forwarded_element = seq(opt(forwarded_pair), many(seq(';', opt(forwarded_pair))))

# RFC 7240 (errata 4439), 6797, 7838, 8246
_PREF = [b'respond-async', b'return', b'wait', b'handling', b'Wait', b'x']
preference_parameter = alt(
    seq(Weighted(token, _PREF), '=',
        Weighted(token_or_qs, [b'10', b'minimal', b'representation', b'strict', b'lenient', b'"10"',
                               b'""'])),
    Weighted(token, _PREF))
preference = seq(preference_parameter,
                 many(seq(OWS, ';', opt(seq(OWS, preference_parameter)))))
hsts_directive = seq(Weighted(token, [b'max-age', b'includeSubDomains', b'x', b'preload']),
                     opt(seq(_EQ, Weighted(token_or_qs, [b'0', b'60', b'"60"', b'x']))))
hsts = seq(opt(hsts_directive), many(seq(OWS, ';', OWS, opt(hsts_directive))))
alt_value = seq(Weighted(token, [b'h2', b'h2c', b'h3', b'http%2F1.1', b'w%3Dx%3Ay#z', b'%68%32']), '=',
                Weighted(quoted_string, [b'":443"', b'"a.com:1"', b'"[::1]:2"', b'":"']), many(seq(OWS, ';', OWS, Weighted(token, [b'ma', b'persist', b'Ma', b'%a']), '=',
                     Weighted(token_or_qs, [b'1', b'60', b'"60"', b'0', b'x']))))

origin = seq(scheme, '://', host, opt(seq(':', port)))
origin_or_null = alt(origin, cs('null'))

HEADERS = {
    'Accept': list0(seq(media_range_noq, opt(accept_params))),
    'Accept-Charset': list1(seq(alt(token, '*'), opt(weight))),
    'Accept-Encoding': list0(seq(alt(token, '*'), opt(weight))),
    'Accept-Language': list1(seq(language_range, opt(weight))),
    'Accept-Patch': list1(media_type),
    'Accept-Post': list0(media_range),
    'Accept-Ranges': alt('none', list1(range_unit)),
    'Access-Control-Allow-Credentials': cs('true'),
    'Access-Control-Allow-Headers': list0(field_name),
    'Access-Control-Allow-Methods': list0(method),
    'Access-Control-Allow-Origin': alt(origin_or_null, '*'),
    'Access-Control-Expose-Headers': list0(field_name),
    'Access-Control-Max-Age': digits,
    'Access-Control-Request-Headers': list1(field_name),
    'Access-Control-Request-Method': method,
    'Age': digits,
    'Allow': list0(method),
    'Alt-Svc': alt(cs('clear'), list1(alt_value)),
    'Alt-Used': hostport,
    'Authorization': challenge,
    'Cache-Control': list1(cache_directive),
    'Connection': list1(token),
    'Content-Disposition': content_disposition,
    'Content-Encoding': list1(token),
    'Content-Language': list1(language_tag),
    'Content-Length': digits,
    'Content-Location': alt(absolute_URI, partial_URI),
    'Content-Range': content_range,
    'Content-Type': media_type,
    'Cross-Origin-Resource-Policy': alt(cs('same-origin'), cs('same-site')),
    'Date': HTTP_date,
    'ETag': entity_tag,
    'Expect': lit('100-continue'),
    'Expires': HTTP_date,
    'Forwarded': list1(forwarded_element),
    'HTTP2-Settings': token68,
    'Host': hostport,
    'If-Match': alt('*', list1(entity_tag)),
    'If-Modified-Since': HTTP_date,
    'If-None-Match': alt('*', list1(entity_tag)),
    'If-Range': alt(entity_tag, HTTP_date),
    'If-Unmodified-Since': HTTP_date,
    'Last-Modified': HTTP_date,
    'Link': list0(link_value),
    'Location': URI_reference,
    'Max-Forwards': digits,
    'Origin': origin_or_null,
    'Pragma': list1(pragma),
    'Prefer': list1(preference),
    'Preference-Applied': list1(preference_parameter),
    'Proxy-Authenticate': list1(challenge),
    'Proxy-Authorization': challenge,
    'Range': range_,
    'Referer': alt(absolute_URI, partial_URI),
    'Retry-After': alt(HTTP_date, digits),
    'Server': user_agent,
    'Strict-Transport-Security': hsts,
    'TE': list0(t_codings),
    'Trailer': list1(field_name),
    'Transfer-Encoding': list1(transfer_coding),
    'Upgrade': list1(protocol),
    'User-Agent': user_agent,
    'Vary': alt('*', list1(field_name)),
    'Via': list1(via),
    'WWW-Authenticate': list1(challenge),
    'Warning': list1(warning),
    'X-Content-Type-Options': lit('nosniff'),
}

# Syntax of arguments inside otherwise valid values: (header, directive) -> grammar
ARGS = {
    ('Cache-Control', 'max-age'): digits,
    ('Cache-Control', 'max-stale'): digits,
    ('Cache-Control', 'min-fresh'): digits,
    ('Cache-Control', 's-maxage'): digits,
    ('Cache-Control', 'stale-if-error'): digits,
    ('Cache-Control', 'stale-while-revalidate'): digits,
    ('Cache-Control', 'no-cache'): list0(field_name),
    ('Cache-Control', 'private'): list0(field_name),
    ('Prefer', 'handling'): alt('strict', 'lenient'),
    ('Prefer', 'return'): alt('minimal', 'representation'),
    ('Prefer', 'wait'): digits,
    ('Preference-Applied', 'handling'): alt('strict', 'lenient'),
    ('Preference-Applied', 'return'): alt('minimal', 'representation'),
    ('Preference-Applied', 'wait'): digits,
    ('Forwarded', 'by'): node,
    ('Forwarded', 'for'): node,
    ('Forwarded', 'host'): hostport,
    ('Forwarded', 'proto'): scheme,
    ('Strict-Transport-Security', 'max-age'): digits,
    ('Alt-Svc', 'ma'): digits,
    ('Alt-Svc', 'persist'): lit('1'),
    ('Link', 'anchor'): URI_reference,
    ('Link', 'rel'): rel,
    ('Link', 'rev'): rel,
    ('Link', 'hreflang'): language_tag,
    ('Link', 'type'): link_type,
    ('Link', 'title*'): ext_value,
}
ALT_AUTHORITY = seq(opt(host), ':', port)
