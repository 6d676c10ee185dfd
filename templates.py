"""Input templates per property.

A template fixes some bytes of the input and leaves the others symbolic; the
executor decides the property for every value of the symbolic bytes. This file
is data; only the last section looks at the code under test, for the words and
numbers written in it.
"""
import json
import os
import re


class Hole:
    """one symbolic byte, restricted to a set"""

    def __init__(self, values):
        self.v = sorted(set(values))
        b = bytearray(32)
        for i in self.v:
            b[i // 8] |= 1 << (i % 8)
        self.hex = bytes(b).hex()


def H(s):
    return Hole([ord(c) for c in s])


def R(a, b):
    return list(range(a, b + 1))


UP = ''.join(map(chr, R(65, 90)))
LO = UP.lower()
DG = '0123456789'
A = Hole(R(0, 127))                       # any ASCII byte
NOCR = Hole([i for i in R(0, 127) if i != 13])
W = H(' \t')
L = H(UP + LO)
AN = H(UP + LO + DG + '_')
IMG = H(UP + LO + DG + '_-.:/${}@')
ALIAS = H(UP + LO + DG + '_-')
ALNUM = H(UP + LO + DG)
T = Hole([i for i in R(33, 126) if chr(i) not in '"\'`\\'])   # printable, no quotes, no backslash
TP = Hole([i for i in R(32, 126) if chr(i) not in '"\'`'])
S = H('aZ #"\'\\\n\t=[],-')               # structural characters
S1 = H('a #"\\\n=,')
HEX = H(DG + 'abcdefABCDEF')
NL = H('\n\r')
BYTE = Hole(R(0, 255))
U2 = [Hole(R(0xC2, 0xDF)), Hole(R(0x80, 0xBF))]
U3 = [Hole(R(0xE1, 0xEC)), Hole(R(0x80, 0xBF)), Hole(R(0x80, 0xBF))]
U4 = [Hole(R(0xF1, 0xF3)), Hole(R(0x80, 0xBF)), Hole(R(0x80, 0xBF)), Hole(R(0x80, 0xBF))]
V3 = [b'\xef', Hole(R(0x80, 0xBF)), Hole(R(0x80, 0xBF))]           # compatibility and fullwidth forms, byte order mark
V4 = [b'\xf0', Hole(R(0x90, 0xBF)), Hole(R(0x80, 0xBF)), Hole(R(0x80, 0xBF))]  # planes 1-3


def anycase(w):
    return [H(c.lower() + c.upper()) for c in w]


class Part:
    def __init__(self, *items):
        self.items = []
        self.add(items)

    def add(self, it):
        if isinstance(it, (list, tuple)):
            for x in it:
                self.add(x)
        elif isinstance(it, str):
            self.add(it.encode())
        elif isinstance(it, bytes):
            if it:
                self.items.append(it)
        elif isinstance(it, Hole):
            self.items.append(it)
        elif isinstance(it, Part):
            self.items += it.items
        else:
            raise TypeError(it)

    def segs(self):
        return ['x' + i.hex() if isinstance(i, bytes) else 'm' + i.hex for i in self.items] or ['x']

    def nsym(self):
        return sum(isinstance(i, Hole) for i in self.items)

    def count(self):
        n = 1
        for i in self.items:
            if isinstance(i, Hole):
                n *= len(i.v)
        return float(n)

    def name(self):
        o = ''
        for i in self.items:
            o += i.decode('utf-8', 'backslashreplace') if isinstance(i, bytes) else '\u25a1'
        return o.replace('\\', '\\\\').replace('\n', '\\n').replace('\r', '\\r').replace('\t', '\\t')


class Job:
    def __init__(self, harness, *parts):
        self.harness = harness
        self.parts = [p if isinstance(p, Part) else Part(p) for p in parts]
        self.name = harness + ':' + '|'.join(p.name() for p in self.parts)[:160]


def h(n, hole=A):
    return [hole] * n


# ---------------------------------------------------------------------------

def frags(n, X=A):
    """one instruction of every kind with a run of n free bytes at every place"""
    return fragz([X for _ in range(n)])


def fragz(z):
    return [
        [z],
        ['FROM ', z], ['FROM a', z], ['FROM a as ', z], ['FROM --p=', z, ' b'], ['FROM --p=x', z],
        ['ARG ', z], ['ARG a', z], ['ARG a=', z], ['ARG a="', z, '"'],
        ['LABEL ', z], ['LABEL a', z], ['LABEL a=', z], ['LABEL "', z, '"=b'], ['LABEL a=\'', z, '\' c=d'], ['LABEL a ', z],
        ['COPY ', z], ['COPY a', z], ['COPY a b', z], ['COPY --f=', z, ' b c'],
        ['RUN ', z], ['RUN a', z], ['RUN a \\\n', z], ['RUN [', z, ']'], ['RUN ["', z, '"]'], ['RUN ["a"', z, '"b"]'],
        ['CMD ', z], ['CMD ["', z, '"]'],
        ['ENTRYPOINT ', z], ['ENTRYPOINT ["a",', z, ']'],
        ['ENV ', z], ['ENV a', z], ['ENV a=', z], ['ENV a ', z], ['ENV a="', z, '"'], ['ENV a b \\\n', z],
        ['EXPOSE', z], ['EXPOSE a', z], ['EXPOSE a\\\n', z], ['#', z],
    ]


def in_context(f):
    return [[f], [f, '\nRUN z'], ['FROM q\n', f, '\nCMD y']]



P = {}


def prop(name, need=()):
    def deco(f):
        P[name] = (f, list(need))
        return f
    return deco


def J(harness, lst, *more):
    return [Job(harness, Part(x), *[Part(m) for m in more]) for x in lst]


def deeper(tier, q, t):
    return t if tier == 'thorough' else q


NB = Hole([i for i in R(0, 127) if i not in (10, 13)])     # any ASCII byte but newlines
HEX64 = '0123456789abcdefABCDEF9876543210' * 2
CONT = ['\\', W, NL]                                        # a line continuation
SEPS = [[W], [W, W], [' \\\n'], ['\\', W, '\n', W], [' \\\r\n  '], ['\\\r'],
        [' \\\n# c', NB, '\n'], [' \\\n', W, '#', NB, NB, '\n  '], ['\\\n\n'], [' \\\n \n\t\n '], [' \\\n#x\n\n  # y "\n '],
        [' \\\n\\\n'], [' \\ \n #a\\\n ']]


def many(fmt, n, sep):
    return sep.join(fmt % {'i': i} for i in range(n))


# documents with several instructions, used where whole-document behaviour matters
def docs(a, b):
    """a, b: free bytes put at two places of each document"""
    return [
        ['ARG v=1\nFROM a:$v as x', b, '\nRUN y\n', a, '\nFROM x\nCOPY --from=x p q\n'],
        ['# c\n\nFROM a\nENV k=v', a, '\nRUN ["a", "b"]', b, '\n'],
        ['FROM a\nRUN a && \\\n  b', a, ' \\\n# c\n c', b, '\nCMD z'],
        ['FROM a\nLABEL a=b "c d"=\'e f\'', a, '\n\n\nLABEL x y', b],
        ['FROM a', a, '\nCOPY a \\\n  # c\n\n  b', b, '\nEXPOSE 80'],
        ['FROM a\nENV a b c', a, '\\\n  d', b, '\nENTRYPOINT ["x"', ']\n'],
        ['ARG a', a, '\nARG b="c"', b, '\nLABEL m=n\nARG d\nFROM x\nARG e=f'],
        ['from a\n\tRun x', a, '\n  Cmd ["y",]', b, '\n# end'],
    ]


def worlds(tier):
    """realistic documents whose instructions could influence one another: names
    that coincide or differ in case, special words, repeated instructions"""
    n = H('ab') if tier != 'thorough' else H('abA')
    m = H('aA')
    z = H('a#\\\n') if tier != 'thorough' else S1
    s = H('st')
    return [
        ['ARG a=1\nARG ', n, '\nARG ', n, '=$a\nFROM x:${', n, '} AS ', n, '\nARG ', n, '\nRUN echo $a\nFROM ', n, ' AS ', n, '\nARG ', n, '=2\nFROM scratch\nCOPY --from=', n, ' /p /q\n'],
        ['FROM scratch AS ', H('01s'), '\nFROM a AS SCRATCH\nFROM Scratch AS scratch\nFROM ', H('01s'), '\nFROM ', s, 'cratch\nCOPY --from=0 a b\nFROM 0 as ', H('01')],
        ['FROM scratch\nFROM scratch\nFROM a', z, '\nFROM scratch as z\nFROM z\nRUN x\nFROM y'],
        ['ENV ', n, '=1 ', n, '=2 ', n, '=1\nENV ', n, ' 3\nENV ', n, '="1" a=\'1\' ', m, '=1\nENV a 3\nENV a="" b=\'\' c=d'],
        ['LABEL ', n, '=1 "', n, '"=2 ', m, '=1\nLABEL ', n, ' 1\nLABEL "a" "1"\nLABEL a="" a=\'\' ""="" b=1\nLABEL version=1 maintainer="x y" version=1'],
        ['FROM a AS ', m, '\nARG ', m, '=1\nARG ', m, '\nARG ', m, '="1"\nFROM b AS ', m, '\nARG ', m, '\nFROM A as c\nFROM C AS c\nFROM c\nARG a=1\nARG a=1'],
        ['RUN a\nRUN a\nCMD a\nCMD ["a"]\nCMD ["a", "a", "", "a"]\nENTRYPOINT []\nENTRYPOINT ["a",""]\nENTRYPOINT [""]\nCMD []\nRUN a', z, '\nRUN a', z],
        ['COPY a a a\nCOPY --from=a --from=a a a\nCOPY --from=', n, ' --chown=', n, ':', n, ' ', n, ' ', n, ' .\nCOPY . .\nCOPY a a\nCOPY --from=build /etc/*.conf /etc/ \\\n /dst', z],
        ['FROM --platform=linux/amd64 --platform=a node:12-alpine AS build-env', z, '\nFROM --platform=a --x=a a AS a\nFROM node AS node\nFROM node\nFROM BUILD-ENV AS 2\nFROM 2'],
        ['# syntax=docker/dockerfile:1\n# escape=`\n\nARG VERSION=1.0\nARG REGISTRY="docker.io"\nFROM ${REGISTRY}/library/node:$VERSION', z, ' AS base\nLABEL org.opencontainers.image.title="x" \\\n      org.opencontainers.image.version="$VERSION"\n'
         'ENV PATH="/a/bin:$PATH" \\\n    LANG=C.UTF-8\nWORKDIR /app\nUSER root:root\nEXPOSE 80/tcp 443\nVOLUME ["/data"]\nSHELL ["/bin/sh", "-c"]\nONBUILD RUN x\nSTOPSIGNAL 9\n'
         'HEALTHCHECK --interval=5s CMD curl -f http://localhost/ || exit 1\nADD https://x/y /z\nRUN set -eux; \\\n    # comment \\\n    apk add --no-cache \\\n      a=1 \\\n      b; \\\n    rm -rf /var/cache\n'
         'FROM base\nCOPY --from=base --chown=1:1 a "b"\nMAINTAINER x <y@z>\nENTRYPOINT ["/a", "-b"]\nCMD ["c"]'],
        ['FROM a\r\nRUN b \\\r\n  c\r\n# d\r\nENV e="f" \\\r\n\r\n g=h\r\nLABEL "i"="j\\\r\nk"\r\nCMD ["l", \\\r\n "m"]\r\n', n, ' x\r\n'],
        ['FROM a\n\n   \n\t# x\n  RUN b  \n\n\tENV c=d\t\n#\n##\n # \\\n\nRUN a   ', z, '\n\n'],
        [many('FROM s%(i)d as s%(i)d\nARG a%(i)d=$a\nRUN a%(i)d', 20, '\n'), '\nFROM s1', H('0123456789'), '\nARG a1', H('05')],
        [many('ARG v%(i)d=$w%(i)d', 12, '\n'), '\n', many('ARG w%(i)d=x%(i)d', 12, '\n'), '\nFROM $v1', H('01'), '/$w1', H('01'), ':$v2\nARG v1=z'],
        ['FROM a', H(':@/'), 'latest\nFROM latest\nFROM localhost/a AS localhost\nFROM localhost\nFROM docker.io/library/a:latest as library\nFROM library', H('/:'), 'a\nFROM index.docker.io/a'],
        ['ARG from=1\nARG arg=from\nFROM from AS from\nENV env=env\nENV env env\nLABEL label=label\nLABEL label label\nCOPY copy copy\nRUN run\nCMD cmd\nENTRYPOINT entrypoint\nFROM from as as\nRUN FROM x\nRUN ["RUN"]\nRUN RUN', z],
        ['FROM \u00e9'.replace('\u00e9', 'e'), '\nLABEL a="\u00e9\u00e8" b=\u20ac\nRUN echo "\U0001f600" \\\n# \u00fc\n  \u00e4\nENV a=\u00f1 b="\u4e2d"\nCOPY \u00e5 \u00df\nARG c=\u00f8\nCMD ["\u0416"]\nUSER \u03a9', z],
        ['FROM a\nRUN <<EOF\nFOO a\nEOF x\nRUN cat <<-"E" ', z, '\nE x\n'],
        ['ARG a=\'x\'\nARG a="x"\nARG a=x\nARG a=$a\nARG a\nFROM $b', H('ab'), '\nRUN ', z],
    ]


def words(tier):
    """every word of a document free, at each of many lengths; the case of each
    letter is fixed, because the grammar's character classes tell them apart"""
    d = []
    pats = [lambda k: [H(LO)] * k, lambda k: [H(UP)] * k, lambda k: [H(UP)] + [H(LO)] * (k - 1), lambda k: [H(LO)] * (k - 1) + [H(DG)]]
    for k in ((3, 4, 5, 6, 8, 10) if tier != 'thorough' else range(1, 17)):
        for i, pat in enumerate(pats):
            v = w = pat(k)
            l = (pats[0] if i == 3 else pat)(k)
            u = w + [H('x')]
            d += [['FROM --', l, '=', v, ' ', w, '/', v, ':', v, ' AS ', u], ['ARG ', w, '=', v, '\nARG ', u, '="', v, '"\nARG ', u, 'y\nFROM a'],
                  ['LABEL ', w, '=', v, ' "', w, '"=\'', v, "'\nLABEL ", w, ' ', v], ['ENV ', w, '=', v, ' ', w, '="', v, '"\nENV ', w, ' ', v, ' ', v],
                  ['RUN ', w, ' \\\n # ', v, '\n ', v, '\nCMD ', w, '\nENTRYPOINT ', v], ['CMD ["', w, '", \'', v, "']\nUSER ", v],
                  ['COPY --', l, '=', v, ' ', w, ' ', w, ' ', v], ['# ', v, '\nX', l, ' ', v, '\nFROM ', w, '.', w, ':', h(4, H(DG)), '/', v, '/', w]]
    return d


DICT = """docker.io index.docker.io my-registry registry.k8s.io ghcr.io quay.io localhost localhost:5000 localhost.localdomain 127.0.0.1 127.0.0.1:5000 ::1 [::1]:5000 host.docker.internal library library/alpine
alpine busybox debian ubuntu node:lts-alpine python:3.12-slim mcr.microsoft.com/dotnet/sdk:8.0 scratch SCRATCH Scratch latest stable nightly edge lts none null nil undefined default all any on off true false True FALSE yes no root ROOT root:root nobody user
${AB} ${VERSION} ${a1} ${AB:-c} ${AB}/bin:$PATH ${AB}${CD} /a/${AB} ${A}B $(AB) $(cat $AB) {{AB}} {AB} %AB% $AB:$CD ${AB}:${CD} ${AB CD} ${AB.CD} $ {} ${} $} ${{AB}} ~/${AB} from FROM From as AS arg run copy cmd env label entrypoint add expose user workdir onboot onbuild shell maintainer volume healthcheck stopsignal include
TARGETPLATFORM BUILDPLATFORM TARGETARCH TARGETOS BUILDKIT_INLINE_CACHE HTTP_PROXY http_proxy https_proxy NO_PROXY FTP_PROXY ALL_PROXY PATH HOME USER SHELL TERM LANG LC_ALL PWD HOSTNAME NODE_ENV PYTHONUNBUFFERED DEBIAN_FRONTEND noninteractive SOURCE_DATE_EPOCH
version VERSION description vendor org.opencontainers.image.source com.example.vendor org.label-schema.name platform PLATFORM chown chmod link mount network security checksum parents exclude keep-git-dir type=cache,target=/root linux/amd64 linux/arm64/v8 windows/amd64 $BUILDPLATFORM
sha256 sha256:abc sha512 md5 git http https file ftp http://a/b https://a.b/c?d=e&f#g git@a.b:c/d.git git://a ssh://a file:///a build builder base final test dev prod release stage stage0 stage-1 0 1 2 00 007 -1 +1 1.0 1e3 0x10 10 42 255 256 65535 65536 4294967296 18446744073709551615 18446744073709551616 NaN inf 2020-01-01 12:34 3.14.15 v1 V2.0 80/tcp 8080:80/udp 1000:1000 0755 u=rwx
. .. / ./ ../ ./a ../a /a /a/ /a/. /a/./b /a/../b //a a//b a/ a/. ./. ~ ~/a * ** ? a* *.c [a-c] {a,b} C:\\a c:/a \\\\a\\b a\\ \\ \\\\ \\n \\t \\" \\' \\$ \\# a\\b a\\\\b
- -- --- _ __ a-b a_b a.b a--b a..b a__b a- -a a. .a _a a_ a:b:c a@b a:b@c a@b@c :a a: @a a@ :: @@ a::b $ $$ ${ ${} $} $a ${a} ${a}${b} $a$b ${a:-b} ${a:+b} ${a:?b} ${a-b} ${a%b} ${a/b/c} ${a,,} $1 $0 $@ $* $? $# $$a ${$a} $(a) $((1)) `a` %PATH% %a {{.A}} {{a}} <a> #{a} @a@ __a__
# ## #! #a a# a#b ## // //a /*a*/ ;a a; ;# a;b && a&&b || ; ;; | a|b > >> < << <<EOF <<-EOF <<"EOF" & ! !! !a ^ = == =a a= a==b a=b=c += a+=b a=b,c=d (a) (( [a] [ ] [] [[ {a} {} , ,a a, a,b a,,b ' '' " "" "a a" a"b a'b "a'b" '"a"' \"a\" ` `` a`b`c + a+b ~a~ 100% a&b
exec sh /bin/sh -c -x -e set echo sudo apt-get -y --no-install-recommends a=b\\ c true; é ß İ ı ſ K ﻿ a﻿ ﻿a ​   a b 　      ab ­ ‮ 😀 👨‍👩 é ǅ ﬁ Ａ ＄a ’ “a” — … � ￾ 􏿿 ١ ² 中文
\x0b a\x0bb \x0c a\x0cb \x00 a\x00 \x01 \x08 \x1a \x1b[0m \x1f a\x1fb \x7f \x0e"""
DICT = [w.encode().decode('unicode_escape').encode('latin-1').decode() if '\\x' in w else w for w in re.split(r'[ \n]+', DICT)]
DICT += ['x' * n for n in (15, 16, 17, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257)]


def dictionary(kinds='falerxmc#', words=None):
    """realistic and awkward words at every place, one free byte after one of them"""
    d = []
    x = H('a0')
    for w in words or DICT:
        k = {'f': [['FROM --platform=', w, ' ', w, ' AS ', w, '\nFROM ', w, x], ['FROM a/', w, ':', w, x], ['FROM a AS ', w, '\nFROM ', w, x]],
             'a': [['ARG a=', w, x, '\nARG b="', w, '"\nARG ', w, '\nFROM $a', w], ['ARG ', w, '=', w, '\nFROM a', x]],
             'l': [['LABEL ', w, '=', w, ' "', w, '"=\'', w, "'\nLABEL ", w, ' ', w, x], ['LABEL a="', w, '" b=\'', w, '\' c=', w, x]],
             'e': [['ENV ', w, '=', w, x], ['ENV a=', w, ' b="', w, '"\nENV a ', w, ' ', w, x], ['ENV ', w, ' ', w, x]],
             'r': [['RUN ', w, ' \\\n # ', w, '\n ', w, '\nENTRYPOINT ', w, '\nCMD ', w, x]],
             'x': [['CMD ["', w, '", \'', w, "']\nUSER ", w, x], ['RUN [', w, ']\nONBUILD ', w, ' ', w, x]],
             'm': [[w, ' a\nADD ', w, ' ', w, x], [w, x]],
             'c': [['COPY --from=', w, ' ', w, ' ', w, x], ['COPY a ', w, '\nCOPY ', w, ' \\\n b', x]],
             '#': [['# ', w, '\n#', w, x, '\nCMD a']]}
        for c in kinds:
            d += k[c]
    return d


PHRASES = ['sh -c a', 'sh -c "a b"', 'exec java -jar', 'a b', 'a  b', ' a', 'a ', ' a ', ' ', '  ', 'a, b', 'a","b', 'a", "b', '] [', '[a, b]', 'a;b c', 'a && b', '# a', 'a # b', '#', 'FROM a', 'RUN a', '$a $b', 'a=b c=d', 'a = b',
           'key: value', '1 2', 'a\tb', '\ta', '\t\ta', '\t\t\ta', '    a', 'a\t', '--a=b c', '-a -b', '<<EOF a', 'a <<EOF', '&& a', '| a', 'a |', 'a ;', 'a \\\\', 'a\\', '\\\\ a', 'a \\ b', '\\"a\\"', 'a \\"b\\" c', "it's", '`a b`', '(a b)', '{ a; b; }',
           '"a" "b"', "'a' 'b'", '"a"', "'a'", '"a', "a'", '"a"b', '"a" b', "a 'b'", '""', "''", '"" a', '/bin/sh -c "a"', 'python -c "import a"', 'echo "a" > b', 'a 2>&1', 'true && false', 'Authors: a, b', 'http://a b', '\u00a0a', 'a\u00a0b', '\u3000a', '\x0ba', '\x0ca']


def inside(w, x=H('a0')):
    """a text, perhaps with blanks, at every place that can hold one"""
    d = [['RUN ', w, ' \\\n', w, x], ['RUN a \\\n #', w, '\n', w, x], ['RUN a \\\n', w, '\nRUN b', w], ['#', w, x, '\nRUN a'], ['FOO ', w, ' \\\n  ', w, x], ['FOO', w, x], [w, x], [w, '\nRUN a'], ['RUN a\n', w, 'RUN b'], ['ENV a ', w, x], ['ENV a ', w, ' \\\n# ', w, '\n', w], ['CMD ', w, '\nRUN ', w], ['RUN a', w, '\n', w, '#']]
    for q in '"\'':
        if q not in w:
            d += [['CMD [', q, w, q, ']'], ['CMD [', q, w, x, q, ', "', 'b', '", ', q, w, q, ']'], ['ENTRYPOINT [', q, 'a', q, ',', q, w, q, ' ]'], ['LABEL a=', q, w, x, q, ' ', q, w, q, '=b'], ['LABEL a ', q, w, q], ['LABEL ', q, w, q, ' b'],
                  ['ENV a=', q, w, x, q, ' b=', q, w, q], ['ENV a ', q, w, q], ['ARG a=', q, w, x, q], ['ARG a=', q, w, q, '\nFROM x$a'], ['COPY ', q, w, q, ' b'], ['COPY --a=', q, w, q, ' b c'], ['SHELL [', q, w, q, ']']]
    return d


def scenes(w, x=H('a0')):
    """a word where stages, images and variables could meet it"""
    return [['FROM a AS b\nFROM ', w, 'b\nFROM b', w, x], ['FROM a AS b\nFROM b:', w, '\nFROM b/', w, '\nFROM ', w, '/b\nFROM b@', w], ['FROM a AS ', w, '\nFROM ', w, '\nFROM b/', w, '\nFROM ', w, ':latest\nFROM scratch'],
            ['FROM a\n', w, ' b\nFROM c AS d\n', w, ' RUN e\nFROM f\n', w, ' g', x], ['ARG ', w, '\nARG a', w, '=1\nFROM x$', w, '\nFROM x${', w, '}\nFROM $a', w], ['ARG ', w, '=v\nFROM x$', w, '\nFROM ${', w, '}', x],
            ['ARG a=', w, '\nFROM x:$a', x, '\nFROM $a\nFROM ${a}/b'], ['ARG ', w, '=a\nARG b=$', w, '\nARG a=c\nFROM $b:$a', x], ['ARG x', w, '=a\nARG ', w, 'x=b\nFROM $x', w, '-$', w, 'x'], ['FROM --platform=', w, ' a AS b\nCOPY --from=', w, ' c d\nFROM b'],
            ['FROM scratch AS ', w, '\nFROM ', w, ' AS c\nARG ', w, '\nFROM c'], ['FROM a\nFROM b\nFROM c AS ', w, x, '\nRUN d\nCOPY --from=', w, ' e f']]


KEYS = ['MAINTAINER', 'EXPOSE', 'ADD', 'VOLUME', 'USER', 'WORKDIR', 'ONBUILD', 'STOPSIGNAL', 'HEALTHCHECK', 'SHELL', 'onbuild', 'Maintainer', 'INCLUDE', 'IMPORT', 'X', 'ABCDEFGHIJKLMNOPQRST', 'FROMAGE', 'ARGS', 'RUNNER', 'CMDS', 'ENVIRONMENT', 'COPYALL', 'LABELS', 'ENTRYPOINTS', 'CROSS_BUILD']


def keyed():
    """every generic keyword before the first, in the first and in a later stage"""
    return [x for k in KEYS for x in ([k, ' a\nARG b\nFROM a\n', k, ' RUN b\nFROM c AS d\n', k, ' RUN e', H(' 0'), '\nFROM f\n', k, ' g \\\n  h'], ['FROM a AS b\n', k, ' ["a"]\nARG c\nFROM b\n', k.lower(), ' x', H(' 0')])]


FORMS = ['FROM a', 'FROM --p=q a:b AS c', 'FROM a AS b', 'FROM scratch', 'ARG a', 'ARG a=b', 'ARG a="b c"', 'LABEL a=b', 'LABEL a b', 'LABEL "a b"=\'c\' d=e', 'RUN a', 'RUN a \\\n b', 'RUN a \\\n# c\n b',
         'RUN ["a"]', 'RUN []', 'CMD a', 'CMD ["a", "b"]', 'CMD []', 'ENTRYPOINT a', 'ENTRYPOINT ["a"]', 'ENTRYPOINT []', 'COPY a b', 'COPY --from=a b c', 'COPY --from=0 --chown=a b c \\\n d', 'ENV a=b', 'ENV a b', 'ENV a="b" c=d',
         'ENV a=', 'EXPOSE 80', 'USER a', 'WORKDIR /a', 'SHELL ["a"]', 'ONBUILD RUN a', 'MAINTAINER a', 'VOLUME a', 'ADD a b', '# a', '# escape=`', '']


def pairs_of(k=1):
    """every form after every other one, with one free byte at the end; k: every k-th"""
    return [[a, '\n', b, h(1, H(' 0'))] for i, a in enumerate(FORMS) for j, b in enumerate(FORMS) if (i + j) % k == 0]


def triples(k=1, pre='FROM z\n', post='\nFROM y'):
    """three instructions of every kind in every order between two others"""
    s = ['FROM a', 'FROM b AS c', 'ARG d', 'LABEL e=f', 'RUN g', 'CMD h', 'ENTRYPOINT i', 'COPY j k', 'ENV l=m', 'USER n', '# o']
    n = len(s)
    return [[pre, s[i], '\n', s[j], '\n', s[l], post, H(' 0')] for i in range(n) for j in range(n) for l in range(n) if (i + 2 * j + 3 * l) % k == 0]


FLAGN = ['from', 'chown', 'chmod', 'link', 'parents', 'exclude', 'platform', 'mount', 'a', 'z', 'FROM', 'from-x']


HX = H('0189dDfF')


def code_points(p, z=''):
    """escapes of code points, existing or not, in a quoted text"""
    return [d + [z] for d in [[p, '\\u', h(4, HX), '"'], [p, '\\U', '000', h(5, H('01dF')), '"'], [p, '\\U', h(2, H('01')), '10FFFf"'], [p, 'a\\uD83D\\u', h(4, H('De0')), 'b"'], [p, '\\ud83d\\u', h(4, H('de0')), '"'], [p, '\\uD83D\\uDE', H('0D'), H('0F'), '\\ud83d\\ude00"'], [p, '\\u{', h(3, HX), '}"'], [p, '\\x', h(3, HX), '"'], [p, '\\', h(3, H('01789')), '"']]]


def flag_orders():
    """two and three flags in every order, in COPY and FROM"""
    d = []
    for a in FLAGN:
        for b in FLAGN:
            d += [['COPY --', a, '=', T, ' --', b, '=v c d'], ['FROM --', a, '=', T, ' --', b, '=v c AS d']]
            for c in FLAGN[:4]:
                d.append(['COPY --', a, '=u --', b, '=v --', c, '=', T, ' \\\n d e'])
    return d


DIRECTIVES = ['# escape=`', '#escape=`', '# escape=\\', '# syntax=docker/dockerfile:1', '# check=skip=all', '# ESCAPE = `', '# syntax=x\n# escape=`', '# vim: set ft=dockerfile:', '#!/usr/bin/env docker', '\n# escape=`', '# hadolint ignore=DL3006']


def directed(z=S1):
    """documents that begin with a directive or another special comment"""
    b = ['RUN b `\nRUN c', 'RUN b \\\n c`', 'CMD a`\nFROM x AS y\nCOPY `a b', 'LABEL a=` b=`c`\nENV a=b`\nENV a b `', 'ENV a=b\\\n c=d\nARG e=`', 'RUN `\\\n# `\n`', 'CMD ["`"]\nUSER `', '# escape=`\nRUN a `\nRUN b', 'FROM a`\nARG a`', 'RUN <<EOF\nRUN a\nEOF x', 'COPY --a=` b c `']
    return [[d, '\n', x, z] for d in DIRECTIVES for x in b]


def lengths():
    """a free name and a free value of every two lengths"""
    d = []
    for a in range(2, 10):
        for b in range(1, 9):
            for c in (LO, UP):
                n, v = h(a, H(c)), h(b, H(LO))
                d += [['FROM --', n, '=', v, ' x AS y', n, '\nCOPY --', n, '=', v, ' p ', v, '\nQ', n, ' ', v], ['ENV ', n, '=', v, '\nENV ', n, ' ', v, '\nLABEL ', n, '=', v, '\nARG ', n, '=', v]]
    return d


# C01 ------------------------------------------------------------------------

def big(n=300):
    """long documents: many elements, lines, pieces; one free byte"""
    return [
        ['FROM a\n' * n, A],
        [many('FROM a%(i)d as s%(i)d', n, '\n'), '\nFROM s', A],
        ['RUN a', ' \\\n b' * n, A],
        ['RUN a', ' \\\n# c' * n, '\n', A],
        ['LABEL ', many('k%(i)d="v %(i)d"', n, ' '), A],
        ['ENV ', many('k%(i)d=v%(i)d', n, ' \\\n'), A],
        ['COPY ', many('--f%(i)s=x'.replace('%(i)s', 'a'), n, ' '), ' ', many('p%(i)d', n, '\t'), A],
        ['RUN [', many('"e%(i)d"', n, ', '), A, ']'],
        ['\n' * n, 'RUN x', A],
        ['# c\n' * n, A, 'RUN ', 'y' * 300, A],
        [many('ARG v%(i)d=$v%(i)d', n, '\n'), '\nFROM $v', A],
        ['RUN ', 'x' * 3000, A, '\nCMD ', 'y' * 300],
        ['LABEL a="', '\\n' * 300, A, '"'],
    ]


def huge():
    """documents of more than 65535 bytes"""
    f = ['# ' + 'x' * 1000 + '\n'] * 66
    return [
        [f, 'FROM a AS b\nRUN y \\\n# c\n z', A, '\nLABEL k="v" w=x\nCOPY --from=b c d'],
        ['RUN ', ['y' * 1000 + ' \\\n'] * 66, 'z', A, '\nARG q="r', '"\nFROM s'],
        ['LABEL a="', 'v' * 66000, '" b=', A, '\nENV c="', 'w' * 100, '" d=e\nCMD ["x", "y"]'],
    ]


@prop('C01', [('c01_ops', (0, 1, 2, 3)), ('c01_fmt', (0, 1)), ('c01_parse', (0, 1)), ('c01_depth', (0, 1))])
def _(tier):
    n = deeper(tier, 4, 5)
    j = J('c01_parse', frags(n)) + J('c01_parse', [[A] * deeper(tier, 5, 6)])
    j += J('c01_parse', [f for x in frags(deeper(tier, 2, 3)) for f in in_context(x)[1:]])
    j += J('c01_parse', big(1100) + huge()) + J('c01_ops', big() + huge(), 's7', 'r')
    # no panic in the byte-level handling of multi-byte text
    for u in (U2, U3, U4, V3, V4):
        j += J('c01_parse', [[f] for f in frags(1, u)])
        j += J('c01_ops', [[f] for f in frags(1, u)], 'a', 'b')
        j += J('c01_parse', fragz([A, u, A]))
    j += J('c01_parse', dictionary()) + J('c01_ops', dictionary('fae')[::2], 'a', 'b') + J('c01_fmt', dictionary('mx')[::3])
    m = deeper(tier, 2, 3)
    j += J('c01_fmt', frags(m))
    for c in ('\u0301', '\u200b', '\U0010ffff', '\ue000', '\u0085', '\u00ad', [Hole([0xC2]), Hole(R(0x80, 0xBF))]):
        j += J('c01_fmt', [f for f in frags(1, c)] if isinstance(c, str) else [['RUN ', c], ['LABEL "a', c], ['FROM ', c, ' as ', c]])
    j += J('c01_ops', frags(m), [A], 'xyz')
    j += J('c01_ops', docs([A], [A]), [A], ['x'])
    d = 'ARG a=$b\nARG b=${a}\nARG c=1\nFROM x as S1\nFROM s1 as 2\nFROM scratch as s1\nFROM $c$c\nFROM 2\nARG c\n'
    j += J('c01_ops', [d], h(deeper(tier, 3, 4)), [''])
    j += J('c01_ops', [d], [U2], [U2])
    j += J('c01_ops', [d], [DG_(), h(20, H('0189'))[:1], '8446744073709551615'], [''])
    # image text with references in every position
    I = H('$ab{}_:/@.')
    j += J('c01_ops', [['ARG a=', h(2, H('$ab{}')), '\nARG b=', h(2, H('$ab{}')), '\nFROM ', h(deeper(tier, 3, 4), I)]], 'a', '')
    # quoting and escapes
    E = H('\\"\'nuU0aF`x\n')
    for k in ('RUN ["', 'ENV a="', 'LABEL a="', 'LABEL "', 'ARG a="', 'COPY "', 'FROM --a="'):
        j += J('c01_parse', [[k, h(deeper(tier, 4, 5), E), '"'], [k, h(2, E), '"=b']])
    for k in ("ENV a '", "LABEL '", "ARG a='", 'COPY a ', 'LABEL a=`', 'ENV a=`', 'ARG a=`', 'COPY `'):
        j += J('c01_parse', [[k, h(deeper(tier, 4, 5), E)], [k, h(3, E), "'"], [k, h(2, E), '` `']])
    j += J('c01_parse', [['LABEL a="\\u', h(4, H('09dDF')), '"'], ['ENV a="\\U0', h(7, H('01fD')), '"']])
    j += J('c01_ops', worlds(tier), 'a', 'zz') + J('c01_fmt', worlds(tier)[:9])
    # stack use: a piece repeated 20 and 44 times
    for a, z in (('RUN a', ''), ('RUN a', '\nRUN b'), ('RUN ["a"', ']'), ('ENV a=b', ''), ('ENV a b', ''), ('ENV a="', '"'), ('LABEL a=b', ''),
                 ("LABEL 'a", "'=b"), ('COPY a', ' b'), ('COPY a b', ''), ('ARG a="', '"'), ('ARG a=', ''), ('FROM', ' b'), ('FROM a', ''),
                 ('EXPOSE a', ''), ('CMD [', '"a"]'), ('ENTRYPOINT a', ''), ('', ''), ('# a', '')):
        for u in ([[A] * deeper(tier, 1, 2), [' \\\n', S], ['\\\n#', S, '\n'], [S, '\\\n'], ['\\', H('"\'\\ntu0\n'), S1]]):
            j.append(Job('c01_depth', a, u, z))
    for u in ([' --a="', S1, '"'], [' a=', S1], ['"a",', S], [' \\\n', h(2, S)], ['\\\n', S, '\n']):
        for a, z in (('FROM', ' b'), ('RUN [', '"b"]'), ('LABEL', ''), ('ENV', ''), ('COPY', ' a b'), ('RUN a', ''), ('CMD a', ' b')):
            j.append(Job('c01_depth', a, u, z))
    for a, z in (('ARG a=', '\nFROM $a'), ('ARG b=$a\nARG a=', '\nFROM $b'), ('FROM ', ''), ('ARG a=b\nFROM ', '$a'), ('FROM a as ', '')):
        for u in ([H('$ab{}_:/@.')], ['a', H(':/@.a')], ['$', H('abc')], ['${', H('abc}')], ['\nFROM ', H('abc'), ' as ', H('abc')], ['\nARG ', H('ab'), '=$', H('ab')]):
            j.append(Job('c01_depth', a, u, z))
    j += J('c01_parse', [d for w in PHRASES for d in inside(w)] + [['FROM ', x] for x in ports()])
    return j


def DG_():
    return H('0129')


# C02, C03 -------------------------------------------------------------------

def uni(hn):
    j = []
    for u in (U2, U3, U4, V3, V4):
        j += J(hn, [[f] for f in frags(1, u)])
        j += J(hn, [['# ', u, '\nRUN a', u, ' \\\n# ', u, '\n b', '\nENV a=', u, ' b="', u, '"\nLABEL ', u, '=', u]])
    for u in (V3, V4):
        j += J(hn, [[f] for f in frags(1, u)])
    return j


@prop('C02', [('c02_spans', (0, 1)), ('c02_model', (0, 3))])
def _(tier):
    n = deeper(tier, 4, 5)
    j = J('c02_model', frags(n)) + J('c02_spans', frags(n))
    j += J('c02_model', docs(h(deeper(tier, 2, 3)), [A])) + J('c02_spans', docs(h(deeper(tier, 1, 2)), [A]))
    j += uni('c02_spans') + uni('c02_model')
    j += J('c02_model', big(1100) + huge()) + J('c02_spans', big(1100) + huge())
    E = H('\\"\'nu0a\n ')
    m = deeper(tier, 4, 6)
    for k in ('RUN ["', 'ENV a="', 'ENV a "', 'LABEL a="', 'LABEL "', 'ARG a="', 'CMD ["x", "'):
        for z in ('"', '"]', '"=b'):
            j += J('c02_model', [[k, h(m, E), z]]) + J('c02_spans', [[k, h(m - 1, E), z]])
    for s in SEPS:
        j += J('c02_model', [
            ['FROM', s, '--a=b', s, 'c', s, 'as', s, 'd'], ['ARG', s, 'a=b'], ['ARG', s, 'a'], ['LABEL', s, 'a=b', s, '"c"=d', s],
            ['LABEL', s, 'a', s, 'b'], ['RUN', s, 'a'], ['CMD', s, '["a"', s, ',', s, '"b"', s, ']'], ['ENTRYPOINT', s, '[', s, ']'],
            ['COPY', s, '--a=b', s, 'c', s, 'd'], ['ENV', s, 'a=b', s, 'c="d"', s], ['ENV', s, 'a', s, 'b'], ['X', s, 'a']])
    j += J('c02_model', worlds(tier)) + J('c02_spans', worlds(tier))
    j += J('c02_model', words(tier))
    j += J('c02_model', dictionary())
    j += J('c02_model', lengths())
    j += J('c02_model', [d for w in PHRASES for d in inside(w)])
    return j


@prop('C03', [('c03_source', (0, 1, 2, 3, 4))])
def _(tier):
    n = deeper(tier, 4, 5)
    j = J('c03_source', frags(n)) + J('c03_source', [[A] * deeper(tier, 5, 6)])
    j += J('c03_source', [f for x in frags(deeper(tier, 3, 4), S) for f in in_context(x)[1:]])
    j += J('c03_source', docs(h(2), [A])) + uni('c03_source') + J('c03_source', big(1100) + huge())
    # several lines of structural characters
    Z = H('a#\\\n "')
    for k in ('RUN', 'LABEL', 'ENV', 'COPY', 'CMD', 'FROM', 'ARG', 'FOO'):
        j += J('c03_source', [[k, h(deeper(tier, 6, 7), Z)], [k, ' a=b', h(4, Z), '\nRUN x'], [k, ' a b \\\n', h(deeper(tier, 4, 5), Z), '\nRUN x']])
    for s in SEPS:
        j += J('c03_source', [[x, s, y, s, '\nCMD q'] for x in ('RUN a', 'RUN', 'LABEL a=b', 'LABEL', 'ENV a=b', 'ENV a', 'COPY a b', 'FROM a', 'ARG a', 'CMD ["a"]', 'X y')
                               for y in ('', 'c', '# z', 'c=d')])
    j += J('c03_source', worlds(tier))
    j += J('c03_source', words(tier))
    j += J('c03_source', triples(deeper(tier, 3, 1)))
    j += J('c03_source', dictionary())
    j += J('c03_source', lengths())
    j += J('c03_source', pairs_of(deeper(tier, 1, 1)))
    j += J('c03_source', directed())
    j += J('c03_source', [d for w in PHRASES for d in inside(w)])
    j += J('c03_source', keyed())
    return j


# C04 ------------------------------------------------------------------------

GOOD = [('from', [' a', ' --p=q a:b as c']), ('arg', [' a', ' a=b', ' a="b c"']), ('label', [' a=b', ' a b', ' "a"=\'b\' c=d']),
        ('run', [' a', ' ["a"]', ' []', ' a \\\n b']), ('entrypoint', [' a', ' ["a", "b"]']), ('cmd', [' a', ' ["a"]']),
        ('copy', [' a b', ' --from=a b c d']), ('env', [' a=b', ' a b', ' a="b" c=d'])]


@prop('C04', [('c04_kinds', (0, 2, 3))])
def _(tier):
    j = []
    for k, args in GOOD:
        for a in args:
            # every mix of letter case, every kind of following blank
            j += J('c04_kinds', [[anycase(k), a], ['FROM q\n', anycase(k), a, '\nRUN z'], [W, anycase(k), W, a, '\n'],
                                 [anycase(k), '\\\n', a], [anycase(k), W, CONT, a], [anycase(k), ' \\\n# c\n', a]])
            # words that extend, shorten or resemble the keyword
            j += J('c04_kinds', [[anycase(k), L, a], [L, anycase(k), a], [k[:-1], L, a], [L, k[1:], a], [k[:-1], a],
                                 [k, k, a], [k[0], L, k[2:], a]])
            j += J('c04_kinds', [[k.upper(), h(2), a[1:]], [h(2), k.upper(), a]])
    j += J('c04_kinds', [[h(deeper(tier, 4, 5), L), ' a'], [h(3, L), ' a=b'], [h(3, L), ' ["a"]'], [h(2, L), h(deeper(tier, 2, 3))]])
    for w in ('MAINTAINER', 'EXPOSE', 'ADD', 'USER', 'WORKDIR', 'VOLUME', 'ONBUILD', 'STOPSIGNAL', 'HEALTHCHECK', 'SHELL'):
        j += J('c04_kinds', [[anycase(w[:5]), w[5:].lower(), ' a', h(2)], [w, ' ', h(2), ' \\\n ', h(1)]])
    j += J('c04_kinds', ['ONBUILD RUN x', 'ONBUILD FROM a', 'ADD a b', 'HEALTHCHECK CMD ["a"]', ['RUNFROM', W, 'a'], ['copyrun a b'],
                         ['Z' * 300, L, ' x'], ['FROMFROM', h(2)]])
    j += J('c04_kinds', frags(deeper(tier, 4, 5)))
    for u in (U2, U3):
        j += J('c04_kinds', [['RUN', u], ['X a', u], ['X', u, ' a'], [u, 'RUN a'], ['EXPOSE ', u, '\\\n', u]])
    j += J('c04_kinds', worlds(tier) + huge())
    j += J('c04_kinds', words(tier))
    j += J('c04_kinds', dictionary('m'))
    j += J('c04_kinds', pairs_of(deeper(tier, 2, 1)))
    j += J('c04_kinds', keyed())
    return j


# C05, C06 -------------------------------------------------------------------

SHELLS = ['RUN ', 'CMD ', 'ENTRYPOINT ', 'ENV k ', 'EXPOSE ', 'ONBUILD']


@prop('C05', [('c05_shell', (0, 2, 3))])
def _(tier):
    j = []
    q = deeper(tier, 4, 5)
    for k in SHELLS:
        j += J('c05_shell', [[k, h(q)], [k, 'a', h(q - 1), '\nRUN z'], [k, 'a \\\n', h(q)], [k, 'a', h(2), '\n', h(2)],
                             [k, 'a \\\n# c', h(2), '\n b', h(1), '\\\n', h(1)],
                             [k, 'a\\', W, W, NL, W, '# c', h(1), NL, 'b', h(1)],
                             [k, 'a \\\r\n', h(2), '\\\r\n', h(1)],
                             [k, h(deeper(tier, 6, 8), H('a#\\\n '))],
                             [k, 'x\\\n', h(deeper(tier, 5, 7), H('a#\\\n ')), '\nRUN y'],
                             [k, 'a \\\n#1\n #2', NB, '\n\t#3\n b \\\n c \\\n#4\n d', h(1)],
                             [k, 'a', ' \\\n b' * 40, h(1)], [k, 'a', ' \\\n# c\n b' * 40, h(1)],
                             [k, 'x' * 300, h(1), '\\\n', 'y' * 300]])
        for u in (U2, U3, U4, V3, V4):
            j += J('c05_shell', [[k, 'a', u, ' \\\n# ', u, '\n', u, 'b'], [k, u, 'a', u], [k, 'a ', u, '\\\n', u]])
    for k in ('["a"', '[', '"a" ', "'a", '$', '`', '=', '<<E', '#'):
        j += J('c05_shell', [['RUN ', k, h(3)], ['CMD ', k, h(2), '\\\n', h(1)], ['ENTRYPOINT ', k, h(2)], ['ENV k ', k, h(2)], ['FOO ', k, h(2)]])
    for s in SEPS:
        j += J('c05_shell', [['RUN', s, 'a ', h(1), s, 'b'], ['ENV', s, 'k', s, 'b', h(1), s, 'c d'], ['CMD', s, 'x', s], ['VOLUME', s, 'b', s, 'd']])
    j += J('c05_shell', docs([A, A], [A]))
    j += J('c05_shell', worlds(tier) + big(1100) + huge())
    j += J('c05_shell', words(tier))
    j += J('c05_shell', dictionary('rm'))
    j += J('c05_shell', pairs_of(deeper(tier, 3, 1)))
    j += J('c05_shell', directed())
    j += J('c05_shell', [d for w in PHRASES for d in inside(w)])
    return j


@prop('C06', [('c06_exec', (0, 2, 3))])
def _(tier):
    j = []
    q = deeper(tier, 4, 5)
    E = H('\\"\'bntfr/u a\n')
    X = H('"\'[], \\a\n')
    for k in ('RUN ', 'CMD ', 'ENTRYPOINT '):
        j += J('c06_exec', [[k, '[', h(q), ']'], [k, '["', h(q), '"]'], [k, '["a"', h(q - 1), '"b"]'], [k, '["a"', h(q)], [k, h(q)],
                            [k, "['", h(q - 1), "', \"", h(1), '"]'],
                            [k, '["', h(deeper(tier, 5, 6), E), '"]'], [k, "['", h(deeper(tier, 4, 5), E), "']"],
                            [k, '[', h(deeper(tier, 5, 7), X), ']'], [k, '["a",', h(deeper(tier, 4, 6), X), '"b"', h(1, X), ']'],
                            [k, '["a", "b", "c"', h(1), ',', h(1), "'d'", h(1), ']'],
                            [k, '["\\u', h(4, H('02dDfe')), '"]'], [k, '["\\U', h(8, H('01')), '", "x"]'], [k, '["\\U0001F60', HEX, '"]'],
                            [k, '[', many('"e%(i)d"', 1100, ','), h(1), ']'],
                            [k, '["', 'x' * 300, h(1), '"]'],
                            [k, '["a"]', h(2), '\nRUN b'], [k, '[]', h(3)], [k, '[', W, W, ']', W]])
        for s in SEPS:
            j += J('c06_exec', [[k, '[', s, '"a"', s, ',', s, '"b"', s, ']'], [k, '["a"', s, ']'], [k, '["a",', s, ']'], [k, '[', s, ']'],
                                [k[:-1], s, '["a", "b",]'], [k, '[', s, "'a'", ',', s, '"b"', s, ',"c"', ']', W]])
        for u in (U2, U3, U4, V3, V4):
            j += J('c06_exec', [[k, '["', u, '"]'], [k, '["a', u, '", "', u, '"]'], [k, u, '["a"]'], [k, '["a"]', u], [k, '["a"', u, ']']])
    j += J('c06_exec', worlds(tier) + huge())
    j += J('c06_exec', words(tier))
    j += J('c06_exec', dictionary('x'))
    j += J('c06_exec', pairs_of(deeper(tier, 3, 1)))
    for p in ('RUN ["', 'CMD ["a", "', "ENTRYPOINT ['a',\""):
        j += J('c06_exec', code_points(p, ']') + code_points(p))
    j += J('c06_exec', [d for w in PHRASES for d in inside(w)])
    return j


# C07, C08 -------------------------------------------------------------------

@prop('C07', [('c07_from', (0, 2, 3))])
def _(tier):
    q = deeper(tier, 4, 5)
    I = H('a0.:/@$')
    j = J('c07_from', [
        ['FROM ', h(q)], ['FROM a', h(q)], ['FROM a as ', h(q)], ['FROM a ', anycase('as'), ' ', h(2, ALIAS), 'X'],
        ['FROM a ', h(2, L), ' b'], ['FROM a', h(3), 'b'], ['FROM --', h(q - 1), ' a'], ['FROM --p=', h(q - 1), ' b as c'],
        ['FROM --', h(2, L), '=', h(2, T), ' --', L, '=', T, ' img:', IMG, ' AS ', ALIAS, ALIAS],
        ['FROM --a=b --c=d --e=f', h(2), ' g'], ['FROM --a=b ', h(3)], ['FROM --a=b=c', h(1), ' --d=', h(1), '=e x'],
        ['FROM ', h(q + 1, I)], ['FROM ', h(3, IMG), ' as ', h(2, ALIAS)],
        ['FROM a.b:5000/c/d', h(2, IMG), ' as X-1_y'], ['FROM ${v}', h(2, IMG), 'x$y'],
        ['FROM ', 'i' * 300, h(1, IMG), ' as ', 'A' * 300, h(1, ALIAS)],
        [W, anycase('from'), W, W, 'a', W, anycase('as'), W, 'B', W, W, '\n'],
        ['FROM a', h(2), '\nFROM b', h(1), '\nFROM c as d', h(1)],
        ['ARG x\nFROM a as b', h(1), '\nRUN y\nFROM b', h(1), '\nLABEL q=r\n# FROM z\nFROM c as e'],
        [many('FROM a%(i)d', 12, '\nRUN x\n'), '\nFROM b', h(1)], ['FROM a\n' * 300, 'FROM b', h(1)],
        ['FROM a@sha256:' + HEX64, h(1), ' as b'], ['FROM r.io:1/a@sha256:' + HEX64[1:], HEX],
        ['FROM a as b', h(2), '\nRUN c'], ['FROM as as as', h(1)], ['FROM ', anycase('as'), ' ', anycase('as'), ' ', anycase('as')],
        ['FROM --platform=$BUILDPLATFORM golang:1.', h(1, IMG), '-alpine AS build', h(1)]])
    for s in SEPS:
        j += J('c07_from', [['FROM', s, 'a'], ['FROM', s, '--p=q', s, '--r=s', s, 'a:', IMG, s, anycase('as'), s, 'b'], ['FROM a', s, 'as', s, 'b', W, '\nFROM c'],
                            ['FROM a', s, '\nFROM b']])
    for u in (U2, U3, U4, V3, V4):
        j += J('c07_from', [['FROM a a', u, ' b'], ['FROM a A', u, ' b'], ['FROM --a', u, '=b c'], ['FROM a', u], ['FROM --p=', u, ' a as b'], ['FROM a as b', u], ['FROM a', u, 'as b']])
    j += J('c07_from', worlds(tier) + huge())
    j += J('c07_from', words(tier))
    j += J('c07_from', triples(deeper(tier, 4, 1)))
    j += J('c07_from', dictionary('f'))
    j += J('c07_from', lengths())
    j += J('c07_from', pairs_of(deeper(tier, 3, 1)))
    j += J('c07_from', [f for f in flag_orders() if f[0].startswith('FROM')])
    j += J('c07_from', [d for w in DICT + REFS for d in scenes(w)[:4]])
    j += J('c07_from', [['FROM ', x, y] for x in ports() for y in ('', ' AS z')])
    return j


@prop('C08', [('c08_digest', (0, 1, 3))])
def _(tier):
    B = H('0aAfFgGzZ9@:/-_.')
    j = []
    F = 'FROM a@sha256:'
    j += J('c08_digest', [['FROM a@', h(deeper(tier, 4, 5))], ['FROM ', h(3), '@sha256:' + HEX64], ['FROM a@', h(2), 'a256:' + HEX64],
                          ['FROM a@', anycase('sha256'.replace('256', '')), '256:' + HEX64], ['FROM a@sha', h(3, H('0123456789')), ':' + HEX64],
                          ['FROM a@sha256', h(1), HEX64], ['FROM a@sha256', h(2), HEX64], [F, h(2), HEX64[:62]], [F, HEX64[:62], h(2)],
                          [F, HEX64[:63], h(2)], [F, HEX64, h(2)], [F, HEX64[:61], h(2)], [F, HEX64[:31], h(2, IMG), HEX64[:31]], [F, h(3, B), HEX64[:61]],
                          [F, HEX64[:20], h(2, B), HEX64[:20], h(2, B), HEX64[:20]], [F], [F, h(1)], ['FROM a@', h(1)], ['FROM @sha256:', HEX64],
                          ['FROM a@sha256:', HEX64[:63], '\nFROM b'], ['FROM a\nFROM b@sha256:', HEX64[:63], h(1, IMG)],
                          ['FROM a@sha256:', HEX64, '\nFROM b@sha256:', HEX64[:62], h(2, B), ' as c\nRUN x'],
                          ['FROM r.io/a@sha256:', HEX64[:63], h(1)], ['FROM localhost:5000/a/b@sha256:', h(1), HEX64[:63]],
                          ['FROM r@s/a@sha256:', HEX64[:63], h(1)], ['FROM r/a:1@sha256:', HEX64[:63], h(1)], ['FROM a:1@sha256:', HEX64, h(1)],
                          ['FROM r.io@sha256:', HEX64[:63], h(1)], ['FROM r.io@sha256:', HEX64, '/', h(1)], ['FROM r.i/x@sha256:', HEX64[:60], '/', h(3, H('af/'))],
                          [F, HEX64, '@', h(1, IMG)], ['FROM a@', h(1, IMG), '@sha256:', HEX64], [F, HEX64, ':', h(1, IMG)], ['FROM a@sha256::', HEX64[:63]], ['FROM a@:sha256:', HEX64],
                          ['FROM --p=q a@sha256:', HEX64[:63], h(1), ' as x'], ['FROM --p=a@sha256:', h(1, IMG), ' b'],
                          ['FROM $a@sha256:', HEX64[:63], h(1)], ['FROM a@$', h(2, IMG)], ['FROM a@${b}', h(1)], ['FROM a@sha256:$', HEX64[:63]],
                          [F, '0' * 64, h(1)], [F, 'f' * 63, h(1)], [F, 'F' * 63, h(1)], [F, '1' * 128], [F, HEX64, HEX64], [F, '0x', HEX64[:62]],
                          ['ARG x=y@z\nFROM a', h(1, IMG), h(1, IMG)], ['RUN a@b', h(1), '\nFROM a'], ['LABEL a=b@c\nFROM a@sha256:', h(1), HEX64[:63]],
                          ['FROM a as b@', h(1)], ['FROM scratch@sha256:', HEX64[:63], h(1)]])
    # the character at every position of the digest
    j += J('c08_digest', [[F, HEX64[:i], h(1), HEX64[i + 1:]] for i in range(64)])
    j += J('c08_digest', [[F, HEX64[:n], h(1)] for n in (1, 7, 8, 15, 16, 31, 32, 33, 39, 40, 47, 62, 63, 64, 65, 70)])
    j += J('c08_digest', [[F, [X] * 64] for X in (H(DG), H('abcdef'), H('ABCDEF'))])
    for u in (U2, U3):
        j += J('c08_digest', [[F, HEX64[:62], u], ['FROM a@', u]])
    return j


# C09, C10, C11 --------------------------------------------------------------

REFS = ['docker.io/', 'docker.io/library/', 'library/', 'localhost/', 'index.docker.io/', 'x:5000/', ':latest', ':latest@sha256:' + HEX64, '@sha256:' + HEX64, ':1.0', ':v1', ':b', '/b', 'b/', 'b:', 'b@', '-b', 'B', 'HTTP_PROXY', 'a_proxy', 'NO_PROXY', 'TARGETARCH', 'BUILDPLATFORM', 'VERSION', 'TAG', 'IMAGE', 'BASE', '_a', '__', 'a1', 'A1']


def ports():
    """a host with a port of every length, digests in either case, several marks at once"""
    n = [[H(DG)] * k for k in (1, 2, 3, 4, 5, 6)]
    l = [['host:', x, y] for x in n for y in ('/a', '', '/a:b', '@b')] + [['h.x:', x, '/a:', x] for x in n] + [['h:6553', H(DG), '/a'], ['h:0', H(DG), '/a'], ['h:', '9' * 20, H(DG), '/a'], ['h:-1/a', ALNUM], ['h:', '0' * 12, H(DG), '/a'], ['1.2.3.', n[2], ':', n[4], '/a']]
    for g in (HEX64, HEX64.upper(), HEX64.lower(), 'AB' * 32, 'ab' * 32, '0' * 64, 'F' * 64):
        l += [[a, g[:-1], H(DG + 'abcdefABCDEF')] for a in ('a@sha256:', 'a.b/c@sha256:', 'a:b@sha256:', 'a.b:1/c:d@sha256:', '${a}/b@SHA256:', '@sha256:', 'a@', 'a:')]
    l += [[a, b, c, H('a/:@')] for a in ('', 'a.b/', 'h:1/', 'localhost/', '${a}/', '$a/', 'x/', '/', '//', 'a.b//') for b in ('c', 'c/d', '$c', '/c', 'C', 'c.d', '') for c in ('', ':e', '@f', ':e@f', '@f:g', ':', '@', '::', ':e:g', ':E', ':$e', ':${e}', '@$f')]
    return l


def images(tier):
    I = H('ab.:/@')
    q = deeper(tier, 5, 6)
    l = [[h(q)], [h(deeper(tier, 8, 9), I)], ['localhost', h(4)], [anycase('localhost'), '/', h(1)], [h(2), 'localhost/a', h(1)], ['localhos', h(2), '/a:b'],
         ['a.b:5000/', h(4)], [h(3), '/', h(3)], ['a', h(2), '/b', h(2), '/c', h(1)], ['a@', h(4)], ['a:', h(4)], ['a/', h(4)], [h(4), '@x'], [h(4), ':x'],
         ['r.io/a@sha256:' + HEX64, h(3)], ['r.io/a:1@sha256:' + HEX64, h(1)], ['x' * 300, h(2), 'y' * 300], ['/' * 30, h(3)], [':' * 30, h(3)], ['@' * 30, h(3)],
         ['host:443/', h(2), '/', h(2)], ['127.0.0.1:5000/a', h(2)], ['[::1]', h(1), '/b'], ['${a}', h(2), '/', h(1), '$b'], [' ', h(2), '\n'], ['a b', h(2)],
         ['index.docker.io/library/a', h(2)], ['docker.io/', h(3)], ['library/', h(3)], ['', h(1)]]
    for u in (U2, U3, U4, V3, V4):
        l += [[u], ['a', u, '/b', h(1)], [u, ':', u, h(1)], [u, '@', u], [h(1), u, h(1)], ['a.b/', u, h(1)], [u, '.', '/', u]]
    return l


def long_images():
    w = [[ALIAS] * k for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 16)]
    l = [[x, '/', y, ':', x] for x in w for y in w[:3]] + [[x, '.', x, '/', x, '/', x, '@', x, ':', x] for x in w] + [[x, ':', x, '/', x] for x in w] + [[x] for x in w]
    l += [x for k in DICT for x in ([k, H('a/:@')], [k, '/', k, H(':/')], ['a/', k, ':', k, T], [k, '@', k, ALNUM])]
    big = ['y' * 1000] * 66
    l += [[big, H(':/@'), 'b'], ['a.b/', big, ':', big, ALNUM], ['a@', big, ALNUM], [big, '.c', H('/:'), 'd'], ['a:', big], ['a/' * 1100, H('b:@')], ['a:' * 300, H('b/@')]]
    for u in (U2, U3):
        l += [['localho', u, 't/a'], ['LOCALHO', u, 'T/a'], ['localhost', u, '/b'], [u, '/a:b'], [u, u, '/a@b']]
    return l


@prop('C09', [('c09_roundtrip', (0, 1, 2))])
def _(tier):
    return J('c09_roundtrip', images(tier) + long_images() + ports())


@prop('C10', [('c10_split', (0, 1, 2, 3))])
def _(tier):
    return J('c10_split', images(tier) + long_images() + ports())


def chain(n, start='$v0', last='end', fmt='$v%d'):
    return ''.join('ARG v%d=%s\n' % (i, fmt % (i + 1)) for i in range(n)) + 'ARG v%d=%s\nFROM %s' % (n, last, start)


@prop('C11', [('c11_resolve', (1, 2, 3, 4)), ('c11_substitute', (0, 1, 2))])
def _(tier):
    V = H('$ab{}')
    V2 = H('$a_0{}-')
    q = deeper(tier, 4, 5)
    j = J('c11_resolve', [
        ['ARG a=x\nARG b=y\nFROM ', h(q + 1, V)], ['ARG a=', h(3, V), '\nARG b=', h(2, V), '\nFROM ', h(2, V)], ['ARG a=x\nARG ab=y\nFROM $a', h(3)],
        ['ARG a=x\nFROM ${a', h(3)], ['ARG a=x\nFROM $', h(3)], ['ARG a=x\nFROM ', h(3, IMG), '$a', h(1, IMG)], ['ARG a=', h(3), '\nFROM ${a}'],
        ['ARG a="', h(3), '"\nFROM x:$a'], ['ARG ', h(1, L), '=1\nARG ', h(1, L), '=2\nARG ', h(1, L), '\nFROM $a:$b'],
        ['ARG a=1\nARG a', h(2), '\nFROM i:$a'], ['ARG a\nFROM $a', h(1)], ['ARG a=1\nFROM $a\nARG b=2\nFROM $b', h(1), '\nFROM $a:$a'],
        ['ARG a=1\nLABEL x=y\nARG b=2\nFROM $a$b', h(1)], ['ARG a=1\nFROM $', anycase('a')], ['ARG a=1\nARG A=2\nFROM $a$A', h(1, IMG)],
        ['ARG a1=p\nARG a_b=q\nARG a=r\nFROM $a', h(2, AN)], ['ARG a=$b\nARG b=$c\nARG c=', h(2), '\nFROM $a/$b'], ['ARG a=$a\nFROM $a', h(1)],
        ['ARG a=$b\nARG b=$a\nFROM x$a', h(1)], ['ARG a=x$b$c\nARG b=${d}y\nARG c=$d\nARG d=', h(2), '\nFROM $a-$d'], ['ARG a=1\nFROM $$a', h(2)],
        ['ARG a=1\nFROM a$', h(2, V2)], ['ARG a=r.io/x\nFROM $a:', h(2)], ['ARG a=', h(2, H('.:/@a')), '\nARG b=', h(2, H('.:/@a')), '\nFROM $a/$b'],
        ['ARG a=sha256\nARG h=', HEX64, '\nFROM x:$a', h(1), '$h'], ['ARG a=1\nFROM ${a}${a}$a', h(1)], ['ARG a="b c"\nFROM $a', h(1)],
        ['ARG a=\'$b\'\nARG b="', h(2), '"\nFROM $a'], ['ARG a="', h(1), '$b', h(1), '"\nARG b=z\nFROM $a'], ['ARG a=""\nFROM x$a', h(1)], ['ARG a=1\nFROM ${a:-b}'], ['ARG a=1\nFROM ${a', h(1, IMG), '}'],
        ['ARG a=1\nARG a=2\nARG a=3\nFROM $a', h(1)], ['ARG a=1\nARG a=$a\nFROM $a'], ['FROM $a', h(2)], ['FROM a', h(2, V2)],
        ['ARG ' + 'n' * 300 + '=1\nFROM $' + 'n' * 299, h(2, AN)], [many('ARG v%(i)d=w%(i)d', 1100, '\n'), '\nFROM ', many('$v%(i)d', 1100, '-'), h(1)],
    ])
    for n in (14, 15, 16, 17, 18, 40):
        j += J('c11_resolve', [[chain(n)], [chain(n, 'x:${v', 'end'), H('0123'), '}'], [chain(n, '$v', last='e'), H('0123')],
                               [chain(n, '$v0', last='a$'), ''], [chain(n, '$v0', '$v%d' % n)], [chain(n, '${v0}-$v1', 'r.io/z', fmt='a${v%d}b')]])
    for u in (U2, U3):
        j += J('c11_resolve', [['ARG a=', u, '\nFROM x$a'], ['ARG a="', u, '$b"\nARG b=', u, '\nFROM $b$a']])
    j += J('c11_substitute', [[h(q)], ['$a', h(3)], ['${a', h(3)], [h(2), '$a$', h(2)], [h(3, V), '${a}', h(2, V)]], 'a', ['v', h(1)])
    j += J('c11_substitute', [['x$', h(2), 'y']], [AN, AN], ['v'])
    j += J('c11_substitute', [['$a']], 'a', h(3, V2))
    for u in (U2, U3, U4, V3, V4):
        j += J('c11_substitute', [['$a', u], [u, '$a', u], ['${a', u, '}'], ['$', u]], 'a', [u])
    j += J('c11_resolve', worlds(tier))
    j += J('c11_resolve', words(tier))
    j += J('c11_resolve', dictionary('a'))
    j += J('c11_resolve', [d for w in DICT + REFS for d in scenes(w)[4:10]])
    j += J('c11_resolve', [['ARG a=1\nARG e=x\nARG c=y/z\nFROM ', x] for x in ports()])
    return j


# C12, C13, C14 --------------------------------------------------------------

@prop('C12', [('c12_stages', (0, 1, 2, 3, 4))])
def _(tier):
    q = deeper(tier, 3, 4)
    a2 = h(2, ALIAS)
    j = J('c12_stages', docs(h(2), [A]))
    j += J('c12_stages', [
        ['FROM a as ', a2, '\nRUN x\nFROM b as ', a2, '\nFROM c\nCMD y'], ['FROM a', h(q), '\nRUN y', h(1), '\nFROM b'],
        ['RUN x\nARG a\n', h(2), '\nFROM a\nRUN y\nRUN z\nFROM b as C\nCOPY --from=c a b'],
        [h(q), '\nFROM a\nARG b\n', h(q), '\nFROM c'], ['FROM a as A\nFROM a as ', anycase('a'), '\nFROM A', h(1)],
        ['FROM a as ', h(4, ALIAS)], ['FROM a as ', 'Z' * 300, ALIAS, '\nRUN x'],
        [many('FROM a as S%(i)d\nRUN x%(i)d\nCMD y', 12, '\n'), h(1)], [many('FROM a\nRUN x', 300, '\n'), h(1)], ['FROM a\n', 'RUN x\n' * 300, h(1), '\nFROM b'],
        ['ARG a\n' * 300, 'FROM b', h(1)], ['# FROM x\nRUN FROM y\nEXPOSE 1\nONBUILD FROM z', h(1), '\nFROM a \nLABEL FROM=b\n'],
        [h(deeper(tier, 4, 5))], ['', h(1)], ['FROM a\n\n\n', W, 'FROM b\n#c\nFROM scratch as Build', h(1), '\nENV FROM x'],
        [[anycase('from'), ' a\nENV a=b\nUSER c\nSHELL ["x"]\n', anycase('from'), ' b', W]]])
    j += J('c12_stages', worlds(tier) + big() + huge())
    j += J('c12_stages', words(tier))
    j += J('c12_stages', triples())
    j += J('c12_stages', dictionary('f'))
    j += J('c12_stages', pairs_of(deeper(tier, 2, 1)))
    j += J('c12_stages', [d for w in DICT + REFS for d in scenes(w)])
    j += J('c12_stages', keyed())
    return j


@prop('C13', [('c13_parents', (0, 2, 3, 4))])
def _(tier):
    q = deeper(tier, 2, 3)
    N = H('abAB01')
    j = J('c13_parents', [
        ['FROM x as ', h(q, N), '\nFROM ', h(q, N), ' as ', h(1, N), '\nFROM ', h(q, N)],
        ['FROM x as ', N, '\nFROM y as ', N, '\nFROM ', N, ' as ', N, '\nFROM ', N, '\nFROM ', N],
        ['FROM ', anycase('scratch'), ' as a\nFROM A'], ['FROM a as ', anycase('scratch'), '\nFROM ', anycase('scratch')],
        ['FROM x as ', anycase('bUiLd'), '\nFROM ', anycase('build'), ' as b2\nFROM B2'],
        ['FROM a as b\nFROM b', h(2)], ['FROM a as b', h(2), '\nFROM b'], ['FROM a as b\nFROM ', h(3)], ['FROM a as b\nFROM ', h(2), 'b', h(1)], ['FROM scratch', h(2), '\nFROM b'],
        ['FROM ', h(3, IMG), ' as abc\nFROM ', anycase('abc')], ['FROM a as a\nFROM a as a\nFROM a', h(1)], ['FROM b as a\nFROM a as b\nFROM b as a\nFROM ', H('ab'), '\nFROM ', H('AB')],
        ['FROM a as x\nFROM x as y\nFROM y as z\nFROM z as x\nFROM ', H('xyzXYZ'), ' as w\nFROM ', H('wxyz')], ['FROM later\nFROM a as later\nFROM later', h(1)],
        ['FROM a\nFROM ', H('0123')], ['FROM a as 1\nFROM b as 0\nFROM ', H('0123'), '\nFROM 0', h(1)], ['FROM a as s\nFROM s:', h(1, IMG), '\nFROM x/s\nFROM s@sha256:' + HEX64], ['FROM r.io:1/A/b:C as q\nFROM ', anycase('q')],
        ['FROM scratch as s\nFROM s as t\nRUN x\nFROM T as u\nFROM U', h(1)], ['FROM scratch:', h(1, IMG)], ['FROM x/scratch', h(1)], ['FROM --p=s a as s\nFROM --p=', h(1, T), ' s'],
        ['FROM $b as b\nFROM $b', h(1)], ['ARG b=x\nFROM x as b\nFROM $b\nFROM ${b', H('}x')],
        ['FROM a as s0\n', many('FROM s%(i)d as s', 1, ''), '\nFROM S', H('01')],
        ['FROM a as s0\n', '\n'.join('FROM s%d as s%d' % (i, i + 1) for i in range(60)), '\nFROM s', DG_(), DG_()],
        ['FROM scratch as s0\n', '\n'.join('FROM S%d as s%d' % (i, i + 1) for i in range(300)), '\nFROM s29', DG_()],
        ['FROM a as ', 'n' * 300, '\nFROM ', 'n' * 299, H('nNm')],
        ['FROM a as a-b\nFROM a_b\nFROM A-B\nFROM a', h(1), 'b']])
    for u in (U2, U3):
        j += J('c13_parents', [['FROM a as k\nFROM b as s\nFROM ', u], ['FROM ', u, 'cratch\nFROM SCRATCH'], ['FROM a as ask\nFROM a', u, 'k'], ['FROM x', u, ' as b\nFROM x', u],
                               ['FROM a as b\nRUN ', u, '\nFROM B', h(1)]])
    j += J('c13_parents', worlds(tier) + big() + huge())
    j += J('c13_parents', words(tier))
    j += J('c13_parents', triples(deeper(tier, 3, 1)))
    j += J('c13_parents', dictionary('f'))
    j += J('c13_parents', [d for w in DICT + REFS for d in scenes(w)])
    j += J('c13_parents', keyed())
    return j


@prop('C14', [('c14_lookup', (0, 2, 3, 4, 5))])
def _(tier):
    q = deeper(tier, 3, 4)
    D = ['FROM a as b\nARG x\nARG y=1\nFROM c as B\nRUN z\nARG y\nARG X\nARG x\nFROM d\nFROM e as 0\nFROM f as 1x\nFROM g as x-_1\n',
         'ARG b\nARG q\nFROM a\nLABEL y=z\nARG q\nFROM a as q\nFROM Q as b\nARG b\nARG a\nARG b=2\nFROM x as a1\n',
         many('FROM i as s%(i)d\nARG a%(i)d', 13, '\n'), 'RUN x', 'FROM a', 'FROM a as 3\nFROM b as 2\nFROM c as 01\nFROM d as 1\nFROM e as -1\n', '']
    j = []
    for d in D:
        j += J('c14_lookup', [d], h(q))
        for u in (U2, U3):
            j += J('c14_lookup', [d], u)
        j += J('c14_lookup', [d], '') + J('c14_lookup', [d], h(5, H('01'))) + J('c14_lookup', [d], [h(1), '1']) + J('c14_lookup', [d], ['0' * 12, H('0129')])
    j += J('c14_lookup', [['FROM a as ', h(2, ALIAS), '\nFROM b as ', h(2, ALIAS), '\nARG ', L, AN, '\nARG ', L]], h(2, AN))
    j += J('c14_lookup', [[many('FROM a as s%(i)d', 300, '\n'), '\nARG z']], [H('s12'), H('0129'), DG_(), H('0')])
    j += J('c14_lookup', [['FROM a as ', 'L' * 300, '\nARG ', 'p' * 300]], ['l' * 299, h(1)])
    j += J('c14_lookup', [['FROM a as ', 'L' * 300, '\nARG ', 'p' * 300]], ['p' * 299, h(1)])
    j += J('c14_lookup', [['FROM a as bUild\nRUN x\nARG vEr=1\nARG ver\nARG VER']], [anycase('build')]) + J('c14_lookup', [['FROM a as bUild\nRUN x\nARG vEr=1\nARG ver\nARG VER']], [anycase('ver')])
    j += J('c14_lookup', [['FROM a\nARG a', h(2), '\nARG b\nFROM c\nARG a=', h(1)]], ['a', h(1)])
    j += J('c14_lookup', [['FROM a\n', 'RUN x\n' * 300, 'ARG k', DG_(), '\nARG k1']], ['k', DG_()])
    j += J('c14_lookup', [many('FROM a%(i)d as s%(i)d', 300, '\n')], [H('12'), H('05'), H('0126')])
    for u in (U2, U3):
        # letters outside ASCII whose lower or upper case is an ASCII letter
        j += J('c14_lookup', ['FROM a as k\nFROM b as s\nFROM c as i\nARG k\nARG s\nARG i'], u)
        j += J('c14_lookup', ['FROM a as ask\nARG ask'], ['a', u, 'k']) + J('c14_lookup', ['FROM a as ask\nARG ask'], ['as', u])
    for w in DICT:
        j += J('c14_lookup', [D[0], ['FROM a AS ', w, '\nARG ', w, '=b\nFROM ', w, '\nARG x', w]], [w, H('a0')])
        j += J('c14_lookup', [['FROM a AS ', w, '\nARG x\nARG ', w, '\nFROM a AS b', w]], w)
    j += J('c14_lookup', words(tier)[32:34] + words(tier)[64:66], h(4, H(LO)))
    j += J('c14_lookup', worlds(tier), H('aAb')) + J('c14_lookup', worlds(tier), H('012')) + J('c14_lookup', worlds(tier)[1:2], anycase('scratch'))
    j += J('c14_lookup', triples(deeper(tier, 3, 1), 'FROM a\n', '\nARG e\nARG d=1\nFROM y'), H('cd1'))
    return j


# C15, C16 -------------------------------------------------------------------

SPLICED = ['FROM --p=q a as b', 'ARG a=b\nFROM $a', 'LABEL a=b "c"="d e"', 'LABEL k v\nCMD z', 'RUN a \\\n# c\n b \\\nd', 'RUN ["a", "b","c"]',
           'COPY --f=g h \\\n i j', 'ENV a=b c="d"', 'ENV a b \\\n c', 'EXPOSE 80 \\\n 81\nUSER u', 'FROM a\n\nFROM b as c', 'ENTRYPOINT ["x"]\nCMD ["y"]']


@prop('C15', [('c15_splice', (0, 2, 3, 4))])
def _(tier):
    j = []
    IDX = Hole(R(0, 14))
    T1 = Hole(R(33, 126))
    reps = [['', '', ''], ['XYZ', '', 'W'], ['', 'longer text', 'Q'], [[T1], [T1, T1], '']]
    if tier == 'thorough':
        reps += [['aa', 'b' * 40, ''], ['c' * 300, '', 'zz'], [U2, 'x', U3]]
    for d in SPLICED:
        for r in reps:
            j += J('c15_splice', [d], [IDX, IDX, IDX], *r)
        j += J('c15_splice', [d], [IDX], [h(2)])
        j += J('c15_splice', [d], [IDX, IDX], [U3], [h(1)])
    for d, n in (('FROM a\nCOPY --x=y c d\nENV e=f g=h\nFROM i as j', 20), ('ARG a=1\nFROM b as c\nRUN ["d","e"]\nLABEL f=g', 18)):
        ix = Hole(R(0, n))
        j += J('c15_splice', [d], [ix, ix, ix], 'longer', '', 'ab')
    d = 'ENV a=b c=d e=f'
    ix = Hole(R(0, 13))
    j += J('c15_splice', [d], [ix] * deeper(tier, 4, 5), 'XYZ', '', 'P', 'QRST', '')
    j += J('c15_splice', ['COPY a b c d e'], [Hole(R(0, 6))] * 5, '', 'longer', 'X', 'YY', '')
    j += J('c15_splice', [['LABEL ', U2, '="', U3, '" b=', U2]], [Hole(R(0, 6))] * 3, 'xx', '', [U2])
    j += J('c15_splice', ['ENV a=b c=d e=f g=h'], [Hole([i]) for i in (2, 6, 10, 14, 3, 7, 11)] + [Hole(R(0, 16))], 'one', '', 'x' * 30, 'a2', '', 'yy', 'z', 'w')
    j += J('c15_splice', ['ENV a=b c=d e=f g=h'], [Hole([i]) for i in (13, 9, 5, 1)] + [Hole(R(0, 16))] * 2, 'one', '', 'x' * 30, 'a2', '', 'Q')
    j += J('c15_splice', ['ENV a=b c=d e=f'], [Hole([2, 5]), Hole(R(0, 13)), Hole(R(0, 13))], 'x' * 40000, 'y' * 70000, 'z')
    j += J('c15_splice', ['RUN a\nFROM a@sha256:' + HEX64 + ' as b\nCOPY c d'], [Hole(R(0, 8)), Hole(R(0, 8))], 'x' * 66000, '')
    j += J('c15_splice', huge()[:1], [Hole(R(0, 8))] * 2, 'x' * 30, '')
    for w in DICT[::2]:
        j += J('c15_splice', ['FROM a AS b\nRUN c \\\n # d\n e\nCMD ["f"]\n'], [Hole(R(0, 12))] * 2, w, [w, H('a/')])
    j += J('c15_splice', [['\n' * 300, 'ENV ', 'k' * 300, '=', h(1, T1)]], [Hole(R(0, 6))] * 2, 'x' * 400, '')
    for d in ('FROM A AS B\nCOPY C D\nENV E=F g=H', 'ARG A=B\nLABEL C=d\nCMD ["E", "f"]\nRUN g \\\n H'):
        j += J('c15_splice', [d], [Hole(R(0, 14)), Hole(R(0, 14))], [T1], [T1])
    return j


@prop('C16', [('c16_relative', (0, 1, 2, 3))])
def _(tier):
    q = deeper(tier, 3, 4)
    j = J('c16_relative', frags(deeper(tier, 3, 4)))
    j += J('c16_relative', [[h(q), '\nFROM a', h(1)], [h(4, H('\n\r #')), 'FROM a as b', h(1), '\n', h(2), 'RUN x'], ['RUN a \\\n', h(2), 'b\n  COPY c \\\n', W, '# z\n d', h(1)],
                            ['\n' * 300, W, 'RUN x', h(2)], ['#', 'x' * 300, '\nENV ', 'a' * 300, '=b c=d', h(1)], ['ARG a\r', h(2), '\nARG b\r\nARG c\rARG d', h(1)],
                            ['FROM a\n', many('RUN x%(i)d', 60, '\r\n'), '\n LABEL "a\n', h(1), '\nb"=c d=e'], ['\ufeff'], ['LABEL a="b\n\n', h(2), '" c=d\nRUN e', h(1)]])
    j += J('c16_relative', docs(h(2, S), [A]))
    for u in (U2, U3, U4, V3, V4):
        j += J('c16_relative', [['#', u, '\nRUN ', u, ' a \\\n', u, 'b', h(1)], ['LABEL ', u, '=', u, ' a=b', u, '\n LABEL c=', u]])
    j += J('c16_relative', worlds(tier) + big(1100) + huge())
    j += J('c16_relative', words(tier))
    j += J('c16_relative', triples(deeper(tier, 4, 1))) + J('c16_relative', dictionary('#m'))
    return j


# C17 - C20 ------------------------------------------------------------------

@prop('C17', [('c17_env', (0, 3))])
def _(tier):
    q = deeper(tier, 4, 5)
    E = H('\\"\'bntfru a\n=')
    X = H('a=" \'\\\n#')
    j = J('c17_env', [
        ['ENV ', h(q)], ['ENV a', h(q)], ['ENV a=', h(q)], ['ENV a ', h(q)], ['ENV a="', h(q), '"'], ["ENV a='", h(q - 1), "'"], ['ENV a "', h(q), '"'], ["ENV a '", h(q - 1), "'"],
        ['ENV a=b', h(q - 1), 'c=d'], ['ENV a="b"', h(3), '\nRUN x'], ['ENV a=b c', h(q - 1)], ['ENV a b', h(3), '\nRUN z'], ['ENV a b \\\n', h(q)],
        ['ENV ', h(2, AN), '=', h(2, T), ' ', AN, '=', T, ' ', AN, '="', T, ' ', T, '"'], ['ENV ', h(3, AN), ' ', h(2, T), ' ', T],
        ['ENV a="', h(deeper(tier, 5, 7), E), '"'], ["ENV a='", h(deeper(tier, 4, 6), E), "' b=c"], ['ENV a "', h(deeper(tier, 5, 6), E), '"'],
        ['ENV ', h(deeper(tier, 5, 7), X)], ['ENV a=', h(deeper(tier, 5, 7), X)], ['ENV a', h(deeper(tier, 5, 7), X)],
        ['ENV a="x', h(2), 'y" b=\'z', h(1), '\' c=w', h(1)], ['ENV a=b=c', h(2)], ['ENV a==', h(2)], ['ENV a="b"=', h(2)], ['ENV _', h(1), '1=x'], ['ENV 1', h(1), '=x 2=y'],
        ['ENV a=$b', h(2), ' c=${d}'], ['ENV a=/x:$PATH', h(1)], ['ENV a=b\\', h(2), 'c'], ['ENV a=b\\ c', h(2)], ['ENV a="\\u', h(4, H('02dDfe')), '"'], ['ENV a b="c"', h(1), ' d=e'],
        [many('ENV k=v', 1, ''), ' ', many('k%(i)d=v%(i)d', 1100, ' '), h(1)], ['ENV ', 'k' * 300, h(1), '=', 'v' * 300, h(1)], ['ENV a ', 'w' * 300, h(1)],
        ['ENV a=b \\\n  c=d \\\n  # x', h(1), '\n\n  e=f', h(1), '\nENV g h'], ['ENV a=b', h(1), '\nENV a=c', h(1), '\nENV c d'], ['ENV "a"=', h(1)], ['ENV a="" b=\'\' c=', h(1)],
        ['ENV a "b c"', h(2)], ["ENV a 'b'", h(2)], ['ENV a b"c', h(1), '" d'], ['ENV a=b#', h(1), ' c=#d'], ['ENV a #b', h(1), '\nENV c d'], ['ENV a \\\n#x\n b', h(1), ' c'], ['ENV a-b', h(2)], ['ENV a.', h(1), '=b']])
    for s in SEPS:
        j += J('c17_env', [['ENV', s, 'a=b', s, 'c="d e"', s, "f='g'"], ['ENV', s, 'a', s, 'b c', h(1)], ['ENV', s, 'a', s, '"b c"', W], ['ENV a=b', s, 'c=d', s, '\nRUN x'], ['ENV a', s, 'b', s, 'c']])
    for u in (U2, U3, U4, V3, V4):
        j += J('c17_env', [['ENV a=', u, ' b="', u, '"'], ['ENV a ', u, ' b'], ['ENV a "', u, '"'], ['ENV ', u, '=a'], ['ENV a', u, '=b'], ['ENV a=b', u, 'c=d'], ['ENV a', u, 'b']])
    j += J('c17_env', worlds(tier) + huge())
    j += J('c17_env', words(tier))
    j += J('c17_env', dictionary('e'))
    j += J('c17_env', lengths())
    j += J('c17_env', pairs_of(deeper(tier, 3, 1)))
    j += J('c17_env', directed())
    for p in ('ENV a="', 'ENV a "',):
        j += J('c17_env', code_points(p))
    j += J('c17_env', [d for w in PHRASES for d in inside(w)])
    V = H('ab$')
    for d in (['ENV a=b c=d ', V, '=$', V], ['ENV a=$a b=$b c=$c d=$', V], ['ENV a=${a} b=${b} c=${', V, '} d="$', V, '"'], ['ENV ', V, '=1 ', V, '=2 ', V, '=', V, ' ', V, '=', V, V], ['ENV a=a b=b c=c d=', V, ' e=', V], ['ENV ' + ' '.join('k%d=$k%d' % (i, i) for i in range(7)), V],
              ['ENV a $', V, ' b'], ['ENV a=b:$', V, ' c=d:$', V, ' e=$', V, ':f']):
        j += J('c17_env', [d])
    return j


@prop('C18', [('c18_label', (0, 3))])
def _(tier):
    q = deeper(tier, 4, 5)
    E = H('\\"\'bntfru a\n=')
    X = H('a=" \'\\\n#')
    C2 = ['\\', W, NL]
    j = J('c18_label', [
        ['LABEL ', h(q)], ['LABEL a', h(q)], ['LABEL a=', h(q)], ['LABEL a ', h(q)], ['LABEL "', h(q), '"=b'], ['LABEL a="', h(q), '"'], ["LABEL a='", h(q - 1), "'"], ["LABEL '", h(q - 1), "'=b"],
        ['LABEL a "', h(q - 1), '"'], ['LABEL "', h(q - 1), '" b'], ['LABEL a=b', h(q - 1), 'c=d'], ['LABEL a="b"', h(3), '\nRUN x'], ['LABEL "a"', h(3)], ['LABEL a b', h(3)],
        ['LABEL ', h(3, T), '=', h(2, T), ' ', T, '="', T, ' ', T, '"'], ['LABEL com.x.', h(2, T), '-_', T, '=', T],
        ['LABEL a="', h(deeper(tier, 5, 7), E), '"'], ['LABEL "', h(deeper(tier, 4, 6), E), '"=\'', h(1, E), "'"], ['LABEL a \'', h(deeper(tier, 4, 5), E), "'"],
        ['LABEL ', h(deeper(tier, 5, 7), X)], ['LABEL a=', h(deeper(tier, 5, 7), X)], ['LABEL a', h(deeper(tier, 5, 7), X)],
        ['LABEL a="x', C2, 'y"'], ["LABEL a='x", C2, "y", C2, "'"], ['LABEL "x', C2, 'y"="', C2, 'z"'], ['LABEL a "x', C2, '', h(1), 'y"'], ['LABEL "a', C2, '" b'], ['LABEL a="\\\r\n\\\r\n', h(1), '"'],
        ['LABEL a="x\\\n  y\\', h(1), 'z" b="c\\\nd"'], ['LABEL a="x\\\n#', h(1), '\ny"'], ['LABEL a="x\n', h(2), 'y" b=c'], ['LABEL a="x\\\\', h(2), '"'], ['LABEL a=b=c', h(2)], ['LABEL a=="', h(2)],
        ['LABEL a="\\u', h(4, H('02dDfe')), '"'], ['LABEL ', many('k%(i)d="v %(i)d"', 1100, ' '), h(1)], ['LABEL "', 'k' * 300, h(1), '"="', 'v' * 300, h(1), '"'],
        ['LABEL a=b \\\n  c=d \\\n  # x', h(1), '\n\n  e=f', h(1), '\nLABEL g h'], ['LABEL a=b', h(1), '\nLABEL a=c', h(1), '\nLABEL c d'], ['LABEL a="" \'\'=b c=', h(1)], ['LABEL ""', h(2)],
        ['LABEL a=$b', h(1), ' c=${d}'], ['LABEL a=b\\', h(2), 'c'], ['LABEL a\\', h(1), 'b=c'], ['LABEL a=b"c"', h(1)], ['LABEL a=b#', h(1), ' #c=d'], ['LABEL #a', h(2)], ['LABEL a #b', h(1)], ["LABEL a='\"", h(1), "' b=\"'", h(1), '"'],
        ['LABEL "a b" "c d"', h(1)], ["LABEL 'a' b=c", h(1)], ['LABEL a b=c', h(1)]])
    for s in SEPS:
        j += J('c18_label', [['LABEL', s, 'a=b', s, '"c d"="e f"', s, "g='h'"], ['LABEL', s, 'a', s, 'b'], ['LABEL', s, '"a b"', s, '"b c"', W], ['LABEL a=b', s, 'c=d', s, '\nRUN x']])
    for u in (U2, U3, U4, V3, V4):
        j += J('c18_label', [['LABEL a=', u, ' b="', u, '"'], ['LABEL a ', u], ['LABEL ', u, ' "', u, '"'], ['LABEL ', u, '=a'], ['LABEL "', u, '"=b', u], ['LABEL a=b', u, 'c=d'], ['LABEL a', u, 'b'], ['LABEL a="', u, '\\\r\n', u, '"']])
    j += J('c18_label', worlds(tier) + huge())
    j += J('c18_label', words(tier))
    j += J('c18_label', dictionary('l'))
    j += J('c18_label', lengths())
    j += J('c18_label', pairs_of(deeper(tier, 3, 1)))
    for p in ('LABEL a="', 'LABEL a "',):
        j += J('c18_label', code_points(p))
    j += J('c18_label', [d for w in PHRASES for d in inside(w)])
    return j


@prop('C19', [('c19_arg', (0, 3))])
def _(tier):
    q = deeper(tier, 5, 6)
    E = H('\\"\'bntfru a\n=')
    j = J('c19_arg', [
        ['ARG ', h(q)], ['ARG a', h(q)], ['ARG a=', h(q)], ['ARG a="', h(q), '"'], ["ARG a='", h(q - 1), "'"], ['ARG a=b', h(3), '\nRUN x'], ['ARG ', h(3, AN), '=', h(2, T)], ['ARG ', h(4, AN)],
        ['ARG a="', h(deeper(tier, 6, 8), E), '"'], ["ARG a='", h(deeper(tier, 5, 7), E), "'"], ['ARG a=', h(deeper(tier, 6, 7), H('a=" \'\\\n#'))], ['ARG a="b"', h(3)], ['ARG a=""', h(2)], ["ARG a=''", h(2)],
        ['ARG a="\\u', h(4, H('02dDfe')), '"'], ['ARG ', 'k' * 300, h(1), '=', 'v' * 300, h(1)], ['ARG a="', 'v' * 300, h(1), '"'], ['ARG a', h(1), '\nARG b=', h(1), '\nFROM x\nARG a=c', h(1), '\nARG d'],
        ['ARG a=b=c', h(2)], ['ARG a==', h(2)], ['ARG a=$b', h(1), '${c}'], ['ARG a=b\\', h(2), 'c'], ['ARG a=b#', h(1)], ['ARG a=#', h(1)], ['ARG _', h(2)], ['ARG 1', h(2)], ['ARG A_1', h(2), '=x'], ['ARG "a"', h(1)], ['ARG a=\'"', h(1), "'"], ['ARG a=b"', h(1), '"'],
        ['FROM x\nARG a', h(2), '\n'], [W, anycase('arg'), W, 'a', H('=b'), 'c', W, W]])
    for s in SEPS:
        j += J('c19_arg', [['ARG', s, 'a=b', W], ['ARG', s, 'a'], ['ARG', s, 'a="b c"'], ['ARG a', s, '\nRUN x'], ['ARG a=b', s, 'c']])
    for u in (U2, U3, U4, V3, V4):
        j += J('c19_arg', [['ARG a=', u], ['ARG a="', u, '"'], ['ARG ', u], ['ARG a', u, '=b'], ['ARG a=b', u, 'c'], ["ARG a='", u, 'b', u, "'"]])
    j += J('c19_arg', worlds(tier) + huge())
    j += J('c19_arg', words(tier))
    j += J('c19_arg', dictionary('a'))
    j += J('c19_arg', lengths())
    j += J('c19_arg', pairs_of(deeper(tier, 3, 1)))
    for p in ('ARG a="',):
        j += J('c19_arg', code_points(p))
    j += J('c19_arg', [d for w in PHRASES for d in inside(w)])
    return j


@prop('C20', [('c20_copy', (0, 2, 3))])
def _(tier):
    q = deeper(tier, 4, 5)
    X = H('a-= \\\n#"')
    j = J('c20_copy', [
        ['COPY ', h(q)], ['COPY a', h(q)], ['COPY a b', h(q)], ['COPY a ', h(q), ' b'], ['COPY --f=', h(q), ' b c'], ['COPY --', h(q), ' b c'], ['COPY --f=x', h(q - 1), ' a'], ['COPY a', h(3), 'b\nRUN x'],
        ['COPY --', h(2, L), '=', h(2, T), ' --', L, '=', T, ' ', T, ' ', T, T, ' ', T], ['COPY ', h(2, T), ' ', h(2, T), ' ', h(2, T)], ['COPY ', h(deeper(tier, 6, 8), X)], ['COPY a ', h(deeper(tier, 5, 7), X)], ['COPY --a', h(deeper(tier, 5, 7), X)],
        ['COPY --from=x --chown=a:b --chmod=7', h(1), ' c d e f', h(1)], ['COPY a --from=b', h(2), ' c'], ['COPY --a=b --c', h(2), ' d e'], ['COPY --a=b=c', h(1), ' d e=f'], ['COPY "', h(3), '" b'], ['COPY "a" \'b\'', h(1)], ['COPY a "', h(2), '"'], ["COPY '", h(2), "' '", h(1), "'"],
        ['COPY --f="', h(2), '" b c'], ["COPY --f='x' \"b\" c", h(1)], ['COPY ["a", "b"]', h(1)], ['COPY ["a","b"]'], ['COPY ', many('p%(i)d', 1100, ' '), h(1)], ['COPY ', many('--f=v%(i)d', 1100, ' '), ' a', h(1), 'b'], ['COPY ', 'p' * 300, h(1), ' ', 'q' * 300, h(1)],
        ['COPY a\\', h(2), 'b c'], ['COPY a\\b c\\', h(1)], ['COPY $a', h(1), ' ${b}'], ['COPY a#', h(1), ' #b'], ['COPY . .', h(2)], ['COPY a b', h(1), '\nCOPY c d', h(1), '\nCOPY --e=f g h'], [W, anycase('copy'), W, 'a', W, 'b', W, W, '\n'],
        ['COPY a b \\\n# c', h(1), '\n d', h(1)], ['COPY - --x=y z', h(1)], ['COPY -- a b', h(1)], ['COPY --', h(1, L), h(1), '=a b c'], ['COPY --x= a', h(1), 'b']])
    for s in SEPS:
        j += J('c20_copy', [['COPY', s, 'a', s, 'b', W], ['COPY', s, '--f=g', s, '--h=i', s, 'a', s, 'b', s, 'c'], ['COPY a b', s, '\nRUN x'], ['COPY a', s], ['COPY --f=g', s, 'a']])
    for u in (U2, U3, U4, V3, V4):
        j += J('c20_copy', [['COPY ', u, ' b'], ['COPY a ', u], ['COPY --f=', u, ' a b'], ['COPY --', u, '=a b c'], ['COPY a', u, 'b'], ['COPY a', u, 'b c'], ['COPY "', u, '" ', u]])
    j += J('c20_copy', worlds(tier) + huge())
    j += J('c20_copy', words(tier))
    j += J('c20_copy', dictionary('c'))
    j += J('c20_copy', lengths())
    j += J('c20_copy', flag_orders())
    j += J('c20_copy', pairs_of(deeper(tier, 3, 1)))
    for p in ('COPY a "', 'COPY --f="',):
        j += J('c20_copy', code_points(p))
    j += J('c20_copy', [d for w in PHRASES for d in inside(w)])
    return j


# C21, C22, C23 --------------------------------------------------------------

ARGS = ['\2FROM\1--a=b\1--c=d\1e:f\1as\1g\3', '\2FROM\1a\3\n\2FROM\1b\1AS\1c\3\n', '\2ARG\1a=b\3\n\2ARG\1c\3\n\2ARG\1d="e f"\3', '\2LABEL\1a=b\1"c d"=\'e f\'\1g="h"\3',
        '\2LABEL\1a \1b\3', '\2LABEL\1"a b"\1\'c\'\3', '\2COPY\1--a=b\1--c=d\1e\1f\1g\3', '\2COPY\1a\1b\3', '\2ENV\1a=b\1c="d e"\1f=\'g\'\3', '\2ENV\1a\1b c', '\2ENV\1a\1"b c"\3',
        '\2RUN\1["a",\1"b",\1"c"\1]\3', '\2CMD\1[\1"a"\1,\1"b"]\3', '\2ENTRYPOINT\1[\1]\3', '\2RUN\1a b', '\2CMD\1a $b', '\2ENTRYPOINT\1a', '\2EXPOSE 80',
        '\2FROM\1a\3\n\2RUN\1b\n\2COPY\1c\1d\3\n\2USER u\n\2ENV\1e=f\1g=h\3\n\2CMD\1["i",\1"j"]\3\n\2']


@prop('C21', [('c21_layout', (0,))])
def _(tier):
    n = deeper(tier, 2, 3)
    j = []
    seps = SEPS + [[h(n, W)], ['\\', W, W, NL, h(n, W)], [' \\\n', h(n, H(' \t\n'))], [' \\\n#', h(n, NB), '\n'], [' \\\r#', h(1, NB), '\r\n \n'], ['\t\\\n' * 20],
                   ['   \\\n' + '# c\n' * 20], [' \\\n# ', U2, '\n'], [' \\\n# ', U3, '\n#\n'], [' ' * 300], ['\\\n#a\\\n#b\\ \n']]
    pre = [[h(n, W)], ['\n'], [h(n, H(' \t\n'))], ['#', h(n, NB), '\n'], [W, '# ', h(1, NB), '\n\n\t'], ['\r\n \r'], ['# FROM z\n# "x\n#\\\n'], ['# ', U3, '\n'], ['\n' * 300], ['#x\n' * 100], ['# escape=`\n'], ['# syntax=a/b', h(1, NB), '\n']]
    post = [[h(n, W)], ['\t \t'], [' ' * 300]]
    for t in ARGS:
        for s in seps:
            j.append(Job('c21_layout', Part(t), Part(s), Part(''), Part('')))
        for p in pre:
            j.append(Job('c21_layout', Part(t), Part(' '), Part(p), Part('')))
        for p in post:
            j.append(Job('c21_layout', Part(t), Part(' '), Part(''), Part(p)))
        # any subset of the places
        j.append(Job('c21_layout', Part(t), Part('\t\\\n # c\n '), Part('\n# d\n\t'), Part(' '), Part(Hole(R(0, 127)), Hole(R(0, 7)), Hole(R(0, 7)))))
    # free argument text
    Z = H('aZ0=-_./$"\'#\\[,')
    Z1 = H('aZ0=-_./$"\'\\[,')      # at the start of a word '#' would make it a comment

    ZN = H('aZ0=-_./$#\\[,')
    ZN1 = H('aZ0=-_./$\\[,')
    ZE = H("aZ0=-_./$'#[, ")

    def hz(n):              # nothing may follow: a quote could swallow a place
        return [Z1] + h(n - 1, Z)

    def hn(n):
        return [ZN1] + h(n - 1, ZN)
    m = deeper(tier, 3, 4)
    for t in (['\2FROM\1', hn(m), '\1as\1b\3'], ['\2FROM\1--p=', hn(m - 1), '\1', hn(1), '\1as\1', hn(1), '\3'], ['\2ARG\1', hz(m), '\3'], ['\2LABEL\1', hn(m), ' \1', hn(1), '=c\3'], ['\2LABEL\1', hn(m), ' \1b\3'],
              ['\2COPY\1', hn(m), '\1', hn(1), '\3'], ['\2COPY\1--a=', hn(2), '\1b\1', hn(2), '\3'], ['\2ENV\1a=', hn(m), '\1', hn(1), '=b\3'], ['\2ENV\1a\1"', hz(m), '"'], ['\2ENV\1a=b\1c\1d\3'], ['\2RUN\1["', h(m, ZE), '",\1"b"\1]\3'], ['\2CMD\1', hz(m), 'x'],
              ['\2RUN\1', H('a['), h(m - 1, H('a\\\n#['))]):
        for s in (['\t'], [' \\\n\t'], ['\\\r\n# ', H('a"\\#'), '\r\n\r\n '], [' \\\n\n#"\n']):
            j.append(Job('c21_layout', Part(t), Part(s), Part([W, '\n#x\n', W]), Part([W])))
    return j


@prop('C22', [('c22_newlines', (0, 1, 2))])
def _(tier):
    n = deeper(tier, 3, 4)
    j = J('c22_newlines', frags(n, NOCR)) + J('c22_newlines', docs(h(2, NOCR), [NOCR]))
    Z = H('a#\\\n "=')
    m = deeper(tier, 5, 6)
    for k in ('RUN', 'RUN a \\\n', 'LABEL a', 'LABEL a="', 'ENV a', 'ENV a=b \\\n', 'COPY a \\\n', 'CMD ["a"', 'CMD ["', 'FROM a', 'ARG a', 'FOO a \\\n', '# x\n'):
        j += J('c22_newlines', [[k, h(m, Z)]])
    for s in SEPS:
        s = [x.replace('\r\n', '\n').replace('\r', '\n') if isinstance(x, str) else x for x in s]
        j += J('c22_newlines', [['FROM', s, '--a=b', s, 'c', s, 'as', s, 'd\n'], ['LABEL', s, 'a=b', s, '"c"=d', s, '\n'], ['LABEL', s, 'a', s, 'b'], ['RUN', s, 'a', s, 'b'], ['CMD', s, '["a"', s, ',', s, '"b"', s, ']\n\n'],
                                ['COPY', s, '--a=b', s, 'c', s, 'd'], ['ENV', s, 'a=b', s, 'c="d"', s], ['ENV', s, 'a', s, 'b', s, 'c'], ['X', s, 'a', s, '\n'], ['ARG', s, 'a=b\n']])
    j += J('c22_newlines', [['LABEL a="x\\\n', h(2, NOCR), 'y" b=\'c\\\nd\''], ['LABEL "x\\\ny\\', W, '\nz"=b', h(1, NOCR)], ['RUN ["a\nb",\n"c"]'], ['RUN a', ' \\\n# c\n b' * 20, h(1, NOCR)], ['FROM a\n' * 100, h(1, NOCR)], ['ENV a "b\n', h(1, NOCR), 'c"'], ['LABEL a="\\n\\r', h(1, NOCR), '\n"'], ['ARG a="b\nc', h(1, NOCR), '"']])
    for u in (U2, U3):
        j += J('c22_newlines', [['# ', u, '\nRUN ', u, ' \\\n# ', u, '\n b', u, '\n'], ['LABEL a="', u, '\\\n', u, '"\n']])
    j += J('c22_newlines', [w for w in worlds(tier) if not any('\r' in y for y in w if isinstance(y, str))])
    j += J('c22_newlines', directed())
    return j


@prop('C23', [('c23_compose', (0, 1))])
def _(tier):
    q = deeper(tier, 3, 4)
    B = ['RUN z', 'FROM b as c\nARG d', '# c\nENV a=b', '']
    X = Hole([i for i in R(0, 127) if chr(i) not in '"\''])
    Z = H('a#\\\n =`')
    j = []
    for f in frags(q, X):
        if '"' in Part(f).name() or "'" in Part(f).name():
            continue
        j += J('c23_compose', [f], B[0])
        j += J('c23_compose', ['FROM a as b\nARG c'], f)
    for k in ('RUN', 'RUN a', 'LABEL a=b', 'ENV a', 'ENV a=b', 'COPY a b', 'CMD [', 'FROM a', 'ARG a', 'FOO', 'FOO a', '# x', ''):
        for b in B:
            j += J('c23_compose', [[k, h(deeper(tier, 4, 5), Z)]], b)
        j += J('c23_compose', [[k, h(2, Z)]], [k, h(2, Z)])
    for a in ('ARG x=1\nFROM $x', 'LABEL a=b\nARG c', 'FROM a as b\nRUN c \\\n# d\n e', 'ARG a\nARG b=c', 'RUN a \\\n b'):
        for b in ('ARG y\nFROM a\nARG z', 'FROM b\nFROM c as d\n', 'RUN #x\nCMD y', 'ENV a b', 'LABEL c d'):
            j += J('c23_compose', [[a, h(2, X)]], [b, h(1, X)])
            j += J('c23_compose', [[a, NL, h(1, X)]], [h(1, X), b])
    n = H('ab')
    for a in (['ARG ', n, '=1\nFROM a AS ', n], ['FROM scratch AS ', n, '\nENV ', n, '=1'], ['LABEL ', n, '=1\nRUN ', n], ['COPY ', n, ' ', n, '\nFOO ', n, '\nCMD ', n], ['ARG a\nARG b=$a\nFROM x\nARG ', n], ['# escape=', n], ['SHELL ', n, '\nUSER ', n], ['ONBUILD ', n, '\nENTRYPOINT a', n]):
        for b in (['ARG ', n, '\nFROM ', n], ['FROM ', n, '\nARG ', n, '\nARG b=1'], ['ENV ', n, '=1\nENV ', n, ' $a\nLABEL ', n, '=1'], ['RUN ', n, '\nCMD ', n, '\nFOO ', n], ['COPY --from=', n, ' ', n, ' ', n, '\nFROM scratch']):
            j += J('c23_compose', [a], b)
    w = [x for x in worlds(tier) if not any(q in str([y for y in x if isinstance(y, str)]) for q in '"') and "'" not in ''.join(y for y in x if isinstance(y, str))]
    for a in w:
        j += J('c23_compose', [a], 'ARG a\nFROM a AS b\nARG b\nENV c=d') + J('c23_compose', ['ARG a=2\nARG b\nFROM x AS a\nARG b=1\nENV c=e'], a)
    j += J('c23_compose', ['FROM a\n' * 150], ['FROM b', h(1, X), '\nARG c']) + J('c23_compose', ['ARG a\n' * 150], ['ARG b', h(1, X), '\nFROM c'])
    for u in (U2, U3):
        j += J('c23_compose', [['# ', u, '\nRUN ', u]], ['RUN ', u])
    for d in DIRECTIVES:
        for b in ('RUN b `\nRUN c', 'CMD a`\nFROM x AS y\nCOPY `a b', 'ENV a=b\\\n c=d\nARG e=`', '# escape=`\nRUN a `\nRUN b', 'RUN <<EOF\nRUN a\nEOF x', 'LABEL a=`\n# c'):
            j += J('c23_compose', [d, '\nFROM a\n', b], ['RUN ', h(1, Z)]) + J('c23_compose', [d], [b, h(1, Z)]) + J('c23_compose', [b, h(1, Z)], [d, '\nRUN x `'])
    return j


# C24 - C26 ------------------------------------------------------------------

@prop('C24', [('c24_entry', (0, 1, 2)), ('c24_fail', (0, 1))])
def _(tier):
    n = deeper(tier, 3, 4)
    sz = Hole([1, 2, 3, 255])
    j = J('c24_entry', [[h(n, BYTE)], ['RUN a', h(n, BYTE)], ['FROM a\nRUN ', h(2, BYTE), 'z\n'], [h(2, BYTE), 'FROM a']], [sz, sz, sz])
    j += J('c24_entry', frags(2), [sz, sz]) + J('c24_entry', docs([A], [A]), [H('\x01\x02\x07\xff')])
    for u in (U2, U3, U4, V3, V4):
        j += J('c24_entry', [['RUN ', u, ' b', u]], [Hole([4, 5, 6, 7])] + [sz, sz, sz])
        j += J('c24_entry', [['# ', u, '\nLABEL a="', u, '"']], [Hole([1, 2, 3, 4, 5, 6])] * 2)
    j += J('c24_entry', [['\ufeffFROM a', h(1)], ['\ufeff'], ['FROM a\r\nRUN b\r\n', h(1)], ['RUN a\x00b', h(1)], ['']], [sz, sz])
    j += J('c24_entry', [['RUN ', u'\xf4', h(1)]], [sz])
    j += J('c24_entry', [[b'RUN \xed', h(2, BYTE)], [b'RUN \xf4', h(3, Hole(R(0x7e, 0xc1)))], [b'RUN a\xe2\x82'], [b'RUN \xf0', h(2, BYTE), b'\x80'], [b'RUN \xc0\x80']], [sz, sz])
    # longer than any internal buffer
    j += J('c24_entry', [['# ', 'x' * 4000, '\n', '# ', 'y' * 4180, '\nRUN a', h(1, BYTE), '\n# ', 'z' * 3000, '\nCMD b', h(1, BYTE)]], ['']) 
    j += J('c24_entry', [['# ', 'x' * 8183, '\nRUN ', U3, 'b'], ['# ', 'x' * 8184, '\nRUN ', U3, 'b'], ['# ', 'x' * 8185, '\nRUN ', '\u20ac', U2, 'b'], ['# ', 'x' * 8186, '\n']], [''])
    j += J('c24_fail', [['FROM a\nRUN b', h(1, BYTE)], [h(2, BYTE)], [''], ['RUN ', 'x' * 9000]], [sz, sz], [Hole(R(0, 6))])
    j += J('c24_fail', [['FROM a\nRUN b', A], ['FROM a\n'], [''], ['RUN b\n# ', 'x' * 9000]], [Hole([1, 7]), Hole([1, 7])], [[Hole(R(0, 4)), Hole(R(0, 18) + [35, 104])]])
    j += J('c24_entry', worlds(tier) + huge()[:1] + huge()[2:] + big(1100)[8:10], '')
    j += J('c24_entry', huge()[:1], [b'\xff' * 3, Hole([1, 7, 255])])
    for w in DICT:
        j += J('c24_entry', [[w], [w, '\n'], ['\n', w], ['FROM a\n', w, ' ', w, '\n' + w], ['ARG a=', w, '\nRUN ', w, '\n\n\n']], [Hole([1, 7])])
    return j


@prop('C25', [('c25_views', (0, 1, 2, 3, 8, 9, 10, 11, 12, 13, 14, 15, 16))])
def _(tier):
    n = deeper(tier, 2, 3)
    j = J('c25_views', frags(n))
    j += J('c25_views', docs([H('a\\\n"')], [H('a \n#')]))
    E = H('ab"\\ ')
    j += J('c25_views', [[k, ' ', h(deeper(tier, 3, 4), E)] for k in ('RUN', 'CMD', 'ENTRYPOINT', 'ENV a', 'LABEL a', 'COPY a', 'ARG a', 'FOO')])
    j += J('c25_views', [[k, ' ["', h(2, E), '"', h(1, H(',] ')), ']'] for k in ('RUN', 'CMD', 'ENTRYPOINT')])
    j += J('c25_views', [[anycase('run'), ' []'], ['FROM --a=b c as d', h(1, T)], ['LABEL ', many('a%(i)d=b', 40, ' ')], ['RUN a', ' \\\n#c\n b' * 10, h(1)],
                         [many('RUN x%(i)d\nCMD ["y"]\nENTRYPOINT z\nENV a=b\nLABEL c=d\nCOPY e f\nARG g\nFROM h\nUSER i', 3, '\n')]])
    for u in ('\u00e9\u0301', '\u200b\U0010ffff', '\ue000\u0085'):
        j += J('c25_views', [['RUN ', u], ['CMD ["', u, '"]'], ['ENV a=', u], ['LABEL ', u, '=b'], ['EXPOSE ', u], ['COPY ', u, ' b'], ['ARG a=', u], ['ENTRYPOINT ', u]])
    j += J('c25_views', worlds(tier) + huge())
    j += J('c25_views', words(tier))
    j += J('c25_views', dictionary('flxmc'))
    return j


@prop('C26', [('c26_globals', (0, 2, 3, 4))])
def _(tier):
    q = deeper(tier, 2, 3)
    j = J('c26_globals', [
        ['ARG a', h(q), '\nARG b', h(q), '\nFROM x\nARG c'], ['ARG ', h(1, L), h(1, AN), '=1\nARG ', h(1, L), h(1, AN), '=2\nFROM x\nARG ', h(1, L)], ['ARG a=1\nRUN x\nARG b\nLABEL a=b\nENV c=d\nARG a=2\nCOPY e f\nCMD g\nENTRYPOINT h\nUSER i\nARG d', h(2), '\nFROM j\nARG e\nFROM k\nARG f'],
        ['ARG a\n', h(3), '\nARG b\nFROM c'], ['ARG a\n', h(2), 'FROM b\nARG c'], ['FROM b\nARG a', h(2)], [h(3), '\nFROM a'], ['ARG aA\nARG Aa\nARG a\nFROM b\nARG A', h(1)], ['ARG ab=1\nARG a=2\nARG abc=3\nFROM x', h(1)],
        [h(deeper(tier, 3, 4))], ['ARG a="', h(1), '"\nARG a=\'b\'\nFROM c'], ['# ARG z\nONBUILD ARG y\nARG a\n\nFROM b'], [[anycase('arg'), ' a\n', anycase('from'), ' b\n', anycase('arg'), ' c']], ['ARG a\n \n#c\n\tARG b=c', h(1)]], h(deeper(tier, 2, 3), AN))
    j += J('c26_globals', [['ARG a\nARG ', 'n' * 300, h(1), '\nRUN x\nARG b=2\nFROM c\nARG d']], h(2))
    j += J('c26_globals', [['ARG ', 'n' * 300, '\nFROM x']], ['n' * 299, h(1)])
    j += J('c26_globals', [[many('ARG v%(i)d=%(i)d', 1100, '\n'), '\nFROM a\n', many('ARG w%(i)d', 30, '\n')]], ['v', DG_(), DG_(), h(1)])
    j += J('c26_globals', docs([A, A], [A]), h(1))
    for u in (U2, U3):
        j += J('c26_globals', [['ARG a=', u, '\nRUN ', u, '\nARG b\nFROM c']], [u])
    j += J('c26_globals', worlds(tier), H('aAbv')) + J('c26_globals', huge(), H('qa'))
    for w in DICT:
        j += J('c26_globals', [['ARG ', w, '=', w, '\nARG ', w, 'x\nRUN ', w, '\nARG a=', w, '\nFROM ', w, '\nARG b']], [w]) + J('c26_globals', [['ARG a=b\nRUN ', w, ' ', w, '\nFOO ', w, '\nARG c=', w, '\nFROM x']], [w, H('ac')])
        j += J('c26_globals', [['ARG a=b\nFROM x']], [w, H('a_')]) + J('c26_globals', [['ARG a=b\nFROM x']], [H('a$'), w])
    j += J('c26_globals', triples(deeper(tier, 3, 1), 'ARG a=b\n', '\nARG d=1\nFROM y'), H('adx'))
    j += J('c26_globals', keyed(), H('bc'))
    return j


# C27 - C30 --------------------------------------------------------------------

MANY = 'ARG w=1\nFROM $w AS b\nRUN c \\\n d\nLABEL x=y z="w"\nENV p=q r="s"\nCOPY --f=g h i\nCMD ["j", "k"]'


@prop('C27', [('c27_pure', (0, 1))])
def _(tier):
    q = deeper(tier, 1, 2)
    n = H('ab')
    pairs = [
        # the second text differs from the first where a remembered answer would show
        (['FROM a:', h(q, n), ' AS ', n], ['FROM a:', h(q, n), ' AS ', n]),
        (['ARG ', n, '=1\nFROM $', n, ':x'], ['ARG ', n, '=2\nFROM $', n, ':x']),
        (['ARG a=', h(q, H('ab$'))[:q], '\nFROM $a'], ['ARG a=', h(q, n), '\nFROM $a']),
        (['FROM a AS ', n, '\nFROM ', n, '\nARG ', n], ['FROM b AS ', n, '\nFROM ', n, '\nARG ', n]),
        (['RUN ', n, ' \\\n# ', n, '\n b'], ['RUN ', n, ' \\\n# ', n, '\n b']),
        (['LABEL a="', h(q, H('ab\\"')), '"'], ['LABEL a="', h(q, H('ab\\"')), '"']),
        (['ENV a="', h(q, H('ab\\')), '" c=d'], ['ENV a ', h(q, H('ab\\')), ' c=d']),
        (['CMD ["a', h(q, H('ab",')), '"]'], ['CMD ["a', h(q, H('ab",')), '"]']),
        (['COPY --from=', n, ' a b'], ['COPY --from=', n, ' a b']),
        (['FROM a', h(q, H('a@:/'))[:q], 'b'], ['FROM a', h(q, H('a@:/')), 'b']),
        (['FROM ', h(q, S), '\nRUN a'], ['FROM ', h(q, S), '\nRUN a']),
        (['EXPOSE ', h(q, S)], ['FOO ', h(q, S)]),
        (['FROM a\nFROM b\nRUN ', n], ['FROM a\nRUN ', n]),
        (['FROM a\n', h(q, NL), 'RUN b'], ['FROM a\r', h(q, NL), 'RUN b']),
        (['\u20ac'.encode().decode(), '\nFROM a'], ['FROM a', h(q, n)]),
        (['RUN a', ' \\\n b' * 40, n], ['RUN a', ' \\\n b' * 39, '  \\\n', n]),
        (['ARG ', n, '\nFROM a'], ['FROM a\nARG ', n]),
        (['ARG a=$b\nARG b=$a\nFROM ${', n, '}'], ['ARG a=$b\nARG b=', n, '\nFROM ${a}']),
        (['FROM a@sha256:', '0' * 63, H('0g')], ['FROM a@sha256:', '0' * 63, H('0g')]),
        (['FROM ${a', h(q, n)], ['FROM $', h(q, n)]),
    ]
    j = []
    for a, b in pairs:
        for k in ([H('ab01')], ['a']) if q == 1 else ([H('abB019')],):
            j.append(Job('c27_pure', Part(a), Part(b), Part(k), 'z'))
            j.append(Job('c27_pure', Part(b), Part(a), Part(k), 'zz'))
    for a, b in (('ARG v=1\nFROM a:$v', 'ARG v=2\nFROM a:$v'), ('FROM a AS b\nFROM b', 'FROM c\nFROM b'), ('RUN a', 'RUN b'), ('ARG a', 'FROM x\nARG a'), ('LABEL a=b', 'LABEL a="b"')):
        for x in (a, b):
            for y in (a, b, ['  ', a], [a, '\n'], [b, '\n# c'], [b.lower()]):
                j.append(Job('c27_pure', Part(x), Part(y), Part(H('avb0')), 'q'))
    j.append(Job('c27_pure', Part(many('FROM a%(i)d AS s%(i)d', 70, '\n')), Part(many('FROM b%(i)d AS s%(i)d', 70, '\n'), '\nFROM s6', H('59')), Part('s6', H('09')), 'q'))
    j.append(Job('c27_pure', Part('RUN ', 'x' * 9000, H('ab')), Part('RUN ', 'x' * 9000, H('ab')), 'a', 'q'))
    for d in docs(['a'], [H('a#\\\n')]):
        j.append(Job('c27_pure', Part(d), Part(d), Part([H('xa')]), ''))
    for d in worlds('quick'):
        j.append(Job('c27_pure', Part(d), Part('FROM b\nARG a=3'), Part('a'), 'r'))
    for f in frags(q):
        j.append(Job('c27_pure', Part(f), Part('FROM b'), Part('a'), 'r'))
    # a text that fails after some of its instructions were read, then one that does not
    for bad in ('FROM a\nFROM b@c', 'FROM a\nARG a="\\ud800"', 'ARG q=1\nFROM a AS b\nLABEL a="\\ud800"', 'FROM a\nENV a="\\ud800"', 'FROM a\nFROM b\nRUN ["\\ud800"]', 'FROM a AS b\nCOPY "\\ud800" x', 'FROM a\nRUN x \\\n# y\nFROM z@sha256:0', 'FROM a\nFROM', 'ARG a=1\nFROM', 'LABEL a=b "c', 'FROM --a="\\ud800" b', '\nFROM a AS'):
        for good in (['FROM a AS ', n, '\nFROM ', n], ['ARG a=', n, '\nFROM $a\nARG a'], ['RUN x \\\n# ', n, '\n y\nLABEL a="', n, '"'], ['ENV ', n, '="c"\nCMD ["', n, '"]\nCOPY --from=0 a b\nFROM z']):
            j.append(Job('c27_pure', Part(bad), Part(good), Part('a'), 'z'))
            j.append(Job('c27_pure', Part(good), Part(bad), Part('a'), 'z'))
    # one word in every role, then in every other
    roles = ['FROM W:5/x', 'FROM W/x', 'FROM x:W', 'FROM x@W', 'FROM W', 'FROM x/W:y', 'FROM $W', 'ARG W=1\nFROM $W', 'ARG x=W\nFROM ${x}', 'FROM x AS W', 'FROM x AS W\nFROM W', 'FROM x\nARG W\nRUN y', 'FROM --W=x y', 'RUN W', 'CMD ["W"]',
             'LABEL W=x', 'LABEL x="W"', 'ENV W x', 'ENV x=W y="W"', 'COPY --from=W x y', 'COPY W x', 'W x', 'RUN x \\\n# W\n y', '# W\nFROM y']
    for u in roles:
        for v in roles:
            a, b = u.split('W'), v.split('W')
            j.append(Job('c27_pure', Part(*sum(([x, 'w'] for x in a), [])[:-1]), Part(*sum(([x, H('wvW') if y == 0 else 'w'] for y, x in enumerate(b)), [])[:-1]), Part('w'), Part('w')))
    # asked again and again
    for a in (MANY, 'LABEL a=b c=d', 'ENV a=b c=d', 'COPY --f=g h i', 'CMD ["j", "k"]', 'RUN a \\\n b'):
        j.append(Job('c27_pure', Part(a), Part('FROM w'), Part('w'), 'q', Part(Hole([0]), Hole([120]))))
    for a, b in (('FROM a AS w\nFROM w\nRUN x', 'ARG w=1\nFROM $w:a AS b\nCOPY --from=b c d\nLABEL a="b"'), ('RUN a \\\n# b\n c\nENV w=x', 'CMD ["w"]\nEXPOSE 80')):
        j.append(Job('c27_pure', Part(a), Part(b), Part(H('wv')), 'q', Part(Hole([0, 7, 8, 31, 40]), Hole([0, 9, 130]))))
        j.append(Job('c27_pure', Part(b), Part(a), Part(H('wv')), 'q', Part(Hole([1, 2, 3, 4, 5, 9]), Hole([1, 15, 64]))))
    return j


@prop('C28', [('c28_edit', (0, 2, 3, 4, 5, 6))])
def _(tier):
    q = deeper(tier, 1, 2)
    word = [L] + h(q, AN)
    flat = [
        ['FROM --platform=', h(2, T), ' a/b:c AS d\nRUN e', T], ['ARG a=', T, '\nARG a\nFROM $a as a\nARG a=\'b c\'\nFROM a'], ['LABEL a=', T, ' "c d"="e"\nLABEL \'f\' g\nLABEL h "i j"'],
        ['ENV a=', T, ' b="c d" e=\'f\'\nENV g h i\nENV j "k l"'], ['RUN a ', T, ' \\\n # c \\\n  d\nCMD e \\\n# f'], ['CMD ["a", "', T, '"]\nENTRYPOINT [ \'b\' ,"c" ]\nRUN ["d",]'],
        ['COPY --from=a --chown=', T, ' b "c" \\\n d'], ['EXPOSE 80', T, '\nFOO\tbar \\\n baz\nUSER \\\n# x\n y'], ['# a\n FROM a \\\n as b\r\n\tRUN c\r\nCMD d\r\n', NL],
        ['FROM a:b@c'.replace('@c', ''), T, '\nFROM x/y/z\nFROM a@sha256:' + '0' * 64], ['LABEL "\u00e9"="\u20ac" a=\U0001f600\nRUN \u00fc \\\n#\u00e4\nCOPY \u00df b\nENV a=\u00f1 b=c', W],
    ]
    # a value replaced by a word of another length
    j = []
    for d in flat:
        j.append(Job('c28_edit', Part(d), Part(Hole(R(0, 11))), Part(word)))
    for d in docs(['a'], [S1]) + [f for f in frags(2, H('ab=" \\\n'))]:
        j.append(Job('c28_edit', Part(d), Part(Hole(R(0, 11))), Part('Zz9_0')))
    for d in flat:
        j.append(Job('c28_edit', Part([x if not isinstance(x, Hole) else 'x' for x in Part(d).items]), Part(Hole(R(0, 8)), Hole(R(0, 8))), Part([L]), Part('qwertyuiop_0123456789')))
        j.append(Job('c28_edit', Part([x if not isinstance(x, Hole) else 'x' for x in Part(d).items]), Part(Hole(R(0, 5)), Hole(R(0, 5)), Hole(R(0, 5))), Part([H('aZ')]), Part('arg'), Part('longer_than_before_' * 3)))
    # four and five edits in every order, growing and shrinking
    lines = ['FROM --p=x a AS b\nRUN c\nARG d=e\n', 'COPY --f=g aa bb cc\nLABEL k=vvv "l"="m"\n', 'ENV a=b c="d"\nCMD ["e", "ff"]\nRUN g \\\n # h\n  i\n']
    for d in lines:
        j.append(Job('c28_edit', Part(d), Part(*[Hole(R(0, 4))] * 4), 'longer_one', Part(L), 'mid', 'x'))
        j.append(Job('c28_edit', Part(d), Part(*[Hole(R(0, 4))] * 5), 'q', 'longer_one', 'zz', Part(L, 'b'), 'some_other_text'))
    for w in ('from', 'AS', 'as', 'scratch', 'RUN', 'x' * 300):
        for d in flat:
            j.append(Job('c28_edit', Part([x if not isinstance(x, Hole) else 'x' for x in Part(d).items]), Part(Hole(R(0, 11))), Part(w)))
    for w in ('x' * 40000, 'y' * 70000):
        for d in flat[:4]:
            d = [x if not isinstance(x, Hole) else 'x' for x in Part(d).items]
            j.append(Job('c28_edit', Part(d), Part(Hole(R(0, 3)), Hole(R(0, 5))), Part(w), 'q'))
    for d in worlds(tier):
        j.append(Job('c28_edit', Part(d), Part(Hole(R(0, 50)) if tier == 'thorough' else Hole([0, 1, 2, 3, 5, 8, 11, 14, 17, 20, 24, 30])), Part('q1')))
    return j


@prop('C29', [('c29_alone', (0, 1, 2, 8, 9, 10, 11, 12, 13, 14, 15, 16))])
def _(tier):
    n = deeper(tier, 3, 4)
    j = J('c29_alone', frags(n)) + J('c29_alone', [f for x in frags(deeper(tier, 2, 3)) for f in in_context(x)[1:]])
    j += J('c29_alone', docs(h(2, S), [A])) + J('c29_alone', worlds(tier)) + J('c29_alone', big(1100)[:9] + huge())
    Z = H('a#\\\n "=')
    for k in ('RUN', 'RUN a \\\n', 'LABEL a', 'LABEL a=b \\\n', 'ENV a', 'ENV a=b \\\n', 'COPY a \\\n', 'CMD ["a"', 'FROM a', 'ARG a', 'FOO a \\\n'):
        j += J('c29_alone', [['ARG z\n', k, h(deeper(tier, 4, 5), Z), '\nRUN y']])
    for u in (U2, U3, U4, V3, V4):
        j += J('c29_alone', [['# ', u, '\nRUN ', u, ' \\\n# ', u, '\n b', u, '\n'], ['LABEL a="', u, '\\\n', u, '"\nENV b=', u, ' c=', h(1)]])
    j += J('c29_alone', words(tier))
    j += J('c29_alone', triples(deeper(tier, 4, 1)))
    j += J('c29_alone', dictionary())
    j += J('c29_alone', lengths())
    j += J('c29_alone', pairs_of(deeper(tier, 1, 1)))
    j += J('c29_alone', directed())
    j += J('c29_alone', [d for w in PHRASES for d in inside(w)])
    j += J('c29_alone', keyed())
    return j


@prop('C30', [('c30_build', (0,))])
def _(tier):
    q = deeper(tier, 3, 4)
    nums = [R(0, 255)]
    j = []
    for x, y, z in ((h(q), 'y', 'z'), ('', h(q), ''), ('#', '', h(q)), (h(1), h(1), h(1)), (U2, U3, U4), ('a' * 300, h(1), '\n'), ('', '', ''), ('\\\n', ' \\\r\n ', '#')):
        j.append(Job('c30_build', Part(x), Part(y), Part(z), Part(bytes([3, 9, 9, 12, 200]))))
        j.append(Job('c30_build', Part(x), Part(y), Part(z), Part(bytes([9, 3, 0, 0, 255]))))
    j.append(Job('c30_build', 'a', '/', '@', Part(*[Hole(R(0, 255)) for _ in range(5)])))
    j.append(Job('c30_build', 'a', 'b', 'c', Part(*[Hole(R(0, 9)) for _ in range(5)])))
    for w in DICT:
        j.append(Job('c30_build', Part(w), Part(w, H('a0')), Part(w), Part(bytes([1, 2, 3, 4, 5]))))
    for w in ('sha256:', 'sha256:abc', 'latest', 'library/a', 'docker.io', 'localhost', 'x:5000', 'scratch'):
        for y in ('sha256:' + HEX64, 'a', 'b.c', ''):
            j.append(Job('c30_build', Part(w), Part(y, h(1, IMG)), Part(h(1, IMG)), Part(bytes([1, 2, 3, 4, 5]))))
            j.append(Job('c30_build', Part(h(1, IMG)), Part(w), Part(y, h(1, IMG)), Part(bytes([1, 2, 3, 4, 5]))))
            j.append(Job('c30_build', Part(y), Part(h(1, IMG)), Part(w, h(1, IMG)), Part(bytes([1, 2, 3, 4, 5]))))
    return j


# C31 - C35 --------------------------------------------------------------------

@prop('C31', [('c31_limit', (0, 1, 2)), ('c31_map', (0, 2))])
def _(tier):
    q = deeper(tier, 3, 4)
    V = H('$ab{}')
    LIM = Hole(R(0, 255))
    j = []

    def s(t, kv, lim, old='q'):
        kv = list(kv) + [('', '')] * (3 - len(kv))
        j.append(Job('c31_limit', Part(t), *[Part(x) for p in kv for x in p], Part(lim), Part(old)))
    abc = [('a', '$b'), ('b', '${c}'), ('c', 'x')]
    for old in ('q', 'a', 'c', ''):
        s('$a', abc, LIM, old)
        s(['$', H('abcd'), '-${', H('abcd'), '}'], abc, Hole(R(0, 5)), old)
    s('plain', abc, LIM)
    s('', [], LIM)
    s([h(q)], [('a', 'v')], Hole(R(0, 2)))
    s(['$a', h(q - 1)], [('a', '1'), ('ab', '2'), ('a_', '3')], Hole(R(0, 3)))
    s([h(q, V)], [('a', ['$', H('ab')]), ('b', [h(1, V)])], Hole(R(0, 4)))
    s(['$a', h(1), '$b'], [('a', ['<', h(2, V), '>']), ('b', '$c$c'), ('c', h(1, V))], Hole(R(0, 4)))
    s('$a', [('a', '$a')], LIM)
    s(['x$a'], [('a', ['$', H('ab')]), ('b', '$a')], LIM)
    s('$a$b$c', [('a', h(1)), ('b', h(1)), ('c', h(1))], Hole(R(0, 2)))
    s(['$', 'n' * 300, h(1, AN)], [('n' * 300, '1'), ('n' * 300 + 'a', '2')], Hole(R(0, 2)))
    s('$a' * 40 + 'b' * 300, [('a', ['x' * 40, h(1)])], Hole(R(0, 2)))
    s(['$', AN, AN], [([AN, AN], 'v1'), (AN, 'v2')], Hole(R(0, 2)))
    s(['${a', h(2)], [('a', 'v'), ('a-b', 'w'), ('a}', 'z')], Hole(R(0, 2)))
    for u in (U2, U3, U4, V3, V4):
        s([u, '$a', u, '${b}'], [('a', u), ('b', [u, '$a'])], Hole(R(0, 3)))

    def m(t, kv, lim, old='q'):
        j.append(Job('c31_map', Part(t), Part(*[[k, '=', v, '\n'] for k, v in kv]), Part(lim), Part(old)))
    # chains around every limit, in short and long texts
    for n in (2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 253, 254, 255, 256, 300):
        kv = [('v%d' % i, '$v%d' % (i + 1)) for i in range(n - 1)] + [('v%d' % (n - 1), ['e', T])]
        m('$v0', kv, LIM)
        if n < 70:
            m(['y' * 50, '${v0}', T, '$v%d' % (n - 1)], kv[::-1], Hole(sorted(set(x for x in (0, 1, 2, n - 2, n - 1, n, n + 1, n + 2, 64, 128, 255) if x >= 0))), 'v1')
            m(['$v0'], [(k, ['z' * 60, v, '-' * 60]) for k, v in kv], Hole([n - 1, n, 255]), 'v1')
    for n in (20, 70, 260):
        m([['$w%d-' % i for i in range(n)], h(1)], [('w%d' % i, 'x%d' % i) for i in range(n)], Hole([0, 1, 2, 255]))
        m(['$w%d' % (n - 1), h(1)], [('w%d' % i, '' if i % 7 else '$w0') for i in range(n)], Hole([0, 1, 2, 255]), 'w0')
        m(['$', 'a' * n, h(2, AN)], [('a' * n, '1'), ('a' * (n + 1), '2'), ('a' * (n + 2), '3')], LIM)
    # every length of name and value
    for i in range(0, 40):
        m(['${', L, 'k' * i, '}$k'], [(['k' * i, L], [h(min(i, 6), H(DG)), T]), ('k', ['v' * i, H(DG)])], Hole([0, 1, 2]))
        s(['$a', u], [(['a', u], 'x'), ('a', 'y')], Hole(R(0, 2)), u)
    # nesting of every depth against every limit, up to three entries that name one another
    for x in ('$b', '${b}'):
        s('$a', [('a', x), ('b', ['z', H('$x'), 'c']), ('c', [H('$y'), 'b'])], LIM)
    for w in DICT:
        m(['$', w, '-${', w, '}', H('a}')], [('a', 'v'), (w.split('=')[0].replace('\n', ''), 'w')], Hole([0, 1, 2]), 'a')
        m(['x$a', w, '${a}', T], [('a', w)], Hole([0, 1, 2, 255]), w)
    return j


EDITED = ['ARG a=1\nARG b=$a\nFROM x:$a AS s\nARG a\nRUN y\nFROM s AS t\nARG b=2\nCOPY --from=s p q\nFROM t\n', 'FROM scratch AS a\nFROM a AS b\nFROM b\nRUN x',
          'ARG a\nLABEL a=b\nARG a=2\nFROM $a', 'RUN x\nENV a=b\nCMD y', '']
GIVEN = ['FROM a AS ', 'ARG a=', 'RUN z', 'FROM scratch AS s\nARG b=3\nARG a=9\nRUN w\nFROM s']


@prop('C32', [('c32_edited', (0, 2, 3, 4, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19))])
def _(tier):
    n = H('abs') if tier == 'thorough' else H('as')
    j = []
    OP, AT = Hole(R(0, 9)), Hole(R(0, 8))
    for d in EDITED:
        for g in (['FROM a AS ', n], ['ARG ', n, '=4'], [GIVEN[3]]):
            j.append(Job('c32_edited', d, Part(OP, AT), Part(g), Part(n), 'r.io', '$b', Part('$', n)))
        two = Hole([0, 1, 2, 3, 6, 7, 8]) if tier == 'quick' else OP
        j.append(Job('c32_edited', d, Part(two, Hole([0, 1, 2, 5]) if tier == 'quick' else AT, two, Hole([0, 1, 3]) if tier == 'quick' else AT), GIVEN[3], Part(n), 'r.io', 'i', '1'))
    d = EDITED[0]
    # references of any shape, against lists that no longer match the text
    j.append(Job('c32_edited', d, Part(Hole([4, 5, 6]), Hole([0, 1])), GIVEN[3], 'a', Part([H('$a.')], H('ab')), Part(H('$a'), H('ab')), Part(H('$a'), H('ab'))))
    j.append(Job('c32_edited', d, Part(Hole([4, 5, 6]), Hole([0, 1]), Hole([4, 5, 6]), Hole([0, 1])), GIVEN[3], 'b', 'r', Part('${', H('ab'), '}'), ''))
    for k in (['S', H('sS')], [h(2, AN)], ['SCRATCH'], ['0'], ['2']):
        j.append(Job('c32_edited', EDITED[1], Part(Hole([0, 1, 2, 6, 7, 8]), Hole([0, 1, 2, 3])), 'FROM b AS SS', Part(k), '', 'i', ''))
    j.append(Job('c32_edited', Part(many('FROM a%(i)d as s%(i)d\nARG b%(i)d', 40, '\n')), Part(Hole([0, 1, 2, 6]), Hole([0, 1, 40, 77])), 'RUN x', Part('s', H('13'), H('0129')), 'r', 'i', 't'))
    for w in worlds('quick')[:6]:
        w = [x if not isinstance(x, Hole) else chr(x.v[0]) for x in Part(w).items]
        w = [x.decode() if isinstance(x, bytes) else x for x in w]
        j.append(Job('c32_edited', Part(w), Part(OP, Hole([0, 1, 2, 4])), GIVEN[3], Part(H('ab')), 'r', '$a', 'b'))
    return j


def far(n):
    """errors in column n or line n or so"""
    x = 'a' * n
    return [['FROM ', x, H(' _'), 'AS'], ['ARG ', x, H(' _'), 'b'], ['RUN b\nFROM ', x, ' b', h(1)], ['ENV ', x, h(1)], ['1', x, h(1)], ['FROM a ', x, h(1)], [' ' * n, h(1)], ['FROM ', 'b', ' ' * n, H('aA'), 's', h(1)], ['# ', x, '\nFROM b AS', h(1), '\n# ', x]] + \
           ([['# a\n' * n, 'FROM a b', h(1)], ['\n' * n, '1', h(1)]] if n <= 300 else [])


@prop('C33', [('c33_errors', (0, 1, 2, 3, 4, 5))])
def _(tier):
    n = deeper(tier, 3, 4)
    j = J('c33_errors', frags(n)) + J('c33_errors', [f for x in frags(2) for f in in_context(x)[1:]]) + J('c33_errors', docs(h(2, S), [A])) + J('c33_errors', worlds(tier))
    E = H('\\"\'nuU0aF`x\n')
    for k in ('RUN ["', 'ENV a="', 'LABEL a="', 'LABEL "', 'ARG a="', 'COPY "', 'FROM --a="'):
        j += J('c33_errors', [[k, h(deeper(tier, 3, 4), E), '"'], ['RUN x\n', k, h(2, E), '"=b']])
    F = 'FROM a@sha256:'
    j += J('c33_errors', [['FROM a@', h(3)], [F, HEX64[:62], h(2)], ['FROM a\nRUN x\nFROM b@', h(2), ' as c'], ['FROM a@sha', h(2, H('0123456789')), '6:' + HEX64]])
    for u in (U2, U3, U4, V3, V4):
        j += J('c33_errors', [[f] for f in frags(1, u)])
        j += J('c33_errors', [['RUN ', u, '\n', u, '\nRUN x'], ['# ', u, '\nLABEL a=', u, '\n\n', u, h(1)], ['FROM ', u, u, h(2)]])
    j += J('c33_errors', [['\n' * 300, 'FROM', h(2)], ['FROM a\n' * 100, 'FROM', h(2), '\n', 'RUN x\n' * 100], ['RUN ', 'x' * 300, '\n', 'Y' * 300, h(1)], [h(deeper(tier, 4, 5))], ['\r\n\r\n', h(2), '\r\nFROM a'], ['FROM a\r', h(2), '\rRUN b', NL], ['FROM a\r\nRUN b\r\n', h(2), '\r\nCMD c\r\n'], ['LABEL a="x\\\r\n y" b\r\n', h(1)], ['\n\r\n\r', h(1), 'FROM\r\n']])
    j += J('c33_errors', huge()) + J('c33_errors', words('quick')[::3])
    j += J('c33_errors', [['# ' + 'x' * 1000 + '\n'] * 66 + ['FROM', h(1)], ['FROM a\n' * 1100, 'FROM ', h(1), '@'], ['RUN ', 'x' * 70000, '\nLABEL ', h(1)]])
    j += J('c33_errors', dictionary())
    j += J('c33_errors', directed())
    for p in ('ARG a="', 'LABEL a="', 'ENV a="', 'RUN ["', 'LABEL "',):
        j += J('c33_errors', code_points(p) + code_points(p, {'[': ']', '"': '=b'}.get(p[-2:-1].strip() or p[-1], ' c')))
    j += J('c33_errors', [d for w in PHRASES for d in inside(w)])
    j += J('c33_errors', [d for n in (30, 78, 79, 80, 99, 100, 119, 120, 127, 128, 200, 254, 255, 256, 300, 1000, 5000) for d in far(n)])
    return j


@prop('C34', [('c34_equal', (0, 1, 2, 3)), ('c34_image', (0, 1))])
def _(tier):
    j = []
    n = deeper(tier, 1, 2)
    for f in frags(n, H('ab" =\\\n')) + docs(['a'], [H('ab')]) + worlds(tier)[:8]:
        j.append(Job('c34_equal', Part(f), Part(f)))
    pairs = [('FROM a', ['FROM a', h(2)]), ('LABEL a=b', ['LABEL ', H('ab "'), H('=a '), H('ab"')]), ('RUN ["a"]', ["RUN ['", H('ab'), "']"]), ('RUN [a]', ['RUN ', h(3, H('[a]'))]),
             ('ENV a=b c=d', ['ENV ', H('ab'), '=', H('bc'), ' ', H('cd'), H('=d'), 'd']), ('RUN a \\\n# c\nb', ['RUN a \\\n', H('#a'), H(' b'), 'c\nb']), ('COPY --a=b c d', ['COPY --', H('ab'), '=', H('bc'), ' ', H('cd'), ' ', H('de')]),
             ('ARG a=b', ['ARG a', H('=b'), H('ab')]), ('ARG a', [W, 'ARG a']), ('FROM --p=a b as c\nFROM b', ['FROM --', H('pq'), '=a ', H('bc'), ' as ', H('cd'), '\nFROM ', H('bc')]), ('EXPOSE 80', ['EXPOSE', W, H('89'), H('80')]),
             ('# a\nRUN x', ['# ', H('ab'), '\nRUN x']), ('RUN x\n', ['RUN x', h(1)]), ('LABEL a="b"', ['LABEL a=', h(1), 'b', h(1)]), ('CMD a', [H('CR'), H('MU'), H('DN'), ' a']), ('ENTRYPOINT ["a","b"]', ['ENTRYPOINT ["', H('ab'), '"', H(', '), '"', H('ab'), '"]']),
             ('FROM a:b', ['FROM a', H(':/-.'), 'b']), ('FROM a\nFROM a', [H('FR'), H('RU'), H('ON'), H('M '), H(' a'), H('ab'), '\nFROM a']), ('RUN ab\nFROM a', ['FROM a', NL, 'FROM a']), ('FROM x.y/a', ['FROM x', H('.:/'), 'y/a'])]
    for a, b in pairs:
        j.append(Job('c34_equal', Part(a), Part(b)))
        j.append(Job('c34_equal', Part(b), Part(a)))
    for u in (U2, U3):
        j.append(Job('c34_equal', Part('RUN ', u, '\nLABEL a=', u), Part('RUN ', u, '\nLABEL a=', u)))
    j.append(Job('c34_equal', Part('RUN ', 'x' * 300, h(1)), Part('RUN ', 'x' * 300, h(1))))
    j.append(Job('c34_equal', Part('RUN a\n' * 100), Part('RUN a\n' * 99, 'RUN ', H('ab'), NL)))
    j.append(Job('c34_equal', Part('LABEL ', many('k%(i)d=v', 60, ' ')), Part('LABEL ', many('k%(i)d=v', 59, ' '), ' k5', H('89'), '=', H('vw'))))
    for d in dictionary('falexc')[::3]:
        j.append(Job('c34_equal', Part(d), Part(d)))
    # references that mean the same to Docker, or look alike
    V = H('aAb:/@.')
    for a in ('a', 'a:b', 'h.x/a', 'h:1/a:b', 'a@b', 'a/b', 'A:B'):
        for b in ([a], [a, V], [V, a], [a, ':latest'], ['docker.io/', a], ['docker.io/library/', a], ['library/', a], ['index.docker.io/', a], [a.upper()], [a.lower()], [a, ':'], [a, '@'], ['/', a], [a, '/'], [' ', a], [a, ' '], [h(1), a[1:]], [a[:-1], h(1)], [a, '@sha256:', HEX64], [a, ':80'], ['h.x:443/', a]):
            j.append(Job('c34_image', Part(a), Part(b)))
            j.append(Job('c34_image', Part(b), Part(a)))
    j.append(Job('c34_image', Part(h(3, V)), Part(h(3, V))))
    for w in DICT[::2]:
        j.append(Job('c34_image', Part(w), Part(w, h(1))))
        j.append(Job('c34_image', Part('a:', w), Part('a:', w.swapcase())))
    return j


@prop('C35', [('c35_anywhere', (0, 2))])
def _(tier):
    j = []
    T1 = Hole(R(32, 126))
    texts = ['FROM a as b\nRUN c', 'ENV a="b" \\\n c=d', '\n# x\nLABEL a=b', 'RUN ["a"]\r\nX y']
    for t in texts:
        n = len(t)
        one = Hole(R(0, n))
        j.append(Job('c35_anywhere', t, Part(one, one), Part(h(2))))
        some = Hole([i for i in R(0, n) if i % deeper(tier, 3, 2) == 0 or i == n])
        for r in (('XYZ', ''), ('', 'longer text'), ([T1], [T1, T1])):
            j.append(Job('c35_anywhere', t, Part(one, one, some, some), *[Part(x) for x in r]))
        few = Hole([i for i in R(0, n) if i % deeper(tier, 5, 4) == 0 or i == n])
        for r in (('XYZ', '', 'ab'), ('', 'x' * 40, 'Q'), ('', '', '')):
            j.append(Job('c35_anywhere', t, Part(few, few, few, few, few, few), *[Part(x) for x in r]))
    # the text itself free as well
    for t in (['RUN', h(4, H(' \na#\r'))], ['X y\n', h(3, H('\n#')), '\n'], ['A b', h(2, H(' \n\r')), 'CMD', h(2, H(' \nc'))], ['RUN b\n\n\n'], ['\n\nX y\r\n\r\n'], ['X "y" \\\n\n#z\n']):
        n = sum(len(i) if isinstance(i, bytes) else 1 for i in Part(t).items)
        for r in ('', [h(1)], 'z\n'):
            j.append(Job('c35_anywhere', Part(t), Part(Hole(R(0, n)), Hole(R(0, n))), Part(r)))
    for u in (U2, U3, U4, V3, V4):
        t = Part('RUN ', u, '\n#', u, '\nCMD x')
        n = sum(len(i) if isinstance(i, bytes) else 1 for i in t.items)
        j.append(Job('c35_anywhere', t, Part(Hole(R(0, n)), Hole(R(0, n))), Part(u)))
        j.append(Job('c35_anywhere', t, Part(Hole(R(0, n)), Hole([3, 4, 6, n]), Hole([4, 5, 6, 7]), Hole([5, 6, 7, 8, n])), Part('ab'), Part('')))
    j.append(Job('c35_anywhere', Part('RUN ', 'x' * 400, '\n\nCMD y'), Part(Hole([0, 4, 100, 255]), Hole([5, 101, 254, 255]), Hole([0, 50, 200]), Hole([99, 255])), Part('z' * 300), Part('')))
    j.append(Job('c35_anywhere', Part('RUN abcdefgh'), Part(Hole([4]), Hole([5]), Hole([6]), Hole([7]), Hole([8]), Hole([9]), Hole([10, 5]), Hole([11, 6]), Hole(R(0, 11)), Hole(R(1, 12))), Part('longer'), Part(''), Part('x'), Part('yy'), Part('ZZZ')))
    # many splices
    for k in (20, 40, 90):
        for r in (['xx'], ['', 'yyy', 'z'], ['x' * 9, '']):
            for o in (1, -1):
                j.append(Job('c35_anywhere', 'COPY' + ' a' * 100, Part(*[Hole([5 + 2 * i + e]) for i in range(k)[::o] for e in (0, 1)]), *[Part(x) for x in (r * k)[:k]]))
    return j


# constants of the code under test ---------------------------------------------

TOKEN = re.compile(r'//[^\n]*|/\*.*?\*/|b?r(#*)"(.*?)"\1|b?"((?:\\.|[^"\\])*)"|b?\'((?:\\[^\']+|\\\'|[^\'\\]))\'|\b(0x[0-9a-fA-F_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|size))?\b', re.S)
ESC = re.compile(r'\\(n|r|t|0|\\|\'|"|x[0-9a-fA-F]{2}|u\{[0-9a-fA-F]{1,6}\}|\n\s*)')


def constants(repo):
    """the words and numbers written in the code under test (tests and comments aside)"""
    def esc(m):
        c = m.group(1)
        if c[0] in 'xu':
            return chr(int(c.strip('xu{}'), 16))
        return {'n': '\n', 'r': '\r', 't': '\t', '0': '\0', '\\': '\\', "'": "'", '"': '"'}.get(c, '')
    words, numbers = set(), set()
    for root, _, files in sorted(os.walk(repo + '/src')):
        for f in sorted(files):
            if not f.endswith(('.rs', '.pest')):
                continue
            t = open(os.path.join(root, f), errors='replace').read()
            if f.endswith('.rs'):
                t = t.split('#[cfg(test)]\nmod ')[0]
            for m in TOKEN.finditer(t):
                w = m.group(2) if m.group(2) is not None else m.group(3) if m.group(3) is not None else m.group(4)
                if w is not None:
                    try:
                        w = w if m.group(2) is not None else ESC.sub(esc, w)
                        w.encode()
                    except (ValueError, UnicodeError):
                        continue
                    words.update([w] + re.split(r'\{[^{}]*\}', w))
                elif m.group(5):
                    try:
                        numbers.add(int(m.group(5).replace('_', ''), 0))
                    except ValueError:
                        pass
    return sorted(w for w in words if w), sorted(numbers)


def new_constants():
    """those that the code had when these templates were written are in them already"""
    here = os.path.dirname(os.path.abspath(__file__))
    old = json.load(open(here + '/constants.json'))
    w, n = constants(os.environ.get('VERIF_REPO', '/repo'))
    w = sorted((x for x in w if x not in old['words'] and len(x) <= 300 and x.count(' ') <= 3), key=lambda x: (len(x), x))[:12]
    n = [x for x in n if x not in old['numbers'] and x > 1][:8]
    return w, n


DOCS = {'C01': ['c01_parse'], 'C02': ['c02_model', 'c02_spans'], 'C03': ['c03_source'], 'C04': ['c04_kinds'], 'C05': ['c05_shell'], 'C06': ['c06_exec'], 'C07': ['c07_from'], 'C08': ['c08_digest'], 'C11': ['c11_resolve'],
        'C12': ['c12_stages'], 'C13': ['c13_parents'], 'C16': ['c16_relative'], 'C17': ['c17_env'], 'C18': ['c18_label'], 'C19': ['c19_arg'], 'C20': ['c20_copy'], 'C25': ['c25_views'], 'C29': ['c29_alone'], 'C33': ['c33_errors']}


def from_constants(p):
    """templates around the constants found in the code under test"""
    ws, ns = new_constants()
    if not ws and not ns:
        return []
    x = H('a0')
    words = []
    for w in ws:
        words += [w, w.upper(), w.lower(), 'a' + w, w + 'a', 'A' + w + 'A', w + w, w[1:], w[:-1], w.strip()]
    if len(ws) <= 5:
        words += [a + m + b for a in ws for b in ws if a != b for m in ('', 'a')]
    words += [str(n + d) for n in ns for d in (-1, 0, 1)]
    words += [c * (n + d) for n in ns if n <= 5000 for d in (-1, 0, 1) for c in 'xZ0' if n + d > 0]
    words += ['x' * (n + 1) for n in ns if 5000 < n <= 70000]
    words = list(dict.fromkeys(w for w in words if w))[:150]
    plain = [w for w in words if not re.search(r'[\s"\']', w)]
    texts = [d for w in plain for d in dictionary('falerxmc#', [w]) + scenes(w, x)] + [d for w in words for d in inside(w, x)]
    texts += [[w, h(1)] for w in words] + [['FROM a\n', w, '\nRUN b'] for w in words] + [[w, '\nFROM a AS b\nRUN c `\nRUN d \\\n e', x] for w in words]
    for n in ns:
        if n <= 1200:
            for d in (-1, 0, 1):
                texts += big(max(1, n + d)) + [[chain(n + d)]] if n < 60 else big(max(1, n + d))
        if 32 < n <= 70000:
            for d in (-1, 0, 1):
                pad = '# ' + 'p' * (n + d)
                texts += [[pad, f] for f in ('\nFROM a AS b ', '\nRUN c ', '\nRUN d \\\n# e\n f ', '\nLABEL g=h "i"=j ', '\nENV k=l m="n" ', '\nENV o p ', '\nCOPY --q=r s t ', '\nCMD ["u", "v"] ', '\nARG w=x ', '\nFOO y ')]
                texts += [['FROM a@sha256:', (HEX64 * 3)[:k]] for k in (n + d, n + d - 7) if 0 < k < 190]
    j = []
    for hn in DOCS.get(p, []):
        j += J(hn, texts)
    if p == 'C33':
        j += J('c33_errors', [d for n in ns if n <= 5000 for e in (-9, -6, -1, 0, 1) if n + e > 0 for d in far(n + e)])
    img = [v for w in words for v in ([w, x], ['a/', w], [w, '/a'], [w, ':b/', x], ['a.b/', w, H('a/:@')], ['a:', w], ['a@', w], ['a:b@', w], [w, '/', w, ':', w], [w, '.c/d'], ['c.', w, '/d'], [H('a:/@'), w, H('a:/@')])]
    kv = ['ARG %s=1\nFROM $%s' % (w, w) for w in plain]
    mini = [['FROM a AS ', w, '\nARG ', w, '=', w, '\nRUN ', w, '\n'] for w in plain]
    if p == 'C01':
        j += [Job('c01_ops', Part(d), Part(w), Part(w)) for w in words for d in ('ARG a=1\nFROM a AS b\nRUN c', ['FROM a AS ', w, '\nARG ', w])]
    if p in ('C09', 'C10'):
        j += J('c09_roundtrip' if p == 'C09' else 'c10_split', img + [[v, u] for v in ports()[::7] for u in plain[:10]])
    if p == 'C11':
        j += [Job('c11_substitute', Part(t), Part(k), Part(v)) for w in words for t, k, v in (('$a', 'a', [w, x]), (['$', w], [w], 'v'), (['${', w, '}', x], [w], 'v'), ([w, '$a', w], 'a', 'v'), (['$a', w], 'a', w), (['${a', w, '}'], 'a', w))]
    if p == 'C14':
        j += [Job('c14_lookup', Part(d), Part(k)) for w in words for d in ('FROM a AS b\nARG c\nFROM d', ['FROM a AS ', w, '\nARG ', w, '\nFROM b AS ', w, 'x\nARG x', w], 'FROM a\n' * 12) for k in ([w], [w, x], [x, w], [' ', w], [w, ' '])]
    if p == 'C15':
        j += [Job('c15_splice', Part(d), Part([Hole(R(0, 12))] * 2), Part(w), Part([w, x])) for w in words for d in ('FROM a AS b\nRUN c \\\n # d\n e\nCMD ["f"]\n', ['COPY --a=', w.strip() or 'b', ' ', w.strip() or 'b', ' c'])]
    if p == 'C21':
        j += [Job('c21_layout', Part(t), Part(g), Part(''), Part('')) for w in plain for t in ('\2FROM\1%s\1AS\1b\3', '\2COPY\1--f=%s\1%s\1c\3', '\2RUN\1["%s",\1"b"]\3', '\2ENV\1a=%s\1b=%s\3', '\2LABEL\1a=%s\1b=%s\3', '\2%s\1a\3') if '#' not in w and '\\' not in w for t in [t.replace('%s', w)] for g in ('\t', ' \\\n', ' \\\n# c\n ')]
    if p == 'C22':
        j += J('c22_newlines', [t for t in texts if not any('\r' in y for y in t if isinstance(y, str))])
    if p == 'C23':
        q = [w for w in words if '"' not in w and "'" not in w]
        j += [Job('c23_compose', Part(a), Part(b)) for w in q for a, b in (([w], ['RUN x', x]), (['FROM a\n', w], ['FROM b\nARG c']), (['ARG ', w, '=1\nFOO ', w], ['FROM ', w, '\nRUN ', w, x]), (['RUN a'], [w, x]), (['RUN a'], [w, '\nRUN b `\nRUN c', x]), ([w, ' '], ['RUN b `\nRUN c', x]))]
        j += [Job('c23_compose', Part('ARG a\n' * (n + d)), Part('ARG b\nFROM c\nARG d')) for n in ns if n <= 1200 for d in (-1, 0)]
    if p == 'C24':
        j += [Job('c24_entry', Part(t), Part(c)) for w in words for t in ([w], [w, '\nRUN a'], ['FROM a\n', w], ['RUN ', w, '\n', w, x]) for c in ('', [Hole([1, 3])])]
        j += [Job('c24_entry', Part('# ', 'x' * max(0, n + d - 9), '\nRUN ', U3, 'b'), Part('')) for n in ns if 9 < n <= 70000 for d in (-1, 0, 1)]
    if p == 'C26':
        j += [Job('c26_globals', Part(d), Part(k)) for w in words for d in ('ARG b=1\nARG a=2\nFROM x', ['ARG ', w, '=', w, '\nARG ', w, '\n', w, ' a\nARG b\nFROM c']) for k in ([w], [w, H('b')], [H('b'), w], 'b')]
    if p == 'C27':
        j += [Job('c27_pure', Part(a), Part(b), Part(w), Part(w)) for w in plain for a, b in ((['FROM ', w, ' AS b'], ['FROM c AS ', w, '\nFROM b']), (['ARG ', w, '=1\nFROM $', w], ['FROM $', w, '\nRUN ', w]), (['RUN ', w], ['LABEL ', w, '=', w]), ([w, ' a'], ['FROM a\n', w, ' b']))]
        j += [Job('c27_pure', d, 'FROM a AS w\nLABEL x=y', 'w', 'q', Part(Hole([u]), Hole([v]))) for n in ns if n <= 250 for d in (MANY, 'LABEL a=b c=d', 'ENV a=b c=d') for u, v in ((min(n, 60), 0), (min(n, 60) + 1, 1), (0, n), (1, n + 1))]
    if p == 'C28':
        good = [w for w in plain if re.match(r'[A-Za-z][A-Za-z0-9_]*$', w)]
        j += [Job('c28_edit', Part(d), Part(Hole(R(0, 11))), Part(w)) for w in good for d in ('FROM --p=x a AS b\nRUN c \\\n # d\n e', 'ARG a=b\nENV c=d e="f"\nLABEL g=h', 'COPY --a=b c d\nCMD ["e", "f"]\nFOO g')]
    if p == 'C30':
        j += [Job('c30_build', Part(a), Part(b), Part(c), Part(bytes([1, 2, 3, 4, 5]))) for w in words for a, b, c in ((w, 'y', 'z'), ('x', [w, x], ''), ('', 'y', w), (w, w, w))]
        j += [Job('c30_build', 'x', 'y', 'z', Part(bytes([n % 256, (n + 1) % 256, n % 256, 0, 255]))) for n in ns]
    if p == 'C31':
        L_ = Hole(R(0, 255))
        j += [Job('c31_map', Part(t), Part(m), Part(L_), Part(o)) for w in words for t, m, o in ((['$', w, '$a'], [w, '=1\na=2\n'], w), (['$a${b}'], ['a=', w, '\nb=', w, '$a\n'], 'b'), ([w, '$a'], ['a=$b\nb=c\n'], 'z'))]
        j += [Job('c31_map', Part(many('$v%(i)d', k, '')), Part(many('v%(i)d=x', k, '\n')), Part(L_), 'z') for n in ns if n <= 60 for k in (n - 1, n, n + 1)]
        j += [Job('c31_map', '$v0', Part(many('v%%(i)d=$v%%(i)d%s' % '', 1, '')[:0] + ''.join('v%d=$v%d\n' % (i, i + 1) for i in range(k)) + 'v%d=e' % k), Part(Hole([i % 256 for i in (n - 1, n, n + 1, 255)])), 'z') for n in ns if n <= 60 for k in (n - 1, n, n + 1)]
        j += [Job('c31_map', '$a$b$c$d', 'a=1\nb=2\nc=3\nd=4', L_, 'z')]
    if p == 'C32':
        j += [Job('c32_edited', Part(d), Part(Hole(R(0, 9)), Hole([0, 1, 2])), Part('FROM ', w, ' AS ', w, '\nARG ', w), Part(w), 'r.io', Part(w), Part(w)) for w in plain[:40] for d in (['ARG a=1\nFROM ', w, ' AS b\nARG ', w, '\nFROM b'], ['ARG ', w, '=2\nFROM a AS ', w, '\nFROM ', w, '\n', w, ' x'])]
    if p == 'C34':
        j += [Job('c34_image', Part(u, x), Part(v)) for w in words for u, v in ((w, w), ('a', [w, 'a']), ('a', ['a', w]), (['a:', w], 'a'), ([w, '/a'], 'a'), ([w, '/a'], ['a/', w]), (w.upper(), w.lower()))]
        j += [Job('c34_equal', Part(a), Part(b)) for w in plain for f in ('RUN %s', 'FROM %s AS b', 'LABEL a=%s b', 'ENV a=%s', 'COPY --from=%s b c', 'COPY --%s=a b c', 'CMD ["%s"]', 'ARG %s', '%s a') for a, b in ((f % w, [f.split('%s')[0], w[:-1], H('aA0' + (w[-1] if ord(w[-1]) < 128 else 'b')), f.split('%s')[1]]), (f % w + '\nRUN a', f % w + '\nRUN b'))]
        j += [Job('c34_equal', Part(f, 'a', g), Part(f, H('abA'), g)) for w in plain for f, g in (('COPY --%s=' % w, ' b c'), ('FROM --%s=' % w, ' b'), ('LABEL %s=' % w, ''), ('ENV %s=' % w, ''), ('ARG %s=' % w, ''), ('%s ' % w, ''))]
    if p == 'C35':
        j += [Job('c35_anywhere', Part('FROM a as ', 'b\nRUN ', w), Part(Hole([0, 5, 6, 11, 16]), Hole([6, 7, 12, 16, 17])), Part(w)) for w in words]
        j += [Job('c35_anywhere', Part('RUN ', 'x' * (n + d), '\n\nCMD y z'), Part(Hole([0, 4, 5]), Hole([5, 6, 7])), Part('z')) for n in ns if n <= 70000 for d in (-1, 0, 1)]
        j += [Job('c35_anywhere', 'COPY' + ' a' * 100, Part(*[Hole([5 + 2 * i + e]) for i in range(k) for e in (0, 1)]), *[Part(r) for r in (['xx', '', 'yyy'] * 40)[:k]]) for n in ns if n <= 96 for k in (n, n + 2, n + 4)]
    return j


def jobs(p, tier):
    return list(P[p][0](tier)) + from_constants(p)


def need(p, tier):
    return P[p][1]
