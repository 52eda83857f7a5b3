"""Harnesses of the Python properties.

Each runs in two ways: instrumented, with symbolic texts (vlib/pysym.py), and
as ordinary Python on the unmodified modules, to replay a model.
"""


# ---------------------------------------------------------------- identifiers
def is_up(c):
    return 'A' <= c <= 'Z'


def is_low(c):
    return 'a' <= c <= 'z'


def is_dig(c):
    return '0' <= c <= '9'


def ref_snake(s):
    """Words start at an upper case letter which follows a lower case letter or
    digit, or is followed by a lower case letter; anything but letters and
    digits separates words."""
    out = ''
    for i in range(len(s)):
        c = s[i]
        if not (is_up(c) or is_low(c) or is_dig(c)):
            c = '_'
        if is_up(c) and i > 0:
            p = s[i - 1]
            if is_low(p) or is_dig(p):
                out += '_'
            elif i + 1 < len(s) and is_low(s[i + 1]):
                out += '_'
        out += c.lower()
    r = ''
    for c in out:
        if c == '_' and r.endswith('_'):
            continue
        r += c
    return r


NAMED = {
    'plain': 'message @ { int32 v = 1; }',
    'plainnested': 'message OuterMsg { message @ { int32 v = 1; } @ a = 1; }',
    'message': 'message @ { int32 v = 1; repeated @ r = 2; oneof o { @ m = 3; } } message U { @ a = 1; repeated @ b = 2; map<int32, @> c = 3; }',
    'nested': 'message OuterMsg { message @ { int32 v = 1; enum K { Z = 0; } } @ a = 1; repeated @ b = 2; }',
    'field': 'message M { int32 @ = 1; }',
    'optional': 'message M { optional string @ = 1; }',
    'repeated': 'message M { repeated M @ = 1; }',
    'member': 'message M { oneof o { M @ = 1; } }',
    'enum': 'enum @ { ZERO = 0; } message M { @ k = 1; repeated @ l = 2; optional @ m = 3; }',
    'constant': 'enum Kind { @ = 0; }',
    'deepconstant': 'message M { enum Kind { @ = 0; } Kind k = 1; }',
    'oneof': 'message M { oneof @ { int32 v = 1; M w = 2; } }',
}
PLAINNAME = 'ZzQq'


def names(vf, n, what, alphabet):
    """The C names follow from the declared names."""
    s = vf.text(1, ''.join(c for c in alphabet if c.isalpha()), 'name') + vf.text(n - 1, alphabet, 'name')
    head = 'syntax = "proto3"; package p.qR; '
    for other in ('U', 'K', 'M', 'OuterMsg', 'Kind', 'v', 'w', 'o', 'r', 'm'):
        if len(other) == n:
            vf.assume(s != other)
    if what in ('message', 'nested'):
        vf.assume(s[-1] != '_')                 # in a longer name the underscores meet
    ok, out = vf.generate({'x.proto': head + s.join(NAMED[what].split('@')) + '\n'}, 'x.proto')
    plain = base(vf, {'x.proto': head + PLAINNAME.join(NAMED[what].split('@')) + '\n'})[1]
    vf.check(ok, 'a valid definition is accepted')
    want = ref_snake(s)
    for f in ('x.h', 'x.c'):
        vf.check(out[f] == s.join([want.join(x.split('zz_qq')) for x in plain[f].split(PLAINNAME)]),
                 'C names are the snake case form of the full names, and nothing else depends on them')
    vf.obs(out['x.h'])
    vf.reach('done')


SCALARWORDS = ['bool', 'bytes', 'string', 'int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32', 'fixed64', 'sfixed32', 'sfixed64',
               'float', 'double']


def scalar_names(vf, what):
    """Types named as the scalar ones, in a file without package."""
    w = SCALARWORDS[vf.choose(len(SCALARWORDS), 'word')]
    head = 'syntax = "proto3"; %s' % ['', 'package p; '][vf.choose(2, 'package')]
    s = w[0].upper()
    for c in w[1:]:
        s += vf.text(1, c + c.upper(), 'letter') if c.isalpha() and len(s) < 4 else c
    ok, out = vf.generate({'x.proto': head + s.join(NAMED[what].split('@')) + '\n'}, 'x.proto')
    plain = base(vf, {'x.proto': head + PLAINNAME.join(NAMED[what].split('@')) + '\n'})[1]
    vf.check(ok, 'a valid definition is accepted')
    want = ref_snake(s)
    for f in ('x.h', 'x.c'):
        vf.check(out[f] == s.join([want.join(x.split('zz_qq')) for x in plain[f].split(PLAINNAME)]),
                 'types named as scalar types are like any other')
    vf.obs(out['x.h'])
    vf.reach('done')


# ------------------------------------------------------- comments and blanks
BASE = {}


def base(vf, files, main='x.proto', import_path=(), options=None):
    """Outputs for a fixed input (computed once per process)."""
    key = repr((sorted(files.items()), main, tuple(import_path), options))
    if key not in BASE:
        BASE[key] = vf.generate(files, main, import_path, options)
    return BASE[key]


GAPS = ('syntax@=@"proto3"@;@package@p@.@q@;@enum@K@{@ZERO@=@0@;@ONE@=@-1@;@}@message@M@{@'
        'int32@a@=@1@;@repeated@K@b@=@2@[@packed@=@true@]@;@oneof@o@{@string@c@=@3@;@}@map@<@string@,@M@>@d@=@4@;@}@'
        'option@java_package@=@"abc"@;').split('@')
GAPS2 = ('syntax = "proto3" ; import "i.proto" ; message A { message B { optional int32 a = 1 [ ( x ) . y = "s" , deprecated = true ] ; '
         'reserved 2 , 4 to 6 , 8 to max ; } reserved "q" ; oneof o { option z = 1 ; B b = 1 ; . L l = 2 ; } '
         'enum E { option allow_alias = true ; Z = 0 [ a = b . c ] ; } } service S { option d = false ; rpc R ( A ) returns ( stream A ) ; '
         'rpc Q ( stream . A . B ) returns ( L ) { option e = 1 ; } }').split(' ')
BASES = [GAPS, GAPS2]
IMPORT = {'i.proto': 'syntax = "proto3"; message L { } enum P { PZ = 0; }\n'}


def blank_ref(vf, h):
    """Is the text white space and comments?  blank, line (ends within a line
    comment), open (ends within a block comment), nested or other."""
    st = ''
    for i in range(len(h)):
        c = h[i]
        if st == '':
            if vf.isin(c, ' \t\r\n'):
                continue
            if vf.isin(c, '/'):
                st = '/'
                continue
            return 'other'
        if st == '/':
            if vf.isin(c, '/'):
                st = '//'
            elif vf.isin(c, '*'):
                st = '/*'
            else:
                return 'other'
        elif st == '//':
            if vf.isin(c, '\n'):
                st = ''
            elif vf.isin(c, '\r'):
                return 'other'
        elif st == '/*/' and vf.isin(c, '*'):
            return 'nested'
        elif st == '/**' and vf.isin(c, '/'):
            st = ''
        elif vf.isin(c, '*'):
            st = '/**'
        elif vf.isin(c, '/'):
            st = '/*/'
        else:
            st = '/*'
    return {'': 'blank', '/': 'other', '//': 'line'}.get(st, 'open')


def gap(vf, b, n, alphabet, first, last):
    toks = BASES[b]
    k = first + vf.choose(last - first, 'gap')
    nl = vf.choose(2, 'newline')
    h = vf.text(n, alphabet, 'text')
    kind = blank_ref(vf, h)
    if kind in ('other', 'nested') or (kind == 'line' and not nl):
        vf.assume(False)
    text = ' '.join(toks[:k]) + h + ('\n' if nl else '') + ' '.join(toks[k:])
    ok, out = vf.generate(dict(IMPORT, **{'x.proto': text}), 'x.proto')
    if kind == 'open':
        vf.check(not ok, 'a comment without end is rejected')
        vf.reach('open')
        return
    vf.check(ok, 'comments and white space are accepted between any two tokens')
    vf.check(out == base(vf, dict(IMPORT, **{'x.proto': ' '.join(toks)}))[1], 'comments and white space do not change the generated code')
    vf.obs(kind)
    vf.reach('blank')


def garbage(vf, b, n, alphabet, first, last):
    """Other text between two tokens is not silently dropped: the file is
    rejected, or the text is (part of) a token."""
    toks = BASES[b]
    k = first + vf.choose(last - first, 'gap')
    h = vf.text(n, alphabet, 'text')
    if blank_ref(vf, h) != 'other':
        vf.assume(False)
    text = ' '.join(toks[:k]) + ' ' + h + (' \n' if k < len(toks) or vf.choose(2, 'newline') else '') + ' '.join(toks[k:])
    ok, out = vf.generate(dict(IMPORT, **{'x.proto': text}), 'x.proto')
    vf.check(not ok, 'text that is neither token, comment nor white space is rejected')
    vf.reach('rejected')


STRINGS = ['option (x).y = "%s";', 'message N { reserved "%s"; }', 'message N { int32 v = 1 [a = true, (b).c = "%s"]; }',
           'service S { rpc A(M) returns (M) { option x = "%s"; } }']


def literal(vf, n, alphabet):
    k = vf.choose(len(STRINGS), 'where')
    h = vf.text(n, alphabet, 'text')
    esc = False
    for i in range(n):
        c = h[i]
        if esc:
            esc = False
        elif vf.isin(c, '\\'):
            esc = True
        elif vf.isin(c, '"\n'):
            vf.assume(False)
    if esc:
        vf.assume(False)
    rest = '\nmessage M { /* " */ int32 a = 1; } // "\nmessage L { string s = 1 [b = "\'//"]; }\n'
    pre = 'syntax = "proto3";\n'
    ok, out = vf.generate({'x.proto': pre + (STRINGS[k] % h) + rest}, 'x.proto')
    vf.check(ok, 'string literals may contain comment markers, quotes and escapes')
    vf.check(out == base(vf, {'x.proto': pre + STRINGS[k] % 'abc' + rest})[1], 'string literals do not change how the rest of the file is read')
    vf.reach('done')


# ------------------------------------------------------------ type resolution
def scope(vf, form, label):
    pk = ['', 'p', 'p.q'][vf.choose(3, 'package')]
    ik = [pk, '', 'r', 'r.s'][vf.choose(4, 'package of the import')]
    d = [vf.text(1, 'XYZ', n) for n in ('top level', 'in Outer', 'in Mid', 'imported')]
    r = vf.text(1, 'XYZ', 'reference')
    kind = ['enum' if vf.choose(2, 'kind') else 'message' for _ in range(4)]
    vf.assume(not (ik == pk and d[0] == d[3]))

    def decl(i):
        return 'enum %s { Z%d = 0; }' % (d[i], i) if kind[i] == 'enum' else 'message %s { int32 v%d = 1; }' % (d[i], i)

    def full(*path):
        return '.'.join(x for x in path if x)
    imp = 'syntax = "proto3";\n%s%s\n' % ('package %s;\n' % ik if ik else '', decl(3))
    ref = {'simple': r, 'full': full(pk, r), 'dot': '.' + full(pk, r), 'import': full(ik, r), 'importdot': '.' + full(ik, r)}[form]
    if form in ('full', 'dot') and not pk or form in ('import', 'importdot') and not ik:
        vf.assume(False)
    text = 'syntax = "proto3";\n%simport "i.proto";\nmessage Outer {\n  message Mid {\n    %s\n    %s\n  }\n  %s\n}\n%s\n' % (
        'package %s;\n' % pk if pk else '',
        {'': '%s f = 1;', 'repeated': 'repeated %s f = 1;', 'oneof': 'oneof o { %s f = 1; }',
         'map': 'map<int32, %s> m = 1;'}[label] % ref, decl(2), decl(1), decl(0))
    # what protobuf says
    if form == 'simple':
        cand = [(2, full(pk, 'Outer', 'Mid', r)), (1, full(pk, 'Outer', r)), (0, full(pk, r))]
        if ik in (pk, ''):                      # enclosing packages: see scope_parents
            cand.append((3, full(ik, r)))
    elif form in ('full', 'dot'):
        cand = [(0, full(pk, r))]
        if ik == pk:
            cand.append((3, full(pk, r)))
    else:
        cand = [(3, full(ik, r))]
        if ik == pk:
            cand.append((0, full(ik, r)))
    hit = None
    for i, name in cand:
        if d[i] == r:
            hit = (i, name)
            break
    ok, out = vf.generate({'x.proto': text, 'i.proto': imp}, 'x.proto')
    vf.obs(ok)
    if hit is None:
        vf.check(not ok, 'a type that is not defined is rejected')
        vf.reach('undefined')
        return
    vf.check(ok, 'a reference to a defined type is accepted')
    i, name = hit
    sn = ref_snake(name)
    f = 'value' if label == 'map' else 'f'
    if label == 'repeated':
        want = '    struct pbtools_repeated_int32_t f;' if kind[i] == 'enum' else '    struct %s_repeated_t f;' % sn
    else:
        want = '    enum %s_e %s;' % (sn, f) if kind[i] == 'enum' else '    struct %s_t *%s_p;' % (sn, f)
    vf.check(want in out['x.h'], 'the member has the type that protobuf name resolution gives')
    vf.reach('defined')


def scope_nested(vf):
    """References to types within other messages."""
    pk = ['', 'p', 'p.q'][vf.choose(3, 'package')]
    dot = pk + '.' if pk else ''
    ik = ['', 'r'][vf.choose(2, 'package of the import')]
    idot = ik + '.' if ik else ''
    d = [vf.text(1, 'XY', n) for n in ('in Outer', 'in Outer.Mid', 'in Away')]
    kind = ['enum' if vf.choose(2, 'kind') else 'message' for _ in range(3)]
    r = vf.text(1, 'XY', 'reference')

    def decl(i):
        return 'enum %s { Z%d = 0; }' % (d[i], i) if kind[i] == 'enum' else 'message %s { int32 v%d = 1; }' % (d[i], i)
    form = vf.choose(3, 'form')                             # Outer.X, p.Outer.X, .p.Outer.X
    where = vf.choose(3, 'where')
    path = [dot + 'Outer.', dot + 'Outer.Mid.', idot + 'Away.'][where] + r
    ref = ['Outer.', 'Outer.Mid.', 'Away.'][where] + r if form == 0 else path if form == 1 else '.' + path
    if form == 0 and where == 2 and ik:
        vf.assume(False)
    text = 'syntax = "proto3";\n%simport "i.proto";\nmessage Outer { message Mid { %s } %s }\nmessage M { %s f = 1; }\n' % (
        'package %s;\n' % pk if pk else '', decl(1), decl(0), ref)
    imp = 'syntax = "proto3";\n%smessage Away { %s }\n' % ('package %s;\n' % ik if ik else '', decl(2))
    ok, out = vf.generate({'x.proto': text, 'i.proto': imp}, 'x.proto')
    vf.obs(ok)
    if d[where] != r:
        vf.check(not ok, 'a type that is not defined is rejected')
        vf.reach('undefined')
        return
    vf.reach('defined')
    vf.check(ok, 'a reference to a type within a message is accepted')
    sn = ref_snake(path)
    vf.check(('    enum %s_e f;' % sn if kind[where] == 'enum' else '    struct %s_t *f_p;' % sn) in out['x.h'],
             'the member has the type that protobuf name resolution gives')


def scope_parents(vf):
    """Types of the enclosing packages."""
    pk = ['a.b', 'a.b.c', 'a'][vf.choose(3, 'package')]
    pks = ['', 'a', 'a.b', 'ab', 'b'][vf.choose(5, 'package of i.proto')], ['', 'a', 'a.b', 'b.a'][vf.choose(4, 'package of j.proto')]
    vf.assume(pks[0] != pks[1])
    d = [vf.text(1, 'XY', n) for n in ('in i.proto', 'in j.proto')]
    kind = ['enum' if vf.choose(2, 'kind') else 'message' for _ in range(2)]
    files = {}
    for i in (0, 1):
        files['ij'[i] + '.proto'] = 'syntax = "proto3"; %s %s\n' % (
            'package %s;' % pks[i] if pks[i] else '', 'enum %s { Z%d = 0; }' % (d[i], i) if kind[i] == 'enum' else 'message %s { }' % d[i])
    files['x.proto'] = 'syntax = "proto3"; package %s; import "i.proto"; import "j.proto"; message M { message N { X f = 1; } }\n' % pk
    hit, scope_ = None, pk
    while hit is None:
        for i in (0, 1):
            if pks[i] == scope_ and d[i] == 'X':
                hit = i
        if scope_ == '':
            break
        scope_ = scope_.rpartition('.')[0]
    ok, out = vf.generate(files, 'x.proto')
    vf.obs(ok)
    if hit is None:
        vf.check(not ok, 'a type that is not defined is rejected')
        vf.reach('undefined')
        return
    vf.check(ok, 'a type of an enclosing package is accepted')
    sn = ref_snake((pks[hit] + '.' if pks[hit] else '') + 'X')
    vf.check(('    enum %s_e f;' % sn if kind[hit] == 'enum' else '    struct %s_t *f_p;' % sn) in out['x.h'],
             'the member has the type that protobuf name resolution gives')
    vf.reach('defined')


def scope_relative(vf):
    """Types with a part of their package."""
    pks = [['', 'c', 'a.c'][vf.choose(3, 'package of i.proto')], ['c', 'a.c', 'a.b.c'][vf.choose(3, 'package of j.proto')]]
    vf.assume(pks[0] != pks[1])
    d = [vf.text(1, 'XY', n) for n in ('in i.proto', 'in j.proto')]
    files = {}
    for i in (0, 1):
        files['ij'[i] + '.proto'] = 'syntax = "proto3"; %s message %s { }\n' % ('package %s;' % pks[i] if pks[i] else '', d[i])
    files['x.proto'] = 'syntax = "proto3"; package a.b; import "i.proto"; import "j.proto"; message M { c.X f = 1; }\n'
    ok, out = vf.generate(files, 'x.proto')
    vf.obs(ok)
    for p in ('a.b.c', 'a.c', 'c'):
        if p in pks:
            break
    if d[pks.index(p)] != 'X':
        vf.check(not ok, 'a type hidden by an inner package is rejected')
        vf.reach('undefined')
        return
    vf.reach('defined')
    if p == 'c':
        vf.check(ok, 'a type with its package is accepted')
    else:
        vf.check(ok, 'a type with a part of its package is accepted')
    vf.check(('    struct %s_t *f_p;' % ref_snake(p + '.X')) in out['x.h'], 'the member has the type that protobuf name resolution gives to relative names')


# ------------------------------------------------------- order of definitions
def header_order(vf, h):
    """Types used by value are defined before, and everything once."""
    defined = []
    for line in h.split('\n'):
        if line.startswith('struct ') or line.startswith('enum '):
            if line.endswith(' {'):
                t = line[:-2]
                vf.check(t not in defined, 'no type is defined twice')
                defined.append(t)
        elif line.startswith('    struct ') or line.startswith('    enum ') or line.startswith('        enum ') \
                or line.startswith('        struct '):
            w = line.strip().split(' ')
            if '*' in line or w[1] == '{' or w[1].startswith('pbtools_'):
                continue
            vf.check('%s %s' % (w[0], w[1]) in defined, 'types used by value are defined before their use')


CASTS = ['(pbtools_message_%s_t)' % x for x in ('init', 'encode_inner', 'decode_inner')]


def function_order(vf, h, c):
    """Functions are declared before they are used, and defined once."""
    declared, defined = [], []
    for line in h.split('\n'):
        if line.endswith('(') and not line.startswith(' '):
            declared.append(line[:-1].split(' ')[-1])
    for line in c.split('\n'):
        if not line.startswith(' '):
            if line.endswith('('):
                name = line[:-1].split(' ')[-1]
                vf.check(name not in defined, 'no function is defined twice')
                defined.append(name)
            continue
        line = line.strip()
        used = None
        for cast in CASTS:
            if line.startswith(cast):
                used = line[len(cast):].rstrip(',);')
        if line.startswith('p_') and '(' in line:
            used = line.split('(')[0]
        if used is not None:
            vf.check(used in declared or used in defined, 'functions are declared before their use')
    for name in declared:
        vf.check(name in defined, 'every declared function is defined')


def order(vf, shape, letters):
    t = [vf.text(1, letters, 'type') for _ in range({'flat': 3, 'inner': 3, 'inner2': 3, 'two': 4, 'nested': 4, 'deep': 4, 'enums': 3, 'manyenums': 3}[shape])]
    rep = ['repeated ' if vf.choose(2, 'repeated') else '' for _ in t]
    if shape == 'flat':
        body = ['message %s { %s%s f = 1; }' % (n, rep[i], t[i]) for i, n in enumerate('ABC')]
    elif shape == 'inner':
        body = ['message X { message A { %s%s f = 1; } message B { %s%s f = 1; oneof o { int32 g = 2; } } message C { %s%s f = 1; } %sB b = 1; }' % (
            rep[0], t[0], rep[1], t[1], rep[2], t[2], ['', 'repeated '][vf.choose(2, 'repeated')])]
    elif shape == 'inner2':
        body = ['message X { message Y { message A { %s%s f = 1; } message B { %s%s f = 1; } message C { %s%s f = 1; } A c = 1; } Y a = 1; }' % (
            rep[0], t[0], rep[1], t[1], rep[2], t[2])]
    elif shape == 'manyenums':
        body = ['message X { enum A { AZ = 0; } enum B { BZ = 0; BY = 1; } message M { enum D { DZ = 0; } enum E { EZ = 0; } D f = 1; E g = 2; %s%s h = 3; } '
                'enum C { CZ = 0; } %s%s f = 1; oneof o { %s g = 2; M m = 3; } }' % (rep[0], t[0], rep[1], t[1], t[2]),
                'enum F { FZ = 0; } enum G { GZ = 0; } message Y { F f = 1; G g = 2; }']
    elif shape == 'two':
        body = ['message A { %s%s f = 1; %s%s g = 2; }' % (rep[0], t[0], rep[1], t[1]), 'message B { %s%s f = 1; }' % (rep[2], t[2]),
                'message C { %s%s f = 1; }' % (rep[3], t[3])]
    elif shape == 'nested':
        body = ['message A { message N { %s%s f = 1; } %s%s g = 2; }' % (rep[0], t[0], rep[1], t[1]),
                'message B { message N { %s%s f = 1; } %s%s g = 2; N n = 3; }' % (rep[2], t[2], rep[3], t[3]), 'message C { }']
    elif shape == 'deep':
        body = ['message A { message N { message O { %s%s f = 1; } repeated O o = 1; } %s%s g = 2; repeated N n = 3; }' % (
            rep[0], t[0], rep[1], t[1]), 'message B { map<int32, %s> f = 1; }' % t[2], 'message C { %s%s f = 1; oneof x { A a = 2; B b = 3; } }' % (rep[3], t[3])]
    else:
        body = ['message A { %s%s f = 1; enum N { AZ = 0; } %sN n = 2; }' % (rep[0], t[0], rep[1]), 'message B { %s%s f = 1; E e = 2; }' % (rep[1], t[1]),
                'message C { message I { %s%s f = 1; N n = 2; } enum N { CZ = 0; } }' % (rep[2], t[2]), 'enum E { EZ = 0; }']
    ok, out = vf.generate({'x.proto': 'syntax = "proto3";\npackage p;\n' + '\n'.join(body) + '\n'}, 'x.proto')
    vf.check(ok, 'messages may use each other in any order')
    header_order(vf, out['x.h'])
    function_order(vf, out['x.h'], out['x.c'])
    vf.reach('done')


# --------------------------------------------------------------- integers
INTS = {'field': 'message M { int32 a = %s; }', 'oneof': 'message M { oneof o { int32 a = %s; } }',
        'map': 'message M { map<int32, int32> a = %s; }', 'repeated': 'message M { repeated string a = %s; }',
        'enum': 'enum K { ZERO = 0; ONE = %s; }'}


def ref_int(vf, h, signed):
    """Value of an integer literal, or None."""
    i, n, neg = 0, len(h), False
    if signed and n and vf.isin(h[0], '-'):
        neg, i = True, 1
    if i == n:
        return None
    if vf.isin(h[i], '0'):
        if i + 1 == n:
            return 0
        if vf.isin(h[i + 1], 'xX'):
            base_, digits, i = 16, '0123456789abcdef', i + 2
        else:
            base_, digits, i = 8, '01234567', i + 1
    else:
        base_, digits = 10, '0123456789'
    if i == n:
        return None
    v = 0
    for k in range(i, n):
        c = h[k].lower()
        for x in range(base_):
            if vf.isin(c, digits[x]):
                v = v * base_ + x
                break
        else:
            return None
    return -v if neg else v


def integer(vf, where, n, alphabet):
    h = vf.text(n, alphabet, 'literal')
    v = ref_int(vf, h, where == 'enum')
    if where != 'enum':
        if v is None and vf.isin(h[0], '-'):
            vf.assume(False)
        if v is not None and (v < 1 or v > 536870911 or 19000 <= v <= 19999):
            vf.assume(False)
    elif v is not None and (v < -2147483648 or v > 2147483647):
        vf.assume(False)
    ok, out = vf.generate({'x.proto': 'syntax = "proto3";\n' + INTS[where] % h + '\n'}, 'x.proto')
    if v is None:
        vf.check(not ok, 'a malformed integer literal is rejected')
        vf.reach('malformed')
        return
    vf.check(ok, 'decimal, octal and hexadecimal literals are accepted')
    if where == 'enum':
        vf.check('one_e = %d\n' % v in out['x.h'], 'the literal denotes its value')
    else:
        vf.check('case %d:' % v in out['x.c'], 'the literal denotes its value')
    vf.obs(v)
    vf.reach('value')


def large(vf, where, n, alphabet):
    """Decimal numbers of this many digits."""
    h = vf.text(n, alphabet, 'literal')
    vf.assume(h[0] != '0')
    neg = where == 'enum' and vf.choose(2, 'sign')
    v = 0
    for i in range(n):
        v = v * 10 + digit(vf, h[i], alphabet)
    if where == 'enum':
        vf.assume(v <= 2147483647)
    else:
        vf.assume(1 <= v <= 536870911 and not 19000 <= v <= 19999)
    ok, out = vf.generate({'x.proto': 'syntax = "proto3";\n' + INTS[where] % ('-' + h if neg else h) + '\n'}, 'x.proto')
    vf.check(ok, 'numbers within the range are accepted')
    if where == 'enum':
        vf.check('one_e = %d\n' % (-v if neg else v) in out['x.h'], 'the literal denotes its value')
    else:
        vf.check('case %d:' % v in out['x.c'], 'the literal denotes its value')
        vf.check('encoder_p,%d,' % v in ''.join(out['x.c'].split()), 'the literal denotes its value')
    vf.obs(v)
    vf.reach('value')


def digit(vf, c, alphabet):
    for x in alphabet:
        if vf.isin(c, x):
            return int(x)


# ----------------------------------------------------------- set iteration order
SETS = ['syntax = "proto3"; package p; message A { repeated B b = 1; repeated C c = 2; D d = 3; repeated E e = 4; } '
        'message B { C c = 1; repeated D d = 2; } message C { repeated D d = 1; oneof o { E e = 2; } } message D { K k = 1; } '
        'message E { map<int32, D> m = 1; } enum K { Z = 0; }',
        'syntax = "proto3"; import "i.proto"; import "j.proto"; message Outer { message In { repeated U u = 1; T t = 2; } In i = 1; repeated T r = 2; '
        'oneof a { U u = 3; int32 x = 4; } oneof b { T t = 5; bytes y = 6; } } message U { repeated T t = 1; L l = 2; } message T { j.L l = 1; N n = 2; }',
        'syntax = "proto3"; message A { repeated B b = 1; } message B { C c = 1; A a = 2; } message C { map<int32, A> a = 1; oneof o { B b = 2; } }']


def sets(vf, k):
    files = {'x.proto': SETS[k] + '\n', 'i.proto': 'syntax = "proto3"; message L { } enum N { A = 0; }\n',
             'j.proto': 'syntax = "proto3"; package j; message L { }\n'}
    want = base(vf, files)
    vf.set_order = True
    ok, out = vf.generate(files, 'x.proto')
    vf.check(ok, 'the file is accepted')
    vf.check(out == want[1], 'the generated code does not depend on the iteration order of sets')
    vf.reach('done')


# ------------------------------------------------------------ imported files
def imports(vf, path, kinds):
    """Which file an import denotes: the first of the -I directories, in order,
    that contains it, then the path itself."""
    dirs = [[], ['d'], ['d', 'e/f'], ['e/f', 'd'], ['e/f/', './d']][vf.choose(5, 'import path')]
    have = {}
    for where in ('', 'd/', 'e/f/'):
        k = kinds[vf.choose(len(kinds), 'in ' + (where or '.'))]
        if k:
            have[where] = k
    text = {'enum': 'syntax = "proto3"; package p; enum L { Z = 0; }', 'message': 'syntax = "proto3"; package p; message L { }',
            'other': 'syntax = "proto3"; package p; message N { }', 'package': 'syntax = "proto3"; package q; message L { }'}
    files = {where + path: text[k] + '\n' for where, k in have.items()}
    files['x.proto'] = 'syntax = "proto3"; package p; import "%s"; message M { L v = 1; }\n' % path
    hit = None
    for d in dirs + ['']:
        w = d.rstrip('/') + '/' if d else ''
        if w.startswith('./'):
            w = w[2:]
        if w in have:
            hit = have[w]
            break
    ok, out = vf.generate(files, 'x.proto', dirs)
    vf.obs(ok)
    if hit is None:
        vf.check(not ok, 'an import that is not found is rejected')
        vf.reach('missing')
    elif hit in ('other', 'package'):
        vf.check(not ok, 'the first file in import path order is the one that counts')
        vf.reach('other')
    else:
        vf.check(ok, 'an import found in the import path is accepted')
        vf.check(('    enum p_l_e v;' if hit == 'enum' else '    struct p_l_t *v_p;') in out['x.h'],
                 'the first file in import path order is the one that counts')
        vf.reach('found')


def filenames(vf, n, alphabet, where):
    """The files written for a name are those that its importers include."""
    s = vf.text(1, ''.join(c for c in alphabet if c.isalpha()), 'file name') + vf.text(n - 1, alphabet, 'file name')
    d = ['', 'dir/', 'a.b/C-d/'][vf.choose(3, 'directory')]
    dep = 'syntax = "proto3"; package p; message L { int32 a = 1; }\n'
    use = 'syntax = "proto3"; package p; import "%s%s.proto"; message M { L v = 1; repeated L w = 2; }\n' % (d, s)
    files = {(d if where == 'import' else '') + s + '.proto': dep}
    stem = ref_snake(s)
    if where == 'import':
        vf.assume(stem != 'zz')
        files['zz.proto'] = use
        ok, out = vf.generate(files, [d + s + '.proto', 'zz.proto'])
        vf.check(ok, 'importing a file is accepted')
        vf.check('#include "%s.h"\n' % stem in out['zz.h'], 'the header of an imported file is included by the name it is written to')
    else:
        ok, out = vf.generate({d + s + '.proto': dep}, d + s + '.proto')
        vf.check(ok, 'a valid file is accepted')
    vf.check(stem + '.h' in out and stem + '.c' in out, 'the files are named after the proto-file')
    h, c = out[stem + '.h'], out[stem + '.c']
    vf.check('#include "%s.h"\n' % stem in c, 'the source includes its own header')
    vf.check('#ifndef %s_H\n#define %s_H\n' % (stem.upper(), stem.upper()) in h, 'the include guard is unique to the file')
    vf.check(c == base(vf, {'l.proto': dep}, 'l.proto')[1]['l.c'].replace('#include "l.h"', '#include "%s.h"' % stem),
             'the generated code does not depend on the file name')
    vf.reach('done')


def several(vf):
    """Generating several files at once equals generating each alone."""
    texts = {'a.proto': 'syntax = "proto3"; package p; message L { int32 a = 1; repeated L l = 2; } enum E { Z = 0; }\n',
             'b.proto': 'syntax = "proto3"; import "a.proto"; package p; message B { L a = 1; repeated E e = 2; }\n',
             'c.proto': 'syntax = "proto3"; package r; message L { string a = 1; repeated N n = 2; } message N { map<int32, L> m = 1; }\n',
             'd.proto': 'syntax = "proto3"; import "c.proto"; import "a.proto"; message L { p.L a = 1; r.L b = 2; repeated L c = 3; }\n'}
    order_ = []
    for i in range(3):
        k = vf.choose(4, 'file')
        name = 'abcd'[k] + '.proto'
        if name in order_:
            vf.assume(False)
        order_.append(name)
    ok, out = vf.generate(texts, order_)
    vf.check(ok, 'several files can be generated at once')
    for name in order_:
        one = base(vf, texts, name)
        for f in (name[0] + '.h', name[0] + '.c'):
            vf.check(out[f] == one[1][f], 'the code for a file does not depend on the other files given')
    vf.check(len(out) == 6, 'two files are written for each proto-file')
    vf.reach('done')


# ------------------------------------------------- options and other ignored forms
FORMS = ('syntax = "proto3";%s package p;%s message M {%s int32 a = 1;%s message N {%s string s = 1 [%s];%s } '
         'enum K {%s Z = 0;%s A = 1 [%s];%s } oneof o {%s int32 c = 2;%s N d = 3 [%s]; } map<int32, K> m = 4 [%s]; '
         'repeated K k = 5 [%s]; } enum T {%s B = 0; } service S {%s rpc R(M) returns (stream M) {%s } rpc Q(stream .p.M) returns (M);%s }%s\n')
FORM_KIND = 'ffmmmomeeoexxoooesrsf'    # f: file, m: message, e: enum, x: oneof, o: field option, s: service, r: rpc


def forms(vf, kind, n, alphabet):
    """Options, reserved statements and empty statements, where protobuf allows
    them, do not change the generated code."""
    k = vf.choose(len(FORM_KIND), 'place')
    w = FORM_KIND[k]
    h = vf.text(n, alphabet, 'text') if n else ''
    if kind == 'constant':
        vf.assume(const_ref(vf, h))
    elif kind == 'string':
        for c in h:
            vf.assume(not vf.isin(c, '"\\\n'))
        h = '"' + h + '"'
    elif kind == 'reserved':
        if w not in 'me':
            vf.assume(False)
        if not reserved_ref(vf, h):
            vf.assume(False)
    elif kind == 'names':
        if w not in 'me':
            vf.assume(False)
        h = ['"%s"', '"%s", "b"', '"b","c" , "%s"'][vf.choose(3, 'names')] % h
    elif kind == 'empty':
        if w == 'o':
            vf.assume(False)
    fill = ['a = true' if x == 'o' else '' for x in FORM_KIND]
    names_ = ['a', 'deprecated', '(b)', '(b.c)', '(b).d', '(b.c).d.e', 'option', 'a.b']
    if kind in ('reserved', 'names'):
        fill[k] = ' reserved %s;' % h
    elif kind == 'empty':
        fill[k] = ';' * (1 + vf.choose(3, 'count'))
    elif w == 'o':
        o = names_[vf.choose(8, 'option name')] + ' = ' + h
        fill[k] = ['%s', '%s, z = true', 'z = 1, %s'][vf.choose(3, 'position')] % o
    else:
        fill[k] = ' option %s = %s;' % (names_[vf.choose(8, 'option name')], h)
    ok, out = vf.generate({'x.proto': FORMS % tuple(fill)}, 'x.proto')
    vf.check(ok, 'options, reserved and empty statements are accepted wherever protobuf allows them')
    none = tuple('a = true' if x == 'o' else '' for x in FORM_KIND)
    vf.check(out == base(vf, {'x.proto': FORMS % none})[1], 'options, reserved and empty statements do not change the generated code')
    vf.reach('done')


def const_ref(vf, h):
    """Is the text a (dotted) identifier or an integer literal?"""
    letters = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
    if ref_int(vf, h, True) is not None:
        return True
    start = True
    for c in h:
        if start:
            if not vf.isin(c, letters):
                return False
            start = False
        elif vf.isin(c, '.'):
            start = True
        elif not vf.isin(c, letters + '0123456789_'):
            return False
    return not start


def reserved_ref(vf, h):
    """Is the text a list of numbers separated by commas?"""
    start = True
    for i in range(len(h)):
        c = h[i]
        if vf.isin(c, ' '):
            if not start and i + 1 < len(h) and vf.isin(h[i + 1], '0123456789'):
                return False
        elif vf.isin(c, ','):
            if start:
                return False
            start = True
        elif vf.isin(c, '123456789'):
            start = False
        else:
            return False
    return not start


# ------------------------------------------------------ upper case enumerators
def upper(vf, n, alphabet):
    s = vf.text(1, ''.join(c for c in alphabet if c.isalpha()), 'name') + vf.text(n - 1, alphabet, 'name')
    what = vf.choose(4, 'where')
    names_ = ['Kind', 'zero', 'Nested', 'fieldX']
    names_[what] = s
    vf.assume(s != 'M' and s != 'o')
    files = {'x.proto': 'syntax = "proto3"; package p.qR; enum %s { %s = 0; oneTwo = -1; } message M { enum %s { zA = 0; } int32 %s = 1; '
                        '%s k = 2; repeated %s n = 3; oneof o { %s x = 4; int32 y = 5; } }\n' % tuple(names_ + [names_[0], names_[2], names_[2]])}
    vf.assume(ref_snake(names_[3]) not in ('k', 'n', 'x', 'y'))
    vf.assume(ref_snake(names_[1]) != 'one_two' and names_[0] != names_[2])
    ok, a = vf.generate(files, 'x.proto')
    vf.check(ok, 'a valid file is accepted')
    ok, b = vf.generate(files, 'x.proto', (), {'enums_upper_case': True})
    vf.check(ok, 'a valid file is accepted with --enums-upper-case')
    vf.check(a['x.c'] == b['x.c'], '--enums-upper-case does not change the generated source')
    pre = 'p.qR.'
    keys = [ref_snake(pre + names_[1]) + '_e = 0', ref_snake(pre + 'oneTwo') + '_e = -1', ref_snake(pre + 'M.zA') + '_e = 0']
    la, lb = a['x.h'].split('\n'), b['x.h'].split('\n')
    vf.check(len(la) == len(lb), '--enums-upper-case changes only the enumerators')
    seen = 0
    for i in range(len(la)):
        if la[i] == lb[i]:
            continue
        vf.check(lb[i] == la[i].upper(), '--enums-upper-case writes the enumerators in upper case')
        t = la[i].strip().rstrip(',')
        vf.check(t in keys, '--enums-upper-case changes only the enumerators')
        seen += 1
    vf.check(seen == 3, '--enums-upper-case writes the enumerators in upper case')
    vf.reach('done')


# ------------------------------------------------------------- members and types
CTYPE = {'int32': 'int32_t', 'int64': 'int64_t', 'uint32': 'uint32_t', 'uint64': 'uint64_t', 'sint32': 'int32_t', 'sint64': 'int64_t',
         'fixed32': 'uint32_t', 'fixed64': 'uint64_t', 'sfixed32': 'int32_t', 'sfixed64': 'int64_t', 'float': 'float', 'double': 'double',
         'bool': 'bool', 'string': 'char *', 'bytes': 'struct pbtools_bytes_t', 'E': 'enum p_e_e', 'S': 'struct p_s_t *', 'N': 'enum p_m_n_e',
         'T': 'struct p_m_t_t *'}
TYPES = list(CTYPE)


def struct_body(vf, h, name):
    out = []
    on = False
    for line in h.split('\n'):
        if on:
            if line == '};':
                return out
            out.append(line)
        elif line == 'struct %s {' % name:
            on = True
    vf.check(False, 'every message is a struct')


def member(t, name, label):
    c = CTYPE[t]
    if label == 'repeated':
        base_ = {'E': 'int32', 'N': 'int32'}.get(t)
        if t in ('S', 'T'):
            return ['    struct %s_repeated_t %s;' % ({'S': 'p_s', 'T': 'p_m_t'}[t], name)]
        if t in ('string', 'bytes', 'float', 'double', 'bool'):
            base_ = t
        elif base_ is None:
            base_ = CTYPE[t][:-2]
        return ['    struct pbtools_repeated_%s_t %s;' % (base_, name)]
    if label == 'optional':
        v = '%s%s' % (c, 'value_p;' if t == 'string' else ' value;')
        return ['    struct {', '        bool is_present;', '        ' + v, '    } %s;' % name]
    if t in ('string', 'S', 'T'):
        return ['    %s%s_p;' % (c, name)]
    return ['    %s %s;' % (c, name)]


def squeeze(vf, text, first):
    """The body of the function that starts with this line, without blanks."""
    out = None
    for line in text.split('\n'):
        if out is None:
            if line == first:
                out = ''
        elif line == '}':
            for z in ZEROS:
                out = '=0;'.join(out.split(z))
            return out
        else:
            out += ''.join(line.split())
    vf.check(False, 'every function that a field needs is generated')


ZEROS = ['=false;', '=0.0f;', '=0.0;', '=NULL;', '=0;']
SUBNAME = {'S': 'p_s', 'T': 'p_m_t'}
REPNAME = {'E': 'int32', 'N': 'int32'}


def codec(t, c, n, label, i):
    """What a field adds to init, encode, declarations, first and last part of
    decode, and the other functions it has, without blanks."""
    m = {'E': 'enum', 'N': 'enum'}.get(t, t)
    sub = SUBNAME.get(t)
    rep = REPNAME.get(t, t)
    init = enc = decl = dec = last = ''
    funs = []
    if label == 'repeated':
        init = 'self_p->%s.length=0;' % c
        decl = 'structpbtools_repeated_info_trepeated_info_%s;' % c
        decl2 = 'pbtools_repeated_info_init(&repeated_info_%s,%d);' % (c, n)
        if sub:
            enc = '%s_encode_repeated_inner(encoder_p,%d,&self_p->%s);' % (sub, n, c)
            dec = 'case%d:pbtools_repeated_info_decode(&repeated_info_%s,decoder_p,wire_type);break;' % (n, c)
            last = '%s_decode_repeated_inner(decoder_p,&repeated_info_%s,&self_p->%s);' % (sub, c, c)
            body = ('structp_m_t*self_p,intlength){return(pbtools_alloc_repeated((structpbtools_repeated_message_t*)&self_p->%s,length,'
                    'self_p->base.heap_p,sizeof(struct%s_t),(pbtools_message_init_t)%s_init));' % (c, sub, sub))
        else:
            enc = 'pbtools_encoder_write_repeated_%s(encoder_p,%d,&self_p->%s);' % (rep, n, c)
            dec = 'case%d:pbtools_repeated_info_decode_%s(&repeated_info_%s,decoder_p,wire_type);break;' % (n, rep, c)
            last = 'pbtools_decoder_decode_repeated_%s(decoder_p,&repeated_info_%s,&self_p->%s);' % (rep, c, c)
            body = 'structp_m_t*self_p,intlength){return(pbtools_alloc_repeated_%s(&self_p->base,length,&self_p->%s));' % (rep, c)
        return [init], [enc], [decl, decl2], [dec], [last], [('int p_m_%s_alloc(' % c, body)]
    at, p = c, '_p' if t == 'string' else ''
    if label == 'optional':
        at = c + '.value'
    v = ('&' if t == 'bytes' else '') + 'self_p->' + at + p
    if sub:
        v = 'self_p->%s_p' % c
        args = ('decoder_p,wire_type,(structpbtools_message_base_t**)&%s,sizeof(struct%s_t),(pbtools_message_init_t)%s_init,'
                '(pbtools_message_decode_inner_t)%s_decode_inner);' % (v, sub, sub, sub))
        read = 'pbtools_decoder_sub_message_decode(' + args
        alloc = ('return(pbtools_sub_message_alloc((structpbtools_message_base_t**)&%s,self_p->base.heap_p,sizeof(struct%s_t),'
                 '(pbtools_message_init_t)%s_init));' % (v, sub, sub))
    elif t == 'string' or t == 'bytes':
        read = 'pbtools_decoder_read_%s(decoder_p,wire_type,&self_p->%s%s);' % (t, at, p)
    else:
        read = 'self_p->%s=pbtools_decoder_read_%s(decoder_p,wire_type);' % (at, m)
    zero = 'self_p->%s%s=%s;' % (at, p, '""' if t == 'string' else '0')
    if t == 'bytes':
        zero = 'pbtools_bytes_init(&self_p->%s);' % at
    if sub:
        zero = '%s=0;' % v
    if label == 'optional':
        return (['self_p->%s.is_present=0;' % c],
                ['if(self_p->%s.is_present){pbtools_encoder_write_%s_always(encoder_p,%d,%s);}' % (c, m, n, v)], [],
                ['case%d:self_p->%s.is_present=true;%sbreak;' % (n, c, read)], [], [])
    if label == 'oneof':
        sel = 'self_p->o%d=p_m_o%d_%s_e;' % (i, i, c)
        w = 'pbtools_encoder_write_%s_always(encoder_p,%d,%s);' % (m, n, v)
        if sub:
            w = 'pbtools_encoder_sub_message_encode_always(encoder_p,%d,&self_p->%s_p->base,(pbtools_message_encode_inner_t)%s_encode_inner);' % (n, c, sub)
        sig = 'structpbtools_decoder_t*decoder_p,intwire_type,structp_m_t*self_p){'
        if sub:
            funs = [('int p_m_%s_alloc(' % c, 'structp_m_t*self_p){' + sel + alloc), ('static void p_m_%s_decode(' % c, sig + sel + read)]
        else:
            funs = [('void p_m_%s_init(' % c, 'structp_m_t*self_p){' + sel + zero), ('static void p_m_%s_decode(' % c, sig + 'p_m_%s_init(self_p);' % c + read)]
        return (['self_p->o%d=0;' % i],
                ['switch(self_p->o%d){casep_m_o%d_x%d_e:pbtools_encoder_write_bool_always(encoder_p,%d,self_p->x%d);break;case%s:%sbreak;default:break;}'
                 % (i, i, i, i + 1, i, 'p_m_o%d_%s_e' % (i, c), w)], [],
                ['case%d:p_m_%s_decode(decoder_p,wire_type,self_p);break;' % (n, c),
                 'case%d:p_m_x%d_decode(decoder_p,wire_type,self_p);break;' % (i + 1, i)], [],
                funs + [('void p_m_x%d_init(' % i, 'structp_m_t*self_p){self_p->o%d=p_m_o%d_x%d_e;self_p->x%d=0;' % (i, i, i, i))])
    if sub:
        return ([zero], ['pbtools_encoder_sub_message_encode(encoder_p,%d,(structpbtools_message_base_t*)%s,(pbtools_message_encode_inner_t)%s_encode_inner);'
                         % (n, v, sub)], [], ['case%d:%sbreak;' % (n, read)], [], [('int p_m_%s_alloc(' % c, 'structp_m_t*self_p){' + alloc)])
    return [zero], ['pbtools_encoder_write_%s(encoder_p,%d,%s);' % (m, n, v)], [], ['case%d:%sbreak;' % (n, read)], [], funs


def consists(vf, body, parts, what):
    """body is a permutation of these parts."""
    for p in parts:
        vf.check(body.count(p) == 1, what)
        body = ''.join(body.split(p))
    vf.check(body == '', what)


def members(vf, count):
    """The struct of a message has one member per field and one enum and union
    per oneof, in order, of the documented types, and its functions handle
    every field as its type, label and number demand."""
    body, want = [], ['    struct pbtools_message_base_t base;']
    labels = ['', 'repeated', 'optional', 'oneof']
    init, enc, decl, dec, last, funs = [], [], [], [], [], []
    cycle = count > 2
    if cycle:
        count = 3 + vf.choose(count - 2, 'count')
        start, step = vf.choose(4, 'start'), [1, 5][vf.choose(2, 'step')]
    for i in range(count):
        if cycle:
            t, label = TYPES[(start + i * step) % len(TYPES)], labels[(start + i) % 4]
            if label == 'optional' and t in ('S', 'T'):
                label = ''
        else:
            t, label = TYPES[vf.choose(len(TYPES), 'type')], labels[vf.choose(4, 'label')]
        if label == 'optional' and t in ('S', 'T'):
            vf.assume(False)
        name = 'fieldName%d' % i
        c = 'field_name%d' % i
        n = i + 1
        if label == 'oneof':
            n = i + 11
            body.append('oneof o%d { bool x%d = %d; %s %s = %d; }' % (i, i, i + 1, t, name, i + 11))
            want += [('o', ['    enum p_m_o%d_e o%d;' % (i, i), '    union {', '        bool x%d;' % i]
                      + ['    ' + x for x in member(t, c, '')] + ['    };'])]
        else:
            body.append('%s %s %s = %d;' % (label, t, name, i + 1))
            want.append(('f', member(t, c, label)))
        parts = codec(t, c, n, label, i)
        init += parts[0]
        enc += parts[1]
        decl += parts[2]
        dec += parts[3]
        last += parts[4]
        funs += parts[5]
    flat = [want[0]]
    for k in 'fo':                                          # oneofs follow the other fields
        for w in want[1:]:
            if w[0] == k:
                flat += w[1]
    ok, out = vf.generate({'x.proto': 'syntax = "proto3"; package p; enum E { EZ = 0; } message S { } message M { enum N { NZ = 0; } '
                                      'message T { } %s }\n' % ' '.join(body)}, 'x.proto')
    vf.check(ok, 'a valid message is accepted')
    vf.check(struct_body(vf, out['x.h'], 'p_m_t') == flat, 'every field is a struct member of the documented type')
    c = out['x.c']
    what = 'every field is handled by the functions of its type, label and number'
    consists(vf, squeeze(vf, c, 'void p_m_init('), ['structp_m_t*self_p,structpbtools_heap_t*heap_p){self_p->base.heap_p=heap_p;'] + init, what)
    consists(vf, squeeze(vf, c, 'void p_m_encode_inner('), ['structpbtools_encoder_t*encoder_p,structp_m_t*self_p){'] + enc, what)
    consists(vf, squeeze(vf, c, 'void p_m_decode_inner('),
             ['structpbtools_decoder_t*decoder_p,structp_m_t*self_p){intwire_type;', 'while(pbtools_decoder_available(decoder_p)){switch('
              'pbtools_decoder_read_tag(decoder_p,&wire_type)){', 'default:pbtools_decoder_skip_field(decoder_p,wire_type);break;}}'] + decl + dec + last, what)
    for first, text in funs:
        vf.check(squeeze(vf, c, first) == text, what)
        if not first.startswith('static'):
            vf.check('\n' + first + '\n' in out['x.h'], 'the functions of a field are declared')
    for i in range(count):
        for tail in ('alloc', 'init'):
            x = 'p_m_field_name%d_%s(' % (i, tail)
            vf.check((x in out['x.h']) == any(x in f for f, _ in funs), 'a field has exactly the functions its label needs')
    vf.obs(flat)
    vf.reach('done')


def optional(vf):
    """An optional field has a scalar or enum type, or is reported."""
    t = OPTIONAL[vf.choose(len(OPTIONAL), 'type')]
    n = vf.choose(3, 'fields before')
    files = {'i.proto': 'syntax = "proto3"; package j; message L { } enum P { PZ = 0; }\n'}
    text = ('syntax = "proto3"; package p; import "i.proto"; message S { } enum E { EZ = 0; } message M { message T { } enum N { NZ = 0; } %s'
            'optional %s fieldName = 9; }\n' % (''.join('optional bool f%d = %d; ' % (i, i + 1) for i in range(n)), t))
    ok, out = vf.generate(dict(files, **{'x.proto': text}), 'x.proto')
    good = t in ('j.P', 'E', '.p.E') or t in CTYPE and t not in ('S', 'T')
    vf.check(ok == good, 'optional fields of scalar and enum types are accepted, others are reported')
    if ok:
        vf.check('        bool is_present;\n' in out['x.h'] and '    } field_name;\n' in out['x.h'], 'an optional field is a struct with is_present and value')
        vf.check(out['x.c'].count('self_p->field_name.is_present = true;') == 1, 'decoding an optional field sets is_present')
        vf.reach('accepted')
    else:
        clean_error(vf, out, 1)
        vf.reach('rejected')


OPTIONAL = ['bool', 'string', 'bytes', 'float', 'sfixed64', 'E', 'N', '.p.E', 'j.P', 'S', 'T', '.p.M.T', '.p.S', 'M', 'j.L', '.p.M']


# ------------------------------------------------------------- independence
def subsequence(vf, a, b):
    """Are the lines of a in b, in this order, and those of a definition
    without others between them?"""
    i, inside, opened = 0, False, False
    for line in b:
        if i < len(a) and a[i] == line:
            x = a[i]
            if not inside and x and x[0] not in ' #/{*}' and not x.endswith(';') and not x.startswith('extern'):
                inside, opened = True, False
            if inside and x.endswith('{'):
                opened = True
            if inside and (x in ('}', '};') or (not opened and x.endswith(');'))):
                inside = False
            i += 1
        elif inside:
            return False
    return i == len(a)


BYSTANDER = ('message A { int32 a = 1; repeated string b = 2; optional bytes c = 3; oneof d { A e = 4; K f = 5; } map<int32, K> g = 6; '
             'message N { repeated A h = 1; } repeated N i = 7; } enum K { ZERO = 0; }')
EXTRA = ['message %s { int32 a = 1; }', 'message %s { A a = 1; }', 'message %s { K k = 1; repeated K l = 2; }', 'enum %s { X = 0; }',
         'message %s { message N { int32 a = 1; } N a = 1; repeated N b = 2; }', 'message %s { enum K { Y = 0; } K k = 1; }',
         'message %s { oneof d { int32 e = 4; A f = 5; } }', 'message %s { repeated int32 b = 2; } message Z { message Y { } repeated Y y = 1; }',
         'service %s { rpc R(A) returns (A); }', 'message %s { } enum Z { W = 0; }']


def bystander(vf, first, last, n, alphabet):
    """Adding a definition leaves the code for the others as it is."""
    k = first + vf.choose(last - first, 'definition')
    before = vf.choose(2, 'before')
    pk = ['', ' package p;', ' package p.q;'][vf.choose(3, 'package')]
    s = vf.text(n, alphabet, 'name')
    vf.assume(s != 'A' and s != 'K' and s != 'Z')
    pre = 'syntax = "proto3";%s ' % pk
    e = EXTRA[k] % s
    ok, out = vf.generate({'x.proto': pre + (e + ' ' + BYSTANDER if before else BYSTANDER + ' ' + e) + '\n'}, 'x.proto')
    vf.check(ok, 'a further definition is accepted')
    want = base(vf, {'x.proto': pre + BYSTANDER + '\n'})[1]
    for f in ('x.h', 'x.c'):
        vf.check(subsequence(vf, want[f].split('\n'), out[f].split('\n')), 'the code for a message does not depend on unrelated definitions')
    vf.reach('done')


TOKENS = ['syntax', '=', '"proto3"', ';', 'package', 'a', '.', 'enum', '{', '0', '-1', '}', 'message', 'int32', 'repeated', 'optional', 'K',
          '[', 'true', ']', 'oneof', 'map', '<', ',', '>', 'option', '"s"', '(', ')', 'reserved', 'import', 'service', 'rpc', 'returns', 'stream',
          'to', 'max', '08', '0x', '"', '\'', '#', '/*', '*/', '//', 'M', 'weak']


def crowd(vf, counts):
    """Adding very many definitions leaves the code for the others as it is."""
    n = counts[vf.choose(len(counts), 'count')]
    k = vf.choose(len(CROWD), 'definition')
    before = vf.choose(2, 'before')
    pre = 'syntax = "proto3"; package p; '
    e = ' '.join(CROWD[k].replace('#', '%d' % i) for i in range(n))
    ok, out = vf.generate({'x.proto': pre + (e + ' ' + BYSTANDER if before else BYSTANDER + ' ' + e) + '\n'}, 'x.proto')
    vf.check(ok, 'further definitions are accepted')
    want = base(vf, {'x.proto': pre + BYSTANDER + '\n'})[1]
    for f in ('x.h', 'x.c'):
        vf.check(subsequence(vf, want[f].split('\n'), out[f].split('\n')), 'the code for a message does not depend on unrelated definitions')
    vf.reach('done')


CROWD = ['enum E# { Z# = 0; }', 'message M# { }', 'service S# { }', 'message M# { oneof o { A a = 1; K k = 2; } enum E { Z = 0; } }', 'option o# = 1;']


# ------------------------------------------------------------- malformed files
def clean_error(vf, e, lines):
    """A diagnostic, not an internal error; positions are within the file."""
    name = type(e).__name__
    if name != 'Exception':                       # (symbolic run)
        vf.check(name in ('Error', 'ParseError', 'FileNotFoundError', 'MessageError') or name == 'Exception',
                 'a malformed file gives a diagnostic, not an internal error')
    msg = str(e)
    vf.check('nvalid' in msg or 'not defined' in msg or 'not found' in msg or 'nly scalar' in msg or 'o such file' in msg,
             'a malformed file gives a diagnostic, not an internal error')
    return msg


def where_of(msg):
    """Line number of 'Invalid syntax at line L, column C'."""
    if not msg.startswith('error: Invalid syntax at line ') and not msg.startswith('Invalid syntax at line '):
        return None
    return int(msg[msg.index('line ') + 5:msg.index(',')])


PREFIX = ['', '/* a\n  b */ ', '// c\n', '/* " */ // "\n']


KEYWORDS = ('syntax package message repeated enum service rpc returns stream import oneof option true false map reserved max to weak '
            'public optional').split()


class Grammar:
    """The protobuf language (the part of it that pbtools documents), as sets of
    positions reachable from a position, over a list of tokens."""

    def __init__(self, tokens):
        self.t = tokens
        self.memo = {}

    def lit(self, *words):
        return lambda i: {i + 1} if i < len(self.t) and self.t[i] in words else set()

    def cls(self, f):
        return lambda i: {i + 1} if i < len(self.t) and f(self.t[i]) else set()

    def seq(self, *ps):
        def run(i):
            at = {i}
            for p in ps:
                nxt = set()
                for k in at:
                    nxt |= p(k)
                at = nxt
            return at
        return run

    def alt(self, *ps):
        def run(i):
            out = set()
            for p in ps:
                out |= p(i)
            return out
        return run

    def opt(self, p):
        return lambda i: {i} | p(i)

    def many(self, p):
        def run(i):
            out, new = {i}, {i}
            while new:
                nxt = set()
                for k in new:
                    nxt |= p(k)
                new = nxt - out
                out |= nxt
            return out
        return run

    def rec(self, name):
        def run(i):
            if (name, i) not in self.memo:
                self.memo[name, i] = getattr(self, name)()(i)
            return self.memo[name, i]
        return run

    def valid(self):
        ident = self.cls(lambda x: x[0].isalpha())
        self.ident = ident
        self.num = self.cls(lambda x: x.lstrip('-').isdigit())
        self.str = self.cls(lambda x: len(x) > 1 and x[0] == '"' and x[-1] == '"')
        seq, alt, opt, many, lit = self.seq, self.alt, self.opt, self.many, self.lit
        self.full = seq(ident, many(seq(lit('.'), ident)))
        self.type = seq(opt(lit('.')), self.full)
        word = self.cls(lambda x: x[0].isalpha() and x not in ('option', 'repeated', 'optional', 'oneof', 'map', 'reserved', 'message', 'enum'))
        self.ftype = alt(seq(lit('.'), self.full), seq(word, many(seq(lit('.'), ident))))
        self.const = alt(lit('true', 'false'), seq(self.cls(lambda x: x[0].isalpha() and x not in ('true', 'false')), many(seq(lit('.'), ident))),
                         self.num, self.str)
        self.oname = seq(alt(ident, seq(lit('('), self.full, lit(')'))), many(seq(lit('.'), ident)))
        oset = seq(self.oname, lit('='), self.const)
        self.opts = opt(seq(lit('['), oset, many(seq(lit(','), oset)), lit(']')))
        self.option = seq(lit('option'), oset, lit(';'))
        rng = seq(self.num, opt(seq(lit('to'), alt(self.num, lit('max')))))
        # the semicolon is read as an empty statement
        self.reserved = seq(lit('reserved'), alt(seq(rng, many(seq(lit(','), rng))), seq(self.str, many(seq(lit(','), self.str)))))
        self.end = seq(lit('='), self.num, self.opts, lit(';'))
        imp = seq(lit('import'), opt(lit('weak', 'public')), self.str)
        pkg = seq(lit('package'), self.full, lit(';'))
        word = self.cls(lambda x: x[0].isalpha() and x != 'stream')
        stream = seq(lit('('), alt(seq(lit('stream'), self.type), seq(lit('.'), self.full), seq(word, many(seq(lit('.'), ident)))), lit(')'))
        rpc = seq(lit('rpc'), ident, stream, lit('returns'), stream, alt(seq(lit('{'), many(alt(self.option, lit(";"))), lit('}')), lit(';')))
        service = seq(lit('service'), ident, lit('{'), many(alt(self.option, rpc, lit(';'))), lit('}'))
        top = alt(imp, pkg, self.option, self.rec('message'), self.rec('enum'), service, lit(';'))
        file = seq(lit('syntax'), lit('='), lit('"proto3"'), lit(';'), many(top))
        return len(self.t) in file(0)

    def enum(self):
        seq, alt, many, lit = self.seq, self.alt, self.many, self.lit
        return seq(lit('enum'), self.ident, lit('{'), many(alt(seq(self.ident, self.end), self.option, self.reserved, lit(';'))), lit('}'))

    def message(self):
        seq, alt, many, lit, opt = self.seq, self.alt, self.many, self.lit, self.opt
        field = seq(opt(lit('repeated', 'optional')), self.ftype, self.ident, self.end)
        one = seq(lit('oneof'), self.ident, lit('{'), many(alt(self.option, seq(self.ftype, self.ident, self.end), lit(';'))), lit('}'))
        mapf = seq(lit('map'), lit('<'), self.ident, lit(','), self.type, lit('>'), self.ident, self.end)
        return seq(lit('message'), self.ident, lit('{'),
                   many(alt(self.option, field, self.rec('enum'), self.rec('message'), one, mapf, self.reserved, lit(';'))), lit('}'))


def malformed(vf, b, mode, first, last, pre):
    """One token of a valid file removed, repeated, replaced or inserted: the
    file is accepted, or a diagnostic names the place or the offending item."""
    toks = BASES[b]
    k = first + vf.choose(last - first, 'gap')
    t = TOKENS[vf.choose(len(TOKENS), 'token')] if mode in ('insert', 'replace') else ''
    head = list(toks[:k])
    tail = list(toks[k:])
    if mode == 'insert':
        mid = [t]
    elif mode == 'replace':
        mid, tail = [t], tail[1:]
    elif mode == 'repeat':
        mid = tail[:1]
    elif mode == 'swap':
        mid, tail = [tail[1], tail[0]], tail[2:]
    else:
        mid, tail = [], tail[1:]
    c = PREFIX[pre]
    text = ' '.join(head) + '\n' + c + ' '.join(mid) + ' \n' + ' '.join(tail) + '\n'
    ok, out = vf.generate(dict(IMPORT, **{'x.proto': text, 's': 'syntax = "proto3";'}), 'x.proto')
    vf.obs(ok)
    if t not in ('"', '\'', '#', '/*', '*/', '//', '08', '0x'):
        valid = Grammar([x for x in head + mid + tail if x]).valid()
        vf.check(valid or not ok, 'a file that is not protobuf is rejected')
        vf.check(ok or not valid or 'nvalid syntax' not in str(out), 'a well-formed file is no syntax error')
    if ok:
        vf.reach('accepted')
        return
    msg = clean_error(vf, out, text.count('\n') + 1)
    line = where_of(msg)
    if line is not None:
        low = 2 + c.count('\n') if mid else 2
        if head and head[-1] in ('.', ','):          # the delimiter is what is reported
            low = 1
        if t not in ('"', '\'', '#', '/*', '*/', '//', '08', '0x'):
            vf.check(low <= line <= text.count('\n') + 1, 'a syntax error is reported at its line')
    vf.reach('rejected')


def noise(vf, b, n, first, last, lo, hi):
    """Any text at any place of a valid file: a diagnostic or a result."""
    toks = BASES[b]
    k = first + vf.choose(last - first, 'gap')
    h = vf.text(n, ''.join(chr(c) for c in range(lo, hi)) + '\t\n', 'text')
    ok, out = vf.generate(dict(IMPORT, **{'x.proto': ' '.join(toks[:k]) + ' ' + h + ' ' + ' '.join(toks[k:]) + '\n'}), 'x.proto')
    vf.obs(ok)
    if ok:
        vf.reach('accepted')
        return
    clean_error(vf, out, 99)
    vf.reach('rejected')


def truncated(vf):
    """A file that ends early is rejected, except between definitions."""
    b = vf.choose(2, 'file')
    toks = BASES[b]
    text = ' '.join(toks)
    cut = vf.choose(len(text), 'length')
    ends = vf.choose(2, 'newline')
    ok, out = vf.generate(dict(IMPORT, **{'x.proto': text[:cut] + ('\n' if ends else '')}), 'x.proto')
    vf.obs(ok)
    if ok:
        left = text[:cut].split(' ')
        vf.check(Grammar([x for x in left if x]).valid(), 'a file that ends within a definition is rejected')
        vf.reach('accepted')
        return
    clean_error(vf, out, 99)
    vf.reach('rejected')


def ranges(vf):
    """Reserved ranges in messages and enums."""
    k = [2, 4, 6, 7, 16][vf.choose(5, 'place')]
    one = ['1', '5', '1 to 2', '7 to max', '0x10 to 0x1F', '07'][vf.choose(6, 'first')]
    two = ['', ', 3', ',4 to 5', ' , 9 to max', ', 3 to 3,100'][vf.choose(5, 'second')]
    fill = ['a = true' if x == 'o' else '' for x in FORM_KIND]
    fill[k] = 'reserved ' + one + two + ';'
    ok, out = vf.generate({'x.proto': FORMS % tuple(fill)}, 'x.proto')
    vf.check(ok, 'options, reserved and empty statements are accepted wherever protobuf allows them')
    none = tuple('a = true' if x == 'o' else '' for x in FORM_KIND)
    vf.check(out == base(vf, {'x.proto': FORMS % none})[1], 'options, reserved and empty statements do not change the generated code')
    vf.reach('done')


# ---------------------------------------------------------------- parsed model
def word(vf, n, name):
    s = vf.text(1, 'aZm', name) + vf.text(n - 1, 'aZ0_', name)
    if n == 2:
        vf.assume(s != 'to')
    return s


RPCTYPES = ['A', 'M.N', '.M', 'q.w.X', '.p.M.N', 'q.stream.X', 'max']
LITERALS = [('0', 0), ('7', 7), ('-3', -3), ('0x1F', 31), ('010', 8), ('-0xa', -10), ('2147483647', 2147483647)]


def model_service(vf, n):
    """parse_file() returns the services of a file."""
    names_, want = [], []
    count = 1 + vf.choose(2, 'services')
    text = 'syntax = "proto3"; package p; message A { } message M { message N { } }\n'
    named = vf.choose(3, 'named')
    for i in range(count):
        s = word(vf, n, 'service') if i == 0 and named == 0 else 'S%d' % i
        rpcs = []
        body = ['', ';', 'option x = true;'][vf.choose(3, 'first')] if i == 0 and named == 1 else ''
        for k in range(vf.choose(3, 'rpcs') if i == 0 else 1):
            r = word(vf, n, 'rpc') if i == 0 and k == named - 1 else 'R%d' % k
            if i == 0 and k == 0:
                at = vf.choose(len(RPCTYPES), 'request')
                a, b = RPCTYPES[at], RPCTYPES[(at + 1 + vf.choose(2, 'response')) % len(RPCTYPES)]
                sa, sb = vf.choose(2, 'stream'), vf.choose(2, 'stream')
            else:
                a, b, sa, sb = 'A', 'M.N', 1, 0
            body += 'rpc %s(%s%s) returns (%s%s)%s ' % (r, 'stream ' if sa else '', a, 'stream ' if sb else '', b,
                                                     [';', '{}', '{ option o = 1; }'][vf.choose(3, 'body') if k else 0])
            rpcs.append((r, a, sa == 1, b, sb == 1))
        text += 'service %s { %s}\n' % (s, body)
        want.append((s, rpcs))
    ok, proto = vf.parse({'x.proto': text}, 'x.proto')
    vf.check(ok, 'a valid file is accepted')
    vf.check(len(proto.services) == count, 'every service is returned')
    for got, (s, rpcs) in zip(proto.services, want):
        vf.check(got.name == s, 'services have their names')
        vf.check(len(got.rpcs) == len(rpcs), 'every rpc of a service is returned')
        for g, (r, a, sa, b, sb) in zip(got.rpcs, rpcs):
            vf.check(g.name == r, 'rpcs have their names')
            vf.check(g.request_type.lstrip('.') == a.lstrip('.') and g.response_type.lstrip('.') == b.lstrip('.'), 'rpcs have their types')
            vf.check(g.request_stream == sa and g.response_stream == sb, 'rpcs have their stream flags')
            vf.obs([g.name, g.request_type, g.response_type])
    vf.reach('done')


def model_option(vf, n):
    """parse_file() returns the options of a file."""
    want, text = [], 'syntax = "proto3";\n'
    count = 1 + vf.choose(2, 'options')
    for i in range(count):
        a = word(vf, n, 'name') if i == 0 else 'second'
        form = vf.choose(5, 'form') if i == 0 else 3 * (form == 0)
        name = [a, a + '.b', '(%s)' % a, '(x.%s)' % a, '(%s.y).z.to' % a][form]
        written = [a, a + ' . b', '( %s )' % a, '(x. %s)' % a, '(%s.y) .z.to' % a][form]
        kind = vf.choose(4, 'kind') if i == 0 else (kind + 1 + vf.choose(2, 'kind')) % 4
        if kind == 0:
            lit, value = LITERALS[vf.choose(len(LITERALS), 'integer') if i == 0 else 3]
            want.append((name, 'integer', value))
        elif kind == 1:
            value = vf.text(n, 'a "/*;0', 'string') if i == 0 else 'proto3'
            for c in value:
                vf.assume(c != '"')
            if i == 0:
                esc = vf.choose(6, 'escape')
                value = ['', '', '', '\\"', '\\\\', '\\"'][esc] + value + ['', '\\"', '\\\\', '', '', '\\"'][esc]
            lit = '"' + value + '"'
            want.append((name, 'string', value))
        elif kind == 2:
            v = vf.choose(2, 'bool')
            lit = ['false', 'true'][v]
            want.append((name, 'bool', v == 1))
        else:
            value = lit = (word(vf, n, 'value') if i == 0 and form < 2 else 'v') + ['', '.m', '.true.C'][vf.choose(3, 'tail') if i == 0 else 0]
            want.append((name, 'ident', value))
        text += 'option %s = %s; %s\n' % (written, lit, ['', 'message M { option inside = 1; }', ';'][vf.choose(3, 'other') if i == 0 else 0])
    ok, proto = vf.parse({'x.proto': text}, 'x.proto')
    vf.check(ok, 'a valid file is accepted')
    vf.check(len(proto.options) == count, 'every option of the file is returned')
    for got, (name, kind, value) in zip(proto.options, want):
        vf.check(got.name == name, 'options have their names')
        vf.check(got.kind == kind, 'options have their kinds')
        if kind == 'string' and '\\' in value and got.value == value.replace('\\"', '"').replace('\\\\', '\\'):
            continue                                        # escapes may be decoded or not
        vf.check(got.value == value, 'options have their values')
        vf.obs([got.name, got.value])
    vf.reach('done')


MODELTYPES = [('int32', 'int32', 'scalar-value-type'), ('bytes', 'bytes', 'scalar-value-type'), ('E', '%sE', 'enum'), ('S', '%sS', 'message'),
              ('N', '%sM.N', 'message'), ('K', '%sM.K', 'enum'), ('M', '%sM', 'message'), ('l.L', 'l.L', 'message'), ('.l.P', 'l.P', 'enum')]


def by_name(vf, items, name):
    for x in items:
        if x.name == name:
            return x
    vf.check(False, 'every definition is returned')


def model_message(vf, n, count):
    """parse_file() returns the messages and enums of a file."""
    pk = ['', 'p', 'p.q'][vf.choose(3, 'package')]
    dot = pk + '.' if pk else ''
    lines, fields, members_, maps = [], [], [], []
    one = word(vf, n, 'oneof') if count == 1 else 'one'
    for i in range(count):
        t, full, kind = MODELTYPES[vf.choose(len(MODELTYPES), 'type')]
        full = full % dot if '%' in full else full
        label = ['', 'repeated', 'optional', 'oneof', 'map'][vf.choose(5, 'label')]
        if label == 'optional' and kind == 'message':
            vf.assume(False)
        lit, num = LITERALS[1:][vf.choose(3 if i == 0 else 1, 'number')] if i else LITERALS[1]
        num += i
        name = word(vf, n, 'field') if i == 0 else 'second'
        if label == 'oneof':
            members_.append((name, t.split('.')[-1], full, kind, num))
            lines.append('oneof %s { %s %s = %d; }' % (one, t, name, num) if len(members_) == 1 else None)
            if lines[-1] is None:
                vf.assume(False)
        elif label == 'map':
            lines.append('map<string, %s> %s = %d;' % (t, name, num))
            fields.append((name, None, None, 'message', num, True, False))
            maps.append((t.split('.')[-1], full, kind))
        else:
            lines.append('%s %s %s = %d;' % (label, t, name, num))
            fields.append((name, t.split('.')[-1], full, kind, num, label == 'repeated', label == 'optional'))
    a, b = word(vf, n, 'constant') if count == 1 else 'EZ', 'EO'
    la, va = LITERALS[vf.choose(len(LITERALS), 'value') if count == 1 else 0]
    text = ('syntax = "proto3"; %s import "l.proto"; enum E { option allow_alias = true; %s = %s; ; %s = 5 [x = 1]; reserved 9; } '
            'message M { message N { } enum K { KZ = 0; } %s } message S { }\n' % ('package %s;' % pk if pk else '', a, la, b, ' '.join(lines)))
    imported = 'syntax = "proto3"; package l; message L { message I { } } enum P { PZ = 0; }\n'
    ok, proto = vf.parse({'x.proto': text, 'l.proto': imported}, 'x.proto')
    vf.check(ok, 'a valid file is accepted')
    vf.check(proto.package == (pk or None), 'the package is returned')
    vf.check(len(proto.imports) == 1 and proto.imports[0].path == 'l.proto' and proto.imports[0].package == 'l'
             and proto.imports[0].enums == ['P'] and proto.imports[0].messages == ['L'], 'imports are returned with their types')
    vf.check(len(proto.enums) == 1 and len(proto.messages) == 2, 'every definition is returned')
    e = proto.enums[0]
    vf.check(e.name == 'E' and e.full_name == dot + 'E', 'enums have their names')
    vf.check(len(e.fields) == 2 and e.fields[0].name == a and e.fields[0].field_number == va and e.fields[1].name == b
             and e.fields[1].field_number == 5, 'enums have their enumerators')
    m, s = by_name(vf, proto.messages, 'M'), by_name(vf, proto.messages, 'S')
    vf.check(m.full_name == dot + 'M' and s.full_name == dot + 'S', 'messages have their names')
    vf.check(s.fields == [] and s.oneofs == [] and s.enums == [] and s.messages == [], 'an empty message is empty')
    vf.check(len(m.enums) == 1 and m.enums[0].full_name == dot + 'M.K' and m.enums[0].fields[0].name == 'KZ', 'messages have their enums')
    vf.check(len(m.messages) == 1 + len(maps) and by_name(vf, m.messages, 'N').full_name == dot + 'M.N', 'messages have their messages')
    vf.check(len(m.fields) == len(fields), 'messages have their fields')
    vf.check(len(m.oneofs) == (1 if members_ else 0), 'messages have their oneofs')
    at = 0
    for f, (name, t, full, kind, num, rep, opt) in zip(m.fields, fields):
        vf.check(f.name == name and f.field_number == num, 'fields have their names and numbers')
        vf.check(f.repeated == rep and f.optional == opt, 'fields have their labels')
        vf.check(f.type_kind == kind, 'fields have their types')
        if t is None:
            entry = by_name(vf, m.messages, f.type)
            vt, vfull, vkind = maps[at]
            at += 1
            vf.check(f.full_type == dot + 'M.' + f.type and len(entry.fields) == 2, 'maps are repeated messages')
            k, v = entry.fields
            vf.check(k.name == 'key' and k.type == 'string' and k.field_number == 1 and v.name == 'value' and v.field_number == 2,
                     'maps are repeated messages')
            vf.check(v.type == vt and v.full_type == vfull and v.type_kind == vkind, 'maps have their value types')
        else:
            vf.check(f.type == t and f.full_type == full, 'fields have their types')
        vf.obs([f.name, f.field_number, f.full_type])
    if members_:
        name, t, full, kind, num = members_[0]
        o = m.oneofs[0]
        vf.check(o.name == one and o.full_name == dot + 'M.' + one and len(o.fields) == 1, 'oneofs have their names and members')
        f = o.fields[0]
        vf.check(f.name == name and f.field_number == num and f.type == t and f.full_type == full and f.type_kind == kind, 'oneofs have their names and members')
    vf.reach('done')


# ------------------------------------------------------------- many of a kind
def check_message(vf, m, full, fields, what):
    """A parsed message has this name and these (name, type, number) fields."""
    vf.check(m.full_name == full, 'messages have their names')
    vf.check(len(m.fields) == len(fields), what)
    for f, (name, t, num) in zip(m.fields, fields):
        vf.check(f.name == name and f.full_type == t and f.field_number == num, what)


CHOICES = ['int32', 'M', 'bytes', 'string']


def many(vf, kind, most):
    """Files with any number of definitions of a kind."""
    if not isinstance(most, int):
        k = most[vf.choose(len(most), 'count')]
    else:
        k = vf.choose(most + 1, 'count')
    pk = ['', 'p'][vf.choose(2, 'package')]
    dot, under = (pk + '.', pk + '_') if pk else ('', '')
    head = 'syntax = "proto3";\n%s' % ('package %s;\n' % pk if pk else '')
    files = {}
    what = 'every definition is returned, whatever their number'
    used = 'every one of many types can be used'
    at = None
    if not isinstance(most, int):
        at = [0, k - 1][vf.choose(2, 'used')]
    elif k:
        at = vf.choose(k, 'used')
    use, fields, want = '', [], []
    if at is not None and kind in ('imports', 'imported', 'local', 'nested'):
        use = 'T%d t = 1; E%d e = 2;' % (at, at)
    if kind == 'imports':
        for i in range(k):
            files['f%d.proto' % i] = 'syntax = "proto3"; message T%d { } enum E%d { EZ%d = 0; }\n' % (i, i, i)
        text = head + ''.join('import "f%d.proto";\n' % i for i in range(k)) + 'message M { %s }\n' % use
        pre = ''
    elif kind == 'imported':
        files['i.proto'] = 'syntax = "proto3"; package q;\n' + ''.join('message T%d { message Z { } } enum E%d { EZ = 0; }\n' % (i, i) for i in range(k))
        text = head + 'import "i.proto"; message M { %s }\n' % (use.replace('T', 'q.T').replace('E', 'q.E'))
        pre = 'q.'
    elif kind == 'local':
        text = head + ''.join('message T%d { int32 a = %d; } enum E%d { EZ%d = %d; }\n' % (i, i + 1, i, i, i) for i in range(k)) + 'message M { %s }\n' % use
        pre = dot
    elif kind == 'nested':
        text = head + 'message M { %s %s }\n' % (''.join('message T%d { int32 a = %d; } enum E%d { EZ%d = %d; }\n' % (i, i + 1, i, i, i) for i in range(k)), use)
        pre = dot + 'M.'
    elif kind == 'depth':
        text = head + ''.join('message T%d { T%d t = 1; ' % (i, max(0, i - 2)) for i in range(k)) + '} ' * k
    elif kind == 'fields':
        text = head + 'message M { %s }\n' % ' '.join('%s%s f%d = %d;' % (['', 'repeated ', 'optional '][i % 3], ['int32', 'string', 'bool'][i % 2], i, k - i)
                                                      for i in range(k))
    elif kind == 'oneofs':
        text = head + 'message M { %s }\n' % ' '.join('oneof o%d { %s }' % (i, ' '.join('%s f%dx%d = %d;' % (
            ['bool', 'M', 'bytes'][j % 3], i, j, 10 * i + j + 1) for j in range(1 + (i * 2 + at) % 4))) for i in range(k))
    elif kind == 'choices':
        text = head + 'message M { oneof o { bool a = 1; %s } }\n' % ' '.join('%s c%d = %d;' % (CHOICES[(i + (at or 0)) % 4], i, i + 2) for i in range(k))
    elif kind == 'constants':
        text = head + 'enum E { E0 = 0; %s }\n' % ' '.join('E%d = %d;' % (i + 1, [i, -i][i % 2]) for i in range(k))
    elif kind == 'services':
        text = head + 'message M { }\n' + '\n'.join('service S%d { %s }' % (i, ' '.join('rpc R%d (M) returns (stream M);' % j for j in range((i + at) % 4)))
                                                    for i in range(k))
    elif kind == 'options':
        text = head + ''.join('option o%d = %s;\n' % (i, ['%d' % i, '"%d"' % i, 'v%d' % i, 'true'][i % 4]) for i in range(k))
    elif kind == 'package':
        parts = '.'.join('p%d' % i for i in range(k + 1))
        text = 'syntax = "proto3"; package %s; message M { enum E { EZ = 0; } M m = 1; E e = 2; }\n' % parts
    files['x.proto'] = text
    ok, p = vf.parse(dict(files), 'x.proto')
    vf.check(ok, 'any number of definitions is accepted')
    ok, out = vf.generate(files, 'x.proto')
    vf.check(ok, 'any number of definitions is accepted')
    h, c = out['x.h'], out['x.c']
    if use:
        m = by_name(vf, p.messages, 'M')
        check_message(vf, m, dot + 'M', [('t', pre + 'T%d' % at, 1), ('e', pre + 'E%d' % at, 2)], what)
        vf.check('struct %s_t *t_p;' % ref_snake(pre + 'T%d' % at) in h and 'enum %s_e e;' % ref_snake(pre + 'E%d' % at) in h, used)
    if kind == 'imports':
        vf.check([i.path for i in p.imports] == ['f%d.proto' % i for i in range(k)], what)
        vf.check([i.messages for i in p.imports] == [['T%d' % i] for i in range(k)] and [i.enums for i in p.imports] == [['E%d' % i] for i in range(k)], what)
        for i in range(k):
            vf.check('#include "f%d.h"\n' % i in h, 'every imported file is included')
    elif kind == 'imported':
        vf.check(len(p.imports) == 1 and p.imports[0].messages == ['T%d' % i for i in range(k)] and p.imports[0].enums == ['E%d' % i for i in range(k)], what)
    elif kind == 'local' or kind == 'nested':
        box = p if kind == 'local' else p.messages[0]
        vf.check(len(box.messages) == k + (kind == 'local') and len(box.enums) == k, what)
        for i in range(k):
            check_message(vf, by_name(vf, box.messages, 'T%d' % i), pre + 'T%d' % i, [('a', 'int32', i + 1)], what)
            e = box.enums[i]
            vf.check(e.full_name == pre + 'E%d' % i and e.fields[0].name == 'EZ%d' % i and e.fields[0].field_number == i, what)
            s = ref_snake(pre + 'T%d' % i)
            vf.check('\nstruct %s_t {\n' % s in h, 'every one of many definitions is generated')
            for text_ in (('encode', 'decode') if kind == 'local' else ()) + ('init', 'encode_inner', 'decode_inner'):
                vf.check('%s_%s(\n' % (s, text_) in h and '%s_%s(\n' % (s, text_) in c, 'every one of many definitions is generated')
            s = ref_snake(pre + 'E%d' % i)
            vf.check('\nenum %s_e {\n    %s_ez%d_e = %d\n};\n' % (s, s.rpartition('_')[0], i, i) in h, 'every one of many definitions is generated')
    elif kind == 'depth':
        box, full = p, dot
        for i in range(k):
            vf.check(len(box.messages) == 1, what)
            box = box.messages[0]
            full += 'T%d' % i
            check_message(vf, box, full, [('t', '.'.join((dot + '.'.join('T%d' % j for j in range(max(0, i - 2) + 1))).split('.')), 1)], what)
            vf.check('\nstruct %s_t {\n' % ref_snake(full) in h, 'every one of many definitions is generated')
            full += '.'
    elif kind == 'fields':
        check_message(vf, p.messages[0], dot + 'M', [('f%d' % i, ['int32', 'string', 'bool'][i % 2], k - i) for i in range(k)], what)
        for f, i in zip(p.messages[0].fields, range(k)):
            vf.check(f.repeated == (i % 3 == 1) and f.optional == (i % 3 == 2), what)
    elif kind == 'oneofs':
        m = p.messages[0]
        vf.check(len(m.oneofs) == k, what)
        for i in range(k):
            o = m.oneofs[i]
            n = 1 + (i * 2 + at) % 4
            vf.check(o.full_name == dot + 'M.o%d' % i and len(o.fields) == n, what)
            vf.check([f.name for f in o.fields] == ['f%dx%d' % (i, j) for j in range(n)] and [f.field_number for f in o.fields] == [10 * i + j + 1 for j in range(n)]
                     and [f.full_type for f in o.fields] == [['bool', dot + 'M', 'bytes'][j % 3] for j in range(n)], what)
            text_ = '\nenum %sm_o%d_e {\n    %sm_o%d_none_e = 0,\n' % (under, i, under, i)
            text_ += ',\n'.join('    %sm_o%d_f%dx%d_e = %d' % (under, i, i, j, j + 1) for j in range(n)) + '\n};\n'
            vf.check(text_ in h, 'oneofs have one choice per member')
    elif kind == 'choices':
        o = p.messages[0].oneofs[0]
        vf.check([f.name for f in o.fields] == ['a'] + ['c%d' % i for i in range(k)] and [f.field_number for f in o.fields] == list(range(1, k + 2)), what)
        vf.check('\nenum %sm_o_e {\n    %sm_o_none_e = 0,\n    %sm_o_a_e = 1' % (under, under, under)
                 + ''.join(',\n    %sm_o_c%d_e = %d' % (under, i, i + 2) for i in range(k)) + '\n};\n' in h, 'oneofs have one choice per member')
        for i in range(k):
            t = CHOICES[(i + (at or 0)) % 4]
            w = 'm_o_c%d_e:' % i
            vf.check(c.count('case %s%s' % (under, w)) == 1, 'every choice is encoded')
            vf.check(c.count('case %d:' % (i + 2)) == 1, 'every choice is decoded')
            vf.check(('%sm_c%d_%s(' % (under, i, 'alloc' if t == 'M' else 'init') in h), 'every choice can be made')
    elif kind == 'constants':
        e = p.enums[0]
        vf.check([f.name for f in e.fields] == ['E%d' % i for i in range(k + 1)] and [f.field_number for f in e.fields[1:]] == [[i, -i][i % 2] for i in range(k)], what)
        text_ = ',\n'.join('    %s_e%d_e = %d' % (pk, i, [0, i - 1, 1 - i][(i > 0) + (i > 0 and i % 2 == 0)]) for i in range(k + 1))
        vf.check('\nenum %se_e {\n' % under + text_ + '\n};\n' in h, 'enumerators have their values')
    elif kind == 'services':
        vf.check(len(p.services) == k, what)
        for i in range(k):
            s = p.services[i]
            vf.check(s.name == 'S%d' % i and [r.name for r in s.rpcs] == ['R%d' % j for j in range((i + at) % 4)], what)
    elif kind == 'options':
        vf.check([o.name for o in p.options] == ['o%d' % i for i in range(k)], what)
        vf.check([o.value for o in p.options] == [[i, '%d' % i, 'v%d' % i, True][i % 4] for i in range(k)], what)
    elif kind == 'package':
        vf.check(p.package == parts, what)
        check_message(vf, p.messages[0], parts + '.M', [('m', parts + '.M', 1), ('e', parts + '.M.E', 2)], what)
        s = '_'.join(parts.split('.'))
        vf.check('\nstruct %s_m_t {\n' % s in h and 'struct %s_m_t *m_p;' % s in h and 'enum %s_m_e_e e;' % s in h, used)
    vf.obs(h)
    vf.reach('done')


def option_lists(vf, most):
    """Any number of options, reserved or empty statements at any place."""
    k = vf.choose(len(FORM_KIND), 'place')
    w = FORM_KIND[k]
    n = 1 + vf.choose(most, 'count')
    fill = ['a = true' if x == 'o' else '' for x in FORM_KIND]
    cons = ['true', '"s, ]"', '-7', 'x.y', '0x1F']
    first = vf.choose(3, 'first')
    opts = ['%s = %s' % (['a', '(b)', '(c.d).e.f', 'deprecated'][(first + i) % 4], cons[(first + i) % 5]) for i in range(n)]
    if w == 'o':
        fill[k] = [', ', ','][vf.choose(2, 'comma')].join(opts)
    else:
        s = [''.join(' option %s;' % o for o in opts), ''.join(' ;option %s;' % o for o in opts)]
        if w in 'me':
            s.append(' reserved %s;' % ', '.join(['1', '3 to 4', '0x7', '100 to max'][(first + i) % 4] for i in range(n)))
            s.append(' reserved %s;' % ','.join('"%s"' % 'abc'[i % 3] for i in range(n)))
            s.append(' reserved 1; reserved "x";' * n)
        fill[k] = s[vf.choose(len(s), 'statements')]
    ok, out = vf.generate({'x.proto': FORMS % tuple(fill)}, 'x.proto')
    vf.check(ok, 'options, reserved and empty statements are accepted wherever protobuf allows them')
    none = tuple('a = true' if x == 'o' else '' for x in FORM_KIND)
    vf.check(out == base(vf, {'x.proto': FORMS % none})[1], 'options, reserved and empty statements do not change the generated code')
    vf.reach('done')


def scope_cousins(vf):
    """Names defined in several messages with nested messages of the same name."""
    pk = ['', 'p'][vf.choose(2, 'package')]
    dot = pk + '.' if pk else ''
    places = ['', 'A.', 'A.N.', 'B.', 'B.N.']
    d = [vf.text(1, 'XY', 'in ' + (n or 'the file')) for n in places]
    at = vf.choose(5, 'enum')
    kind = ['enum' if i == at else 'message' for i in range(5)]

    def decl(i):
        return 'enum %s { Z%d = 0; }' % (d[i], i) if kind[i] == 'enum' else 'message %s { }' % d[i]
    r = vf.text(1, 'XY', 'first reference'), vf.text(1, 'XY', 'second reference')
    text = 'syntax = "proto3";\n%s%s\n' % ('package %s;\n' % pk if pk else '', decl(0))
    for i, n in ((1, 'A'), (3, 'B')):
        text += 'message %s { message N { %s %s a = 1; %s b = 2; } %s %s c = 3; }\n' % (n, decl(i + 1), r[0], r[1], decl(i), r[0])
    want = {}
    good = True
    for msg, names_, chain in (('A.N', 'ab', (2, 1, 0)), ('A', 'c', (1, 0)), ('B.N', 'ab', (4, 3, 0)), ('B', 'c', (3, 0))):
        for name in names_:
            ref = r[1] if name == 'b' else r[0]
            hit = None
            for i in chain:
                if hit is None and d[i] == ref:
                    hit = i
            if hit is None:
                good = False
            else:
                want[msg + '.' + name] = (dot + places[hit] + ref, kind[hit])
    ok, p = vf.parse({'x.proto': text}, 'x.proto')
    vf.obs(ok)
    if not good:
        vf.check(not ok, 'a type that is not defined is rejected')
        vf.reach('undefined')
        return
    vf.check(ok, 'a reference to a defined type is accepted')
    for top in p.messages:
        if top.name == 'A' or top.name == 'B':
            for m, path in ((top, top.name), (by_name(vf, top.messages, 'N'), top.name + '.N')):
                for f in m.fields:
                    full, k = want[path + '.' + f.name]
                    vf.check(f.full_type == full and f.type_kind == k, 'the member has the type that protobuf name resolution gives')
    vf.reach('defined')
