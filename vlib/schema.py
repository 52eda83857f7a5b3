"""Message schemas used by the C checks, and what is derived from them: .proto
text for the generator under test, and descriptor tables for the reference
model (harness/spec.h).  The tables are derived from the schema here, never
from the generator's output."""

import re

SCALARS = ['int32', 'int64', 'sint32', 'sint64', 'uint32', 'uint64', 'fixed32',
           'fixed64', 'sfixed32', 'sfixed64', 'float', 'double', 'bool']
T = {name: 'T_' + name.upper() for name in SCALARS + ['string', 'bytes']}


class F:
    def __init__(self, name, num, type_, label='', oneof=None, key=None):
        self.name, self.num, self.type = name, num, type_
        self.label, self.oneof, self.key = label, oneof, key


def snake(name):
    out = ''
    for i, c in enumerate(name):
        if c.isupper() and i and (name[i - 1].islower() or name[i - 1].isdigit()
                                  or (i + 1 < len(name) and name[i + 1].islower())) \
                and name[i - 1] != '_':
            out += '_'
        out += c.lower()
    return out


class Schema:
    """messages: {'Name' or 'Outer.Inner': [F...]}; enums: {'Name': [(n, v)...]}.
    Type names are 'Name' / 'Outer.Inner' (same package) or 'pkg:Name'."""

    def __init__(self, package, messages, enums=None, imports=None, file=None):
        self.package, self.messages = package, messages
        self.enums, self.imports = enums or {}, imports or {}
        self.file = file or package

    def proto(self):
        out = ['syntax = "proto3";'] + (['package %s;' % self.package] if self.package else [])
        out += ['import "%s.proto";' % f for f in self.imports]
        for name, items in self.enums.items():
            if '.' not in name:
                out += self._enum(name, items, '')
        for name in self.messages:
            if '.' not in name:
                out += self._message(name, '')
        return '\n'.join(out) + '\n'

    def _enum(self, name, items, ind):
        return ['%senum %s {' % (ind, name.split('.')[-1])] \
            + ['%s  %s = %d;' % (ind, n, v) for n, v in items] + [ind + '}']

    def _tname(self, f, ctx):
        t = f.type.replace(':', '.').lstrip('.')
        parent = t.rpartition('.')[0]
        if parent and ':' not in f.type and (ctx + '.').startswith(parent + '.'):
            t = t.rpartition('.')[2]
        return t

    def _message(self, name, ind):
        out = ['%smessage %s {' % (ind, name.split('.')[-1])]
        for n, items in self.enums.items():
            if n.rpartition('.')[0] == name:
                out += self._enum(n, items, ind + '  ')
        for n in self.messages:
            if n.rpartition('.')[0] == name:
                out += self._message(n, ind + '  ')
        groups = {}
        for f in self.messages[name]:
            t = self._tname(f, name)
            if f.key:
                out.append('%s  map<%s, %s> %s = %d;' % (ind, f.key, t, f.name, f.num))
            elif f.oneof:
                groups.setdefault(f.oneof, []).append('%s    %s %s = %d;' % (ind, t, f.name, f.num))
            else:
                out.append('%s  %s%s %s = %d;' % (ind, f.label + ' ' if f.label else '', t, f.name, f.num))
        for g, lines in groups.items():
            out += ['%s  oneof %s {' % (ind, g)] + lines + [ind + '  }']
        return out + [ind + '}']

    def cname(self, t):
        pkg = self.package
        if ':' in t:
            pkg, t = t.split(':')
        return '_'.join([snake(p) for p in pkg.split('.') if p] + [snake(p) for p in t.split('.')])

    def is_enum(self, t):
        if ':' in t:
            pkg, n = t.split(':')
            return any(s.package == pkg and n in s.enums for s in self.imports.values())
        return t in self.enums

    def is_msg(self, t):
        return t not in T and not self.is_enum(t)

    def descriptors(self, externs=True):
        """C text; every message M gets `const struct mdesc D_<cname>`."""
        out = []
        for s in self.imports.values():
            out.append(s.descriptors())
        allm = []
        for name, fields in self.messages.items():
            extra = []
            for f in fields:
                if f.key:
                    extra.append((self.cname(name) + '_pbtools_map_' + f.name,
                                  [F('key', 1, f.key), F('value', 2, f.type)], f))
            allm.append((self.cname(name), fields, name))
            allm += [(c, fl, None) for c, fl, _ in extra]
        for c, _, _ in allm:
            out.append('static const struct mdesc D_%s;' % c)
        for c, fields, name in allm:
            st = 'struct %s_t' % c
            rows, groups, sels = [], [], {}
            for f in fields:
                t, sub, elem = f.type, '0', None
                ctype = T.get(t)
                if f.key:
                    sub, ctype = '&D_%s_pbtools_map_%s' % (c, f.name), 'T_MSG'
                elif ctype is None:
                    if self.is_enum(t):
                        ctype = 'T_ENUM'
                    else:
                        ctype, sub = 'T_MSG', '&D_' + self.cname(t)
                label, pres, sel, group = 'L_SING', '0', '0', 0
                alloc = allocn = init = '0'
                suffix = '_p' if ctype in ('T_STRING', 'T_MSG') else ''
                off = 'offsetof(%s, %s%s)' % (st, f.name, suffix)
                if f.label == 'repeated' or f.key:
                    label = 'L_REP'
                    off = 'offsetof(%s, %s)' % (st, f.name)
                    allocn = 'an_%s_%s' % (c, f.name)
                    out.append('static int %s(void *m, int n) { return %s_%s_alloc(m, n); }' % (allocn, c, f.name))
                elif f.label == 'optional':
                    label = 'L_OPT'
                    pres = 'offsetof(%s, %s.is_present)' % (st, f.name)
                    off = 'offsetof(%s, %s.value%s)' % (st, f.name, suffix)
                elif f.oneof:
                    label = 'L_ONEOF'
                    if f.oneof not in groups:
                        groups.append(f.oneof)
                    group = groups.index(f.oneof)
                    sel = '%s_%s_%s_e' % (c, f.oneof, f.name)
                    pres = 'offsetof(%s, %s)' % (st, f.oneof)
                    if ctype == 'T_MSG':
                        alloc = 'al_%s_%s' % (c, f.name)
                        out.append('static int %s(void *m) { return %s_%s_alloc(m); }' % (alloc, c, f.name))
                    else:
                        init = 'in_%s_%s' % (c, f.name)
                        out.append('static void %s(void *m) { %s_%s_init(m); }' % (init, c, f.name))
                elif ctype == 'T_MSG':
                    alloc = 'al_%s_%s' % (c, f.name)
                    out.append('static int %s(void *m) { return %s_%s_alloc(m); }' % (alloc, c, f.name))
                rows.append('  { %du, %s, %s, %s, %s, %s, %d, %s, %s, %s, %s },' % (
                    f.num, ctype, label, off, pres, sel, group, sub, alloc, allocn, init))
            mk = en = de = '0'
            if name and '.' not in name:
                mk, en, de = 'mk_' + c, 'en_' + c, 'de_' + c
                out.append('static void *%s(void *w, size_t n) { return %s_new(w, n); }' % (mk, c))
                out.append('static int %s(void *m, uint8_t *b, size_t n) { return %s_encode(m, b, n); }' % (en, c))
                out.append('static int %s(void *m, const uint8_t *b, size_t n) { return %s_decode(m, b, n); }' % (de, c))
            out.append('static const struct fdesc f_%s[] = {\n%s\n};' % (c, '\n'.join(rows) or ' { 0 }'))
            out.append('static const struct mdesc D_%s = { "%s", %d, f_%s, sizeof(%s), %d, { %s }, %s, %s, %s };' % (
                c, c, len(rows), c, st, len(groups),
                ', '.join('offsetof(%s, %s)' % (st, g) for g in groups) or '0', mk, en, de))
        return '\n'.join(out)

    def header(self):
        """desc.h for the harness."""
        inc = ['#include "%s.h"' % self.file]
        return '#include "spec.h"\n' + '\n'.join(inc) + '\n' \
            + '#pragma GCC diagnostic ignored "-Wunused"\n' + self.descriptors() + '\n'


ENUM = [('ZERO', 0), ('ONE', 1), ('NEG', -5), ('BIG', 2147483647)]
ALLT = SCALARS + ['Color', 'string', 'bytes']


def core():
    m = {}
    m['Sub'] = [F('v', 1, 'uint32')]
    m['Sing'] = [F('f_' + t.lower(), i + 1, t) for i, t in enumerate(ALLT)] + [F('sub', 20, 'Sub')]
    m['Opt'] = [F('o_' + t.lower(), i + 1, t, 'optional') for i, t in enumerate(ALLT)]
    m['Rep'] = [F('r_' + t.lower(), i + 1, t, 'repeated') for i, t in enumerate(ALLT)] + [F('subs', 20, 'Sub', 'repeated')]
    m['One'] = [F('v_' + t.lower(), i + 1, t, oneof='value') for i, t in enumerate(ALLT)] \
        + [F('v_sub', 20, 'Sub', oneof='value'), F('x_int', 21, 'uint32', oneof='other'),
           F('x_str', 22, 'string', oneof='other'), F('plain', 23, 'uint32')]
    m['Empty'] = []
    return Schema('pk', m, {'Color': ENUM})


def small():
    """Few fields per message: cheap to explore with arbitrary bytes."""
    m = {}
    m['Leaf'] = [F('v', 1, 'uint32')]
    m['Mix'] = [F('a', 1, 'uint32'), F('s', 2, 'string'), F('m', 3, 'Leaf'), F('r', 4, 'uint32', 'repeated'),
                F('x', 5, 'sint32', oneof='value'), F('y', 6, 'bytes', oneof='value'),
                F('o', 7, 'bool', 'optional')]
    m['Reps'] = [F('a', 1, 'uint32', 'repeated'), F('s', 2, 'string', 'repeated'),
                 F('m', 3, 'Leaf', 'repeated'), F('f', 4, 'fixed32', 'repeated')]
    m['Fix'] = [F('f', 1, 'fixed32', 'repeated'), F('d', 2, 'fixed64', 'repeated')]
    m['Nest'] = [F('m', 1, 'Mid'), F('r', 2, 'Mid', 'repeated')]
    m['Mid'] = [F('l', 1, 'Leaf'), F('r', 2, 'Leaf', 'repeated'), F('k', 3, 'int32')]
    m['Tree'] = [F('l', 1, 'Tree'), F('kids', 2, 'Tree', 'repeated'), F('v', 3, 'uint32')]
    m['Choice'] = [F('i', 1, 'int32', oneof='value'), F('s', 2, 'string', oneof='value'),
                   F('m', 3, 'Leaf', oneof='value'), F('p', 4, 'bool', oneof='other'),
                   F('q', 5, 'fixed32', oneof='other')]
    m['Maps'] = [F('a', 1, 'Leaf', key='string'), F('b', 2, 'int32', key='sint32'),
                 F('c', 3, 'bytes', key='bool'), F('d', 4, 'Color', key='fixed64')]
    m['Outer'] = [F('i', 1, 'Outer.Inner'), F('e', 2, 'Outer.Kind'), F('rs', 3, 'Outer.Inner', 'repeated'),
                  F('re', 4, 'Outer.Kind', 'repeated')]
    m['Outer.Inner'] = [F('b', 1, 'bool'), F('d', 2, 'Outer.Inner.Deep')]
    m['Outer.Inner.Deep'] = [F('x', 1, 'sint64')]
    return Schema('sm', m, {'Color': ENUM, 'Outer.Kind': [('A', 0), ('B', 7)]})


def numbers():
    nums = [1, 15, 16, 2047, 2048, 262143, 262144, 33554431, 33554432, 536870911]
    kinds = [('uint32', ''), ('fixed32', 'repeated'), ('string', ''), ('fixed64', 'optional'), ('Sub', ''), ('sint64', 'repeated'),
             ('bytes', 'optional'), ('Sub', 'repeated'), ('double', ''), ('bool', 'repeated')]
    m = {'Sub': [F('v', 1, 'uint32')], 'All': []}
    for i, n in enumerate(nums):
        for j in range(5):
            t, label = kinds[(2 * i + 2 * j + (i // 5) + j // 5) % 10]
            m['All'] .append(F('n%d_%d' % (i, j), 0, t, label))
    # distinct numbers: boundaries first, then their neighbours
    used, out = set(), []
    for i, n in enumerate(nums):
        for j, d in enumerate((0, 1, -1, 2, -2)):
            x = n + d
            if 1 <= x <= 536870911 and x not in used and not 19000 <= x <= 19999:
                used.add(x)
                f = m['All'][i * 5 + j]
                f.num = x
                out.append(f)
    m['All'] = out
    return Schema('nm', m)


def importing():
    a = Schema('ia.deep', {'Msg': [F('v', 1, 'sint32'), F('s', 2, 'string')]}, {'Kind': [('KA', 0), ('KB', 3)]}, file='ia')
    b = Schema('ib', {'Msg': [F('w', 1, 'fixed64')]}, {'Kind': [('KC', 0)]}, file='ib')
    m = {'Msg': [F('x', 1, 'bool')],
         'User': [F('a', 1, 'ia.deep:Msg'), F('b', 2, 'ib:Msg'), F('c', 3, 'Msg'),
                  F('ra', 4, 'ia.deep:Msg', 'repeated'), F('rb', 5, 'ib:Msg', 'repeated'),
                  F('kb', 6, 'ib:Kind'), F('rkb', 7, 'ib:Kind', 'repeated'),
                  F('oa', 8, 'ia.deep:Msg', oneof='value'), F('ob', 9, 'ib:Kind', oneof='value')]}
    return Schema('im', m, imports={'ia': a, 'ib': b})


def importing2():
    """Imports between files without package and with dotted packages."""
    c = Schema('', {'Ca': [F('v', 1, 'sint32')], 'Cb': [F('s', 2, 'string')], 'Cc': [F('f', 3, 'double')], 'Cd': [F('x', 1, 'bool', 'repeated')]},
               {n: [(n + 'Z', 0), (n + 'T', 3)] for n in ('Ka', 'Kb', 'Kc', 'Kd')}, file='ic')
    d = Schema('one.two.Three', {n: [F('w', i + 1, 'uint64')] for i, n in enumerate(('Da', 'Db', 'Dc', 'Ca'))},
               {n: [(n + 'Z', 0), (n + 'M', -1)] for n in ('Ka', 'Ke')}, file='id')
    m = {'User': [F('c', 1, ':Cc'), F('d', 2, ':Cd', 'repeated'), F('o', 3, ':Kd', 'optional'), F('r', 4, ':Kc', 'repeated'),
                  F('mc', 5, ':Cb', key='string'), F('mk', 6, ':Kb', key='sint64'), F('oc', 7, ':Ca', oneof='value'),
                  F('ok', 8, ':Ka', oneof='value')],
         'User2': [F('c', 1, 'one.two.Three:Dc', 'repeated'), F('d', 2, 'one.two.Three:Ca'), F('o', 3, 'one.two.Three:Ke', 'optional'),
                   F('r', 4, 'one.two.Three:Ka', 'repeated'), F('mc', 5, 'one.two.Three:Db', key='bool'), F('mk', 6, 'one.two.Three:Ke', key='fixed32'),
                   F('oc', 7, 'one.two.Three:Da', oneof='value'), F('ok', 8, 'one.two.Three:Ka', oneof='value')]}
    return Schema('', m, imports={'ic': c, 'id': d}, file='im2')


def mixed():
    """A dotted package, equally named nested messages, mutual recursion,
    several oneofs in nested messages, and a wide message."""
    m = {'A': [F('n', 1, 'A.N'), F('b', 2, 'B'), F('k', 3, 'A.K', 'optional'), F('rn', 4, 'A.N', 'repeated')],
         'A.N': [F('x', 1, 'uint32', oneof='first'), F('y', 2, 'string', oneof='first'), F('z', 16, 'A.N', oneof='second'), F('w', 3, 'A.K', oneof='second'),
                 F('v', 2048, 'A', oneof='third'), F('plain', 5, 'sint64')],
         'B': [F('n', 1, 'B.N', 'repeated'), F('a', 2, 'A'), F('m', 3, 'B.N', key='int32'), F('k', 4, 'B.K', 'repeated')],
         'B.N': [F('b', 7, 'B'), F('k', 1, 'B.K', oneof='first'), F('s', 2, 'bytes', oneof='first'), F('m', 3, 'B.N', oneof='second'),
                 F('opt', 4, 'sfixed64', 'optional')],
         'Wide': []}
    types = ALLT[:13] + ['string', 'bytes', 'Wide.K', 'B']
    for i in range(44):
        t = types[(i * 5) % len(types)]
        label = ['', 'optional', 'repeated', 'oneof'][(i + i // 4) % 4]
        if label == 'optional' and t == 'B':
            label = ''
        num = [44 - i, 100 + i, 17 * i + 300][i % 3]
        m['Wide'].append(F('f%d' % i, num, t, '' if label == 'oneof' else label, oneof=['p', 'q', 'r'][i % 3] if label == 'oneof' else None))
    return Schema('mx.yZ.w', m, {'A.K': [('KA', 0), ('KB', -1)], 'B.K': [('KA', 0), ('KC', 300)], 'Wide.K': [('KD', 0), ('KE', 7)]}, file='mx')


def lengths():
    m = {'Body': [F('b', 1, 'bytes')],
         'Top': [F('m', 1, 'Body'), F('r', 2, 'Body', 'repeated'), F('o', 3, 'Body', oneof='value'),
                 F('mp', 4, 'bytes', key='uint32')]}
    return Schema('ln', m)


def maps():
    keys = ['int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32', 'fixed64', 'sfixed32', 'sfixed64', 'bool', 'string']
    m = {'Sub': [F('v', 1, 'uint32')], 'All': []}
    n = 1
    for i, k in enumerate(keys):
        m['All'].append(F('k%d' % i, n, 'uint32', key=k))
        n += 1
    for i, v in enumerate(ALLT + ['Sub']):
        m['All'].append(F('v%d' % i, n, v, key='int32'))
        n += 1
    return Schema('mp', m, {'Color': ENUM})


SENTINEL = 123456789


def fieldnum():
    """Messages with one field whose number is symbolic."""
    m = {'Sub': [F('v', 1, 'uint32')]}
    for lab in ('', 'optional', 'repeated', 'oneof'):
        for t in ('uint32', 'fixed64', 'string', 'Sub'):
            if lab == 'optional' and t == 'Sub':
                continue
            m[('Plain' if not lab else lab.capitalize()) + t.capitalize()] = [
                F('v', SENTINEL, t, lab if lab != 'oneof' else '', oneof='value' if lab == 'oneof' else None)]
    return Schema('fn', m)
