"""The Python properties: which harnesses decide which property, within what bounds."""

import os
from .pycheck import PyCheck, PyJob as J

THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'
ASSUME = ['vlib/pysym.py executes the unmodified Python source with symbolic characters; models of sampled paths are replayed with the '
          'interpreter users run, on the unmodified modules, and must give the same result',
          'symbolic files live in memory (open, os.path and the like are replaced); replays use real files']


def pick(q, t):
    return t if THOROUGH else q


ASCII = ''.join(chr(c) for c in range(32, 127))
JUNK = '!#$%&?@^`|~\\ /' + '\x00\x07\x0b\x0c\x7f\xa0\xa7\xe9\u20ac'
NB = [65, 128]                      # tokens of the two base files


def c23():
    jobs = [J('gap_%d' % b, 'gap', (b, pick(2, 3), (' /*\n"a\t', ' /*\n\r')[b], 0, NB[b] + 1), what='any text between any two tokens of file %d' % b,
              bounds='%d characters of space, tab, newline, return, /, *, quote, letter; all places' % pick(2, 3), reach=['blank', 'open']) for b in (0, 1)]
    jobs += [J('long_%d' % k, 'gap', (0, pick(4, 6), '/* \n"', k, k + pick(1, 3)), what='longer comments at one place',
               bounds='%d characters of space, newline, /, *, quote' % pick(4, 6), reach=['blank', 'open']) for k in (0, 28, 45)]
    jobs.append(J('any', 'gap', (0, 5, ASCII + '\t\r\n', 27, 28), what='any ASCII text in a comment', bounds='5 characters, one place',
                  reach=['blank', 'open']) if THOROUGH else
                J('any', 'gap', (0, 4, '/*\n aA0"{}\\', 27, 28), what='comments of any content', bounds='4 characters, one place', reach=['blank', 'open']))
    jobs.append(J('junk', 'garbage', (0, pick(1, 3), JUNK, 0, NB[0] + 1), what='text that no token contains', bounds='%d characters, all places' % pick(1, 3),
                  reach=['rejected']))
    jobs.append(J('junk2', 'garbage', (0, 2, JUNK, 28, 34), what='text that no token contains', bounds='2 characters, six places', reach=['rejected']))
    jobs.append(J('ends', 'garbage', (1, 2, JUNK, NB[1] - 1, NB[1] + 1), what='text that no token contains', bounds='2 characters, at the end', reach=['rejected']))
    jobs.append(J('strings', 'literal', (pick(3, 4), ' /*"\\\'a\n;}'), what='string literals with comment markers, escapes, quotes and punctuation',
                  bounds='%d characters, four places' % pick(3, 4), reach=['done']))
    return PyCheck('C23', jobs, ASSUME)


def c24():
    jobs = []
    for f in ('simple', 'full', 'dot', 'import', 'importdot'):
        for lab in ('', 'repeated', 'oneof', 'map'):
            if not THOROUGH and f != 'simple' and lab not in ('', 'map' if f in ('full', 'importdot') else 'oneof'):
                continue
            if not THOROUGH and f == 'simple' and lab in ('repeated', 'oneof'):
                continue
            jobs.append(J('%s_%s' % (f, lab or 'plain'), 'scope', (f, lab), what='references of this form from two levels of nesting',
                          bounds='definitions at four levels with any of three names each, messages or enums; packages none, one, two parts',
                          reach=['defined', 'undefined']))
    jobs.append(J('within', 'scope_nested', (), what='references to types within other messages, local and imported',
                  bounds='two names, two levels, packages of none, one or two parts', reach=['defined', 'undefined']))
    jobs.append(J('parents', 'scope_parents', (), what='types of enclosing packages', bounds='packages of one to three parts, two imports',
                  reach=['defined', 'undefined']))
    jobs.append(J('relative', 'scope_relative', (), what='types with a part of their package', bounds='packages of one to three parts, two imports',
                  reach=['defined', 'undefined']))
    jobs.append(J('cousins', 'scope_cousins', (), what='names defined in messages whose nested messages have the same name',
                  bounds='two names at five places, two references', reach=['defined', 'undefined']))
    jobs += [J('many_' + w, 'many', (w, pick(6, 12)), what='files with any number of ' + w + ' types', bounds='0..%d' % pick(6, 12), reach=['done'])
             for w in ('imports', 'imported', 'local', 'nested')]
    jobs += [J('crowd_' + w, 'many', (w, pick((20, 70), (20, 70, 140, 300))), what='very many ' + w + ' types', bounds='%d' % pick(70, 300), reach=['done'])
             for w in ('imports', 'imported', 'local', 'nested')]
    return PyCheck('C24', jobs, ASSUME)


def c25():
    jobs = [J(s, 'order', (s, l), what='types using each other', bounds='every choice of field types among %s, repeated or not' % l, reach=['done'])
            for s, l in (('flat', 'ABC'), ('two', pick('ABC', 'ABC')), ('nested', pick('ABN', 'ABCN')), ('deep', pick('ABC', 'ABCN')), ('enums', 'ABC'), ('inner', 'ABC'), ('inner2', 'ABC'), ('manyenums', 'ABC'))]
    return PyCheck('C25', jobs, ASSUME)


def c26():
    jobs = [J('%s_%d' % (w, n), 'integer', (w, n, a), what='every literal of this length', bounds='%d characters of %s' % (n, a), reach=['value', 'malformed'])
            for w, n, a in (('field', 3, '0129xXaF'), ('field', 2, '0123456789xXabcdefABCDEF'), ('oneof', 3, '017xa'), ('map', 3, '018xb'), ('repeated', 3, '079xC'),
                            ('enum', 3, '-0178xaF'), ('enum', 2, '-0123456789'), ('enum', 4, '-07xF'))
            + ((('field', 5, '0129xXaF'), ('enum', 5, '-0178xaF')) if THOROUGH else ())]
    jobs += [J('large_%s_%d' % (w, n), 'large', (w, n, pick('15' if n == 9 else '12' if n == 10 else '259' if n < 7 else '19', '01459' if n < 8 else '159' if n == 9 else '128')), what='decimal numbers',
               bounds='%d digits' % n, reach=['value'])
             for w, n in (('field', 5), ('field', 9), ('oneof', 6), ('map', 9), ('repeated', 8), ('enum', 10), ('enum', 7))]
    return PyCheck('C26', jobs, ASSUME)


def c27():
    jobs = [J(w, 'names', (n, w, a), what='every name', bounds='%d characters of %s' % (n, a), reach=['done'])
            for w, a, n in [(w, 'aB1_', pick(4, 6)) for w in ('plain', 'plainnested', 'field', 'enum', 'constant', 'oneof')]
            + [(w, 'aB1_', pick(3, 5)) for w in ('message', 'nested', 'optional', 'repeated', 'member', 'deepconstant')]
            + [('plain', 'abAB1_', pick(3, 5))]]
    jobs[-1].name = 'plain2'
    jobs.append(J('letters', 'names', (3, 'field', 'azAZmM09_'), what='every name', bounds='3 characters, ends and middle of every range', reach=['done']))
    jobs.append(J('long', 'names', (pick(6, 8), 'plain', 'aB_'), what='longer names', bounds='%d characters' % pick(6, 8), reach=['done']))
    jobs += [J('scalar_' + w, 'scalar_names', (w,), what='names of scalar types in any case', bounds='15 words, case of 3 characters', reach=['done'])
             for w in ('plain', 'message', 'nested', 'enum')]
    return PyCheck('C27', jobs, ASSUME)


def c28():
    jobs = [J('sets_%d' % k, 'sets', (k,), what='every iteration order of every set', bounds='one file, sets of up to five elements', reach=['done'], time=pick(20, 999))
            for k in (1, 2, 0)]
    return PyCheck('C28', jobs, ASSUME)


def c29():
    jobs = [J('path', 'imports', ('i.proto', ('', 'enum', 'message', 'other', 'package')), what='every subset of directories having the file',
              bounds='three directories, five -I orders, four contents', reach=['found', 'missing', 'other']),
            J('subdir', 'imports', ('g/i.proto', ('', 'enum', 'message')), what='imports with a directory', bounds='as above', reach=['found', 'missing']),
            J('names_import', 'filenames', (pick(4, 5), 'aB1_-.', 'import'), what='every file name, imported', bounds='%d characters' % pick(4, 5), reach=['done']),
            J('names', 'filenames', (pick(4, 5), 'aB1_-.', 'alone'), what='every file name', bounds='%d characters' % pick(4, 5), reach=['done']),
            J('several', 'several', (), what='three of four files in every order', bounds='four given files', reach=['done'])]
    return PyCheck('C29', jobs, ASSUME)


def c30():
    jobs = [J('constant', 'forms', ('constant', pick(2, 3), 'a0x1.-_Z'), what='options with identifier and integer constants at every place', bounds='%d characters' % pick(2, 3), reach=['done']),
            J('string', 'forms', ('string', pick(2, 3), '/* ;\'{a'), what='options with string constants at every place', bounds='%d characters' % pick(2, 3), reach=['done']),
            J('proto3', 'forms', ('string', 6, 'proto3'), what='the string that is also a token', bounds='6 characters', reach=['done'], time=pick(5, 999)),
            J('reserved', 'forms', ('reserved', pick(5, 7), '12, '), what='reserved numbers', bounds='%d characters' % pick(5, 7), reach=['done']),
            J('ranges', 'ranges', (), what='reserved ranges', bounds='lists of two', reach=['done']),
            J('names', 'forms', ('names', 2, 'aZ_0/* '), what='reserved names', bounds='2 characters', reach=['done']),
            J('lists', 'option_lists', (pick(5, 9),), what='any number of options, reserved and empty statements at every place',
              bounds='1..%d' % pick(5, 9), reach=['done']),
            J('empty', 'forms', ('empty', 0, ''), what='empty statements', bounds='one to three', reach=['done'])]
    return PyCheck('C30', jobs, ASSUME)


def c31():
    jobs = [J('upper', 'upper', (pick(4, 6), 'aB1_'), what='every name of an enum, enumerator or field', bounds='%d characters' % pick(4, 6), reach=['done'])]
    return PyCheck('C31', jobs, ASSUME)


def c32():
    jobs = [J('one', 'members', (1,), what='every type and label', bounds='one field', reach=['done']),
            J('two', 'members', (2,), what='every pair of types and labels', bounds='two fields', reach=['done']),
            J('many', 'members', (pick(24, 48),), what='messages with many fields, types and labels taking turns', bounds='3..%d fields' % pick(24, 48), reach=['done']),
            J('choices', 'many', ('choices', pick(6, 12)), what='oneofs with any number of members', bounds='1..%d' % pick(7, 13), reach=['done']),
            J('crowd', 'many', ('choices', (20, 70, 140, 300)), what='oneofs with very many members', bounds='300', reach=['done'])]
    return PyCheck('C32', jobs, ASSUME)


def c33():
    jobs = [J('near', 'bystander', (0, 10, pick(1, 2), 'BCNKAZ'), what='ten further definitions with any name, before or after', bounds='names of %d characters, three packages' % pick(1, 2), reach=['done']),
            J('long', 'bystander', (0, 10, 3, 'aBN'), what='as above', bounds='names of 3 characters', reach=['done']),
            J('crowd', 'crowd', ((20, 70, 140, 300),), what='very many further definitions', bounds='300', reach=['done'])]
    return PyCheck('C33', jobs, ASSUME)


def c34():
    jobs = []
    for b in (0, 1):
        for m in ('remove', 'repeat', 'replace', 'insert'):
            for pre in ((0, 1, 2, 3) if THOROUGH or m in ('remove', 'repeat') else (1,)):
                jobs.append(J('%s_%d_%d' % (m, b, pre), 'malformed', (b, m, 0, NB[b] + (m == 'insert'), pre), what='every one-token change of file %d' % b,
                              bounds='%d places, 47 tokens' % NB[b], reach=['rejected', 'accepted']))
    jobs.append(J('swap', 'malformed', (0, 'swap', 0, NB[0] - 1, 1), what='two neighbouring tokens exchanged', bounds='all places', reach=['rejected']))
    jobs.append(J('noise', 'noise', (0, pick(1, 2), 1, pick(NB[0], 20), 32, 127), what='any characters between tokens', bounds='%d characters' % pick(1, 2), reach=['rejected', 'accepted']))
    jobs.append(J('noise2', 'noise', (0, 2, 28, pick(29, 45), 32, 127), what='any characters between tokens', bounds='2 characters, some places', reach=['rejected', 'accepted']))
    jobs.append(J('optional', 'optional', (), what='optional fields of every kind of type', bounds='16 types', reach=['accepted', 'rejected']))
    jobs.append(J('truncated', 'truncated', (), what='files cut anywhere', bounds='two files, every character', reach=['rejected']))
    return PyCheck('C34', jobs, ASSUME)


def c35():
    jobs = [J('services', 'model_service', (pick(2, 3),), what='up to two services with up to two rpcs, any names, seven forms of types, streams',
              bounds='names of %d characters' % pick(2, 3), reach=['done']),
            J('options', 'model_option', (pick(2, 3),), what='up to two options, five forms of names, four kinds of constants', bounds='names and strings of %d characters' % pick(2, 3), reach=['done']),
            J('messages', 'model_message', (2, 1), what='one field of nine types and five labels, an enum, nested types, an import', bounds='names of 2 characters', reach=['done']),
            J('messages2', 'model_message', (1, 2), what='two fields', bounds='names of 1 character', reach=['done'])]
    jobs += [J('many_' + w, 'many', (w, pick(7, 16)), what='files with any number of ' + w, bounds='0..%d' % pick(7, 16), reach=['done'])
             for w in ('depth', 'fields', 'oneofs', 'constants', 'services', 'options', 'package', 'local', 'nested', 'imports')]
    jobs += [J('crowd_' + w, 'many', (w, n), what='very many ' + w, bounds='%d' % n[-1], reach=['done'])
             for w, n in (('depth', (12, 20)), ('fields', (20, 70, 140)), ('oneofs', (20, 70)), ('constants', (20, 70, 140, 300)), ('services', (20, 70, 140)),
                          ('options', (20, 70, 140)), ('package', (10, 20)))]
    return PyCheck('C35', jobs, ASSUME)


CHECKS = {n.upper(): f for n, f in list(globals().items()) if n[0] == 'c' and n[1:].isdigit()}
