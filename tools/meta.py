#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB, GEN, PARSER = 'lib/src/pbtools.c', 'pbtools/c_source/__init__.py', 'pbtools/parser.py'
SYM = 'symbolic execution of the generated C and the runtime (clang LLVM IR, own engine vfse), every branch, memory access and assertion decided by z3'
TESTED = 'The tests decode and encode a few dozen fixed messages with fixed values.'

# id, title, statement, over, quantifier text, why tests cannot, files, mechanisms, level note
P = []


def prop(id_, title, statement, over, text, why, files, mech, note='', technique=SYM, level='model_checking', hook=None):
    assert len(title) <= 80, title
    assert statement.count('. ') <= 2, (id_, statement)
    P.append(dict(id=id_, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, note=note, technique=technique, level=level))


B = 'within the bounds listed per job in the evidence; outside: longer inputs, other schemas'

prop('C01', 'Encoding writes exactly the protobuf wire format',
     'Encoding a message returns the number of bytes written, and these bytes are exactly the protobuf encoding of its '
     'contents: for every set field a minimal tag with the declared number and the wire type of its type, followed by the '
     'value in canonical form (varint, zigzag, little-endian, length-delimited), repeated scalars packed. '
     'Nothing else is written.',
     ['inputs'], 'every value of every scalar type, every field number, every label; repeated fields and strings up to the stated lengths',
     TESTED + ' A wrong shift, mask, sign extension or tag size shows only for particular values or field numbers.',
     [LIB, GEN], [('encoder primitives', 'encoder_write_varint .. pbtools_encoder_write_repeated_bytes in lib/src/pbtools.c'),
                  ('generated encode functions', 'generate_message_encode_body in pbtools/c_source/__init__.py')],
     'all scalar values; field numbers symbolic over 1..2^29-1; strings 0..2, repeated 1..17 items')
prop('C02', 'Decoding yields exactly the transmitted values',
     'Decoding any well-formed encoding of a record is accepted, consumes the whole input and gives the field exactly the '
     'transmitted value, also when varints, lengths or tags are encoded with more bytes than necessary. '
     'Values wider than the field are reduced as the protobuf specification says (integers truncated, bool non-zero).',
     ['inputs'], 'every value and every (also overlong) varint encoding, for every type, label and field number',
     TESTED + ' They never decode overlong varints, out-of-range values or most bit patterns.',
     [LIB, GEN], [('decoder primitives', 'decoder_read_varint, pbtools_decoder_read_* in lib/src/pbtools.c'),
                  ('generated decode functions', 'generate_message_decode_body in pbtools/c_source/__init__.py')],
     'one record of every type; varints of 1..10 bytes; payloads 0..2; up to 3 arbitrary bytes after every tag')
prop('C03', 'Encode then decode gives the same message back',
     'Decoding what encoding produced returns the encoded size and a message with the same contents, for every field type, '
     'label, oneof, map, nesting and imported type.',
     ['inputs'], 'every value of one field of every kind; every pair of fields of the smaller schemas, nested up to three levels',
     TESTED, [LIB, GEN], [('encoder and decoder', LIB), ('generated code', GEN)], 'one or two fields per message, nesting up to three')
prop('C04', 'Decoding arbitrary bytes is memory safe and terminates',
     'For any input bytes and any workspace, decoding returns, reads only the input and the workspace, writes only the workspace, '
     'never reads uninitialised memory or otherwise executes undefined behaviour, and leaves the input unchanged. '
     'It returns the input size or a documented negative error.',
     ['inputs'], 'all inputs up to 5-6 bytes, all one-byte changes and cuts of two-record messages, all workspace sizes',
     'The tests feed well-formed messages and a handful of truncated ones, without sanitizers and with one workspace size.',
     [LIB, GEN], [('bounds checks', 'decoder_get, decoder_read, decoder_seek, decoder_init_slice'), ('arena', 'heap_alloc'),
                  ('two-pass repeated decoding', 'repeated_info_decode_*, decoder_decode_repeated')],
     'inputs of 0..5/6 bytes, mutations of two records, workspaces of 0..message+96 bytes')
prop('C05', 'Malformed input is rejected with the matching error',
     'Input is accepted exactly when it is a well-formed encoding: truncated values, wrong wire types, field number zero, '
     'overlong varints and lengths beyond the input are rejected. The negative return value names the kind of defect.',
     ['inputs'], 'all inputs up to 5-6 bytes, every cut and every one-byte change of two-record messages, every wire type for every field type',
     'The tests contain a few truncated messages; every other way to be malformed is untested.',
     [LIB, GEN], [('error handling', 'decoder_abort, read_varint_check_wire_type, decoder_read_length_delimited'),
                  ('generated decode functions', GEN)], 'as C04, plus cuts of every record type')
prop('C06', 'Unknown fields are skipped without affecting known ones',
     'Records with undeclared field numbers, of any wire type and with any payload, anywhere in a message or sub-message, '
     'do not change how the other records are decoded, and malformed unknown records are rejected.',
     ['inputs'], 'every undeclared field number, every wire type, varints up to 10 bytes, payloads up to 1000 bytes',
     'The tests decode two messages with unknown fields.', [LIB, GEN],
     [('skipping', 'pbtools_decoder_skip_field'), ('default case of the generated switch', 'generate_message_decode_body')],
     'one or two unknown records around known ones')
prop('C07', 'Repeated fields keep every item in order, packed or not',
     'Decoding a repeated field gives all items in wire order, whether records are packed, single or mixed and whatever other '
     'records lie between them; encoding writes all items in order.',
     ['inputs'], 'every type; two and three records with other fields and unknown fields in between; packed payloads of arbitrary bytes; up to 23 records',
     TESTED + ' Mixed packed and single records and interleaved repeated fields are untested.', [LIB, GEN],
     [('two-pass repeated decoding', 'repeated_info_decode_*, decoder_decode_repeated, pbtools_decode_repeated_inner'),
      ('packed encoding', 'encoder_write_repeated')], 'up to three symbolic records; alternations of up to 23 records')
prop('C08', 'Encoding fits any large-enough buffer and never overruns one',
     'Encoding into a buffer at least as large as the encoding succeeds; into a smaller one it reports that the buffer is full. '
     'No byte outside the buffer is ever written.',
     ['inputs'], 'every buffer size 0..19 against every one- or two-field message',
     'The tests encode into ample buffers and two or three small ones.', [LIB],
     [('buffer check', 'encoder_write, encoder_abort, encoder_get_result')], 'buffers of 0..19 bytes')
prop('C09', 'Running out of workspace while decoding is always reported',
     'When the workspace cannot hold what is decoded, decoding returns out of memory, never a successful result with missing or '
     'wrong contents; with an ample workspace it does not report it.',
     ['inputs', 'fault_sequences'], 'every workspace size against one- and two-record messages of every type, nested included',
     'The tests exhaust the workspace in a few places; each allocation site has its own failure path.', [LIB, GEN],
     [('arena', 'heap_alloc, decoder_heap_alloc'), ('failure paths', 'decoder_decode_repeated, pbtools_decode_repeated_inner, pbtools_decoder_sub_message_decode')],
     'workspaces from 0 to more than enough')
prop('C10', 'Allocations are in the workspace, aligned, disjoint and initialised',
     'A successful allocation of a message, sub-message or repeated field gives default-initialised, suitably aligned memory inside the '
     'workspace that overlaps nothing allocated before; one that does not fit, or has a negative length, is refused and leaves a usable field.',
     ['inputs', 'histories'], 'every length (all 2^32), every workspace size up to the bound, sequences of three allocations',
     'The tests allocate small constant lengths from ample workspaces.', [LIB, GEN],
     [('arena', 'heap_new, heap_alloc'), ('allocation API', 'calloc_repeated, pbtools_alloc_repeated, pbtools_sub_message_alloc')],
     'workspaces of 0..message+96/160 bytes; sequences of three')
prop('C11', 'A oneof holds exactly the member set last',
     'After setting members of a oneof through the API or decoding records of several members, exactly the last one is current with its value, '
     'and encoding writes exactly this member, also when it has its default value.',
     ['inputs', 'histories'], 'every pair of members (all types), every value, three records of two oneofs',
     'The tests set or decode one member at a time.', [GEN, LIB],
     [('selector handling', 'generate_oneof_* in pbtools/c_source/__init__.py'), ('always-encode functions', 'pbtools_encoder_write_*_always')],
     'two members of all types; three of the small schema')
prop('C12', 'Optional fields keep presence; default values are not encoded',
     'An optional field is encoded exactly when marked present, default values included, and decoding marks exactly the transmitted ones present. '
     'An ordinary field is encoded exactly when it differs from its default (negative zero differs).',
     ['inputs'], 'every value of every type, every pair and many subsets of optional fields',
     'The tests use a few combinations and values.', [GEN, LIB],
     [('presence', 'generate_message_encode_body, generate_message_decode_body'), ('omission', 'pbtools_encoder_write_*')],
     'pairs of fields with all values; 2^8 subsets with defaults')
prop('C13', 'Sub-messages are delimited and nested correctly',
     'Sub-messages, empty ones included, are encoded with their exact length and decoded from exactly their bytes at every nesting depth; '
     'what follows a sub-message belongs to the parent, and an error inside it is an error of the whole message.',
     ['inputs'], 'recursive messages up to depth 7, two records of nested messages, sub-messages of arbitrary bytes',
     TESTED, [LIB, GEN], [('nesting', 'pbtools_encoder_sub_message_encode, pbtools_decoder_sub_message_decode, decoder_init_slice, decoder_seek')],
     'depth 0..7; contents of a few bytes')
prop('C14', 'Lengths are right on both sides of every varint size boundary',
     'Strings, bytes, packed fields and sub-messages of any length are encoded with a minimal, correct length and decoded back unchanged, '
     'also when the length needs two or three bytes.',
     ['inputs'], 'lengths 0..16 and around 128, 256 and 16384', 'The tests use short strings and one longer one.', [LIB],
     [('length-delimited', 'encoder_write_length_delimited, decoder_read_length_delimited')], 'the listed lengths, a few symbolic bytes each')
prop('C15', 'Messages in different workspaces can be used concurrently',
     'Creating, allocating, encoding and decoding use no shared mutable storage: operations on messages in different workspaces never influence '
     'each other, in any interleaving.',
     ['schedules', 'inputs'], 'all interleavings (no operation writes storage that another can see), over all explored inputs, failing operations included',
     'The tests are single threaded.', [LIB, GEN], [('no static state', 'all of lib/src/pbtools.c and the generated code')],
     'no write to shared storage on any explored path; a violation is replayed with two threads under ThreadSanitizer', )
prop('C16', 'Encoding and decoding depend only on their inputs',
     'Encoding changes neither the message nor the workspace and gives the same bytes every time; a decoded message does not depend on earlier '
     'workspace contents or on the input buffer after decoding, and re-encoding it gives the same bytes again.',
     ['inputs', 'histories'], 'every one- and two-field message of the schemas; arbitrary inputs up to 4 bytes with two garbage workspaces',
     'The tests encode each message once and keep the input buffer alive.', [LIB, GEN],
     [('copying', 'pbtools_decoder_read_string, pbtools_decoder_read_bytes'), ('initialisation', 'generate_message_members_init')], B)
prop('C17', 'Every error code has its documented text',
     'Converting an error code to text returns the documented text for each code, positive or negative, and "Unknown error" for every other integer.',
     ['inputs'], 'all 2^32 integers', 'The tests try the defined codes and one other.', [LIB],
     [('error texts', 'pbtools_error_code_to_string')], 'no bound')
prop('C18', 'Maps behave as repeated key-value messages',
     'A map field of any key and value type is encoded as one record per entry with key as field one and value as field two, and decoded from entries '
     'in which either may be missing, swapped, repeated or accompanied by unknown fields.',
     ['inputs'], 'every key and value type, one or two entries, every value', 'The tests encode and decode one map message.', [PARSER, GEN, LIB],
     [('map messages', 'Message._load_map in pbtools/parser.py')], 'one or two entries')
prop('C19', 'A new message has default contents',
     'Creating a message in any large-enough workspace, whatever it contained before, gives a message with every field at its default, an empty '
     'encoding and no present optional or oneof member; a workspace that is too small is refused.',
     ['inputs'], 'all workspace sizes and contents, every message of the schemas', 'The tests use zero-initialised static workspaces of one size.',
     [GEN, LIB], [('initialisation', 'generate_message_members_init'), ('creation', 'pbtools_message_new')], 'workspaces of 0..message+64 bytes')
prop('C20', 'Enum fields carry any 32-bit value',
     'Enum fields of every label round-trip any 32-bit value, named or not, truncate wider varints as int32 does, and the generated constants have '
     'the declared values.',
     ['inputs'], 'every 32-bit value, every varint', 'The tests use the declared constants.', [LIB, GEN],
     [('enum coding', 'pbtools_encoder_write_enum, pbtools_decoder_read_enum'), ('enum generation', 'generate_enum_members')], 'one field')
prop('C21', 'Field order is irrelevant and the last value wins',
     'Records may come in any order; for a singular scalar, string or bytes field sent several times the last value wins, and decoding the '
     'concatenation of two encodings equals decoding their records in sequence.',
     ['inputs', 'histories'], 'every pair of fields in both orders with repetition, every sequence of four records of a mixed message',
     'The tests decode fields in declaration order, once each.', [GEN, LIB],
     [('decode loop', 'generate_message_decode_body')], 'up to four records')
prop('C22', 'Imported types behave as local ones',
     'Messages and enums imported from other files and packages, dotted ones included, can be used in every kind of field and are encoded and decoded '
     'like local types.',
     ['inputs', 'programs'], 'every kind of field using imported types, every value', 'The tests import a few types and never vary the contents.', [PARSER, GEN],
     [('imports', 'ImportedProto, Proto.resolve_field_type, Proto.is_field_enum'), ('includes', 'generate_includes')], 'one or two fields')

NOT_APPLICABLE = []


def na(id_, title, statement, over, text, why, files, mech, reason):
    P.append(dict(id=id_, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  na=reason))


exec(open(os.path.join(HERE, 'tools', 'meta_py.py')).read() if os.path.exists(os.path.join(HERE, 'tools', 'meta_py.py')) else '')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                            'observe_at': ['return values, encoded bytes and message contents of the public API'],
                            'hook_needed': None}}) + '\n')
    checks = []
    for p in P:
        if 'na' in p:
            continue
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'],
                       'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                       'technique': p['technique'], 'level': p['level'],
                       'level_note': 'every value, path and size within the bounds (per job in the evidence), nothing outside: ' + p['note']})
    m = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': checks,
         'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if 'na' in p],
         'notes': 'See DESIGN.md. Every check regenerates code and encodings from /repo on each run.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
