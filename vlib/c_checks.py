"""The C properties: which harnesses decide which property, within what bounds."""

import os
from .csym import Check, Job
from .schema import F, SCALARS, ALLT, ENUM, Schema
from . import schema

CORE, SMALL = schema.core(), schema.small()
NUMS, IMP = schema.numbers(), schema.importing()
IMP2, MIXED = schema.importing2(), schema.mixed()
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough' 


def pick(q, t):
    return t if THOROUGH else q


def J(name, body, schemas, **kw):
    pre = kw.pop('pre', '')
    return Job(name, '#include "gen.h"\n%s\nvoid vf_main(void)\n{\n%s\n}\n' % (pre, body), schemas, **kw)


CORE_MSGS = ('sing', 'opt', 'one', 'rep')
ASSUME = [
    'vfse (engine/) executes clang-18 -O0 LLVM IR; its answers for sampled paths are replayed against gcc-compiled code on every run',
    'harness/vf_libc.c stands for memcpy, memmove, memset, strlen and the like',
    'workspaces are suitably aligned and sizes fit an int, as the documentation of the library expects',
]


# ---------------------------------------------------------------------------
def c01():
    """Wire encoding."""
    jobs = []
    for m in CORE_MSGS:
        jobs.append(J('enc_' + m, '''
    const struct mdesc *d = &D_pk_%s;
    struct smsg *s = s_new(d);
    v_field(s, vf_choose(d->n), 1);
    encode_check(s, 64);
    vf_reach("done");''' % m, [CORE], reach=['done'],
            what='one field of every type and label: exact bytes for every value',
            bounds='all values of the type; repeated: 1..2 items; strings/bytes 0..2 bytes'))
    jobs.append(J('enc_numbers', '''
    const struct mdesc *d = &D_nm_all;
    struct smsg *s = s_new(d);
    v_field(s, vf_choose(d->n), 1);
    encode_check(s, 64);
    vf_reach("done");''', [NUMS], reach=['done'], what='field numbers at every tag size boundary, all wire types',
        bounds='field numbers 1, 15, 16, 2047, 2048, 262143, 262144, 33554431, 33554432, 536870911'))
    for m in CORE_MSGS:
        jobs.append(J('pair_' + m, '''
    const struct mdesc *d = &D_pk_%s;
    struct smsg *s = s_new(d);
    uint32_t i = vf_choose(d->n), j = vf_choose(d->n);
    vf_assume(i < j);
    vf_rich = 0;
    v_field(s, i, 0);
    v_field(s, j, 0);
    encode_check(s, 64);
    vf_reach("done");''' % m, [CORE], reach=['done'], what='every pair of fields set together',
            bounds='values of one byte; strings/bytes 0..2 bytes', weight=2 if m == 'rep' else 1))
        jobs.append(J('all_' + m, '''
    const struct mdesc *d = &D_pk_%s;
    struct smsg *s = s_new(d);
    for (uint32_t i = 0; i < d->n; i++) {
        const struct fdesc *fd = &d->f[i];
        for (uint32_t k = 0; k < (fd->label == L_REP ? %d : 1); k++) {
            struct sval *v = s_set(s, i);
            if (fd->type == T_MSG) v->sub = s_new(fd->sub);
            else if (t_wire(fd->type) == 2) v_blob(v, fd->type, 3);
            else { v->bits = vf_u32() & (fd->type == T_BOOL ? 1 : 0x3f); vf_assume(v->bits != 0); }
        }
    }
    roundtrip(s, 400);
    vf_reach("done");''' % (m, 3), [CORE], reach=['done'], what='every field set at once', bounds='values 1..63'))
    jobs.append(J('many_items', '''
    const struct mdesc *d = &D_pk_rep;
    struct smsg *s = s_new(d);
    uint32_t i = vf_choose(d->n), n = 3 + vf_choose(%d);
    for (uint32_t k = 0; k < n; k++) {
        struct sval *v = s_add(s, i);
        const struct fdesc *fd = &d->f[i];
        if (fd->type == T_MSG) v->sub = s_new(fd->sub);
        else if (t_wire(fd->type) == 2) v_blob(v, fd->type, k & 1);
        else v->bits = fd->type == T_BOOL ? (k == n / 2 ? vf_u32() & 1 : k & 1) : vf_u32() & 0x3f;
    }
    encode_check(s, 300);
    vf_reach("done");''' % pick(15, 60), [CORE], reach=['done'], what='longer repeated fields',
        bounds='3..%d items' % pick(17, 62), defs=['WS=4096']))
    jobs.append(fieldnum_job('enc_anynum', '''
    struct smsg *s = s_new(d);
    vf_rich = 0;
    v_field(s, 0, 1);
    encode_check(s, 64);
    vf_reach("done");''', ['done']))
    for m in ('a', 'b', 'wide'):
        jobs.append(J('mixed_' + m, '''
    const struct mdesc *d = &D_mx_y_z_w_@M@;
    struct smsg *s = s_new(d);
    v_field(s, vf_choose(d->n), 2);
    encode_check(s, 128);
    vf_reach("done");'''.replace('@M@', m), [MIXED], reach=['done'], weight=2, what='exact bytes: equally named nested messages, mutual recursion, several oneofs, a wide message'))
    length_jobs(jobs, 'encode_check(s, n + 12)')
    return Check('C01', [j for j in jobs if j], ASSUME)


def fieldnum_job(name, act, reach):
    """The declared number is a sentinel which the engine replaces by a symbol."""
    sch = schema.fieldnum()
    ms = [m for m in sch.messages if m != 'Sub']
    return J(name, '''
    uint32_t num = vf_fieldnum();
    vf_assume(num >= 1 && num <= 536870911);
    const struct mdesc *ms[] = { %s };
    const struct mdesc *d = ms[vf_choose(%d)];%s''' % (', '.join('&D_' + sch.cname(m) for m in ms), len(ms), act),
        [sch], reach=reach, what='symbolic field number', bounds='every field number 1..536870911', fieldnum=schema.SENTINEL)


def c02():
    """Values decoded from any valid encoding."""
    jobs = []
    for m in CORE_MSGS:
        jobs.append(J('dec_' + m, '''
    const struct mdesc *d = &D_pk_%s;
    i_start();
    i_record(d, vf_choose(d->n), 1);
    equiv(d);''' % m, [CORE], reach=['accept'],
            what='one record of every field: any value, any (also overlong) varint encoding of value and length',
            bounds='varints of 1..10 bytes; strings/bytes 0..2 bytes; packed 0..2 items'))
        jobs.append(J('exact_' + m, '''
    const struct mdesc *d = &D_pk_%s;
    const struct fdesc *fd;
    i_start();
    uint32_t i = vf_choose(d->n);
    fd = &d->f[i];
    i_tag(fd->num, (uint32_t)t_wire(fd->type));
    if (t_wire(fd->type) == 2) { i_varint(0); }
    i_any(vf_choose(%d));
    equiv(d);''' % (m, pick(3 if m == 'rep' else 4, 5)), [CORE], reach=['accept', 'reject'], what='a known tag followed by arbitrary bytes',
            bounds='0..%d arbitrary bytes' % pick(2 if m == 'rep' else 3, 4), weight=2))
    jobs.append(J('dec_numbers', '''
    const struct mdesc *d = &D_nm_all;
    i_start();
    const struct fdesc *fd = &d->f[vf_choose(d->n)];
    vf_rich = 1;
    i_varint_pad((fd->num << 3) | (uint32_t)t_wire(fd->type), 0);
    i_item(fd, 1);
    equiv(d);''', [NUMS], reach=['accept'], what='field numbers at every tag size boundary'))
    jobs.append(J('padded_tags', '''
    const struct mdesc *d = &D_pk_sing;
    i_start();
    uint32_t i = vf_choose(d->n);
    vf_rich = 1;
    i_varint_pad((d->f[i].num << 3) | (uint32_t)t_wire(d->f[i].type), 1 + vf_choose(3));
    i_item(&d->f[i], 1);
    equiv(d);''', [CORE], reach=['accept'], what='overlong tags', bounds='tags of up to 5 bytes'))
    jobs.append(fieldnum_job('dec_anynum', '''
    i_start();
    vf_rich = 0;
    if (vf_choose(2)) i_record(d, 0, 1);
    else { i_any_varint(1 + vf_choose(3)); i_any(1); }
    equiv(d);''', ['accept', 'reject']))
    for m in ('a', 'b', 'wide'):
        jobs.append(J('mixed_' + m, '''
    const struct mdesc *d = &D_mx_y_z_w_@M@;
    i_start();
    i_record(d, vf_choose(d->n), 2);
    equiv(d);'''.replace('@M@', m), [MIXED], reach=['accept'], weight=2, what='one record of every field: equally named nested messages, mutual recursion, several oneofs, a wide message'))
    length_jobs(jobs, '''uint32_t z = s_size(s);
    uint8_t *e = vf_buf(z);
    vf_assert(s_encode(s, e) == z, "reference encoding");
    void *m = fresh(d);
    vf_assert(d->dec(m, e, z) == (int)z, "decoding consumes the whole input");
    s_compare(s, m, "decoded value is exactly the transmitted one")''')
    return Check('C02', jobs, ASSUME)


def c03():
    """Round trip."""
    jobs = []
    for m in CORE_MSGS:
        jobs.append(J('rt_' + m, '''
    const struct mdesc *d = &D_pk_%s;
    struct smsg *s = s_new(d);
    v_field(s, vf_choose(d->n), 1);
    roundtrip(s, 64);
    vf_reach("done");''' % m, [CORE], reach=['done'], what='one field of every type, any value',
            bounds='repeated 1..2 items; strings/bytes 0..2 bytes'))
    for m in ('mix', 'reps', 'nest', 'tree', 'choice', 'maps', 'outer'):
        jobs.append(J('rt2_' + m, '''
    const struct mdesc *d = &D_sm_%s;
    struct smsg *s = s_new(d);
    uint32_t i = vf_choose(d->n), j = vf_choose(d->n);
    vf_rich = %d;
    v_field(s, i, %d);
    if (j != i) v_field(s, j, %d);
    roundtrip(s, 128);
    vf_reach("done");''' % (m, 0, 2, pick(0, 2)), [SMALL], reach=['done'],
            what='two fields, sub-messages nested up to three levels', bounds='values of one byte', weight=2))
    jobs.append(J('rt_imported', '''
    const struct mdesc *d = &D_im_user;
    struct smsg *s = s_new(d);
    v_field(s, vf_choose(d->n), 2);
    roundtrip(s, 64);
    vf_reach("done");''', [IMP], reach=['done'], what='types imported from other packages'))
    for m in ('a', 'b', 'wide'):
        jobs.append(J('mixed_' + m, '''
    const struct mdesc *d = &D_mx_y_z_w_@M@;
    struct smsg *s = s_new(d);
    uint32_t i = vf_choose(d->n), j = vf_choose(d->n);
    vf_rich = 0;
    v_field(s, i, 1);
    if (j != i) v_field(s, j, 0);
    roundtrip(s, 128);
    vf_reach("done");'''.replace('@M@', m), [MIXED], reach=['done'], weight=2, what='two fields: equally named nested messages, mutual recursion, several oneofs, a wide message'))
    length_jobs(jobs, 'roundtrip(s, n + 12)')
    sub_length_jobs(jobs)
    return Check('C03', jobs, ASSUME)


def c04():
    """Memory safety of decoding."""
    jobs = []
    for m, n in (('mix', 4), ('reps', 4), ('fix', 5), ('nest', 5), ('tree', 5), ('choice', 4), ('maps', 4)):
        jobs.append(J('arb_' + m, '''
    const struct mdesc *d = &D_sm_%s;
    uint32_t n = vf_choose(%d + 1);
    uint8_t *buf = vf_buf(n);
    vf_readonly(buf);
    w_start(d->size + %d);
    void *p = d->make(vf_w, vf_ws);
    if (p != NULL) {
        int r = d->dec(p, buf, n);
        vf_assert(r == (int)n || (r < 0 && r >= -8), "decode returns the input size or a documented error");
        vf_reach(r < 0 ? "reject" : "accept");
        vf_obs((uint64_t)(int64_t)r);
    } else vf_reach("no room");
    w_check();''' % (m, n + pick(0, 2), 96), [SMALL], reach=['accept', 'reject', 'no room'],
            what='arbitrary bytes, arbitrary workspace size', time=600,
            bounds='inputs of 0..%d bytes, workspaces of 0..message+96 bytes' % (n + pick(0, 2)), weight=2))
    for m in ('mix', 'reps', 'fix', 'nest', 'choice', 'maps'):
        jobs.append(J('mut_' + m, '''
    const struct mdesc *d = &D_sm_%s;
    i_start();
    vf_rich = RICH;
    uint32_t i = vf_choose(d->n);
    vf_plain = PLAIN > 1;
    i_record(d, i, 1);
    vf_plain = PLAIN;
    vf_rich = 0;
    i_record(d, vf_choose(2) ? i : (i + 1) %% d->n, 1);
    i_mutate();
    uint8_t *buf = vf_zbuf(vf_in);
    memcpy(buf, vf_ib, vf_in);
    vf_readonly(buf);
    w_start(d->size + 96);
    void *p = d->make(vf_w, vf_ws);
    if (p != NULL) {
        int r = d->dec(p, buf, vf_in);
        vf_assert(r == (int)vf_in || (r < 0 && r >= -8), "decode returns the input size or a documented error");
        vf_reach(r < 0 ? "reject" : "accept");
        vf_obs((uint64_t)(int64_t)r);
    }
    w_check();''' % m, [SMALL], reach=['accept', 'reject'], weight=2, defs=['RICH=%d' % pick(0, 1), 'PLAIN=%d' % pick(1 if m in ('mix', 'nest') else 2, 0)],
            what='two records, one arbitrary byte changed or cut anywhere, arbitrary workspace size'))
    jobs.append(J('fix_len', '''
    const struct mdesc *d = &D_sm_fix;
    i_start();
    uint32_t k = vf_choose(2), n = vf_choose(20);
    i_tag(d->f[k].num, 2);
    i_any(1);
    i_any(n);
    vf_assume(vf_ib[1] == n);
    if (vf_choose(2)) { i_tag(d->f[k].num, k ? 1 : 5); i_any(k ? 8 : 4); }
    uint8_t *buf = vf_zbuf(vf_in);
    memcpy(buf, vf_ib, vf_in);
    w_start(d->size + 96);
    void *p = d->make(vf_w, vf_ws);
    if (p != NULL) {
        int r = d->dec(p, buf, vf_in);
        vf_reach(r < 0 ? "reject" : "accept");
        vf_obs((uint64_t)(int64_t)r);
    }
    w_check();''', [SMALL], reach=['accept', 'reject'], what='packed fixed-size payloads of every length', bounds='payloads of 0..19 bytes'))
    jobs.append(J('huge_len', '''
    const struct mdesc *ms[4] = { &D_sm_mix, &D_sm_reps, &D_sm_fix, &D_sm_choice };
    const struct mdesc *d = ms[vf_choose(4)];
    const struct fdesc *fd = &d->f[vf_choose(d->n)];
    i_start();
    i_tag(fd->num, 2);
    i_any_varint(%s);
    i_any(2);
    uint8_t *buf = vf_zbuf(vf_in);
    memcpy(buf, vf_ib, vf_in);
    w_start(d->size + 64);
    void *p = d->make(vf_w, vf_ws);
    if (p != NULL) {
        int r = d->dec(p, buf, vf_in);
        vf_assert(r == (int)vf_in || (r < 0 && r >= -8), "decode returns the input size or a documented error");
        vf_reach(r < 0 ? "reject" : "accept");
        vf_obs((uint64_t)(int64_t)r);
    }
    w_check();''' % pick('5 + 5 * vf_choose(2)', '4 + vf_choose(7)'), [SMALL], reach=['reject'], what='any length announced by a 4..10 byte varint'))
    return Check('C04', jobs, ASSUME)


def c05():
    """Malformed input."""
    jobs = []
    for m, n in (('mix', 4), ('reps', 4), ('nest', 5), ('choice', 4), ('maps', 5), ('fix', 5)):
        n += pick(0, 2)
        jobs.append(J('arb_' + m, '''
    const struct mdesc *d = &D_sm_%s;
    i_start();
    i_any(vf_choose(%d + 1));
    equiv(d);''' % (m, n), [SMALL], reach=['accept', 'reject'], weight=2, time=600, defs=['WS=(d->size + 384)'],
            what='arbitrary bytes: accepted exactly when well-formed, with the right contents', bounds='0..%d bytes' % n))
    for m in CORE_MSGS:
        jobs.append(J('cut_' + m, '''
    const struct mdesc *d = &D_pk_%s;
    i_start();
    vf_rich = 1;
    i_record(d, vf_choose(d->n), 1);
    vf_in = vf_choose(vf_in);
    equiv(d);''' % m, [CORE], reach=['reject'], what='one record of every field type cut at every position'))
        jobs.append(J('wire_' + m, '''
    const struct mdesc *d = &D_pk_%s;
    const struct fdesc *fd = &d->f[vf_choose(d->n)];
    i_start();
    uint32_t w = vf_choose(8);
    i_tag(fd->num, w);
    if (w == 2) { uint32_t n = vf_choose(3); i_varint(n); i_any(n); }
    else i_any(w == 1 ? 8 : w == 5 ? 4 : 1);
    equiv(d);''' % m, [CORE], reach=['accept', 'reject'], what='every wire type with every field type'))
    for m in ('mix', 'reps', 'nest', 'choice', 'maps', 'fix', 'outer'):
        jobs.append(J('mut_' + m, '''
    const struct mdesc *d = &D_sm_%s;
    i_start();
    vf_rich = RICH;
    uint32_t i = vf_choose(d->n);
    vf_plain = PLAIN > 1;
    i_record(d, i, 1 + RICH);
    vf_plain = PLAIN;
    vf_rich = 0;
    i_record(d, vf_choose(2) ? i : (i + 1) %% d->n, 1);
    i_mutate();
    equiv(d);''' % m, [SMALL], reach=['accept', 'reject'], weight=2, defs=['RICH=%d' % pick(0, 1), 'PLAIN=%d' % pick(1 if m in ('mix', 'nest') else 2, 0)],
            what='two records, one byte arbitrary or cut anywhere'))
    jobs.append(J('overflow', '''
    const struct mdesc *ms[3] = { &D_sm_mix, &D_sm_reps, &D_sm_choice };
    const struct mdesc *d = ms[vf_choose(3)];
    i_start();
    if (vf_choose(2)) i_tag(d->f[0].num, 0); else i_tag(100, 0);
    i_any_varint(9 + vf_choose(4));
    equiv(d);''', [SMALL], reach=['accept', 'reject'], what='varints of 9..12 bytes'))
    jobs.append(J('length', '''
    const struct mdesc *ms[4] = { &D_sm_mix, &D_sm_reps, &D_sm_choice, &D_sm_fix };
    const struct mdesc *d = ms[vf_choose(4)];
    uint32_t i = vf_choose(d->n + 1);
    i_start();
    i_tag(i < d->n ? d->f[i].num : 100, 2);
    i_any_varint(%s);
    i_any(%d);
    equiv(d);''' % (pick('1 + vf_choose(2) + 4 * vf_choose(3)', '1 + vf_choose(10)'), pick(2, 3)), [SMALL], reach=['accept', 'reject'], what='any announced length against three bytes of data'))
    return Check('C05', jobs, ASSUME)


def c06():
    """Unknown fields."""
    jobs = []
    for m in ('mix', 'reps', 'choice', 'maps', 'nest'):
        jobs.append(J('unk_' + m, '''
    const struct mdesc *d = &D_sm_%s;
    i_start();
    uint32_t i = vf_choose(d->n);
    vf_rich = 0;
    i_record(d, i, 1);
    vf_rich = 1;
    i_unknown(d, 1 + vf_choose(5));
    vf_rich = 0;
    i_record(d, vf_choose(2) ? i : (i + 1) %% d->n, 1);
    equiv(d);''' % m, [SMALL], reach=['accept'], weight=2, what='an unknown record between two known ones',
            bounds='any undeclared field number, all wire types, payloads of 0..2 bytes, varints of 1, 5, 10 bytes'))
    jobs.append(J('unk_first', '''
    const struct mdesc *ms[3] = { &D_pk_sing, &D_pk_opt, &D_pk_one };
    const struct mdesc *d = ms[vf_choose(3)];
    i_start();
    vf_rich = 2;
    i_unknown(d, 1 + vf_choose(5));
    i_unknown(d, 2);
    vf_rich = 0;
    i_record(d, vf_choose(d->n), 1);
    equiv(d);''', [CORE], reach=['accept'], weight=2, what='unknown records before a known one'))
    jobs.append(J('unk_nested', '''
    const struct mdesc *d = &D_sm_nest;
    const struct mdesc *e = &D_sm_mid;
    i_start();
    vf_rich = 0;
    uint8_t *top = vf_ib;
    vf_ib = vf_zbuf(256);
    if (vf_choose(2)) i_record(e, vf_choose(e->n), 1);
    i_unknown(e, 1 + vf_choose(2));
    if (vf_choose(2)) i_record(e, vf_choose(e->n), 1);
    uint8_t *c = vf_ib;
    uint32_t n = vf_in;
    vf_ib = top; vf_in = 0;
    i_tag(1 + vf_choose(2), 2);
    i_varint(n);
    for (uint32_t k = 0; k < n; k++) i_byte(c[k]);
    i_record(d, vf_choose(d->n), 0);
    if (equiv(d) == D_OK) vf_reach("ok");''', [SMALL], reach=['accept'], what='unknown records inside sub-messages'))
    jobs.append(J('unk_long', '''
    const struct mdesc *d = &D_sm_mix;
    static const uint32_t lens[7] = { 10, 127, 128, 129, 255, 256, 1000 };
    uint32_t n = lens[vf_choose(7)];
    i_start();
    i_tag(1000, 2);
    i_varint(n);
    i_any(n);
    vf_rich = 1;
    i_record(d, vf_choose(d->n), 0);
    equiv(d);''', [SMALL], reach=['accept'], what='long unknown payloads', bounds='10..1000 arbitrary bytes'))
    jobs.append(J('empty_msg', '''
    const struct mdesc *d = &D_pk_empty;
    i_start();
    i_any(vf_choose(%d));
    equiv(d);''' % pick(7, 8), [CORE], reach=['accept', 'reject'], weight=2, what='a message without fields: everything is unknown',
        bounds='0..%d arbitrary bytes' % pick(6, 7)))
    for m in ('a', 'b', 'wide'):
        jobs.append(J('mixed_' + m, '''
    const struct mdesc *d = &D_mx_y_z_w_@M@;
    i_start();
    uint32_t i = vf_choose(d->n);
    vf_rich = 1;
    i_unknown(d, 1 + vf_choose(2));
    vf_rich = 0;
    i_record(d, i, 0);
    equiv(d);'''.replace('@M@', m), [MIXED], reach=['accept'], weight=2, what='unknown records: equally named nested messages, mutual recursion, several oneofs, a wide message'))
    return Check('C06', jobs, ASSUME)


def c07():
    """Repeated fields."""
    jobs = []
    jobs.append(J('two', '''
    const struct mdesc *d = &D_pk_rep;
    i_start();
    uint32_t i = vf_choose(d->n);
    vf_rich = 1;
    i_record(d, i, 1);
    i_record(d, i, 1);
    equiv(d);''', [CORE], reach=['accept'], weight=2, what='two records, packed or not, of every type'))
    jobs.append(J('three', '''
    const struct mdesc *d = &D_pk_rep;
    i_start();
    uint32_t i = vf_choose(d->n);
    vf_rich = 0;
    i_record(d, i, 0);
    if (vf_choose(2)) i_record(d, (i + 1) %% d->n, 0);
    vf_rich = 1;
    i_record(d, i, 1);
    vf_rich = 0;
    if (vf_choose(2)) i_record(d, (i + 5) %% d->n, 0);
    i_record(d, i, 0);
    equiv(d);''' .replace('%%', '%'), [CORE], reach=['accept'], weight=2, what='three records interleaved with other repeated fields'))
    jobs.append(J('unknown_between', '''
    const struct mdesc *d = &D_sm_reps;
    i_start();
    uint32_t i = vf_choose(d->n);
    vf_rich = 0;
    i_record(d, i, 0);
    i_unknown(d, 1);
    i_record(d, i, 0);
    i_unknown(d, 1);
    i_record(d, i, 1);
    equiv(d);''', [SMALL], reach=['accept'], weight=2, what='records separated by unknown fields'))
    jobs.append(J('packed_any', '''
    const struct mdesc *d = &D_pk_rep;
    uint32_t i = vf_choose(d->n);
    i_start();
    vf_assume(t_wire(d->f[i].type) != 2);
    uint32_t n = vf_choose(%d);
    i_tag(d->f[i].num, 2);
    i_varint(n);
    i_any(n);
    equiv(d);''' % pick(9, 13), [CORE], reach=['accept', 'reject'], weight=2,
        what='packed payloads of arbitrary bytes', bounds='payloads of 0..%d bytes' % pick(8, 12), time=600))
    jobs.append(J('many', '''
    const struct mdesc *d = &D_pk_rep;
    uint32_t i = vf_choose(d->n), n = vf_choose(%d), k;
    const struct fdesc *fd = &d->f[i];
    i_start();
    for (k = 0; k < n; k++) {
        vf_plain = k > 2;
        if (t_wire(fd->type) == 2 || (k & 1)) {
            i_tag(fd->num, (uint32_t)t_wire(fd->type));
            if (t_wire(fd->type) == 2) { if (fd->type == T_MSG) { i_varint(2); i_tag(1, 0); i_any_varint(1); } else { i_varint(1); i_any(1); } }
            else if (t_wire(fd->type) == 0) i_any_varint(1);
            else i_any(t_wire(fd->type) == 1 ? 8 : 4);
        } else {
            uint32_t w = t_wire(fd->type) == 0 ? 1 : t_wire(fd->type) == 1 ? 8 : 4;
            i_tag(fd->num, 2);
            i_varint(3 * w);
            for (uint32_t q = 0; q < 3; q++) if (w == 1) i_any_varint(1); else i_any(w);
        }
    }
    equiv(d);''' % pick(24, 60), [CORE], reach=['accept'], defs=['WS=8192'], what='long alternations of packed and single records',
        bounds='up to %d records' % pick(23, 59), weight=2))
    jobs.append(J('enc', '''
    const struct mdesc *d = &D_pk_rep;
    struct smsg *s = s_new(d);
    uint32_t i = vf_choose(d->n);
    v_field(s, i, 1);
    roundtrip(s, 64);
    vf_reach("done");''', [CORE], reach=['done'], what='encoded form (packed where possible) and order'))
    item_jobs(jobs)
    return Check('C07', jobs, ASSUME)


def c08():
    """Encode buffer."""
    jobs = []
    body = '''
    vf_rich = 0;
    struct smsg *s = s_new(d);
    %s
    void *m = fresh(d);
    s_populate(s, m);
    uint32_t need = s_size(s);
    uint32_t size = vf_choose(%d);
    uint8_t *b = vf_buf(size);
    int r = d->enc(m, b, size);
    vf_obs((uint64_t)(int64_t)r);
    if (size >= need) {
        vf_assert(r == (int)need, "a buffer that is large enough is sufficient");
        s_check_encoded(s, b, need);
        vf_reach(size == need ? "exact" : "fits");
    } else {
        vf_assert(r == -PBTOOLS_ENCODE_BUFFER_FULL, "a buffer that is too small is reported as full");
        vf_reach("full");
    }'''
    for m in CORE_MSGS:
        jobs.append(J('buf_' + m, '''
    const struct mdesc *d = &D_pk_%s;''' % m + body % ('v_field(s, vf_choose(d->n), 1);', 16), [CORE],
            reach=['exact', 'fits', 'full'], what='one field of every type into every buffer size', bounds='buffers of 0..15 bytes', weight=2))
    for m in ('mix', 'reps', 'nest', 'choice', 'maps'):
        jobs.append(J('buf2_' + m, '''
    const struct mdesc *d = &D_sm_%s;''' % m + body % (
            'uint32_t i = vf_choose(d->n), j = vf_choose(d->n); v_field(s, i, 1); if (j != i) v_field(s, j, 0);', 20), [SMALL],
            reach=['exact', 'fits', 'full'], what='two fields into every buffer size', bounds='buffers of 0..19 bytes', weight=2))
    jobs.append(J('buf_empty', '''
    const struct mdesc *d = &D_pk_empty;''' + body % ('', 4), [CORE], reach=['exact', 'fits'], what='a message without contents'))
    return Check('C08', jobs, ASSUME)


def c09():
    """Workspace exhaustion."""
    jobs = []
    dec = '''
    const struct mdesc *d = &D_%s;
    i_start();
    vf_rich = 0;
    %s
    uint8_t *buf = vf_zbuf(vf_in);
    memcpy(buf, vf_ib, vf_in);
    w_start(d->size + %d);
    void *m = d->make(vf_w, vf_ws);
    if (m == NULL) {
        vf_assert(vf_ws < d->size + 64, "a message fits a workspace of its size plus 64 bytes");
        vf_reach("no room");
    } else {
        int r = d->dec(m, buf, vf_in);
        vf_obs((uint64_t)(int64_t)r);
        if (r == -PBTOOLS_OUT_OF_MEMORY) {
            vf_assert(vf_ws < d->size + 8 * vf_in + %d, "an ample workspace suffices");
            vf_reach("oom");
        } else equiv_result(d, m, r, buf, vf_in);
    }
    w_check();'''
    for m in CORE_MSGS:
        jobs.append(J('dec_' + m, dec % ('pk_' + m, 'i_record(d, vf_choose(d->n), 1);', 160, 96), [CORE],
                      reach=['accept', 'oom', 'no room'], what='one record, every workspace size', weight=2))
    for m in ('mix', 'reps', 'nest', 'choice', 'maps', 'tree'):
        jobs.append(J('dec2_' + m, dec % ('sm_' + m, 'uint32_t i = vf_choose(d->n); i_record(d, i, 2); '
                                                     'i_record(d, vf_choose(2) ? i : (i + 1) % d->n, 1);', 400, 400), [SMALL],
                      reach=['accept', 'oom', 'no room'], what='two records, nested messages, every workspace size', weight=2))
    jobs.append(J('large', '''
    const struct mdesc *d = vf_choose(2) ? &D_pk_rep : &D_pk_sing;
    static const int ts[5] = { T_STRING, T_BYTES, T_BOOL, T_FIXED32, T_FIXED64 };
    uint32_t k, t = vf_choose(5), n;
    if (t > 1 && d == &D_pk_sing) return;
    for (k = 0; k < d->n; k++) if (d->f[k].type == ts[t]) break;
    n = t != 0 ? 65600 : (uint32_t[]){ 40000, 65600 }[vf_choose(2)];
    vf_ib = vf_zbuf(n + 12);
    vf_in = 0;
    i_tag(d->f[k].num, 2);
    i_varint(n);
    if (t == 0) memset(vf_ib + vf_in, 'x', n);
    vf_in += n;
    vf_ib[vf_in - 1] = vf_u8();
    if (t == 2) vf_assume(vf_ib[vf_in - 1] < 2);
    if (t == 0) vf_assume(vf_ib[vf_in - 1] != 0);
    static const int slack[] = { -65000, -600, -9, 0, 1, 7, 8, 9, 15, 16, 17, 24, 25, 32, 33, 200 };
    uint32_t z = vf_choose(sizeof(slack) / sizeof(slack[0]));
    if (t == 2 && z % 5) return;
    int64_t ws = (int64_t)d->size + n + slack[z];
    if (ws <= 0) return;
    void *m = d->make(vf_buf((size_t)ws), (size_t)ws);
    if (m == NULL) return;
    int r = d->dec(m, vf_ib, vf_in);
    vf_obs((uint64_t)(int64_t)r);
    if (r == -PBTOOLS_OUT_OF_MEMORY) {
        vf_assert(ws < (int64_t)d->size + n + 96, "an ample workspace suffices");
        vf_reach("oom");
    } else {
        vf_assert(r == (int)vf_in, "accepted, or out of memory");
        struct smsg *s = s_new(d);
        vf_assert(s_decode(s, vf_ib, vf_in, 0) == D_OK, "well formed");
        s_compare(s, m, "decoded fields equal the encoded ones");
        vf_reach("accept");
    }''', [CORE], reach=['accept', 'oom'], defs=['WS=64'], max_instr=200000000,
        what='large strings, bytes and packed fields, workspaces just too small and just large enough', bounds='40000 and 65600 bytes'))
    return Check('C09', jobs, ASSUME)


def c10():
    """Allocation functions."""
    jobs = []
    jobs.append(J('lengths', '''
    const struct mdesc *d = &D_pk_rep;
    w_start(d->size + 96);
    void *m = d->make(vf_w, vf_ws);
    if (m == NULL) { w_check(); vf_reach("no room"); return; }
    uint32_t i = vf_choose(d->n);
    const struct fdesc *fd = &d->f[i];
    int len = (int)vf_u32();
    vf_assume(len >= 0);
    int r = fd->allocn(m, len);
    uint32_t item = fd->type == T_MSG ? fd->sub->size : (uint32_t)t_elem(fd->type);
    if (r == 0) {
        int got;
        memcpy(&got, (char *)m + fd->off, sizeof(got));
        vf_assert(got == len, "a successful allocation sets the length");
        char *p = get_ptr((char *)m + fd->off + sizeof(void *));
        uint64_t room = (uint64_t)(vf_w + vf_ws - (uint8_t *)p);
        vf_assert((uint8_t *)p >= (uint8_t *)m + d->size, "items do not overlap the message");
        vf_assert((uint64_t)(uint32_t)len * item <= room && room <= vf_ws, "items lie in the workspace");
        vf_assert(((uintptr_t)p & 7) == 0 || len == 0, "items are aligned");
        vf_reach("ok");
    } else {
        vf_assert((uint64_t)(uint32_t)len * item + 16 + d->size > (uint64_t)vf_ws - 64, "an allocation that fits succeeds");
        vf_reach("fails");
    }
    w_check();
    vf_obs((uint64_t)(int64_t)r);''', [CORE], reach=['ok', 'fails', 'no room'], what='repeated field of every type, any length, any workspace size',
        bounds='every non-negative length; workspaces of 0..message+96 bytes', weight=2))
    jobs.append(J('large', '''
    static const uint32_t sizes[] = { 32768, 65536, 65700, 131072, 1048576, 2097152 };
    const struct mdesc *d = &D_pk_rep;
    uint32_t size = sizes[vf_choose(sizeof(sizes) / sizeof(sizes[0]))];
    vf_w = vf_buf(size);
    void *m = d->make(vf_w, size);
    vf_assert(m != NULL, "a message fits a large workspace");
    static const uint32_t types[] = { T_BYTES, T_STRING, T_FIXED64, T_FLOAT, T_BOOL, T_MSG };
    const struct fdesc *fd = 0;
    uint32_t k = vf_choose(6);
    for (uint32_t i = 0; i < d->n; i++) if (d->f[i].type == types[k]) fd = &d->f[i];
    uint32_t item = fd->type == T_MSG ? fd->sub->size : (uint32_t)t_elem(fd->type), fit = (size - d->size - 64) / item;
    if (item >= 8 && fit > 9000) fit = 9000;
    else if (fit > 40000) fit = 40000;
    uint32_t over = vf_choose(3);
    if (over == 0) {
        vf_assert(fd->allocn(m, (int)fit) == 0, "an allocation that fits succeeds");
        int got;
        memcpy(&got, (char *)m + fd->off, sizeof(got));
        vf_assert(got == (int)fit, "a successful allocation sets the length");
        uint8_t *p = (uint8_t *)get_ptr((char *)m + fd->off + sizeof(void *));
        vf_assert(p >= (uint8_t *)m + d->size && p + (uint64_t)fit * item <= vf_w + size, "items lie in the workspace");
        vf_reach("ok");
    } else {
        vf_assert(fd->allocn(m, (int)(over == 1 ? size / item + 1 : size)) != 0, "an allocation that does not fit fails");
        vf_reach("fails");
    }''', [CORE], reach=['ok', 'fails'], max_instr=30000000, what='large workspaces', bounds='up to 2 MiB, up to 40000 items'))
    jobs.append(J('large_sequence', '''
    static const uint32_t sizes[] = { 65536, 65636, 98404, 131072, 1048576 };
    static const uint32_t types[] = { T_BOOL, T_BYTES, T_FIXED64, T_FLOAT, T_STRING, T_MSG };
    const struct mdesc *d = &D_pk_rep;
    uint32_t size = sizes[vf_choose(5)], pos, start[3], end[3];
    vf_w = vf_buf(size);
    char *m = d->make(vf_w, size);
    vf_assert(m != NULL, "a message fits a large workspace");
    pos = (uint32_t)(m - (char *)vf_w) + d->size;
    for (uint32_t step = 0; step < 3; step++) {
        uint32_t type = step == 0 ? T_BOOL : step == 1 ? types[1 + vf_choose(5)] : T_FIXED64, len;
        const struct fdesc *fd = 0;
        for (uint32_t i = 0; i < d->n; i++) if (d->f[i].type == type) fd = &d->f[i];
        uint32_t item = fd->type == T_MSG ? fd->sub->size : (uint32_t)t_elem(fd->type);
        if (step == 0) len = vf_choose(2) ? 33001 : 1 + vf_choose(2) * 2;
        else if (step == 1) len = vf_choose(2) ? 36001 / item : 1;
        else len = 3;
        if (pos + 64 + len * item > size) break;
        vf_assert(fd->allocn(m, (int)len) == 0, "an allocation that fits succeeds");
        uint32_t at = (uint32_t)((uint8_t *)get_ptr(m + fd->off + sizeof(void *)) - vf_w);
        vf_assert(at <= size && len * item <= size - at, "items lie in the workspace");
        vf_assert(type == T_BOOL || (at & 7) == 0, "items are aligned");
        vf_assert(vf_w + at >= (uint8_t *)m + d->size || vf_w + at + len * item <= (uint8_t *)m, "items do not overlap the message");
        for (uint32_t i = 0; i < step; i++)
            vf_assert(at >= end[i] || at + len * item <= start[i], "items do not overlap");
        start[step] = at;
        end[step] = at + len * item;
        pos += 8 + len * item;
        if (step == 2) vf_reach("ok");
    }''', [CORE], reach=['ok'], max_instr=30000000, what='three allocations from large workspaces, the first of an odd size',
        bounds='workspaces of 64 KiB to 1 MiB, up to 33001 items'))
    jobs.append(J('negative', '''
    const struct mdesc *d = &D_pk_rep;
    w_start(d->size + 96);
    void *m = d->make(vf_w, vf_ws);
    if (m == NULL) return;
    const struct fdesc *fd = &d->f[vf_choose(d->n)];
    int len = (int)vf_u32();
    vf_assume(len < 0);
    int r = fd->allocn(m, len);
    vf_assert(r != 0, "a negative length is refused");
    w_check();
    vf_reach("done");
    vf_obs((uint64_t)(int64_t)r);''', [CORE], reach=['done'], what='negative lengths are refused'))
    seq = '''
struct blk { uint8_t *p; uint32_t n; };
static struct blk vf_blk[64];
static uint32_t vf_nblk;
static void block(void *p, uint32_t n, uint32_t align)
{
    vf_assert((uint8_t *)p >= vf_w, "allocated memory lies in the workspace");
    vf_assert((uint64_t)((uint8_t *)p - vf_w) + n <= vf_ws, "allocated memory lies in the workspace");
    vf_assert(((uintptr_t)p & (align - 1)) == 0, "allocated memory is aligned");
    for (uint32_t k = 0; k < vf_nblk; k++)
        vf_assert((uint8_t *)p + n <= vf_blk[k].p || vf_blk[k].p + vf_blk[k].n <= (uint8_t *)p, "allocations are disjoint");
    vf_blk[vf_nblk].p = p;
    vf_blk[vf_nblk++].n = n;
}
static uint32_t t_align(int t) { return t == T_BOOL ? 1 : t_elem(t) > 8 ? 8 : (uint32_t)t_elem(t); }
/* Everything the message refers to. */
static void blocks(const struct mdesc *d, char *m);
static void blocks_of(const struct fdesc *fd, char *at)
{
    if (fd->type == T_STRING) {
        char *p = get_ptr(at);
        vf_assert(p != NULL, "a string is set");
        if (p[0]) block(p, (uint32_t)strlen(p) + 1, 1);
    } else if (fd->type == T_BYTES) {
        struct pbtools_bytes_t b;
        memcpy(&b, at, sizeof(b));
        if (b.size > 0) block(b.buf_p, (uint32_t)b.size, 1);
    } else if (fd->type == T_MSG) {
        if (get_ptr(at)) {
            block(get_ptr(at), fd->sub->size, 8);
            blocks(fd->sub, get_ptr(at));
        }
    }
}
static void blocks(const struct mdesc *d, char *m)
{
    for (uint32_t i = 0; i < d->n; i++) {
        const struct fdesc *fd = &d->f[i];
        char *at = m + fd->off;
        if (fd->label == L_REP) {
            int n;
            memcpy(&n, at, sizeof(n));
            if (n == 0) continue;
            uint32_t item = fd->type == T_MSG ? fd->sub->size : (uint32_t)t_elem(fd->type);
            char *p = get_ptr(at + sizeof(void *));
            block(p, (uint32_t)n * item, fd->type == T_MSG ? 8 : t_align(fd->type));
            for (int k = 0; k < n; k++)
                if (fd->type == T_MSG) blocks(fd->sub, p + k * (int)item);
                else blocks_of(fd, p + k * (int)item);
        } else if (fd->label == L_OPT) {
            bool present;
            memcpy(&present, m + fd->pres, sizeof(present));
            if (present) blocks_of(fd, at);
        } else if (fd->label == L_ONEOF) {
            int sel;
            memcpy(&sel, m + fd->pres, sizeof(sel));
            if (sel == (int)fd->sel) blocks_of(fd, at);
        } else blocks_of(fd, at);
    }
}
'''
    jobs.append(J('sequence', '''
    const struct mdesc *d = &D_sm_mix, *t = &D_sm_tree;
    uint32_t which = vf_choose(2);
    if (which) d = t;
    w_start(d->size * (which ? 6 : 1) + 160);
    void *m = d->make(vf_w, vf_ws);
    if (m == NULL) { vf_reach("no room"); w_check(); return; }
    block(m, d->size, 8);
    for (uint32_t step = 0; step < %d; step++) {
        uint32_t i = vf_choose(d->n);
        const struct fdesc *fd = &d->f[i];
        char *at = (char *)m + fd->off;
        int r;
        if (fd->label == L_REP) {
            int n = 1 + (int)vf_choose(3);
            uint32_t item = fd->type == T_MSG ? fd->sub->size : (uint32_t)t_elem(fd->type);
            r = fd->allocn(m, n);
            if (r == 0) {
                char *p = get_ptr(at + sizeof(void *));
                block(p, (uint32_t)n * item, fd->type == T_MSG ? 8 : t_align(fd->type));
                for (int k = 0; k < n; k++) {
                    if (fd->type == T_MSG) s_compare(s_new(fd->sub), p + k * (int)item, "a new message has default contents");
                    else cmp_scalar(p + k * (int)item, fd->type, 0, "a new item has its default value");
                }
            }
        } else if (fd->type == T_MSG) {
            r = fd->alloc(m);
            if (r == 0) {
                block(get_ptr(at), fd->sub->size, 8);
                s_compare(s_new(fd->sub), get_ptr(at), "a new message has default contents");
            }
        } else continue;
        if (r) { vf_reach("fails"); break; }
        vf_reach("ok");
    }
    w_check();''' % pick(3, 4), [SMALL], pre=seq, reach=['ok', 'fails', 'no room'], weight=2,
        what='sequences of allocations: in the workspace, aligned, disjoint, default contents'))
    dec = '''
    const struct mdesc *d = &D_%s;
    i_start();
    vf_rich = %d;
    uint32_t i = vf_choose(d->n);
    i_record(d, i, 2);
    i_record(d, %s, 1);
    uint8_t *buf = vf_zbuf(vf_in);
    memcpy(buf, vf_ib, vf_in);
    vf_ws = d->size + 640;
    vf_w = vf_buf(vf_ws);
    char *m = d->make(vf_w, vf_ws);
    vf_assert(m != NULL, "a message fits an ample workspace");
    int r = d->dec(m, buf, vf_in);
    vf_assert(r == (int)vf_in, "well-formed records are accepted");
    block(m, d->size, 8);
    blocks(d, m);
    if (vf_nblk > 1) vf_reach("allocated");
    vf_obs(vf_nblk);'''
    for m, depth in [('pk_rep', 1)] + [('sm_' + x, 1) for x in ('mix', 'reps', 'nest', 'choice', 'maps', 'tree')]:
        jobs.append(J('decoded_' + m[3:], dec % (m, depth, 'vf_choose(2) ? i : (i + 1) % d->n'),
                      [CORE if m == 'pk_rep' else SMALL], pre=seq, reach=['allocated'], weight=2,
                      what='what decoding allocates: in the workspace, aligned, disjoint', bounds='two records'))
    jobs.append(J('persist', '''
    const struct mdesc *d = &D_sm_mix;
    void *m = fresh(d);
    struct smsg *s = s_new(d);
    uint32_t i = vf_choose(d->n), j = vf_choose(d->n);
    vf_rich = 1;
    v_field(s, i, 1);
    if (i != j) v_field(s, j, 1);
    s_populate(s, m);
    s_compare(s, m, "allocating keeps what was set before");
    vf_reach("done");''', [SMALL], reach=['done'], what='later allocations keep earlier contents'))
    jobs.append(J('after_failure', '''
    const struct mdesc *d = &D_sm_reps;
    w_start(d->size + 64);
    void *m = d->make(vf_w, vf_ws);
    if (m == NULL) return;
    uint32_t i = vf_choose(d->n);
    const struct fdesc *fd = &d->f[i];
    if (fd->allocn(m, 1) != 0) { s_compare(s_new(d), m, "a failed allocation leaves the field empty"); vf_reach("first"); return; }
    char *before = get_ptr((char *)m + fd->off + sizeof(void *));
    if (fd->allocn(m, 1000) == 0) return;
    int len; memcpy(&len, (char *)m + fd->off, sizeof(len));
    char *p = get_ptr((char *)m + fd->off + sizeof(void *));
    vf_assert(len == 0 || (len == 1 && p == before), "a failed allocation leaves a usable field");
    vf_reach("second");''', [SMALL], reach=['first', 'second'], what='a field whose allocation failed can still be used'))
    return Check('C10', jobs, ASSUME)


def c11():
    """Oneof."""
    jobs = []
    jobs.append(J('wire', '''
    const struct mdesc *d = &D_pk_one;
    i_start();
    vf_rich = 1;
    i_record(d, vf_choose(d->n), 1);
    vf_rich = 0;
    i_record(d, vf_choose(d->n), 0);
    equiv(d);''', [CORE], reach=['accept'], weight=2, what='two members in any order: the last one is current'))
    jobs.append(J('wire3', '''
    const struct mdesc *d = &D_sm_choice;
    i_start();
    vf_rich = 1;
    i_record(d, vf_choose(d->n), 1);
    i_record(d, vf_choose(d->n), 1);
    i_record(d, vf_choose(d->n), 1);
    equiv(d);''', [SMALL], reach=['accept'], weight=2, what='three members of two oneofs in any order'))
    jobs.append(J('api', '''
    const struct mdesc *d = &D_pk_one;
    struct smsg *s = s_new(d);
    uint32_t i = vf_choose(d->n), j = vf_choose(d->n);
    void *m = fresh(d);
    vf_rich = 1;
    v_field(s, i, 1);
    s_populate(s, m);
    s_compare(s, m, "the member set last is current");
    struct smsg *u = s_new(d);
    vf_rich = 0;
    v_field(u, j, 1);
    s_populate(u, m);
    v_field(s, j, 0);
    if (d->f[j].type != T_MSG && s->f[j].count) s->f[j].v[0] = u->f[j].v[0];
    else if (s->f[j].count) s->f[j].v[0].sub = u->f[j].v[0].sub;
    s_compare(s, m, "the member set last is current");
    uint8_t *b = vf_buf(64);
    int r = d->enc(m, b, 64);
    vf_assert(r == (int)s_size(s), "encode returns the size of the encoding");
    s_check_encoded(s, b, (uint32_t)r);
    vf_obs((uint64_t)(int64_t)r);
    vf_reach("done");''', [CORE], reach=['done'], weight=2, what='setting members through the API, then encoding'))
    jobs.append(J('init', '''
    const struct mdesc *d = &D_pk_one;
    void *m = fresh(d);
    uint32_t i = vf_choose(d->n), j = vf_choose(d->n);
    vf_assume(d->f[i].label == L_ONEOF && d->f[j].label == L_ONEOF);
    struct smsg *s = s_new(d);
    for (uint32_t q = 0; q < 2; q++) {
        const struct fdesc *fd = &d->f[q ? j : i];
        if (fd->type == T_MSG) vf_assert(fd->alloc(m) == 0, "allocation succeeds"); else fd->init(m);
        struct sval *v = s_set(s, q ? j : i);
        if (fd->type == T_MSG) v->sub = s_new(fd->sub);
    }
    s_compare(s, m, "an initialised member has its default value");
    uint8_t *b = vf_buf(64);
    int r = d->enc(m, b, 64);
    vf_assert(r == (int)s_size(s), "a member with its default value is encoded");
    s_check_encoded(s, b, (uint32_t)r);
    vf_reach("done");''', [CORE], reach=['done'], what='initialised members: default value, encoded although default'))
    jobs.append(J('rt', '''
    const struct mdesc *d = &D_pk_one;
    struct smsg *s = s_new(d);
    v_field(s, vf_choose(d->n), 1);
    roundtrip(s, 64);
    vf_reach("done");''', [CORE], reach=['done'], what='round trip of every member type'))
    for m in ('a', 'b', 'wide'):
        jobs.append(J('mixed_' + m, '''
    const struct mdesc *d = &D_mx_y_z_w_@M@;
    i_start();
    vf_rich = 0;
    i_record(d, vf_choose(d->n), 0);
    i_record(d, vf_choose(d->n), 0);
    equiv(d);'''.replace('@M@', m), [MIXED], reach=['accept'], weight=2, what='two records: equally named nested messages, mutual recursion, several oneofs, a wide message'))
    return Check('C11', jobs, ASSUME)


def c12():
    """Presence."""
    jobs = []
    jobs.append(J('opt_rt', '''
    const struct mdesc *d = &D_pk_opt;
    struct smsg *s = s_new(d);
    uint32_t i = vf_choose(d->n), j = vf_choose(d->n);
    v_field(s, i, 0);
    vf_rich = 0;
    if (j != i) v_field(s, j, 0);
    roundtrip(s, 64);
    vf_reach("done");''', [CORE], reach=['done'], weight=2, what='present optional fields, default values included, survive; absent ones stay absent'))
    jobs.append(J('opt_default', '''
    const struct mdesc *d = &D_pk_opt;
    struct smsg *s = s_new(d);
    uint32_t mask = vf_u32();
    for (uint32_t i = 0; i < d->n; i++)
        if (i < %d && (mask >> i & 1)) { struct sval *v = s_set(s, i); v->p = vf_zbuf(1); }
    uint32_t more = vf_choose(d->n);
    if (!s->f[more].count) { struct sval *v = s_set(s, more); v->p = vf_zbuf(1); }
    roundtrip(s, 128);
    vf_reach("done");''' % pick(8, 11), [CORE], reach=['done'], weight=2, what='every subset of optional fields present with default value'))
    jobs.append(J('opt_dec', '''
    const struct mdesc *d = &D_pk_opt;
    i_start();
    vf_rich = 2;
    i_record(d, vf_choose(d->n), 1);
    vf_rich = 0;
    i_record(d, vf_choose(d->n), 1);
    equiv(d);''', [CORE], reach=['accept'], weight=2, what='optional fields on the wire'))
    jobs.append(J('omit', '''
    const struct mdesc *d = &D_pk_sing;
    struct smsg *s = s_new(d);
    uint32_t i = vf_choose(d->n);
    v_field(s, i, 1);
    void *m = encode_check(s, 64);
    int def = !s->f[i].count || is_default(d->f[i].type, &s->f[i].v[0]);
    vf_assert((vf_enc_n == 0) == (def != 0), "a field is written exactly when it differs from its default");
    vf_reach(def ? "default" : "set");''', [CORE], reach=['default', 'set'], what='ordinary fields are written exactly when not default (negative zero counts as set)'))
    return Check('C12', jobs, ASSUME)


def c13():
    """Sub-messages."""
    jobs = []
    jobs.append(J('rt_deep', '''
    const struct mdesc *d = &D_sm_tree;
    struct smsg *s = s_new(d);
    vf_rich = 0;
    v_field(s, vf_choose(d->n), %d);
    roundtrip(s, 128);
    vf_reach("done");''' % pick(2, 4), [SMALL], reach=['done'], weight=2, what='recursive messages', bounds='nesting up to %d' % pick(3, 5)))
    jobs.append(J('chain', '''
    const struct mdesc *d = &D_sm_tree;
    struct smsg *s = s_new(d), *at = s;
    uint32_t depth = vf_choose(%d);
    for (uint32_t k = 0; k < depth; k++) {
        struct sval *v = vf_choose(2) ? s_set(at, 0) : s_add(at, 1);
        v->sub = s_new(d);
        at = v->sub;
    }
    s_set(at, 2)->bits = vf_u32();
    roundtrip(s, 200);
    vf_reach("done");''' % pick(8, 11), [SMALL], reach=['done'], weight=2, defs=['WS=2048'], what='deep chains of sub-messages',
        bounds='depth 0..%d' % pick(7, 10)))
    jobs.append(J('wire', '''
    const struct mdesc *d = &D_sm_nest;
    i_start();
    vf_rich = 1;
    i_record(d, vf_choose(d->n), 3);
    i_record(d, vf_choose(d->n), 1);
    equiv(d);''', [SMALL], reach=['accept'], weight=2, what='nested records on the wire'))
    jobs.append(J('empty', '''
    const struct mdesc *ms[5] = { &D_sm_mix, &D_sm_nest, &D_sm_tree, &D_sm_outer, &D_sm_choice };
    const struct mdesc *d = ms[vf_choose(5)];
    struct smsg *s = s_new(d);
    uint32_t i = vf_choose(d->n), n = 1;
    if (d->f[i].type != T_MSG) return;
    if (d->f[i].label == L_REP) n = 1 + vf_choose(3);
    for (uint32_t k = 0; k < n; k++) {
        struct sval *v = d->f[i].label == L_REP ? s_add(s, i) : s_set(s, i);
        v->sub = s_new(d->f[i].sub);
    }
    roundtrip(s, 64);
    vf_assert(vf_enc_n > 0, "an empty sub-message that is present is written");
    vf_reach("done");''', [SMALL], reach=['done'], what='present but empty sub-messages'))
    jobs.append(J('outer', '''
    const struct mdesc *d = &D_sm_outer;
    struct smsg *s = s_new(d);
    vf_rich = 1;
    v_field(s, vf_choose(d->n), 2);
    vf_rich = 0;
    roundtrip(s, 64);
    vf_reach("done");''', [SMALL], reach=['done'], what='message and enum types declared inside messages'))
    jobs.append(J('sub_arb', '''
    const struct mdesc *d = &D_sm_nest;
    i_start();
    i_tag(1 + vf_choose(2), 2);
    uint32_t n = vf_choose(%d);
    i_varint(n);
    i_any(n);
    i_tag(1 + vf_choose(2), 2);
    i_varint(2);
    i_tag(3, 0);
    i_any(1);
    equiv(d);''' % pick(5, 6), [SMALL], reach=['accept', 'reject'], weight=2, what='sub-message of arbitrary bytes followed by another record'))
    jobs.append(J('big', '''
    static const uint32_t lens[] = { 65533, 65536, 70000 };
    const struct mdesc *d = &D_ln_top;
    struct smsg *s = s_new(d), *u;
    uint32_t i = vf_choose(d->n), n = lens[vf_choose(3)];
    u = s_new(d->f[i].sub);
    s_set(s, i)->sub = u;
    struct sval *v = s_set(u, d->f[i].sub->n - 1);
    v->p = vf_zbuf(n + 1);
    v->len = n;
    ((uint8_t *)v->p)[n / 2] = vf_u8();
    roundtrip(s, n + 32);
    vf_reach("done");''', [schema.lengths()], reach=['done'], defs=['WS=150000'], max_instr=90000000, what='sub-messages of 64 KiB', bounds='three sizes'))
    for m in ('a', 'b', 'wide'):
        jobs.append(J('mixed_' + m, '''
    const struct mdesc *d = &D_mx_y_z_w_@M@;
    struct smsg *s = s_new(d);
    vf_rich = 0;
    v_field(s, vf_choose(d->n), 2);
    v_field(s, d->n - 1, 0);
    roundtrip(s, 128);
    vf_reach("done");'''.replace('@M@', m), [MIXED], reach=['done'], weight=2, what='sub-messages: equally named nested messages, mutual recursion, several oneofs, a wide message'))
    sub_length_jobs(jobs)
    return Check('C13', jobs, ASSUME)


def item_jobs(jobs, big=True):
    """Repeated fields of very many items."""
    jobs.append(J('items', '''
    const struct mdesc *d = &D_pk_rep;
    struct smsg *s = s_new(d);
    uint32_t k, i = vf_choose(d->n), n = 255 + vf_choose(3);
    const struct fdesc *fd = &d->f[i];
    for (k = 0; k < n; k++) {
        struct sval *v = s_add(s, i);
        int last = k == n - 1 || k == n / 2;
        if (fd->type == T_MSG) {
            v->sub = s_new(fd->sub);
            if (last) v_field(v->sub, 0, 0);
        } else if (t_wire(fd->type) == 2) {
            v->p = (const uint8_t *)"";
            if (last) v_blob(v, fd->type, 1);
        } else
            v->bits = last ? vf_u32() & (fd->type == T_BOOL ? 1 : 0x3f) : k & (fd->type == T_BOOL ? 1 : 0x3f);
    }
    roundtrip(s, 10 * n + 100);
    vf_reach("done");''', [CORE], reach=['done'], defs=['WS=40000'], max_instr=90000000, weight=2,
        what='repeated fields of more than 255 items', bounds='255..257 items, two of them symbolic'))
    if not big:
        return
    # (name, field, bytes per item, how to set an item, condition that an item is as it was)
    for t, each, put, same in (
            ('bool', 1, 'm->r_bool.items_p[k] = (k % 3 == 0) ^ (k == q ? x & 1 : 0)', 'g->r_bool.items_p[k] == m->r_bool.items_p[k]'),
            ('uint32', 3, 'm->r_uint32.items_p[k] = k == q ? x : k & 0x3fff', 'g->r_uint32.items_p[k] == m->r_uint32.items_p[k]'),
            ('color', 1, 'm->r_color.items_p[k] = k == q ? (int)x : 2', 'g->r_color.items_p[k] == m->r_color.items_p[k]'),
            ('fixed64', 8, 'm->r_fixed64.items_p[k] = k == q ? x : k', 'g->r_fixed64.items_p[k] == m->r_fixed64.items_p[k]'),
            ('string', 5, 'm->r_string.items_pp[k] = k == q ? (char *)str : (char *)"a"', 'g->r_string.items_pp[k][0] == m->r_string.items_pp[k][0] && g->r_string.items_pp[k][1] == 0'),
            ('bytes', 5, 'm->r_bytes.items_p[k].buf_p = (uint8_t *)str; m->r_bytes.items_p[k].size = k == q ? 2 : 1',
             'g->r_bytes.items_p[k].size == m->r_bytes.items_p[k].size && g->r_bytes.items_p[k].buf_p[0] == str[0]'),
            ('subs', 5, 'm->subs.items_p[k].v = k == q ? x : 0', 'g->subs.items_p[k].v == m->subs.items_p[k].v')):
        if t in ('uint32', 'color', 'fixed64') and pick(1, 0):
            continue
        f = t if t == 'subs' else 'r_' + t
        jobs.append(J('items_' + t, '''
    int n = 65537, q = 65536, k;
    size_t ws = 200000 + (size_t)n * 64;
    struct pk_rep_t *m = pk_rep_new(vf_zbuf(ws), ws), *g;
    uint32_t x = 1 + (vf_u32() & 0x3f);
    char str[2] = { (char)x, 0 };
    vf_assert(m != NULL, "a message can be created");
    vf_assert(pk_rep_@F@_alloc(m, n) == 0, "many items fit a large workspace");
    vf_assert(m->@F@.length == n, "as many items as asked for");
    for (k = 0; k < n; k++) { @PUT@; }
    size_t es = (size_t)n * @EACH@ + 32;
    uint8_t *e = vf_buf(es);
    int r = pk_rep_encode(m, e, es);
    vf_obs((uint64_t)(int64_t)r);
    vf_assert(r >= n, "many items can be encoded");
    g = pk_rep_new(vf_zbuf(ws), ws);
    vf_assert(pk_rep_decode(g, e, (size_t)r) == r, "and decoded");
    vf_assert(g->@F@.length == n, "all items are decoded");
    int at[] = { 0, 1, 255, 256, 257, 32767, 32768, 32769, 65534, 65535, 65536 };
    for (uint32_t z = 0; z < sizeof(at) / sizeof(at[0]); z++) {
        k = at[z];
        vf_assert(@SAME@, "items keep their value and place");
    }
    vf_reach("done");'''.replace('@F@', f).replace('@PUT@', put).replace('@EACH@', str(each)).replace('@SAME@', same), [CORE], reach=['done'],
            max_instr=2000000000, what='repeated field of very many items', bounds='65537 items, the last one symbolic'))
    jobs.append(J('items_unpacked', '''
    const struct mdesc *d = &D_pk_rep;
    static const uint32_t ns[] = { 255, 256, 257, 65537 };
    uint32_t k, i, n = ns[vf_choose(sizeof(ns) / sizeof(ns[0]))];
    static const int ts[3] = { T_BOOL, T_FIXED32, T_FIXED64 };
    int t = ts[vf_choose(3)];
    if (t != T_BOOL && n > 300) return;
    for (i = 0; i < d->n; i++) if (d->f[i].type == t) break;
    vf_ib = vf_zbuf(12 * n);
    vf_in = 0;
    for (k = 0; k < n; k++) {
        i_tag(d->f[i].num, t_wire(t));
        uint8_t b = k == n - 1 || k == n / 2 ? vf_u8() & 1 : k & 1;
        i_byte(b);
        if (t != T_BOOL) vf_in += t == T_FIXED32 ? 3 : 7;
    }
    void *m = fresh(d);
    struct smsg *s = s_new(d);
    vf_assert(s_decode(s, vf_ib, vf_in, 0) == D_OK, "well formed");
    vf_assert(d->dec(m, vf_ib, vf_in) == (int)vf_in, "decoding succeeds");
    s_compare(s, m, "decoded fields equal the encoded ones");
    vf_reach("done");''', [CORE], reach=['done'], defs=['WS=2000000'], max_instr=2000000000,
        what='very many items, each in its own record', bounds='255..257 items of bool, fixed32, fixed64; 65537 of bool'))


def sub_length_jobs(jobs):
    """Sub-messages of many lengths."""
    jobs.append(J('sub', '''
    static const uint32_t lens[] = { 122, 123, 124, 125, 126, 127, 128, 129, 250, 16375, 16379, 16380, 16381, 16384, 65527, 65530, 65531, 65532, 65533, 65536, 66000 };
    const struct mdesc *d = &D_ln_top;
    struct smsg *s = s_new(d), *u;
    uint32_t i = vf_choose(d->n), n = lens[vf_choose(sizeof(lens) / sizeof(lens[0]))];
    u = s_new(d->f[i].sub);
    s_set(s, i)->sub = u;
    uint8_t *p = vf_zbuf(n + 1);
    if (n) { p[0] = vf_u8(); p[n - 1] = vf_u8(); }
    struct sval *v = s_set(u, d->f[i].sub->n - 1);
    v->p = p;
    v->len = n;
    roundtrip(s, n + 32);
    vf_reach("done");''', [schema.lengths()], reach=['done'], defs=['WS=140000'], max_instr=90000000, weight=2,
        what='sub-messages (singular, repeated, oneof, map value) around every length-size boundary'))


def length_jobs(jobs, act):
    """Strings and bytes of many lengths in every kind of field."""
    lens = [127, 128, 255, 256, 16383, 16384, 32768, 65536, 70000]
    jobs.append(J('lengths', '''
    static const uint32_t lens[] = { @LENS@ };
    const struct mdesc *ms[4] = { &D_pk_sing, &D_pk_opt, &D_pk_one, &D_pk_rep };
    const struct mdesc *d = ms[vf_choose(4)];
    uint32_t i = vf_choose(2), k;
    for (k = 0; k < d->n; k++) if (d->f[k].type == (i ? T_STRING : T_BYTES)) break;
    struct smsg *s = s_new(d);
    struct sval *v = s_set(s, k);
    uint32_t n = lens[vf_choose(sizeof(lens) / sizeof(lens[0]))];
    uint8_t *p = vf_zbuf(n + 1);
    memset(p, 'x', n);
    p[0] = vf_u8();
    p[n - 1] = vf_u8();
    if (i) vf_assume(p[0] != 0 && p[n - 1] != 0);
    v->p = p;
    v->len = n;
    @ACT@;
    vf_reach("done");'''.replace('@LENS@', ', '.join(map(str, lens))).replace('@ACT@', act), [CORE], reach=['done'], defs=['WS=72000'], max_instr=90000000,
        what='long strings and bytes', bounds='lengths ' + ', '.join(map(str, lens)) + '; first and last byte symbolic'))


def c14():
    """Length boundaries."""
    jobs = []
    lens = [0, 1, 2, 126, 127, 128, 129, 255, 256, 257, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537]
    long_ = pick([131072, 1 << 21], [131072, (1 << 21) - 1, 1 << 21])
    jobs.append(J('blob', '''
    static const uint32_t lens[] = { %s };
    const struct mdesc *ms[4] = { &D_pk_sing, &D_pk_opt, &D_pk_one, &D_pk_rep };
    const struct mdesc *d = ms[vf_choose(4)];
    uint32_t i = vf_choose(2), k;
    for (k = 0; k < d->n; k++) if (d->f[k].type == (i ? T_STRING : T_BYTES)) break;
    struct smsg *s = s_new(d);
    struct sval *v = s_set(s, k);
    uint32_t n = lens[vf_choose(sizeof(lens) / sizeof(lens[0]))];
    uint8_t *p = vf_zbuf(n + 1);
    for (uint32_t q = 0; q < n; q++) p[q] = (uint8_t)(1 + q %% 255);
    if (n) { p[n - 1] = vf_u8(); p[n / 2] = vf_u8(); p[0] = vf_u8(); }
    if (i && n) vf_assume(p[0] != 0 && p[n / 2] != 0 && p[n - 1] != 0);
    v->p = p;
    v->len = n;
    roundtrip(s, n + 12);
    vf_reach("done");''' % ', '.join(map(str, lens)), [CORE], reach=['done'], defs=['WS=70000'], max_instr=90000000, weight=2,
        what='strings and bytes around every length-size boundary', bounds='lengths ' + ', '.join(map(str, lens)) + '; three symbolic bytes'))
    jobs.append(J('long', '''
    static const uint32_t lens[] = { %s };
    const struct mdesc *d = &D_pk_sing;
    uint32_t i = vf_choose(2), k;
    for (k = 0; k < d->n; k++) if (d->f[k].type == (i ? T_STRING : T_BYTES)) break;
    struct smsg *s = s_new(d);
    struct sval *v = s_set(s, k);
    uint32_t n = lens[vf_choose(sizeof(lens) / sizeof(lens[0]))];
    uint8_t *p = vf_zbuf(n + 1);
    memset(p, 'x', n);
    p[n - 1] = vf_u8(); p[0] = vf_u8();
    if (i) vf_assume(p[0] != 0 && p[n - 1] != 0);
    v->p = p;
    v->len = n;
    roundtrip(s, n + 12);
    vf_reach("done");''' % ', '.join(map(str, long_)), [CORE], reach=['done'], defs=['WS=2300000'], max_instr=900000000,
        what='long strings and bytes', bounds='lengths ' + ', '.join(map(str, long_)) + '; two symbolic bytes'))
    jobs.append(J('packed', '''
    const struct mdesc *d = &D_pk_rep;
    struct smsg *s = s_new(d);
    static const uint32_t lens[] = { 15, 16, 17, 31, 32, 33, 63, 64, 126, 127, 128, 129, 130 };
    uint32_t k, i = vf_choose(d->n), n = lens[vf_choose(13)];
    if (t_wire(d->f[i].type) == 2) return;
    for (k = 0; k < n; k++) s_add(s, i)->bits = k == n - 1 ? 1 : k & (d->f[i].type == T_BOOL ? 1 : 0x3f);
    s->f[i].v[n / 2].bits = vf_u32() & (d->f[i].type == T_BOOL ? 1 : 0x3f);
    roundtrip(s, 1200);
    vf_reach("done");''', [CORE], reach=['done'], defs=['WS=4096'], max_instr=30000000, weight=2, what='packed payloads around 127/128 bytes',
        bounds='15..130 items'))
    jobs.append(J('packed_big', '''
    const struct mdesc *d = &D_pk_rep;
    struct smsg *s = s_new(d);
    uint32_t i, k, w = vf_choose(2), n = (w ? 8191 : 16383) + vf_choose(3);
    for (i = 0; i < d->n; i++) if (d->f[i].type == (w ? T_FIXED64 : T_FLOAT)) break;
    for (k = 0; k < n; k++) s_add(s, i)->bits = k;
    s->f[i].v[n / 2].bits = vf_u32();
    roundtrip(s, 65600);
    vf_reach("done");''', [CORE], reach=['done'], defs=['WS=200000'], max_instr=90000000, what='packed payloads around 64 KiB',
        bounds='8191..8193 items of eight bytes, 16383..16385 of four'))
    item_jobs(jobs)
    sub_length_jobs(jobs)
    jobs.append(J('str_all', '''
    const struct mdesc *d = &D_pk_sing;
    struct smsg *s = s_new(d);
    uint32_t k, n = vf_choose(%d), b = vf_choose(2);
    for (k = 0; k < d->n; k++) if (d->f[k].type == (b ? T_BYTES : T_STRING)) break;
    v_blob(s_set(s, k), d->f[k].type, n);
    roundtrip(s, 64);
    vf_reach("done");''' % pick(17, 33), [CORE], reach=['done'], what='strings without and bytes with any content', bounds='0..%d bytes' % pick(16, 32)))
    return Check('C14', jobs, ASSUME)


def c15():
    """Re-entrancy."""
    jobs = []
    for m in CORE_MSGS:
        jobs.append(J('glob_' + m, '''
    const struct mdesc *d = &D_pk_%s;
    struct smsg *s = s_new(d);
    vf_guard_globals();
    v_field(s, vf_choose(d->n), 1);
    roundtrip(s, 64);
    vf_reach("done");''' % m, [CORE], reach=['done'], what='no shared static storage is written by new, alloc, encode, decode', shared=True))
        jobs.append(J('globrej_' + m, '''
    const struct mdesc *d = &D_pk_%s;
    vf_guard_globals();
    i_start();
    vf_rich = 0;
    vf_plain = %d;
    i_record(d, vf_choose(d->n), 1);
    i_mutate();
    void *mm = fresh(d);
    int r = d->dec(mm, vf_ib, vf_in);
    vf_obs((uint64_t)(int64_t)r);
    if (r >= 0) {
        uint8_t *b = vf_buf(8);
        r = d->enc(mm, b, vf_choose(8));
        vf_obs((uint64_t)(int64_t)r);
    }
    vf_reach("done");''' % (m, pick(1, 0)), [CORE], reach=['done'], what='nor on failing decodes and full buffers', shared=True, weight=2))
    for m in ('nest', 'choice', 'maps', 'mix'):
        jobs.append(J('globs_' + m, '''
    const struct mdesc *d = &D_sm_%s;
    vf_guard_globals();
    i_start();
    vf_rich = 0;
    i_record(d, vf_choose(d->n), 2);
    i_unknown(d, 1);
    i_record(d, vf_choose(d->n), 1);
    w_start(d->size + 96);
    void *mm = d->make(vf_w, vf_ws);
    if (mm == NULL) return;
    int r = d->dec(mm, vf_ib, vf_in);
    vf_obs((uint64_t)(int64_t)r);
    const char *p = pbtools_error_code_to_string(r < 0 ? r : 0);
    vf_assert(p != NULL, "error string");
    vf_reach("done");''' % m, [SMALL], reach=['done'], what='nested, map and oneof messages, exhausted workspaces', shared=True, weight=2))
    jobs.append(J('interleave', '''
    const struct mdesc *d = &D_sm_mix;
    struct smsg *a = s_new(d), *b = s_new(d);
    vf_rich = 0;
    void *ma = fresh(d), *mb = fresh(d);
    v_field(a, vf_choose(d->n), 1);
    v_field(b, vf_choose(d->n), 1);
    s_populate(a, ma);
    s_populate(b, mb);
    s_compare(a, ma, "messages in different workspaces are independent");
    uint8_t *ea = vf_buf(64), *eb = vf_buf(64);
    int ra = d->enc(ma, ea, 64), rb = d->enc(mb, eb, 64);
    vf_assert(ra == (int)s_size(a) && rb == (int)s_size(b), "sizes");
    s_check_encoded(a, ea, (uint32_t)ra);
    s_check_encoded(b, eb, (uint32_t)rb);
    void *da = fresh(d), *db = fresh(d);
    vf_assert(d->dec(da, ea, (size_t)ra) == ra && d->dec(db, eb, (size_t)rb) == rb, "accepted");
    s_compare(a, da, "messages in different workspaces are independent");
    s_compare(b, db, "messages in different workspaces are independent");
    vf_reach("done");''', [SMALL], reach=['done'], weight=2, what='interleaved operations on two messages'))
    return Check('C15', jobs, ASSUME + ['without writes to shared storage, calls on disjoint objects cannot race; schedules are not enumerated'])


def c16():
    """Purity."""
    jobs = []
    body = '''
    struct smsg *s = s_new(d);
    vf_rich = %d;
    %s
    uint8_t *w = vf_buf(WS);
    void *m = d->make(w, WS);
    vf_assert(m != NULL, "new");
    s_populate(s, m);
    uint8_t *copy = vf_zbuf(WS);
    memcpy(copy, w, WS);
    uint8_t *b1 = vf_buf(64), *b2 = vf_buf(70);
    int r1 = d->enc(m, b1, 64);
    for (uint32_t k = 0; k < WS; k++) vf_assert(w[k] == copy[k], "encode does not modify the message or its workspace");
    int r2 = d->enc(m, b2, 70);
    vf_assert(r1 == r2, "encoding twice gives the same size");
    for (int k = 0; k < r1; k++) vf_assert(b1[k] == b2[k], "encoding twice gives the same bytes");
    vf_obs((uint64_t)(int64_t)r1);
    void *o = fresh(d);
    int r3 = d->dec(o, b1, (size_t)r1);
    vf_assert(r3 == r1, "the encoding is accepted");
    for (int k = 0; k < r1; k++) { vf_assert(b1[k] == b2[k], "decode does not modify its input"); b1[k] = 0xa5; }
    uint8_t *b3 = vf_buf(64);
    int r4 = d->enc(o, b3, 64);
    vf_assert(r4 == r1, "re-encoding a decoded message gives the same size");
    for (int k = 0; k < r1; k++) vf_assert(b3[k] == b2[k], "re-encoding a decoded message gives the same bytes");
    vf_reach("done");'''
    for m in CORE_MSGS:
        jobs.append(J('pure_' + m, 'const struct mdesc *d = &D_pk_%s;' % m + body % (1, 'v_field(s, vf_choose(d->n), 1);'), [CORE],
                      reach=['done'], what='encode twice, decode, overwrite the input, re-encode', defs=['WS=512']))
    for m in ('mix', 'reps', 'nest', 'choice', 'maps', 'outer'):
        jobs.append(J('pure2_' + m, 'const struct mdesc *d = &D_sm_%s;' % m + body % (0,
                      'uint32_t i = vf_choose(d->n), j = vf_choose(d->n); v_field(s, i, 1); if (i != j) v_field(s, j, 1);'), [SMALL],
                      reach=['done'], what='two fields, nested', defs=['WS=512'], weight=2))
    jobs.append(J('garbage', '''
    const struct mdesc *ms[4] = { &D_sm_mix, &D_sm_reps, &D_sm_nest, &D_sm_choice };
    const struct mdesc *d = ms[vf_choose(4)];
    i_start();
    i_any(vf_choose(%d));
    uint8_t *buf = vf_zbuf(vf_in);
    memcpy(buf, vf_ib, vf_in);
    vf_readonly(buf);
    uint8_t *w1 = vf_buf(WS), *w2 = vf_zbuf(WS);
    void *a = d->make(w1, WS), *b = d->make(w2, WS);
    int ra = d->dec(a, buf, vf_in), rb = d->dec(b, buf, vf_in);
    vf_assert(ra == rb, "decode does not depend on earlier workspace contents");
    vf_obs((uint64_t)(int64_t)ra);
    vf_reach(ra < 0 ? "reject" : "accept");
    if (ra >= 0) {
        uint8_t *e1 = vf_buf(64), *e2 = vf_buf(64);
        int n1 = d->enc(a, e1, 64), n2 = d->enc(b, e2, 64);
        vf_assert(n1 == n2, "the decoded message does not depend on earlier workspace contents");
        for (int k = 0; k < n1; k++) vf_assert(e1[k] == e2[k], "the decoded message does not depend on earlier workspace contents");
    }''' % pick(5, 6), [SMALL], reach=['accept', 'reject'], weight=2, defs=['WS=512'], what='arbitrary input, two workspaces with different garbage'))
    return Check('C16', jobs, ASSUME)


def c17():
    """Error strings."""
    jobs = [J('strings', '''
    static const char *const names[9] = { "Ok", "Bad wire type", "Out of data", "Out of memory", "Encode buffer full",
        "Bad field number", "Varint overflow", "Seek overflow", "Length delimited overflow" };
    int code = (int)vf_u32();
    const char *p = pbtools_error_code_to_string(code);
    vf_assert(p != NULL, "every code has a string");
    const char *want = "Unknown error";
    for (int k = 0; k < 9; k++) if (code == k || code == -k) want = names[k];
    vf_assert(strcmp(p, want) == 0, "the string names the error");
    vf_obs((uint64_t)(int64_t)strlen(p));
    vf_reach(want[0] == 'U' ? "unknown" : "known");''', [CORE], reach=['known', 'unknown'], what='all 2^32 codes', bounds='none: every int')]
    return Check('C17', jobs, ASSUME)


def c18():
    """Maps."""
    jobs = []
    jobs.append(J('rt', '''
    const struct mdesc *d = &D_sm_maps;
    struct smsg *s = s_new(d);
    uint32_t i = vf_choose(d->n), n = 1 + vf_choose(2);
    vf_rich = n == 1 ? 2 : 0;
    for (uint32_t k = 0; k < n; k++) {
        struct smsg *e = s_new(d->f[i].sub);
        s_add(s, i)->sub = e;
        uint32_t what = vf_choose(4);
        if (what & 1) v_field(e, 0, 1);
        if (what & 2) v_field(e, 1, 1);
    }
    roundtrip(s, 128);
    vf_reach("done");''', [SMALL], reach=['done'], weight=2, what='one or two entries with or without key and value', ))
    jobs.append(J('wire', '''
    const struct mdesc *d = &D_sm_maps;
    i_start();
    uint32_t i = vf_choose(d->n);
    const struct mdesc *e = d->f[i].sub;
    uint32_t n = 1 + vf_choose(2);
    for (uint32_t k = 0; k < n; k++) {
        uint8_t *top = vf_ib;
        uint32_t at = vf_in, w, q;
        vf_ib = vf_zbuf(256); vf_in = 0;
        vf_rich = n == 1 ? 1 : 0;
        w = vf_choose(n == 1 ? 6 : 4);
        if (w & 1) i_record(e, 0, 1);
        if (w & 2) i_record(e, 1, 1);
        if (w == 4) { i_record(e, 1, 1); i_record(e, 0, 1); }
        if (w == 5) { i_unknown(e, 1); i_record(e, 0, 1); i_record(e, 0, 1); }
        uint8_t *c = vf_ib;
        q = vf_in;
        vf_ib = top; vf_in = at;
        i_tag(d->f[i].num, 2);
        i_varint(q);
        for (w = 0; w < q; w++) i_byte(c[w]);
        if (k == 0 && vf_choose(2)) i_record(d, (i + 1) % d->n, 0);
    }
    equiv(d);''', [SMALL], reach=['accept'], weight=2, what='entries on the wire: key or value missing, swapped, repeated, with unknown fields'))
    ms = schema.maps()
    jobs.append(J('types', '''
    const struct mdesc *d = &D_mp_all;
    struct smsg *s = s_new(d);
    uint32_t i = vf_choose(d->n);
    struct smsg *e = s_new(d->f[i].sub);
    s_add(s, i)->sub = e;
    vf_rich = 1;
    if (vf_choose(2)) v_field(e, 0, 1); else v_field(e, 1, 1);
    roundtrip(s, 64);
    vf_reach("done");''', [ms], reach=['done'], weight=2, what='every key type and every value type'))
    jobs.append(J('cut', '''
    const struct mdesc *d = &D_sm_maps;
    i_start();
    vf_rich = 0;
    vf_plain = %d;
    i_record(d, vf_choose(d->n), 1);
    i_record(d, vf_choose(d->n), 1);
    i_mutate();
    equiv(d);''' % pick(1, 0), [SMALL], reach=['accept', 'reject'], weight=2, what='two entries, one byte arbitrary or cut'))
    return Check('C18', jobs, ASSUME)


def c19():
    """Fresh messages."""
    jobs = []
    for sch, names in ((CORE, ('pk_sing', 'pk_opt', 'pk_one', 'pk_rep', 'pk_empty')),
                       (SMALL, ('sm_mix', 'sm_nest', 'sm_tree', 'sm_choice', 'sm_maps', 'sm_outer'))):
        jobs.append(J('new_' + sch.file, '''
    const struct mdesc *ms[] = { %s };
    const struct mdesc *d = ms[vf_choose(sizeof(ms) / sizeof(ms[0]))];
    w_start(d->size + 64);
    void *m = d->make(vf_w, vf_ws);
    w_check();
    if (m == NULL) {
        vf_assert(vf_ws < d->size + 48, "a message can be created in a workspace that is large enough");
        vf_reach("no room");
        return;
    }
    vf_assert((uint8_t *)m >= vf_w && (uint64_t)((uint8_t *)m - vf_w) + d->size <= vf_ws, "the message lies in the workspace");
    struct smsg *s = s_new(d);
    s_compare(s, m, "a new message has default contents");
    uint8_t *b = vf_buf(8);
    int r = d->enc(m, b, 8);
    vf_assert(r == 0, "a new message has an empty encoding");
    r = d->dec(m, b, 0);
    vf_assert(r == 0, "the empty input is accepted");
    s_compare(s, m, "decoding the empty input gives default contents");
    vf_reach("done");''' % ', '.join('&D_' + n for n in names), [sch], reach=['done', 'no room'],
            what='new in any workspace of any size with any contents', bounds='workspaces of 0..message+64 bytes'))
        jobs.append(J('large_' + sch.file, '''
    static const uint32_t sizes[] = { 255, 256, 32767, 32768, 65535, 65536, 65540, 65600, 131072, 1048575, 1048600, 2097152 };
    const struct mdesc *ms[] = { %s };
    const struct mdesc *d = ms[vf_choose(sizeof(ms) / sizeof(ms[0]))];
    uint32_t n = sizes[vf_choose(sizeof(sizes) / sizeof(sizes[0]))];
    uint8_t *w = vf_buf(n);
    void *m = d->make(w, n);
    if (n >= d->size + 48) {
        vf_assert(m != NULL, "a message can be created in a workspace that is large enough");
        vf_assert((uint8_t *)m >= w && (uint64_t)((uint8_t *)m - w) + d->size <= n, "the message lies in the workspace");
        s_compare(s_new(d), m, "a new message has default contents");
        uint8_t *b = vf_buf(8);
        int r = d->enc(m, b, 8);
        vf_assert(r == 0, "a new message has an empty encoding");
    } else if (m == NULL) vf_reach("no room");
    vf_reach("done");''' % ', '.join('&D_' + n for n in names), [sch], reach=['done'],
            what='new in large workspaces of any contents', bounds='workspaces of up to 2 MiB'))
    return Check('C19', jobs, ASSUME)


def c20():
    """Enums."""
    jobs = []
    jobs.append(J('rt', '''
    const struct mdesc *ms[5] = { &D_pk_sing, &D_pk_opt, &D_pk_one, &D_pk_rep, &D_pk_rep };
    const struct mdesc *d = ms[vf_choose(4)];
    uint32_t k;
    for (k = 0; k < d->n; k++) if (d->f[k].type == T_ENUM) break;
    struct smsg *s = s_new(d);
    v_field(s, k, 0);
    roundtrip(s, 64);
    vf_reach("done");''', [CORE], reach=['done'], what='any 32-bit value in singular, optional, oneof and repeated enum fields'))
    jobs.append(J('dec', '''
    const struct mdesc *ms[4] = { &D_pk_sing, &D_pk_opt, &D_pk_one, &D_pk_rep };
    const struct mdesc *d = ms[vf_choose(4)];
    uint32_t k;
    for (k = 0; k < d->n; k++) if (d->f[k].type == T_ENUM) break;
    i_start();
    i_record(d, k, 0);
    if (vf_choose(2)) { vf_rich = 1; i_record(d, k, 0); }
    equiv(d);''', [CORE], reach=['accept'], weight=2, what='any varint'))
    jobs.append(J('named', '''
    const struct mdesc *d = &D_sm_outer;
    void *m = fresh(d);
    struct sm_outer_t *o = m;
    vf_assert(sm_zero_e == 0 && sm_one_e == 1 && sm_neg_e == -5 && sm_big_e == 2147483647, "constants have the declared values");
    vf_assert(sm_outer_a_e == 0 && sm_outer_b_e == 7, "constants have the declared values");
    i_start();
    i_tag(2, 0);
    i_some_varint();
    equiv(d);
    o->e = sm_outer_b_e;
    uint8_t *b = vf_buf(8);
    vf_assert(d->enc(m, b, 8) == 2 && b[0] == 16 && b[1] == 7, "a named constant is encoded with its value");
    vf_reach("done");''', [SMALL], reach=['done', 'accept'], what='generated constants'))
    return Check('C20', jobs, ASSUME)


def c21():
    """Field order and last-one-wins."""
    jobs = []
    for m in ('sing', 'opt'):
        jobs.append(J('last_' + m, '''
    const struct mdesc *d = &D_pk_%s;
    i_start();
    uint32_t i = vf_choose(d->n), j = vf_choose(d->n);
    vf_rich = 1;
    i_record(d, i, 1);
    i_record(d, j, 1);
    if (vf_choose(2)) { vf_rich = 0; i_record(d, i, 1); }
    equiv(d);''' % m, [CORE], reach=['accept'], weight=2, what='records of any two fields in any order, repeated'))
    jobs.append(J('perm', '''
    const struct mdesc *d = &D_sm_mix;
    i_start();
    vf_rich = 0;
    for (uint32_t k = 0; k < %d; k++) i_record(d, vf_choose(d->n), 0);
    equiv(d);''' % pick(4, 5), [SMALL], reach=['accept'], weight=2, what='any sequence of %d records' % pick(4, 5)))
    jobs.append(J('concat', '''
    const struct mdesc *d = &D_sm_mix;
    struct smsg *a = s_new(d), *b = s_new(d);
    vf_rich = 0;
    v_field(a, vf_choose(d->n), 1);
    v_field(b, vf_choose(d->n), 1);
    void *ma = encode_check(a, 64);
    i_start();
    for (int k = 0; k < vf_enc_n; k++) i_byte(vf_enc[k]);
    encode_check(b, 64);
    for (int k = 0; k < vf_enc_n; k++) i_byte(vf_enc[k]);
    equiv(d);
    (void)ma;''', [SMALL], reach=['accept'], weight=2, what='concatenated encodings'))
    for m in ('a', 'b', 'wide'):
        jobs.append(J('mixed_' + m, '''
    const struct mdesc *d = &D_mx_y_z_w_@M@;
    i_start();
    vf_rich = 0;
    uint32_t i = vf_choose(d->n);
    i_record(d, i, 0);
    i_record(d, d->n - 1 - i, 0);
    i_record(d, i, 0);
    equiv(d);'''.replace('@M@', m), [MIXED], reach=['accept'], weight=2, what='a field, another and the first again: equally named nested messages, mutual recursion, several oneofs, a wide message'))
    return Check('C21', jobs, ASSUME)


def c22():
    """Imports."""
    jobs = []
    jobs.append(J('wire', '''
    const struct mdesc *d = &D_im_user;
    i_start();
    vf_rich = 1;
    i_record(d, vf_choose(d->n), 2);
    i_record(d, vf_choose(d->n), 1);
    equiv(d);''', [IMP], reach=['accept'], weight=2, what='records of imported message and enum types'))
    jobs.append(J('rt', '''
    const struct mdesc *d = &D_im_user;
    struct smsg *s = s_new(d);
    v_field(s, vf_choose(d->n), 2);
    roundtrip(s, 64);
    vf_reach("done");''', [IMP], reach=['done'], what='round trip through imported types'))
    for n in ('user', 'user2'):
        jobs.append(J('wire_' + n, '''
    const struct mdesc *d = &D_%s;
    i_start();
    vf_rich = 1;
    i_record(d, vf_choose(d->n), 2);
    i_record(d, vf_choose(d->n), 1);
    equiv(d);''' % n, [IMP2], reach=['accept'], weight=2, what='records of imported types, with no or a dotted package'))
        jobs.append(J('rt_' + n, '''
    const struct mdesc *d = &D_%s;
    struct smsg *s = s_new(d);
    uint32_t i = vf_choose(d->n);
    v_field(s, i, 1);
    vf_rich = 0;
    v_field(s, (i + 1 + vf_choose(2)) %% d->n, 0);
    roundtrip(s, 128);
    vf_reach("done");''' % n, [IMP2], reach=['done'], weight=2, what='round trip through imported types, with no or a dotted package'))
    return Check('C22', jobs, ASSUME)


CHECKS = {k.upper(): v for k, v in list(globals().items()) if k[0] == 'c' and k[1:].isdigit()}
