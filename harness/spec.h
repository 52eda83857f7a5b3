/* Executable reference model of the protobuf wire format, written from the
   protobuf encoding specification and independent of the library under test.
   It is driven by descriptor tables emitted from vlib/schema.py. */
#ifndef SPEC_H
#define SPEC_H
#include "vfapi.h"
#include "pbtools.h"

enum ftype { T_INT32, T_INT64, T_SINT32, T_SINT64, T_UINT32, T_UINT64,
             T_FIXED32, T_FIXED64, T_SFIXED32, T_SFIXED64, T_FLOAT, T_DOUBLE,
             T_BOOL, T_ENUM, T_STRING, T_BYTES, T_MSG };
enum flabel { L_SING, L_OPT, L_REP, L_ONEOF };

struct mdesc;
struct fdesc {
    uint32_t num;
    uint8_t type, label;
    uint32_t off;               /* of the value, or of the repeated struct */
    uint32_t pres;              /* of is_present, or of the oneof selector */
    uint32_t sel;               /* selector value of this oneof member */
    uint32_t group;             /* oneof index */
    const struct mdesc *sub;
    int (*alloc)(void *);           /* sub-message */
    int (*allocn)(void *, int);     /* repeated */
    void (*init)(void *);           /* scalar oneof member */
};
struct mdesc {
    const char *name;
    uint32_t n;
    const struct fdesc *f;
    uint32_t size;
    uint32_t ngroups;
    uint32_t group_off[4];
    void *(*make)(void *, size_t);
    int (*enc)(void *, uint8_t *, size_t);
    int (*dec)(void *, const uint8_t *, size_t);
};

/* Abstract values. */
struct sval {
    uint64_t bits;              /* scalars: the value's bit pattern */
    const uint8_t *p;           /* string, bytes: contents */
    uint32_t len;
    struct smsg *sub;
};
struct sfield { uint32_t count, cap; struct sval *v; };
struct smsg { const struct mdesc *d; struct sfield *f; };

static int t_is64(int t)
{
    return t == T_INT64 || t == T_UINT64 || t == T_SINT64 || t == T_FIXED64
        || t == T_SFIXED64 || t == T_DOUBLE;
}
static int t_elem(int t)
{
    if (t == T_BOOL) return sizeof(bool);
    if (t == T_STRING) return sizeof(char *);
    if (t == T_BYTES) return sizeof(struct pbtools_bytes_t);
    return t_is64(t) ? 8 : 4;
}
/* Wire type of one item. */
static int t_wire(int t)
{
    switch (t) {
    case T_FIXED32: case T_SFIXED32: case T_FLOAT: return 5;
    case T_FIXED64: case T_SFIXED64: case T_DOUBLE: return 1;
    case T_STRING: case T_BYTES: case T_MSG: return 2;
    default: return 0;
    }
}
static struct smsg *s_new(const struct mdesc *d)
{
    struct smsg *s = vf_zbuf(sizeof(*s));
    s->d = d;
    s->f = vf_zbuf(sizeof(struct sfield) * (d->n ? d->n : 1));
    return s;
}
static struct sval *s_add(struct smsg *s, uint32_t i)
{
    struct sfield *f = &s->f[i];
    if (f->count == f->cap) {
        uint32_t cap = f->cap ? f->cap * 2 : 1;
        struct sval *v = vf_zbuf(sizeof(*v) * cap);
        for (uint32_t k = 0; k < f->count; k++) v[k] = f->v[k];
        f->v = v;
        f->cap = cap;
    }
    struct sval *r = &f->v[f->count++];
    r->bits = 0; r->p = 0; r->len = 0; r->sub = 0;
    return r;
}
/* The slot a new occurrence of a non-repeated field goes to (last one wins,
   and a oneof member replaces the other members). */
static struct sval *s_set(struct smsg *s, uint32_t i)
{
    const struct fdesc *fd = &s->d->f[i];
    if (fd->label == L_REP) return s_add(s, i);
    if (fd->label == L_ONEOF)
        for (uint32_t k = 0; k < s->d->n; k++)
            if (s->d->f[k].label == L_ONEOF && s->d->f[k].group == fd->group)
                s->f[k].count = 0;
    s->f[i].count = 0;
    return s_add(s, i);
}

/* ---- abstract value -> generated struct, through the public API ---- */
static void put_scalar(void *p, int t, const struct sval *v)
{
    if (t == T_BOOL) { bool b = v->bits != 0; memcpy(p, &b, sizeof(b)); }
    else if (t == T_STRING) { const char *q = (const char *)v->p; memcpy(p, &q, sizeof(q)); }
    else if (t == T_BYTES) {
        struct pbtools_bytes_t *b = p;
        b->buf_p = (uint8_t *)v->p;
        b->size = v->len;
    }
    else if (t_is64(t)) memcpy(p, &v->bits, 8);
    else { uint32_t x = (uint32_t)v->bits; memcpy(p, &x, 4); }
}
static void *get_ptr(void *p) { void *q; memcpy(&q, p, sizeof(q)); return q; }
static void s_populate(struct smsg *s, void *msg)
{
    const struct mdesc *d = s->d;
    for (uint32_t i = 0; i < d->n; i++) {
        const struct fdesc *fd = &d->f[i];
        struct sfield *f = &s->f[i];
        char *at = (char *)msg + fd->off;
        if (fd->label == L_REP) {
            if (f->count == 0) continue;
            vf_assert(fd->allocn(msg, (int)f->count) == 0, "repeated allocation in an ample workspace succeeds");
            int len; memcpy(&len, at, sizeof(len));
            vf_assert(len == (int)f->count, "allocated repeated field has the requested length");
            /* struct { int length; T *items; } */
            char *items = get_ptr(at + sizeof(void *));
            for (uint32_t k = 0; k < f->count; k++) {
                if (fd->type == T_MSG)
                    s_populate(f->v[k].sub, items + (size_t)k * fd->sub->size);
                else
                    put_scalar(items + (size_t)k * t_elem(fd->type), fd->type, &f->v[k]);
            }
            continue;
        }
        if (f->count == 0) continue;
        if (fd->type == T_MSG) {
            vf_assert(fd->alloc(msg) == 0, "sub-message allocation in an ample workspace succeeds");
            s_populate(f->v[0].sub, get_ptr(at));
            continue;
        }
        if (fd->label == L_ONEOF) fd->init(msg);
        if (fd->label == L_OPT) { bool t = true; memcpy((char *)msg + fd->pres, &t, sizeof(t)); }
        put_scalar(at, fd->type, &f->v[0]);
    }
}

/* ---- generated struct == abstract value ---- */
#define CHK(c) vf_assert(c, what)
static void cmp_scalar(const void *p, int t, const struct sval *v, const char *what)
{
    if (t == T_BOOL) {
        uint8_t b; memcpy(&b, p, 1);
        CHK(b == (v ? v->bits != 0 : 0));
    } else if (t == T_STRING) {
        const char *q = get_ptr((void *)p);
        CHK(q != NULL);
        uint32_t n = v ? v->len : 0;
        if (n > 256) CHK(vf_eq(q, v->p, n));     /* no NUL in long strings */
        else for (uint32_t k = 0; k < n; k++) {
            CHK((uint8_t)q[k] == v->p[k]);
            if (v->p[k] == 0) return;
        }
        CHK(q[n] == 0);
    } else if (t == T_BYTES) {
        const struct pbtools_bytes_t *b = p;
        uint32_t n = v ? v->len : 0;
        CHK(b->size == n);
        CHK(n == 0 || vf_eq(b->buf_p, v->p, n));
    } else if (t_is64(t)) {
        uint64_t x; memcpy(&x, p, 8);
        CHK(x == (v ? v->bits : 0));
    } else {
        uint32_t x; memcpy(&x, p, 4);
        CHK(x == (v ? (uint32_t)v->bits : 0));
    }
}
static void s_compare(struct smsg *s, void *msg, const char *what)
{
    const struct mdesc *d = s->d;
    uint32_t sel[4] = { 0, 0, 0, 0 };
    for (uint32_t i = 0; i < d->n; i++)
        if (d->f[i].label == L_ONEOF && s->f[i].count) sel[d->f[i].group] = d->f[i].sel;
    for (uint32_t g = 0; g < d->ngroups; g++) {
        uint32_t x; memcpy(&x, (char *)msg + d->group_off[g], 4);
        CHK(x == sel[g]);
    }
    for (uint32_t i = 0; i < d->n; i++) {
        const struct fdesc *fd = &d->f[i];
        struct sfield *f = &s->f[i];
        char *at = (char *)msg + fd->off;
        struct sval *v = f->count ? &f->v[0] : 0;
        if (fd->label == L_REP) {
            int len; memcpy(&len, at, sizeof(len));
            CHK(len == (int)f->count);
            if (f->count == 0) continue;
            char *items = get_ptr(at + sizeof(void *));
            CHK(items != NULL);
            for (uint32_t k = 0; k < f->count; k++) {
                if (fd->type == T_MSG)
                    s_compare(f->v[k].sub, items + (size_t)k * fd->sub->size, what);
                else
                    cmp_scalar(items + (size_t)k * t_elem(fd->type), fd->type, &f->v[k], what);
            }
            continue;
        }
        if (fd->label == L_ONEOF && !v) continue;
        if (fd->label == L_OPT) {
            uint8_t b; memcpy(&b, (char *)msg + fd->pres, 1);
            CHK(b == (v != 0));
            if (!v) continue;
        }
        if (fd->type == T_MSG) {
            void *q = get_ptr(at);
            CHK((q != NULL) == (v != 0));
            if (v) s_compare(v->sub, q, what);
            continue;
        }
        cmp_scalar(at, fd->type, v, what);
    }
}

/* ---- reference encoding ---- */
static uint64_t zz(int64_t v) { return ((uint64_t)v << 1) ^ (uint64_t)(v >> 63); }
static uint64_t wire_varint(int t, uint64_t bits)
{
    switch (t) {
    case T_INT32: case T_ENUM: return (uint64_t)(int64_t)(int32_t)(uint32_t)bits;
    case T_UINT32: return (uint32_t)bits;
    case T_SINT32: return zz((int64_t)(int32_t)(uint32_t)bits);
    case T_SINT64: return zz((int64_t)bits);
    case T_BOOL: return bits != 0;
    default: return bits;
    }
}
static uint32_t varint_size(uint64_t v)
{
    uint32_t n = 1;
    while (v >= 0x80) { v >>= 7; n++; }
    return n;
}
static uint32_t put_varint(uint8_t *o, uint64_t v)
{
    uint32_t n = 0;
    while (v >= 0x80) { o[n++] = (uint8_t)(v | 0x80); v >>= 7; }
    o[n++] = (uint8_t)v;
    return n;
}
static uint32_t item_size(int t, const struct sval *v);
static uint32_t s_size(struct smsg *s);
static int is_default(int t, const struct sval *v)
{
    if (t == T_STRING || t == T_BYTES) return v->len == 0;
    if (t == T_MSG) return 0;
    if (t == T_BOOL) return v->bits == 0;
    return t_is64(t) ? v->bits == 0 : (uint32_t)v->bits == 0;
}
static uint32_t item_size(int t, const struct sval *v)
{
    switch (t_wire(t)) {
    case 5: return 4;
    case 1: return 8;
    case 0: return varint_size(wire_varint(t, v->bits));
    default: {
        uint32_t n = t == T_MSG ? s_size(v->sub) : v->len;
        return varint_size(n) + n;
    }
    }
}
/* Is the field written at all? */
static int is_written(const struct fdesc *fd, const struct sfield *f)
{
    if (f->count == 0) return 0;
    if (fd->label == L_SING) return !is_default(fd->type, &f->v[0]);
    return 1;
}
static uint32_t s_size(struct smsg *s)
{
    uint32_t n = 0;
    for (uint32_t i = 0; i < s->d->n; i++) {
        const struct fdesc *fd = &s->d->f[i];
        struct sfield *f = &s->f[i];
        if (!is_written(fd, f)) continue;
        uint32_t tag = varint_size((uint64_t)fd->num << 3);
        if (fd->label == L_REP && t_wire(fd->type) != 2) {
            uint32_t m = 0;
            for (uint32_t k = 0; k < f->count; k++) m += item_size(fd->type, &f->v[k]);
            n += tag + varint_size(m) + m;
        } else
            for (uint32_t k = 0; k < f->count; k++) n += tag + item_size(fd->type, &f->v[k]);
    }
    return n;
}
static uint32_t s_encode(struct smsg *s, uint8_t *o);
static uint32_t put_item(uint8_t *o, int t, const struct sval *v)
{
    uint32_t n = 0;
    switch (t_wire(t)) {
    case 5: for (; n < 4; n++) o[n] = (uint8_t)((uint32_t)v->bits >> (8 * n)); return n;
    case 1: for (; n < 8; n++) o[n] = (uint8_t)(v->bits >> (8 * n)); return n;
    case 0: return put_varint(o, wire_varint(t, v->bits));
    default:
        if (t == T_MSG) {
            n = put_varint(o, s_size(v->sub));
            return n + s_encode(v->sub, o + n);
        }
        n = put_varint(o, v->len);
        memcpy(o + n, v->p, v->len);
        return n + v->len;
    }
}
static uint32_t s_encode(struct smsg *s, uint8_t *o)
{
    uint32_t n = 0;
    for (uint32_t i = 0; i < s->d->n; i++) {
        const struct fdesc *fd = &s->d->f[i];
        struct sfield *f = &s->f[i];
        if (!is_written(fd, f)) continue;
        int packed = fd->label == L_REP && t_wire(fd->type) != 2;
        uint32_t tag = (fd->num << 3) | (packed ? 2 : (uint32_t)t_wire(fd->type));
        if (packed) {
            uint32_t m = 0;
            for (uint32_t k = 0; k < f->count; k++) m += item_size(fd->type, &f->v[k]);
            n += put_varint(o + n, tag);
            n += put_varint(o + n, m);
            for (uint32_t k = 0; k < f->count; k++) n += put_item(o + n, fd->type, &f->v[k]);
        } else
            for (uint32_t k = 0; k < f->count; k++) {
                n += put_varint(o + n, tag);
                n += put_item(o + n, fd->type, &f->v[k]);
            }
    }
    return n;
}

/* ---- is e[0..n) the canonical encoding of s, in any field order? ---- */
static void s_check_encoded(struct smsg *s, const uint8_t *e, uint32_t n);
static uint32_t chk_varint(const uint8_t *e, uint32_t n, uint32_t pos, uint64_t v)
{
    uint8_t o[10];
    uint32_t m = put_varint(o, v);
    vf_assert(pos + m <= n, "encoded record is complete");
    for (uint32_t k = 0; k < m; k++) vf_assert(e[pos + k] == o[k], "encoded varint is exact");
    return pos + m;
}
static uint32_t chk_item(int t, const struct sval *v, const uint8_t *e, uint32_t n, uint32_t pos)
{
    if (t_wire(t) == 0) return chk_varint(e, n, pos, wire_varint(t, v->bits));
    if (t_wire(t) == 2) {
        uint32_t m = t == T_MSG ? s_size(v->sub) : v->len;
        pos = chk_varint(e, n, pos, m);
        vf_assert(pos + m <= n, "encoded length-delimited value is complete");
        if (t == T_MSG) s_check_encoded(v->sub, e + pos, m);
        else vf_assert(m == 0 || vf_eq(e + pos, v->p, m), "encoded contents are exact");
        return pos + m;
    }
    uint32_t m = t_wire(t) == 5 ? 4 : 8;
    vf_assert(pos + m <= n, "encoded fixed-size value is complete");
    for (uint32_t k = 0; k < m; k++)
        vf_assert(e[pos + k] == (uint8_t)((m == 4 ? (uint32_t)v->bits : v->bits) >> (8 * k)),
                  "encoded fixed-size value is little-endian and exact");
    return pos + m;
}
static void s_check_encoded(struct smsg *s, const uint8_t *e, uint32_t n)
{
    const struct mdesc *d = s->d;
    uint32_t *seen = vf_zbuf(d->n * sizeof(*seen) + 1);
    uint32_t pos = 0;
    while (pos < n) {
        uint64_t tag = 0;
        uint32_t sh = 0, start = pos;
        for (;;) {
            vf_assert(pos < n && sh < 35, "encoded tag is complete");
            uint8_t b = e[pos++];
            tag |= (uint64_t)(b & 0x7f) << sh;
            sh += 7;
            if (!(b & 0x80)) break;
        }
        vf_assert(pos - start == varint_size(tag), "encoded tag is minimal");
        uint32_t i;
        for (i = 0; i < d->n; i++) if (d->f[i].num == tag >> 3) break;
        vf_assert(i < d->n, "encoded field number is declared");
        const struct fdesc *fd = &d->f[i];
        struct sfield *f = &s->f[i];
        int packed = fd->label == L_REP && t_wire(fd->type) != 2;
        vf_assert((int)(tag & 7) == (packed ? 2 : t_wire(fd->type)), "encoded wire type fits the field type");
        if (packed) {
            vf_assert(f->count > 0 && !seen[i], "packed field is written once, when not empty");
            seen[i] = 1;
            uint32_t m = 0;
            for (uint32_t k = 0; k < f->count; k++) m += item_size(fd->type, &f->v[k]);
            pos = chk_varint(e, n, pos, m);
            for (uint32_t k = 0; k < f->count; k++) pos = chk_item(fd->type, &f->v[k], e, n, pos);
            continue;
        }
        vf_assert(seen[i] < f->count && is_written(fd, f), "only fields that are set are written, once per item");
        pos = chk_item(fd->type, &f->v[seen[i]], e, n, pos);
        seen[i]++;
    }
    vf_assert(pos == n, "encoding ends with its last record");
    for (uint32_t i = 0; i < d->n; i++) {
        const struct fdesc *fd = &d->f[i];
        struct sfield *f = &s->f[i];
        uint32_t want = is_written(fd, f) ? (fd->label == L_REP && t_wire(fd->type) != 2 ? 1 : f->count) : 0;
        vf_assert(seen[i] == want, "every field that is set is written");
    }
}

/* ---- reference decoding ---- */
enum { D_OK = 0, D_OPEN = 100 };    /* otherwise an error code (1..8) */
struct dctx {
    const uint8_t *e;
    uint32_t n;
    int in_rep;                 /* inside an item of a repeated message */
};
static VF_TLS int vf_soft_rep;            /* (harness state) first defect found inside a repeated item */
static VF_TLS int vf_soft_len;            /* a length near 2^31: which limit it breaks first is open */
static VF_TLS int vf_soft_mem;            /* a length claims more data than there is: the memory for it may be missing too */
static int rd_varint(const uint8_t *e, uint32_t n, uint32_t *pos, uint64_t *out)
{
    uint64_t v = 0;
    for (uint32_t k = 0; k < 10; k++) {
        if (*pos >= n) return PBTOOLS_OUT_OF_DATA;
        uint8_t b = e[(*pos)++];
        if (k < 9) v |= (uint64_t)(b & 0x7f) << (7 * k);
        else v |= (uint64_t)(b & 1) << 63;
        if (!(b & 0x80)) { *out = v; return D_OK; }
    }
    return PBTOOLS_VARINT_OVERFLOW;
}
static int rd_len(const uint8_t *e, uint32_t n, uint32_t *pos, uint32_t *len)
{
    uint64_t v;
    int r = rd_varint(e, n, pos, &v);
    if (r) return r;
    vf_soft_len |= (v > 0x7fff0000) & (v < 0x80010000);
    if (v >= 0x7fffffff) return PBTOOLS_LENGTH_DELIMITED_OVERFLOW;
    if (v > n - *pos) { vf_soft_mem = 1; return PBTOOLS_OUT_OF_DATA; }
    *len = (uint32_t)vf_fix(v);
    return D_OK;
}
static uint64_t unwire(int t, uint64_t v, int *open)
{
    switch (t) {
    case T_INT32: case T_UINT32: case T_ENUM: return (uint32_t)v;
    case T_SINT32:
        if (v >> 32) *open = 1;
        return (uint32_t)((v >> 1) ^ (0 - (v & 1)));
    case T_SINT64: return (v >> 1) ^ (0 - (v & 1));
    case T_BOOL: return v != 0;
    default: return v;
    }
}
static int s_decode(struct smsg *s, const uint8_t *e, uint32_t n, int in_rep);
/* One item of type t at *pos. */
static int rd_item(const struct fdesc *fd, struct sval *v, const uint8_t *e, uint32_t n, uint32_t *pos, int in_rep)
{
    int r, open = 0;
    uint64_t x;
    uint32_t len;
    switch (t_wire(fd->type)) {
    case 0:
        r = rd_varint(e, n, pos, &x);
        if (r) return r;
        v->bits = unwire(fd->type, x, &open);
        return open ? D_OPEN : D_OK;
    case 5: case 1: {
        uint32_t m = t_wire(fd->type) == 5 ? 4 : 8;
        if (n - *pos < m) return PBTOOLS_OUT_OF_DATA;
        x = 0;
        for (uint32_t k = 0; k < m; k++) x |= (uint64_t)e[*pos + k] << (8 * k);
        *pos += m;
        v->bits = x;
        return D_OK;
    }
    default:
        r = rd_len(e, n, pos, &len);
        if (r) return r;
        v->p = e + *pos;
        v->len = len;
        if (fd->type == T_MSG) {
            v->sub = s_new(fd->sub);
            r = s_decode(v->sub, e + *pos, len, in_rep || fd->label == L_REP);
            if (r) return r;
        }
        *pos += len;
        return D_OK;
    }
}
static int s_decode(struct smsg *s, const uint8_t *e, uint32_t n, int in_rep)
{
    uint32_t pos = 0;
    int r;
    vf_soft_rep = in_rep;
    while (pos < n) {
        uint64_t tag, x;
        uint32_t start = pos, len, i;
        r = rd_varint(e, n, &pos, &tag);
        if (r) return r;
        if (pos - start > 5 || (tag >> 32)) return D_OPEN;
        if (tag >> 3 == 0) return PBTOOLS_BAD_FIELD_NUMBER;
        for (i = 0; i < s->d->n; i++) if (s->d->f[i].num == tag >> 3) break;
        int w = (int)vf_fix(tag & 7);
        if (i == s->d->n) {
            switch (w) {
            case 0: r = rd_varint(e, n, &pos, &x); break;
            case 1: r = n - pos < 8 ? PBTOOLS_OUT_OF_DATA : 0; pos += 8; break;
            case 5: r = n - pos < 4 ? PBTOOLS_OUT_OF_DATA : 0; pos += 4; break;
            case 2: r = rd_len(e, n, &pos, &len); pos += r ? 0 : len; break;
            default: r = PBTOOLS_BAD_WIRE_TYPE;
            }
            if (r) return r;
            continue;
        }
        const struct fdesc *fd = &s->d->f[i];
        int want = t_wire(fd->type);
        if (w == want) {
            if (fd->type == T_MSG && fd->label != L_REP && s->f[i].count) return D_OPEN;
            struct sval *v = s_set(s, i);
            r = rd_item(fd, v, e, n, &pos, in_rep);
            if (r == 0) vf_soft_rep = in_rep;
            if (r) return r;
        } else if (fd->label == L_REP && w == 2) {
            r = rd_len(e, n, &pos, &len);
            if (r) return r;
            uint32_t p = 0;
            while (p < len) {
                struct sval *v = s_add(s, i);
                r = rd_item(fd, v, e + pos, len, &p, in_rep);
                /* found when the values are read: not ordered with later defects */
                if (r) { if (want) vf_soft_rep = 1; return r; }
            }
            pos += len;
        } else
            return PBTOOLS_BAD_WIRE_TYPE;
    }
    return D_OK;
}
#endif
