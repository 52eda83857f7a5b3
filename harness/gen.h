/* Symbolic inputs for the harnesses: wire records and message values. */
#ifndef GEN_H
#define GEN_H
#include "spec.h"
#ifndef WS
#define WS 1024
#endif
#define MAXIN 40000

/* ---- wire input under construction ---- */
static VF_TLS uint8_t *vf_ib;
static VF_TLS uint32_t vf_in;
static void i_start(void) { vf_ib = vf_zbuf(MAXIN < 4096 ? MAXIN : 4096); vf_in = 0; }
static void i_byte(uint8_t b) { vf_ib[vf_in++] = b; }
static void i_varint(uint64_t v) { vf_in += put_varint(vf_ib + vf_in, v); }
/* v with `pad` superfluous continuation bytes */
static void i_varint_pad(uint64_t v, uint32_t pad)
{
    i_varint(v);
    for (uint32_t k = 0; k < pad; k++) { vf_ib[vf_in - 1] |= 0x80; vf_ib[vf_in++] = 0; }
}
static void i_tag(uint32_t num, uint32_t wire) { i_varint(((uint64_t)num << 3) | wire); }
/* n arbitrary bytes (with vf_plain: given ones) */
static VF_TLS uint32_t vf_plain, vf_plain_next;
static void i_any(uint32_t n)
{
    if (vf_plain) { for (uint32_t k = 0; k < n; k++) vf_ib[vf_in++] = (uint8_t)(0x09 + 0x12 * vf_plain_next++); return; }
    vf_sym(vf_ib + vf_in, n);
    vf_in += n;
}
/* an arbitrary varint of exactly k bytes (any value, minimal or not) */
static void i_any_varint(uint32_t k)
{
    uint32_t at = vf_in;
    i_any(k);
    for (uint32_t j = 0; j < k; j++)
        vf_ib[at + j] = j + 1 < k ? vf_ib[at + j] | 0x80 : vf_ib[at + j] & 0x7f;
}
/* How rich single values are: number of varint lengths / lengths offered. */
static VF_TLS uint32_t vf_rich = 2;
static void i_some_varint(void)
{
    uint32_t k;
    if (vf_rich >= 2) k = 1 + vf_choose(10);
    else if (vf_rich == 1) { static const uint8_t ks[3] = { 1, 5, 10 }; k = ks[vf_choose(3)]; }
    else k = 1;
    i_any_varint(k);
}
static void i_len_pad(uint32_t n) { i_varint_pad(n, vf_rich >= 2 ? vf_choose(3) : 0); }
static void i_record(const struct mdesc *d, uint32_t i, uint32_t depth);
static void i_item(const struct fdesc *fd, uint32_t depth)
{
    switch (t_wire(fd->type)) {
    case 0: i_some_varint(); return;
    case 5: i_any(4); return;
    case 1: i_any(8); return;
    }
    if (fd->type == T_MSG) {
        /* contents: nothing, or one record of one of its fields */
        uint32_t at = vf_in, n, k;
        uint8_t *save = vf_ib;
        vf_ib = vf_zbuf(512);
        vf_in = 0;
        if (depth && fd->sub->n) {
            k = vf_choose(fd->sub->n + 1);
            if (k) i_record(fd->sub, k - 1, depth - 1);
        }
        uint8_t *c = vf_ib;
        n = vf_in;
        vf_ib = save;
        vf_in = at;
        i_len_pad(n);
        for (k = 0; k < n; k++) i_byte(c[k]);
        return;
    }
    uint32_t n = vf_choose(vf_rich + 1);
    i_len_pad(n);
    i_any(n);
}
/* one well-formed record of field i */
static void i_record(const struct mdesc *d, uint32_t i, uint32_t depth)
{
    const struct fdesc *fd = &d->f[i];
    if (fd->label == L_REP && t_wire(fd->type) != 2 && vf_choose(2)) {
        uint32_t at, n, k, items = vf_choose(vf_rich + 1);
        uint32_t rich = vf_rich;
        uint8_t *save = vf_ib;
        i_tag(fd->num, 2);
        at = vf_in;
        vf_ib = vf_zbuf(512);
        vf_in = 0;
        if (items > 1 && vf_rich > 1) vf_rich = 1;
        for (k = 0; k < items; k++) i_item(fd, depth);
        vf_rich = rich;
        uint8_t *c = vf_ib;
        n = vf_in;
        vf_ib = save;
        vf_in = at;
        i_len_pad(n);
        for (k = 0; k < n; k++) i_byte(c[k]);
        return;
    }
    i_tag(fd->num, (uint32_t)t_wire(fd->type));
    i_item(fd, depth);
}
/* one well-formed record whose (arbitrary) field number is not declared */
static void i_unknown(const struct mdesc *d, uint32_t tagbytes)
{
    static const uint8_t wires[4] = { 0, 1, 2, 5 };
    uint32_t w = wires[vf_choose(4)];
    uint32_t at = vf_in;
    uint64_t tag;
    i_any_varint(tagbytes);
    uint32_t p = at;
    rd_varint(vf_ib, vf_in, &p, &tag);
    vf_assume((tag & 7) == w && tag >> 3 != 0 && tag >> 32 == 0);
    for (uint32_t i = 0; i < d->n; i++) vf_assume(tag >> 3 != d->f[i].num);
    switch (w) {
    case 0: i_some_varint(); break;
    case 5: i_any(4); break;
    case 1: i_any(8); break;
    default: { uint32_t n = vf_choose(vf_rich + 2); i_len_pad(n); i_any(n); }
    }
}

/* ---- library decoder against the reference decoder ---- */
static VF_TLS void *vf_msg;
static VF_TLS int vf_res;
static VF_TLS struct smsg *vf_spec;
/* Compares the result of decoding `ref` (a copy of the input) into m. */
static int equiv_result(const struct mdesc *d, void *m, int r, const uint8_t *ref, uint32_t n)
{
    struct smsg *s = s_new(d);
    vf_soft_mem = vf_soft_len = 0;
    int e = s_decode(s, ref, n, 0);
    vf_msg = m; vf_res = r; vf_spec = s;
    vf_assert(r == (int)n || (r < 0 && r >= -8), "decode returns the input size or a documented error");
    if (e == D_OPEN) { vf_reach("open"); return e; }
    if (e == D_OK) {
        vf_assert(r == (int)n, "well-formed input is accepted and consumed in full");
        s_compare(s, m, "decoded message has the transmitted contents");
        vf_reach("accept");
    } else {
        vf_assert(r < 0, "malformed input is rejected");
        int mem = vf_soft_mem && r == -PBTOOLS_OUT_OF_MEMORY;
        vf_assert(mem || (r != -PBTOOLS_OUT_OF_MEMORY && r != -PBTOOLS_ENCODE_BUFFER_FULL),
                  "malformed input is not reported as a resource error");
        int len = vf_soft_len && (r == -PBTOOLS_OUT_OF_DATA || r == -PBTOOLS_LENGTH_DELIMITED_OVERFLOW || r == -PBTOOLS_SEEK_OVERFLOW);
        if (!vf_soft_rep && !mem && !len) vf_assert(r == -e, "the error code names the first defect of the input");
        vf_reach("reject");
    }
    return e;
}
/* Decodes the input under construction with the library (the input buffer is
   overwritten afterwards) and with the reference; returns the verdict of the
   reference (D_OK, D_OPEN or an error code). */
static int equiv(const struct mdesc *d)
{
    uint32_t n = vf_in;
    uint8_t *buf = vf_zbuf(n);
    uint8_t *ref = vf_zbuf(n);
    memcpy(buf, vf_ib, n);
    memcpy(ref, vf_ib, n);
    void *ws = vf_buf(WS);
    void *m = d->make(ws, WS);
    vf_assert(m != NULL, "a message can be created in an ample workspace");
    int r = d->dec(m, buf, n);
    vf_obs((uint64_t)(int64_t)r);
    for (uint32_t k = 0; k < n; k++) {
        vf_assert(buf[k] == ref[k], "decode does not modify its input");
        buf[k] = 0xa5;
    }
    return equiv_result(d, m, r, ref, n);
}
/* Makes the input under construction malformed or at least different: cut at
   any point, or one byte arbitrary. */
static void i_mutate(void)
{
    uint32_t k;
    if (vf_in == 0) return;
    k = vf_choose(2 * vf_in);
    if (k < vf_in) vf_in = k;
    else vf_ib[k - vf_in] = vf_u8();
}
/* Workspace of W bytes of which the library is given the first (symbolic) s. */
static VF_TLS uint8_t *vf_w, *vf_wcopy;
static VF_TLS uint32_t vf_wn, vf_ws;
static void w_start(uint32_t W)
{
    vf_w = vf_buf(W);
    vf_wcopy = vf_zbuf(W);
    memcpy(vf_wcopy, vf_w, W);
    vf_wn = W;
    vf_ws = vf_u16();
    vf_assume(vf_ws <= W);
}
static void w_check(void)
{
    int ok = 1;
    for (uint32_t k = 0; k < vf_wn; k++) ok &= (k < vf_ws) | (vf_w[k] == vf_wcopy[k]);
    vf_assert(ok, "nothing beyond the given workspace is written");
}

/* ---- message values ---- */
static uint64_t v_bits(int t)
{
    if (t == T_BOOL) return vf_u8() & 1;
    if (t_is64(t)) return vf_rich ? vf_u64() : vf_u8();
    return vf_rich ? vf_u32() : vf_u8();
}
static void v_blob(struct sval *v, int t, uint32_t n)
{
    uint8_t *p = vf_zbuf(n + 1);
    vf_sym(p, n);
    if (t == T_STRING) for (uint32_t k = 0; k < n; k++) vf_assume(p[k] != 0);
    v->p = p;
    v->len = n;
}
static void v_field(struct smsg *s, uint32_t i, uint32_t depth);
static void v_item(const struct fdesc *fd, struct sval *v, uint32_t depth)
{
    if (fd->type == T_MSG) {
        v->sub = s_new(fd->sub);
        if (depth && fd->sub->n) {
            uint32_t k = vf_choose(fd->sub->n + 1);
            if (k) v_field(v->sub, k - 1, depth - 1);
        }
    } else if (fd->type == T_STRING || fd->type == T_BYTES)
        v_blob(v, fd->type, vf_choose(3));
    else
        v->bits = v_bits(fd->type);
}
/* field i gets an arbitrary value (repeated: one or two items) */
static void v_field(struct smsg *s, uint32_t i, uint32_t depth)
{
    const struct fdesc *fd = &s->d->f[i];
    uint32_t n = 1;
    if (fd->label == L_REP) n = 1 + vf_choose(2);
    for (uint32_t k = 0; k < n; k++) {
        struct sval *v = fd->label == L_REP ? s_add(s, i) : s_set(s, i);
        v_item(fd, v, depth);
    }
}
static void *fresh(const struct mdesc *d)
{
    void *m = d->make(vf_buf(WS), WS);
    vf_assert(m != NULL, "a message can be created in an ample workspace");
    return m;
}
/* Populate, encode, check the bytes, decode, compare. */
static VF_TLS uint8_t *vf_enc;
static VF_TLS int vf_enc_n;
static void *encode_check(struct smsg *s, uint32_t bufsize)
{
    void *m = fresh(s->d);
    s_populate(s, m);
    uint8_t *b = vf_buf(bufsize);
    int r = s->d->enc(m, b, bufsize);
    vf_obs((uint64_t)(int64_t)r);
    uint32_t want = s_size(s);
    vf_assert(r == (int)want, "encode returns the size of the encoding");
    s_check_encoded(s, b, (uint32_t)r);
    vf_enc = b;
    vf_enc_n = r;
    return m;
}
static void roundtrip(struct smsg *s, uint32_t bufsize)
{
    encode_check(s, bufsize);
    uint8_t *in = vf_zbuf((size_t)vf_enc_n);
    memcpy(in, vf_enc, (size_t)vf_enc_n);
    vf_readonly(in);
    void *m = fresh(s->d);
    int r = s->d->dec(m, in, (size_t)vf_enc_n);
    vf_assert(r == vf_enc_n, "the encoding of a message is accepted");
    s_compare(s, m, "decoding the encoding gives back the message");
}
#endif
