/* CSV records and splitting, against direct oracles (bounded). */
//@trusted allocator model units/vp_mem.h
//@link src/core/str-buf.c src/core/str-ctype.c src/core/str-conv.c src/container/qvector.blk src/core/str-l.c
#define VP_WANT_STUBS
#include "vp.h"
#include "vp_mem.h"
#include <lib-common/core.h>
#include "src/core/str-stream.c"

#define BN 14
static lstr_t g_f[64];          /* expected fields */
static int g_nf;
static char g_fb[64][32];

static uint8_t *g_b;
static size_t g_n;
/* bytes out of a small alphabet, in a block that ends where they end */
static pstream_t mk(const char *alpha)
{
    g_n = vp_range(0, BN);
    g_b = vp_buf(g_n, BN);
    for (size_t i = 0; i < g_n; i++) {
        g_b[i] = alpha[g_b[i] % strlen(alpha)];
    }
    return ps_init(g_b, g_n);
}
static void field(const void *s, int len)
{
    if (s) {
        memcpy(g_fb[g_nf], s, len);
        g_f[g_nf] = LSTR_INIT_V(g_fb[g_nf], len);
    } else {
        g_f[g_nf] = LSTR_NULL_V;
    }
    g_nf++;
}
static void same_fields(qv_t(lstr) *qv)
{
    VP_CHECK("number of fields", qv->len == g_nf);
    for (int i = 0; i < g_nf; i++) {
        VP_CHECK("field", qv->tab[i].len == g_f[i].len
                 && !memcmp(qv->tab[i].s ?: "", g_f[i].s ?: "", g_f[i].len));
    }
}
//@harness h_csv_line prop=C04 kind=bounded bound="14 bytes" bmc=no search=4 about=ps_get_csv_line,ps_get_csv_quoted_field
VP_MAIN(h_csv_line)
{
    pstream_t ps = mk("a,\"\r\n,\"b"), out = ps_init(NULL, 0);
    qv_t(lstr) qv;
    size_t i = 0, eol = 0, err_ok = 0;
    int r, er = 0, quote = vp_bool() ? '"' : -1;
    bool wantout = vp_bool();

    qv_init(&qv);
    g_nf = 0;
    /* the oracle: RFC 4180 with the documented relaxations */
    if (g_n == 0) {
        eol = 0;
    } else
    for (;;) {
        if (i >= g_n) {
            field(NULL, 0);
            eol = i;
            break;
        }
        if (g_b[i] == quote) {
            char t[32];
            int l = 0;

            i++;
            for (;;) {
                if (i >= g_n) {
                    er = -1;
                    goto done;
                }
                if (g_b[i] == quote) {
                    if (i + 1 < g_n && g_b[i + 1] == quote) {
                        t[l++] = quote;
                        i += 2;
                        continue;
                    }
                    i++;
                    break;
                }
                t[l++] = g_b[i++];
            }
            field(t, l);
        } else {
            size_t s = i;

            while (i < g_n && g_b[i] != ',' && g_b[i] != '\r'
                   && g_b[i] != '\n') {
                i++;
            }
            field(i > s ? g_b + s : NULL, i - s);
        }
        if (i >= g_n) {
            eol = i;
            break;
        }
        if (g_b[i] == '\n') {
            eol = i++;
            break;
        }
        if (g_b[i] == '\r') {
            eol = i++;
            if (i < g_n && g_b[i] == '\n') {
                i++;
            } else {
                er = -1;
            }
            break;
        }
        if (g_b[i] != ',') {
            er = -1;
            break;
        }
        i++;
    }
  done:
    r = ps_get_csv_line(NULL, &ps, ',', quote, &qv, wantout ? &out : NULL);
    VP_CHECK("valid record or not", r == er);
    VP_CHECK("stays in the stream", ps.b >= g_b && ps.b_end == g_b + g_n
             && ps.b <= ps.b_end);
    if (r == 0) {
        same_fields(&qv);
        VP_CHECK("placed at the next line", ps.b == g_b + i);
        VP_CHECK("the line", !wantout || (g_n ? out.b == g_b
                 && out.b_end == g_b + eol : ps_len(&out) == 0));
    }
    (void)err_ok;
    tab_for_each_ptr(f, &qv) {
        lstr_wipe(f);
    }
    qv_wipe(&qv);
}
//@harness h_ps_split prop=C04 kind=bounded bound="14 bytes" bmc=no search=2 about=ps_split
VP_MAIN(h_ps_split)
{
    pstream_t ps = mk("a,b;");
    ctype_desc_t d;
    bool skip = vp_bool();
    qv_t(lstr) qv;
    size_t i, s = 0;

    ctype_desc_build(&d, ",;");
    qv_init(&qv);
    g_nf = 0;
    for (i = 0; i <= g_n; i++) {
        if (i == g_n || g_b[i] == ',' || g_b[i] == ';') {
            if (skip ? i > s : i < g_n || i > s) {
                field(g_b + s, i - s);
            }
            s = i + 1;
        }
    }
    ps_split(ps, &d, skip ? PS_SPLIT_SKIP_EMPTY : 0, &qv);
    same_fields(&qv);
    qv_wipe(&qv);
}
//@harness h_ps_split_esc prop=C04 kind=bounded bound="14 bytes" bmc=no search=2 about=ps_split_escaped
VP_MAIN(h_ps_split_esc)
{
    pstream_t ps = mk("a,\\b,");
    ctype_desc_t d;
    bool skip = vp_bool();
    qv_t(lstr) qv;
    size_t i;
    char t[64];
    int l = 0;

    ctype_desc_build(&d, ",");
    qv_init(&qv);
    g_nf = 0;
    for (i = 0; i < g_n; i++) {
        if (g_b[i] == '\\' && i + 1 < g_n
        &&  (g_b[i + 1] == ',' || g_b[i + 1] == '\\'))
        {
            t[l++] = g_b[++i];
        } else
        if (g_b[i] == ',') {
            if (!skip || l) {
                field(t, l);
            }
            l = 0;
        } else {
            t[l++] = g_b[i];
        }
    }
    if (!skip || l) {
        field(t, l);
    }
    ps_split_escaped(NULL, ps, &d, '\\', skip ? PS_SPLIT_SKIP_EMPTY : 0, &qv);
    same_fields(&qv);
    tab_for_each_ptr(f, &qv) {
        lstr_wipe(f);
    }
    qv_wipe(&qv);
}
