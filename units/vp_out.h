/* What a string buffer is expected to hold: a prefix that was there, then
 * g_e[0..g_en). */
#ifndef VP_OUT_H
#define VP_OUT_H
#define VP_OUT_MAX  4096
static uint8_t g_e[VP_OUT_MAX];
static int g_en;
static sb_t g_sb;
static int g_pre;
static void e_c(int c)
{
    if (g_en < VP_OUT_MAX) {
        g_e[g_en++] = c;
    }
}
static void e_s(const char *s)
{
    while (*s) {
        e_c(*s++);
    }
}
static void e_m(const void *s, int n)
{
    for (int i = 0; i < n; i++) {
        e_c(((const uint8_t *)s)[i]);
    }
}
static void mk_sb(void)
{
    static char stk[24];

    if (vp_bool()) {
        sb_init(&g_sb);
    } else {
        sb_init_full(&g_sb, stk, 0, vp_range(1, 24), &mem_pool_static);
        stk[0] = 0;
    }
    g_pre = vp_range(0, 5);
    sb_addnc(&g_sb, g_pre, '!');
    if (vp_range(0, 7) == 0) {
        sb_grow(&g_sb, 300);
    }
    g_en = 0;
}
static void sb_is(void)
{
    int i;

    VP_CHECK("terminated", g_sb.len < g_sb.size && !g_sb.data[g_sb.len]);
    for (i = 0; i < g_pre && i < g_sb.len && g_sb.data[i] == '!'; i++) {
    }
    VP_CHECK("what was there is kept", i == g_pre);
    VP_CHECK("the text that is added", g_sb.len == g_pre + g_en
             && !memcmp(g_sb.data + g_pre, g_e, g_en));
}
#endif
