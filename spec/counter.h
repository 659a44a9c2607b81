/* The length counter inside a hash context, found by its value after 2B and after 3B bytes; msg holds at least 3B bytes.
   Result: its width in bytes (0: none found), its offset, and the shift of its unit (3: bits). */
static void store(u8 *p, u64 v, int n) { for (int i = 0; i < n; i++) p[i] = (u8)(v >> 8 * i); }
static u64 fetch(const u8 *p, int n) { u64 v = 0; for (int i = 0; i < n; i++) v |= (u64)p[i] << 8 * i; return v; }
static int find_counter(int a, const u8 *msg, size_t *off, int *shift) {
    size_t b = ref_bsz(a), csz = H[a].ctxsz; u8 *c1 = sv_buf(csz), *c2 = sv_buf(csz);
    H[a].init(c1); H[a].update(c1, msg, 2 * b); H[a].init(c2); H[a].update(c2, msg, 3 * b);
    for (int w = 8; w >= 4; w -= 4) for (size_t o = 0; o + (size_t)w <= csz; o += 4) {
        if (!sv_known(c1 + o, (size_t)w) || !sv_known(c2 + o, (size_t)w)) continue;
        u64 v1 = fetch(c1 + o, w), v2 = fetch(c2 + o, w);
        if ((v1 == 16 * b && v2 == 24 * b) || (v1 == 2 * b && v2 == 3 * b)) { *off = o; *shift = v1 == 16 * b ? 3 : 0; return w; }
    }
    return 0;
}
