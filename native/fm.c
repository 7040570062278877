/* Fourier-Motzkin infeasibility test over the integers (sound, incomplete): 1 = certainly no solution.
 *
 * Row r: c + sum(k[j] * x[j]) <= 0  (or == 0 if iseq[r]).  Layout: row-major, nv coefficients then the
 * constant, each value as a 128-bit little endian integer split in two 64-bit words. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef __int128 num;

static int ovf;
static inline num mul(num a, num b) { num r; if (__builtin_mul_overflow(a, b, &r)) { ovf = 1; return 0; } return r; }
static inline num add(num a, num b) { num r; if (__builtin_add_overflow(a, b, &r)) { ovf = 1; return 0; } return r; }
static inline num nabs(num a) { return a < 0 ? -a : a; }
static num gcd(num a, num b) { while (b) { num t = a % b; a = b; b = t; } return a; }
/* -floor(-c/g) = ceil(c/g) */
static inline num ceildiv(num c, num g) { num q = c / g; if (c % g != 0 && c > 0) q++; return q; }

typedef struct { num *d; int n, cap, w; } mat;

static num *row(mat *m, int i) { return m->d + (size_t)i * m->w; }
static num *push(mat *m) {
    if (m->n == m->cap) {
        m->cap = m->cap ? m->cap * 2 : 64;
        m->d = realloc(m->d, sizeof(num) * (size_t)m->cap * m->w);
    }
    return row(m, m->n++);
}

/* returns 1 contradiction, 2 trivial, 0 keep */
static int normalise(num *r, int nv) {
    num g = 0;
    for (int j = 0; j < nv; j++) if (r[j]) g = gcd(nabs(r[j]), g);
    if (g == 0) return r[nv] > 0 ? 1 : 2;
    if (g > 1) {
        for (int j = 0; j < nv; j++) r[j] /= g;
        r[nv] = ceildiv(r[nv], g);
    }
    return 0;
}

static uint64_t hash(const num *r, int nv) {
    uint64_t h = 1469598103934665603ull;
    for (int j = 0; j < nv; j++) { h ^= (uint64_t)r[j]; h *= 1099511628211ull; h ^= h >> 29; }
    return h;
}

static int dedupe(mat *m, int nv) {
    int sz = 64; while (sz < m->n * 2) sz *= 2;
    int *t = malloc(sizeof(int) * sz);
    memset(t, -1, sizeof(int) * sz);
    int out = 0;
    for (int i = 0; i < m->n; i++) {
        num *r = row(m, i);
        uint64_t h = hash(r, nv) & (sz - 1);
        int found = -1;
        while (t[h] >= 0) {
            if (memcmp(row(m, t[h]), r, sizeof(num) * nv) == 0) { found = t[h]; break; }
            h = (h + 1) & (sz - 1);
        }
        if (found >= 0) { if (row(m, found)[nv] < r[nv]) row(m, found)[nv] = r[nv]; continue; }
        if (out != i) memcpy(row(m, out), r, sizeof(num) * m->w);
        t[h] = out++;
    }
    m->n = out;
    free(t);
    return 0;
}

int fm(int n, int nv, const int64_t *v, const char *iseq, int limit) {
    ovf = 0;
    int w = nv + 1, res = 0;
    mat a = {0, 0, 0, w};
    num *eq = malloc(sizeof(num) * (size_t)(n + 1) * w);
    int ne = 0;
    for (int i = 0; i < n; i++) {
        num *r = iseq[i] ? eq + (size_t)(ne++) * w : push(&a);
        for (int j = 0; j < w; j++) {
            const int64_t *p = v + ((size_t)i * w + j) * 2;
            r[j] = ((num)p[1] << 64) | (num)(uint64_t)p[0];
        }
    }
    while (ne > 0 && !ovf) {
        num *e = eq + (size_t)(--ne) * w;
        int unit = -1, any = 0;
        for (int j = nv - 1; j >= 0; j--) if (e[j]) { any = 1; if (nabs(e[j]) == 1) { unit = j; break; } }
        if (!any) { if (e[nv] != 0) { res = 1; goto done; } continue; }
        if (unit < 0) {
            num *r = push(&a); memcpy(r, e, sizeof(num) * w);
            num *s = push(&a); r = row(&a, a.n - 2);
            for (int j = 0; j < w; j++) s[j] = -r[j];
            continue;
        }
        num k = e[unit];
        num *buf = malloc(sizeof(num) * w);
        memcpy(buf, e, sizeof(num) * w);
        for (int pass = 0; pass < 2; pass++) {
            int cnt = pass ? ne : a.n;
            for (int i = 0; i < cnt; i++) {
                num *r = pass ? eq + (size_t)i * w : row(&a, i);
                num q = r[unit];
                if (!q) continue;
                num f = mul(q, k);   /* x = -k * (rest + c) because k*k == 1 */
                for (int j = 0; j < w; j++) r[j] = add(r[j], -mul(f, buf[j]));
                r[unit] = 0;
            }
        }
        free(buf);
    }
    if (ovf) goto done;
    {
        int out = 0;
        for (int i = 0; i < a.n; i++) {
            int s = normalise(row(&a, i), nv);
            if (s == 1) { res = 1; goto done; }
            if (s == 2) continue;
            if (out != i) memcpy(row(&a, out), row(&a, i), sizeof(num) * w);
            out++;
        }
        a.n = out;
    }
    dedupe(&a, nv);
    while (a.n > 0 && !ovf) {
        int best = -1; long bs = 0;
        int bp = 0, bn = 0;
        for (int j = 0; j < nv; j++) {
            int p = 0, q = 0;
            for (int i = 0; i < a.n; i++) { num x = row(&a, i)[j]; if (x > 0) p++; else if (x < 0) q++; }
            if (p + q == 0) continue;
            long s = (long)p * q - p - q;
            if (best < 0 || s < bs) { best = j; bs = s; bp = p; bn = q; }
        }
        if (best < 0) break;
        if ((long)bp * bn + (a.n - bp - bn) > limit) goto done;
        mat b = {0, 0, 0, w};
        for (int i = 0; i < a.n; i++) {
            if (row(&a, i)[best] == 0) memcpy(push(&b), row(&a, i), sizeof(num) * w);
        }
        for (int i = 0; i < a.n && !ovf; i++) {
            num *p = row(&a, i);
            if (p[best] <= 0) continue;
            for (int l = 0; l < a.n && !ovf; l++) {
                num *q = row(&a, l);
                if (q[best] >= 0) continue;
                num k1 = p[best], k2 = -q[best], g = gcd(k1, k2), m1 = k2 / g, m2 = k1 / g;
                num *r = push(&b);
                for (int j = 0; j < w; j++) r[j] = add(mul(p[j], m1), mul(q[j], m2));
                int s = normalise(r, nv);
                if (ovf) break;
                if (s == 1) { free(b.d); res = 1; goto done; }
                if (s == 2) b.n--;
            }
        }
        dedupe(&b, nv);
        free(a.d);
        a = b;
    }
done:
    free(a.d);
    free(eq);
    return ovf ? 0 : res;
}
