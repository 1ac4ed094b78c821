// Query pipelines against a relational reference evaluated on the rows a plain scan returned.
#include "exec.hpp"
#include <math.h>
#include <functional>
#define VIOL(tag, ...) sim.fail(tag, __VA_ARGS__)
enum { OWN_QUERY = 50 };

namespace {
typedef std::vector<u8> Row;
struct Rel {
    std::vector<int8_t> cols;  // negative: signed
    std::vector<char> flt;     // column holds a floating point number
    std::vector<Row> rows;
    int off(int c) const {
        int o = 0;
        for (int i = 0; i < c; i++) o += abs(cols[i]);
        return o;
    }
    int width() const { return off((int)cols.size()); }
};
typedef __int128 i128;
i128 cell(const Row &r, int off, int sz) {  // sz signed size
    int n = abs(sz);
    unsigned __int128 v = 0;
    for (int i = n - 1; i >= 0; i--) v = v << 8 | r[off + i];
    if (sz < 0 && n > 0 && n < 16 && (r[off + n - 1] & 0x80)) {
        return (i128)v - ((i128)1 << (8 * n));
    }
    return (i128)v;
}
int cmpCell(const u8 *a, const u8 *b, int sz) {  // of any width
    int n = abs(sz);
    if (sz < 0 && n && ((a[n - 1] ^ b[n - 1]) & 0x80)) return a[n - 1] & 0x80 ? -1 : 1;
    for (int i = n - 1; i >= 0; i--)
        if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return 0;
}
// group functions take no context, so the groupings are in statics
struct Grp {
    int mode, off, size;
    u64 div;
} grps[16];
int8_t sameGroup(const Grp &p, const void *a, const void *b) {
    if (p.mode == 2) return 1;
    u64 x = 0, y = 0;
    memcpy(&x, (const u8 *)a + p.off, (size_t)p.size);
    memcpy(&y, (const u8 *)b + p.off, (size_t)p.size);
    if (p.mode == 1) return x == y;
    if (p.mode == 4) return x <= y;                  // as long as the values do not fall
    if (p.mode == 5) return y >= x && y - x < p.div;  // no gap between the values
    return x / p.div == y / p.div;
}
template <int I> int8_t groupFn(const void *a, const void *b) { return sameGroup(grps[I], a, b); }
typedef int8_t (*GroupFn)(const void *, const void *);
const GroupFn groupFns[16] = {groupFn<0>, groupFn<1>, groupFn<2>, groupFn<3>, groupFn<4>, groupFn<5>, groupFn<6>, groupFn<7>,
                              groupFn<8>, groupFn<9>, groupFn<10>, groupFn<11>, groupFn<12>, groupFn<13>, groupFn<14>, groupFn<15>};
bool cmpOp(int op, int c) {
    switch (op) {
        case 0: return c > 0;
        case 1: return c < 0;
        case 2: return c >= 0;
        case 3: return c <= 0;
        case 4: return c == 0;
        default: return c != 0;
    }
}
struct Node {  // one operator of the plan
    int kind;  // 0 scan 1 sel 2 proj 3 agg 4 join
    int col = 0, oper = 0;
    std::vector<u8> val, cols;
    struct Fn {
        int kind, col, sz;
    };
    std::vector<Fn> fns;
    int slot = 0, db = 0, grp = 0;
    std::vector<Node> right;  // second input of a join
    std::vector<int8_t> sizes, signs;
};
void refSel(Rel &r, Rng &g, Node &n) {
    n.kind = 1;
    std::vector<int> ok;
    for (size_t i = 0; i < r.cols.size(); i++)
        if (!r.flt[i]) ok.push_back((int)i);
    if (ok.empty()) {
        n.kind = -1;
        return;
    }
    n.col = ok[g.below(ok.size())];
    n.oper = (int)g.below(6);
    int sz = abs(r.cols[n.col]), o = r.off(n.col);
    n.val.assign((size_t)sz, 0);
    if (!r.rows.empty() && g.chance(85)) {
        const Row &s = r.rows[g.below(r.rows.size())];
        memcpy(n.val.data(), &s[o], (size_t)sz);
        if (g.chance(25)) n.val[g.below((u64)sz)] ^= (u8)(1u << g.below(8));
    } else
        for (auto &b : n.val) b = (u8)g.next();
    std::vector<Row> out;
    for (auto &x : r.rows)
        if (cmpOp(n.oper, cmpCell(&x[(size_t)o], n.val.data(), r.cols[n.col]))) out.push_back(x);
    r.rows.swap(out);
}
void refProj(Rel &r, Rng &g, Node &n, bool keepKey) {
    n.kind = 2;
    std::vector<int8_t> nc;
    std::vector<char> nf;
    for (size_t i = 0; i < r.cols.size(); i++)
        if ((keepKey && i == 0) || g.chance(60)) {
            n.cols.push_back((u8)i);
            nc.push_back(r.cols[i]);
            nf.push_back(r.flt[i]);
        }
    if (n.cols.empty()) {
        n.kind = -1;
        return;
    }
    std::vector<Row> out;
    for (auto &x : r.rows) {
        Row y;
        for (u8 c : n.cols) {
            int o = r.off(c);
            y.insert(y.end(), x.begin() + o, x.begin() + o + abs(r.cols[c]));
        }
        out.push_back(y);
    }
    r.cols = nc;
    r.flt = nf;
    r.rows.swap(out);
}
void put(Row &o, const void *p, size_t n) { o.insert(o.end(), (const u8 *)p, (const u8 *)p + n); }
void refAgg(Rel &r, Rng &g, Node &n, int gi, bool keepKey) {
    n.kind = 3;
    n.grp = gi;
    Grp &p = grps[gi];
    p = Grp{(int)g.below(6), 0, 0, 1};
    int gc = p.mode == 0 ? 0 : (int)g.below(r.cols.size());
    if (r.flt[gc]) p.mode = 2;  // floating point results are only compared within a tolerance
    p.off = r.off(gc);
    p.size = std::min(8, (int)abs(r.cols[gc]));
    if (p.mode == 3 || p.mode == 0 || p.mode == 5) {
        u64 span = 1;
        if (!r.rows.empty()) {
            u64 x = 0, y = 0;
            memcpy(&x, &r.rows.front()[p.off], (size_t)p.size);
            memcpy(&y, &r.rows.back()[p.off], (size_t)p.size);
            span = (x > y ? x - y : y - x) / (1 + g.below(r.rows.size() + 1));
        }
        p.div = std::max<u64>(1, span / 1 * g.pick<u64>({1, 1, 3, 1}) / g.pick<u64>({1, 2, 4}));
    }
    // groups
    std::vector<std::pair<size_t, size_t>> gr;
    for (size_t i = 0; i < r.rows.size(); i++) {
        if (i && sameGroup(p, r.rows[i - 1].data(), r.rows[i].data())) gr.back().second = i;
        else gr.push_back({i, i});
    }
    int nf = g.chance(2) && r.rows.size() < 200 && !keepKey ? 100 + (int)g.below(160) : 1 + (int)g.below(5);
    for (int i = 0; i < nf; i++) {
        Node::Fn f;
        f.kind = keepKey && i == 0 ? 0 : (int)g.below(6);
        f.col = (int)g.below(r.cols.size());
        int cs = r.cols[f.col];
        if (f.kind >= 2 && (r.flt[f.col] || ((f.kind == 2 || f.kind == 5) && abs(cs) > 8))) f.kind = 1;
        if (f.kind == 2 || f.kind == 5) {  // the 64-bit sum must be able to hold the true sum
            for (auto &p : gr) {
                i128 s = 0;
                bool over = false;
                for (size_t j = p.first; j <= p.second; j++) {
                    s += cell(r.rows[j], r.off(f.col), cs);
                    if (cs < 0 ? (s > (i128)INT64_MAX || s < (i128)INT64_MIN) : s > (i128)UINT64_MAX) over = true;
                }
                if (over) f.kind = 1;
            }
        }
        f.sz = f.kind == 0 ? r.cols[0] : f.kind == 3 || f.kind == 4 ? cs : f.kind == 5 ? (g.chance(50) ? 8 : 4) : 0;
        if (f.kind == 0 && r.flt[0]) f.kind = 1;
        n.fns.push_back(f);
    }
    Rel out;
    for (auto &f : n.fns) {
        out.cols.push_back((int8_t)(f.kind == 0 ? f.sz : f.kind == 1 ? 4 : f.kind == 2 ? -8 : f.sz));
        out.flt.push_back(f.kind == 5);
    }
    for (auto &p : gr) {
        Row o;
        u32 cnt = (u32)(p.second - p.first + 1);
        for (auto &f : n.fns) {
            int cs = r.cols[f.col], co = r.off(f.col);
            if (f.kind == 0) put(o, r.rows[p.second].data(), (size_t)abs(f.sz));
            else if (f.kind == 1) put(o, &cnt, 4);
            else if (f.kind == 2 || f.kind == 5) {
                i128 s = 0;
                for (size_t j = p.first; j <= p.second; j++) s += cell(r.rows[j], co, cs);
                if (f.kind == 2) {
                    u64 v = (u64)s;
                    put(o, &v, 8);
                } else if (f.sz == 8) {
                    double v = (double)((long double)s / cnt);
                    put(o, &v, 8);
                } else {
                    float v = (float)((long double)s / cnt);
                    put(o, &v, 4);
                }
            } else {
                size_t best = p.first;
                for (size_t j = p.first; j <= p.second; j++) {
                    int c = cmpCell(&r.rows[j][(size_t)co], &r.rows[best][(size_t)co], cs);
                    if (f.kind == 3 ? c < 0 : c > 0) best = j;
                }
                put(o, &r.rows[best][co], (size_t)abs(cs));
            }
        }
        out.rows.push_back(o);
    }
    r = out;
}
void refJoin(Rel &a, const Rel &b) {
    std::vector<Row> out;
    size_t j = 0;
    for (auto &x : a.rows) {
        i128 k = cell(x, 0, a.cols[0]);
        while (j < b.rows.size() && cell(b.rows[j], 0, b.cols[0]) < k) j++;
        if (j < b.rows.size() && cell(b.rows[j], 0, b.cols[0]) == k) {
            Row o = x;
            o.insert(o.end(), b.rows[j].begin(), b.rows[j].end());
            out.push_back(o);
        }
    }
    a.rows.swap(out);
    a.cols.insert(a.cols.end(), b.cols.begin(), b.cols.end());
    a.flt.insert(a.flt.end(), b.flt.begin(), b.flt.end());
}
bool sameRow(const Rel &r, const Row &e, const u8 *got) {
    int o = 0;
    for (size_t c = 0; c < r.cols.size(); c++) {
        int n = abs(r.cols[c]);
        if (r.flt[c]) {
            double x, y;
            if (n == 8) {
                memcpy(&x, &e[o], 8);
                memcpy(&y, got + o, 8);
            } else {
                float fx, fy;
                memcpy(&fx, &e[o], 4);
                memcpy(&fy, got + o, 4);
                x = fx;
                y = fy;
            }
            double tol = (n == 8 ? 1e-12 : 2e-6) * std::max(fabs(x), 1e-30);
            if (!(fabs(x - y) <= tol)) return false;
        } else if (memcmp(&e[o], got + o, (size_t)n))
            return false;
        o += n;
    }
    return true;
}
std::string show(const Rel &r, const u8 *p) {
    std::string s = "(";
    int o = 0;
    for (size_t c = 0; c < r.cols.size(); c++) {
        int n = abs(r.cols[c]);
        char b[64];
        if (r.flt[c]) {
            double x;
            if (n == 8) memcpy(&x, p + o, 8);
            else {
                float f;
                memcpy(&f, p + o, 4);
                x = f;
            }
            snprintf(b, sizeof b, "%s%.9g", c ? "," : "", x);
        } else {
            Row t(p + o, p + o + n);
            snprintf(b, sizeof b, "%s%lld", c ? "," : "", (long long)cell(t, 0, r.cols[c]));
        }
        s += b;
        o += n;
    }
    return s + ")";
}
}  // namespace

// depth 1: a query that runs to its end while another one is open
void Exec::doQuery(const Op &o, int depth) {
    if (stop() || crashed) return;
    Db &d = *dbs[(size_t)o.db % dbs.size()];
    if (!d.open || !d.c.dataSize) return;
    Rng g(mix2((u64)o.a, 4242));
    bool q = sim.quiet;
    sim.quiet = true;
    bool oom = o.c > 0;  // the o.c-th allocation of the pipeline fails
    // a plan that does not fit the tables: 1 size of the key, 2 signed key, 3 size of the records, 4 one column only,
    // 5 join of keys of different sizes, 6 join with a first column that is not the key, 7 a column without a size or
    // signedness; a join (8) or an aggregation (9) with more columns than a schema counts
    int bad = !oom && g.chance(10) ? 1 + (int)g.below(7) : 0;
    const int own = OWN_QUERY + depth;
    std::vector<int> slots;
    int nGrp = depth * 8;
    // 1. the databases and their current content
    std::vector<Db *> tabs{&d};
    if (g.chance(bad == 6 ? 100 : 30) || bad == 5) {
        std::vector<Db *> c;
        for (auto &x : dbs)
            if (x->open && (x->c.keySize == d.c.keySize) == (bad != 5) && x->c.dataSize && x->c.variant == d.c.variant) c.push_back(x.get());
        int more = bad == 5 || bad == 6 || !g.chance(25) ? 1 : 2 + (int)g.below(2);
        while (!c.empty() && (int)tabs.size() <= more) tabs.push_back(c[g.below(c.size())]);
    }
    if ((bad == 5 || bad == 6) && tabs.size() < 2) bad = 0;
    const bool joins = tabs.size() > 1;
    auto leaf = [&](Db &x, Node &n, Rel &r) {
        int slot = 4 + depth + 2 * (int)slots.size();
        slots.push_back(slot);
        auto w = fullScan(x, false, false);
        if (stop() || crashed) return;
        n.kind = 0;
        n.slot = slot;
        n.db = x.id;
        n.sizes.push_back((int8_t)x.c.keySize);
        n.signs.push_back(0);
        int left = x.c.dataSize;
        bool narrow = g.chance(8) && x.c.dataSize < 250;  // as many columns as there are bytes
        while (left > 0) {
            int s = g.pick<int>({1, 2, 4, 4, 8});
            if (g.chance(20)) s = std::min(left, g.pick<int>({3, 5, 6, 7, 9, 12, 15}));
            else if (n.sizes.size() == 1 && left >= 4) s = 4;
            while (s > left) s /= 2;
            if (n.sizes.size() > 40) s = std::min(left, 100);
            if (narrow) s = 1;
            n.sizes.push_back((int8_t)s);
            n.signs.push_back((int8_t)g.chance(50));
            left -= s;
        }
        itOpen(x, its[slot], g.chance(50) ? 0 : (int)g.below(16), g.next() >> 3, g.next());
        if (stop() || crashed) return;
        for (size_t i = 0; i < n.sizes.size(); i++) {
            bool sg = n.signs[i];
            r.cols.push_back(sg ? (int8_t)-n.sizes[i] : n.sizes[i]);
            r.flt.push_back(0);
        }
        const ItSlot &it = its[slot];
        for (i64 i : w) {
            const Rec &rec = x.hist[(size_t)i];
            if ((it.hasB[0] && rec.key < it.minK) || (it.hasB[1] && rec.key > it.maxK) || (it.hasB[2] && rec.val < it.minD) || (it.hasB[3] && rec.val > it.maxD)) continue;
            Row row((size_t)(x.c.keySize + x.c.dataSize));
            memcpy(row.data(), &rec.key, (size_t)x.c.keySize);
            recData(x, rec, row.data() + x.c.keySize);
            r.rows.push_back(row);
        }
    };
    typedef std::vector<Node> Plan;
    Plan plan;
    Rel r1;
    int spoiled = (int)g.below(tabs.size());
    auto spoil = [&](Node &n, Rel &r) {
        int k = n.sizes[0], last = (int)n.sizes.size() - 1;
        if (bad == 1) {
            int s = 1 + (int)g.below(9), diff = k - s;
            if (s == k) s = k + 1, diff = -1;
            n.sizes[0] = (int8_t)s;
            if (g.chance(70) && n.sizes[1] + diff > 0) n.sizes[1] = (int8_t)(n.sizes[1] + diff);
        } else if (bad == 2)
            n.signs[0] = 1;
        else if (bad == 3) {
            if (n.sizes[(size_t)last] > 1 && g.chance(50)) n.sizes[(size_t)last]--;
            else n.sizes[(size_t)last]++;
        } else if (bad == 4) {
            n.sizes.assign(1, (int8_t)(g.chance(50) ? k : std::min(127, k + dbs[(size_t)n.db]->c.dataSize)));
            n.signs.assign(1, 0);
        } else if (bad == 7) {
            size_t c = g.below(n.sizes.size());
            if (g.chance(60)) n.sizes[c] = g.chance(30) ? 0 : (int8_t)-n.sizes[c];
            else n.signs[c] = (int8_t)(g.chance(50) ? -1 : 2 + (int)g.below(100));
        }
        r.cols.clear();
        for (size_t i = 0; i < n.sizes.size(); i++) r.cols.push_back(n.signs[i] ? (int8_t)-n.sizes[i] : n.sizes[i]);
        r.flt.assign(r.cols.size(), 0);
        r.rows.clear();
    };
    auto chain = [&](Plan &p, Rel &r, bool keep) {
        int k = (int)g.below(3);
        for (int i = 0; i < k; i++) {
            Node n;
            if (g.chance(60)) refSel(r, g, n);
            else refProj(r, g, n, keep);
            if (n.kind > 0) p.push_back(n);
        }
    };
    auto narrow = [&](Rel &r, int kind) {  // more columns than a schema counts
        if (r.cols.size() <= 255) return;
        if (!bad) bad = kind;
        r.rows.clear();
        r.cols.resize(200);
        r.flt.resize(200);
    };
    auto aggregate = [&](Plan &p, Rel &r, bool keep) {
        if (r.width() >= 200 && !g.chance(20)) return;
        Node n;
        refAgg(r, g, n, nGrp++, keep);
        p.push_back(n);
        narrow(r, 9);
    };
    // one table with its operators
    auto table = [&](size_t t, Rel &r) {
        Plan p;
        Node n;
        leaf(*tabs[t], n, r);
        if (stop() || crashed) return p;
        if (((bad >= 1 && bad <= 4) || bad == 7) && (int)t == spoiled) spoil(n, r);
        p.push_back(n);
        chain(p, r, joins);
        if (joins && g.chance(15)) {
            aggregate(p, r, true);
            chain(p, r, true);
        }
        return p;
    };
    size_t ops = 0;
    auto join = [&](Plan &p, Rel &a, Plan &q, Rel &b) {
        if (bad == 6) {
            // no join of columns that differ in size or are signed
            std::vector<int> c;
            for (size_t i = 1; i < b.cols.size(); i++)
                if (b.cols[i] != a.cols[0]) c.push_back((int)i);
            if (c.empty()) bad = 0;
            else {
                Node n;
                n.kind = 2;
                n.cols.push_back((u8)c[g.below(c.size())]);
                q.push_back(n);
                b.cols.assign(1, b.cols[n.cols[0]]);
                b.flt.assign(1, 0);
            }
        }
        if (bad) a.rows.clear(), b.rows.clear();
        refJoin(a, b);
        narrow(a, 8);
        Node n;
        n.kind = 4;
        n.right = q;
        p.push_back(n);
    };
    plan = table(0, r1);
    for (size_t t = 1; t < tabs.size() && !stop() && !crashed; t++) {
        Rel r2;
        Plan q = table(t, r2);
        if (t + 1 < tabs.size() && g.chance(40) && !stop() && !crashed) {  // the right side is a join itself
            Rel r3;
            Plan u = table(++t, r3);
            if (stop() || crashed) break;
            join(q, r2, u, r3);
            chain(q, r2, true);
        }
        if (stop() || crashed) break;
        join(plan, r1, q, r2);
        chain(plan, r1, t + 1 < tabs.size());
    }
    if (stop() || crashed) {
        sim.quiet = q;
        return;
    }
    if (g.chance(50)) {
        aggregate(plan, r1, false);
        if (g.chance(40)) chain(plan, r1, false);
        if (g.chance(12)) {  // an aggregation of aggregates
            aggregate(plan, r1, false);
            chain(plan, r1, false);
        }
    }
    if (bad) r1.rows.clear();
    // 2. build
    const SimApi *A = d.api;
    std::vector<void *> aggs;
    std::vector<int> aggN;
    void *top = nullptr;
    std::vector<void *> rights;
    bool built = true;
    if (oom) {
        sim.quiet = false;
        Arm a;
        a.kind = FK_ALLOC;
        a.skip = o.c - 1;
        a.len = std::max<i64>(1, o.d);
        sim.arms.clear();
        sim.arms.push_back(a);
    }
    int fired = 0;
    auto qcall = [&](auto f, bool rows = false) {
        if (!rows) expectAlloc(100, 100000);
        bool ok = call(d, [&] {
            sim.curOwner = own;
            f();
        });
        fired += sim.faultFired;
        return ok;
    };
    std::function<void *(Plan &, int)> buildChain = [&](Plan &p, int ind) -> void * {
        void *cur = nullptr;
        for (auto &n : p) {
            void *nx = nullptr;
            ops++;
            if (n.kind == 0) log("    %*s+ scan db%d, %zu columns", ind, "", n.db, n.sizes.size());
            else if (n.kind == 1) log("    %*s+ selection of column %d, operation %d", ind, "", n.col, n.oper);
            else if (n.kind == 2) log("    %*s+ projection to %zu columns", ind, "", n.cols.size());
            else if (n.kind == 4) log("    %*s+ key join with", ind, "");
            else
                for (auto &f : n.fns) log("    %*s+ aggregate %s(column %d) grouped by %s %d bytes at %d / %llu", ind, "", f.kind == 0 ? "key" : f.kind == 1 ? "count" : f.kind == 2 ? "sum" : f.kind == 3 ? "min" : f.kind == 4 ? "max" : "avg", f.col, grps[n.grp].mode == 2 ? "nothing," : "", grps[n.grp].size, grps[n.grp].off, grps[n.grp].mode == 1 ? 1ULL : (unsigned long long)grps[n.grp].div);
            if (n.kind == 0) {
                Db &x = *dbs[n.db];
                void *schema = nullptr;
                // exact-size arrays: reads past the column count are visible to the sanitizer
                std::unique_ptr<int8_t[]> sz(new int8_t[n.sizes.size()]), sg(new int8_t[n.signs.size()]);
                for (size_t i = 0; i < n.sizes.size(); i++) {
                    sz[i] = n.sizes[i];
                    sg[i] = n.signs[i] == 1 ? (int8_t)0 : n.signs[i] == 0 ? (int8_t)1 : n.signs[i];  // 0 signed, 1 unsigned
                }
                if (!qcall([&] { schema = A->schema_new((int)n.sizes.size(), sz.get(), sg.get()); })) return nullptr;
                bool fits = true;
                for (size_t i = 0; i < n.sizes.size(); i++) fits = fits && n.sizes[i] > 0 && (n.signs[i] == 0 || n.signs[i] == 1);
                if (!fits && schema) {
                    VIOL("q.refused", "a schema with a column of no size or no valid signedness was accepted");
                    return nullptr;
                }
                if (!schema) {
                    built = false;
                    return cur;
                }
                if (!qcall([&] { nx = A->op_scan(x.st, its[n.slot].mem, schema); })) return nullptr;
                qcall([&] { A->schema_free(schema); });
            } else if (n.kind == 1) {
                qcall([&] { nx = A->op_sel(cur, n.col, n.oper, n.val.data()); });
            } else if (n.kind == 2) {
                qcall([&] { nx = A->op_proj(cur, (int)n.cols.size(), n.cols.data()); });
            } else if (n.kind == 3) {
                void *arr = nullptr;
                qcall([&] { arr = A->agg_new((int)n.fns.size()); });
                if (!arr) {
                    built = false;
                    return cur;
                }
                aggs.push_back(arr);
                aggN.push_back((int)n.fns.size());
                for (size_t i = 0; i < n.fns.size() && built; i++) {
                    int ok = 0;
                    qcall([&] { ok = A->agg_set(arr, (int)i, n.fns[i].kind, n.fns[i].col, n.fns[i].sz); });
                    if (!ok) built = false;
                }
                if (!built) return cur;
                qcall([&] { nx = A->op_agg(cur, groupFns[n.grp], arr, (u32)n.fns.size()); });
            } else {
                void *right = buildChain(n.right, ind + 4);
                if (right) rights.push_back(right);
                if (!built || stop() || crashed) return cur;
                qcall([&] { nx = A->op_join(cur, right); });
            }
            if (stop() || crashed) return nullptr;
            if (!nx) {
                built = false;
                return cur;
            }
            cur = nx;
        }
        return cur;
    };
    top = buildChain(plan, 0);
    if (!stop() && !built && !fired && bad != 7) VIOL("q.init", "a query operator could not be created without any allocation failure");
    // 3. run
    sim.st->queries++;
    if (bad) sim.st->badPlans++;
    if (!stop() && built) {
        int ready = 0;
        qcall([&] { A->op_init(top); });
        qcall([&] { ready = A->op_ready(top); });
        if (!stop() && !ready && !fired && !bad) VIOL("q.init", "the query was not initialised although no allocation failed");
        if (!stop() && fired) {
            int rc = 0;
            if (qcall([&] { rc = A->op_next(top); }, true) && rc == 1) VIOL("q.refused", "a query whose initialisation ran out of memory delivered a row");
        }
        if (!stop() && (ready || bad) && !fired) {
            int nested = depth || oom ? 0 : (int)g.below(3), inserts = depth || oom ? 0 : (int)g.below(8);
            bool mixReads = g.chance(30), early = g.chance(30);
            size_t i = 0;
            u64 acc = 0x10;
            while (!stop() && !crashed) {
                int rc = -99;
                if (!qcall([&] { rc = A->op_next(top); }, true)) break;
                if (fired) break;  // a failed read or allocation on the way: result not specified
                if (rc != 1) {
                    if (i < r1.rows.size()) VIOL("q.missing", "query returned %zu rows, its definition gives %zu (row %zu is %s)", i, r1.rows.size(), i, show(r1, r1.rows[i].data()).c_str());
                    break;
                }
                if (bad) {
                    VIOL("q.refused", "a query whose plan does not fit its tables (%d) delivered a row", bad);
                    break;
                }
                if (i >= r1.rows.size()) {
                    VIOL("q.extra", "query returned more than the %zu rows of its definition", r1.rows.size());
                    break;
                }
                const u8 *got = nullptr;
                qcall([&] { got = (const u8 *)A->op_record(top); });
                if (!sameRow(r1, r1.rows[i], got)) {
                    VIOL("q.wrong", "query row %zu is %s, its definition gives %s", i, show(r1, got).c_str(), show(r1, r1.rows[i].data()).c_str());
                    break;
                }
                acc = mix2(acc, hashBytes(r1.rows[i].data(), r1.rows[i].size()));
                i++;
                sim.st->queryRows++;
                if (mixReads && g.chance(i < 300 ? 30 : 1)) {
                    sim.quiet = true;
                    checkGet(d, pickKey(d, (int)g.below(10), g.next()), "during a query");
                    if (oom) sim.quiet = false;
                }
                if (nested && g.chance(20)) {
                    nested--;
                    sim.st->nestedQueries++;
                    log("    > a second query while the first is open");
                    doQuery(Op{OP_QUERY, (int)g.below(dbs.size()), (i64)(g.next() >> 8), 0, 0, 0}, 1);
                    log("    <");
                }
                if (inserts && g.chance(20)) {
                    // writes that neither evict a page nor add to the rows
                    Db &x = *tabs[g.below(tabs.size())];
                    u64 key = x.hist.empty() ? x.c.keyBase : x.hist.back().key + gap(x, g.next() >> 8);
                    bool bounded = x.maxW + 4 < x.cap;
                    for (int s : slots)
                        if (its[(size_t)s].open && its[(size_t)s].db == x.id) {
                            bounded = bounded && its[(size_t)s].hasB[1];
                            key = std::max(key, its[(size_t)s].maxK + 1);
                        }
                    inserts--;
                    if (x.maxW + 4 < x.cap && g.chance(30)) doFlush(x, false);
                    else if (bounded && key && key <= x.keyLimit && (x.hist.empty() || key > x.hist.back().key)) {
                        sim.st->queryInserts++;
                        doPut(x, key, (i64)(g.next() >> 2), x.vdata ? (i64)g.below(6) : -1, false);
                    }
                }
                if (early && g.chance(1)) break;  // closed before the end
            }
            apiNote(mix2(0xA00 + i, acc));
            log("    query db%d%s: %zu rows, %zu tables, %zu operators", d.id, joins ? " join" : "", i, tabs.size(), ops);
        }
    }
    // 4. close, free; nothing may remain
    if (!crashed && !stop()) {
        sim.quiet = true;
        sim.arms.clear();
        if (top && built) qcall([&] { A->op_close(top); });
        // pipelines that were never initialised are only freed
        if (top) qcall([&] { A->op_free(top); });
        for (void *x : rights) qcall([&] { A->op_free(x); });
        for (size_t i = 0; i < aggs.size(); i++) qcall([&] { A->agg_free(aggs[i], aggN[i]); });
        if (!stop()) {
            size_t n = ledgerCount(own);
            if (n) VIOL("q.leak", "%zu allocations of a closed and freed query pipeline remain%s", n, fired ? " (an allocation failed while it was built)" : "");
        }
    }
    ledgerReclaim(own);
    if (!crashed) {
        for (int s : slots) itClose(its[(size_t)s]);
    }
    sim.quiet = q;
    if (oom) sim.arms.clear();
}
