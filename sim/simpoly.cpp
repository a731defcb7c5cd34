// Simulator for polygons with cached measures: mutation histories interleaved with queries (which
// decide what is cached when), allocation failing at a chosen point inside an operation.
#include "common.hpp"
#include "simmain.hpp"
#include <functional>
#include <memory>
#include <polygon.hxx>
#include <vigra/tinyvector.hxx>
typedef vigra::TinyVector<double, 2> V;
typedef vigra::PointArray<V> PA;
typedef vigra::Polygon<V> PG;
typedef vigra::BBoxPolygon<V> BP;
typedef std::vector<V> Model;

static bool near(double a, double b, double scale) { return std::fabs(a - b) <= 1e-9 * (1 + scale); }
static double mLen(const Model &m) { double r = 0; for (size_t i = 1; i < m.size(); ++i) r += std::hypot(m[i][0] - m[i-1][0], m[i][1] - m[i-1][1]); return r; }
static double mArea(const Model &m) { double r = 0; for (size_t i = 1; i < m.size(); ++i) r += m[i][0] * m[i-1][1] - m[i][1] * m[i-1][0]; return r / 2; }
static bool mInside(const Model &m, double x, double y, double &clear) {
    bool in = false; clear = 1e300;
    for (size_t i = 1; i < m.size(); ++i) {
        V a = m[i-1], b = m[i];
        double dx = b[0] - a[0], dy = b[1] - a[1], l2 = dx * dx + dy * dy, t = l2 > 0 ? ((x - a[0]) * dx + (y - a[1]) * dy) / l2 : 0;
        t = std::max(0.0, std::min(1.0, t)); clear = std::min(clear, std::hypot(x - a[0] - t * dx, y - a[1] - t * dy));
        if ((a[1] > y) != (b[1] > y) && x < a[0] + (y - a[1]) * dx / dy) in = !in;
    }
    return in;
}
static bool same(const PA &p, const Model &m) {
    if (p.size() != m.size()) return false;
    for (size_t i = 0; i < m.size(); ++i) if (p[i] != m[i]) return false;
    return true;
}
// bounding boxes exist only for BBoxPolygon
static std::string bboxErr(const PG &, const Model &) { return ""; }
static std::string bboxErr(const BP &p, const Model &m) {
    BP::BoundingBox b = p.boundingBox();
    if (m.empty()) return b.isEmpty() ? "" : "non-empty bounding box of an empty polygon";
    V lo = m[0], hi = m[0];
    for (size_t i = 1; i < m.size(); ++i) for (int k = 0; k < 2; ++k) { lo[k] = std::min(lo[k], m[i][k]); hi[k] = std::max(hi[k], m[i][k]); }
    if (b.begin() != lo || b.end() != hi) return strf("bounding box (%g,%g)-(%g,%g), the points span (%g,%g)-(%g,%g)", b.begin()[0], b.begin()[1], b.end()[0], b.end()[1], lo[0], lo[1], hi[0], hi[1]);
    return "";
}
template <class P> struct Sim {
    struct Slot { P p; Model m; };
    std::vector<Slot> s;
    const Script &script; bool fractional;
    Sim(const Script &sc) : script(sc) { s.resize(3 + sc.get("slots") % 3); fractional = sc.get("frac") != 0; }
    V pt(u32 a, u32 b) { double x = (int)(a % 23) - 11, y = (int)(b % 19) - 9; if (fractional) { x += ((a / 23) % 97) / 97.0; y += ((b / 19) % 89) / 89.0; } return V(x, y); }
    void fail(const char *cls, const std::string &d) { violation("P12", cls, d); }
    bool query(size_t k, u32 what, u32 arg) {
        Slot &q = s[k]; std::string e;
        double l = mLen(q.m), a = mArea(q.m), sc = 0; for (size_t i = 0; i < q.m.size(); ++i) sc += std::fabs(q.m[i][0]) + std::fabs(q.m[i][1]); sc *= sc;
        if ((what & 1) && !near(q.p.length(), l, l)) fail("length", strf("polygon of %u points reports length %.12g, it is %.12g", (u32)q.m.size(), q.p.length(), l));
        if ((what & 2) && !near(q.p.partialArea(), a, sc)) fail("partial-area", strf("polygon of %u points reports partial area %.12g, it is %.12g", (u32)q.m.size(), q.p.partialArea(), a));
        if (what & 4) { e = bboxErr(q.p, q.m); if (!e.empty()) fail("bounding-box", e); }
        if ((what & 8) && q.m.size()) {
            if (q.p.closed() != (q.m.front() == q.m.back())) fail("closed", "closed() is wrong");
            if (q.m.front() == q.m.back() && q.m.size() > 3) {
                double x = (int)(arg % 241) / 10.0 - 12.03, y = (int)((arg / 241) % 201) / 10.0 - 10.02, c; bool in = mInside(q.m, x, y, c);
                if (c > 1e-6 && q.p.contains(V(x, y)) != in) fail("contains", strf("contains(%g,%g) is %d for a closed polygon of %u points", x, y, !in, (u32)q.m.size()));
            }
        }
        g_stats.inc("queries");
        return !g_viol.hit;
    }
    bool points(size_t k) { if (!same(s[k].p, s[k].m)) { fail("points", strf("polygon %u: points differ from the model (%u, expected %u)", (u32)k, (u32)s[k].p.size(), (u32)s[k].m.size())); return false; } return true; }
    void run() {
        for (size_t i = 0; i < script.ops.size(); ++i) {
            const Op &o = script.ops[i]; g_opIndex = (long)i;
            size_t k = o.a % s.size(), j = (k + 1 + (o.a / 16) % (s.size() - 1)) % s.size();
            P &p = s[k].p, &q = s[j].p; Model M = s[k].m, N = s[j].m; const std::string &n = o.name; size_t sz = M.size();
            V v = pt(o.b, o.c); u32 pos = sz ? (o.b / 7) % sz : 0;
            std::vector<V> rng; for (u32 t = 0; t < o.c % 5; ++t) rng.push_back(pt(o.b + 31 * t, o.c + 17 * t));
            bool failAt = false; long at = 0;
            for (size_t f = 0; f < o.faults.size(); ++f) if (o.faults[f].kind == "alloc") { failAt = true; at = o.faults[f].at; }
            if (n == "q") { logf("query %u what=%u", (u32)k, o.b % 16); if (!query(k, o.b % 16, o.c)) return; continue; }
            // own copies, so that no allocation of the harness happens while the fault is armed
            Model A = M, B = N; std::function<void()> f; P tmp; bool usesTmp = false; PA raw(N.begin(), N.end());
            if (n == "push") { if (o.c & 1 && sz && M.back() != M.front() && o.c & 2) v = M.front(); A.push_back(v); f = [&] { p.push_back(v); }; }
            else if (n == "pushself") { if (!sz) continue; A.push_back(M[pos]); f = [&] { p.push_back(p[pos]); }; }
            else if (n == "ext") { if (N.size() && M.size() && N[0] == M.back()) A.insert(A.end(), N.begin() + 1, N.end()); else A.insert(A.end(), N.begin(), N.end()); if (A.size() > 60) continue; f = [&] { p.extend(q); }; }
            else if (n == "set") { if (!sz) continue; A[pos] = v; f = [&] { p.setPoint(pos, v); }; }
            else if (n == "era") { if (!sz) continue; A.erase(A.begin() + pos); f = [&] { p.erase(p.begin() + pos); }; }
            else if (n == "ins") { pos = (o.b / 7) % (sz + 1); A.insert(A.begin() + pos, v); f = [&] { p.insert(p.begin() + pos, v); }; }
            else if (n == "insr") { pos = (o.b / 7) % (sz + 1); A.insert(A.begin() + pos, rng.begin(), rng.end()); f = [&] { p.insert(p.begin() + pos, rng.begin(), rng.end()); }; }
            else if (n == "split") { if (!sz || k == j) continue; B.assign(M.begin() + pos, M.end()); A.resize(pos + 1); usesTmp = true; f = [&] { P r(p.split(pos)); tmp.swap(r); }; }
            else if (n == "swap") { std::swap(A, B); f = [&] { p.swap(q); }; }
            else if (n == "swapa") { A = N; f = [&] { p.swap(raw); }; }
            else if (n == "rev") { std::reverse(A.begin(), A.end()); f = [&] { p.reverse(); }; }
            else if (n == "clear") { A.clear(); f = [&] { p.clear(); }; }
            else if (n == "copy") { B = M; f = [&] { q = p; }; }
            else if (n == "ctor") { B = M; usesTmp = true; f = [&] { P r(p); tmp.swap(r); }; }
            else if (n == "raw") { if (!sz) continue; A[pos] = v; f = [&] { p[pos] = v; p.invalidateProperties(); }; }
            else continue;
            if (A.size() > 60) continue;
            logf("%s %u %u size=%u pos=%u%s", n.c_str(), (u32)k, (u32)j, (u32)sz, pos, failAt ? strf(" alloc@%ld", at).c_str() : "");
            g_stats.inc("steps"); g_stats.inc("op." + n);
            bool threw = false;
            if (failAt) { g_alloc.armed = true; g_alloc.countdown = at; g_alloc.fired = false; }
            g_alloc.opTotal = 0; g_alloc.opLimit = 200000;
            try { f(); } catch (std::bad_alloc &) { threw = true; }
            g_alloc.armed = false; g_alloc.opLimit = 0;
            if (failAt) g_stats.inc(g_alloc.fired ? "fault.alloc" : "fault.alloc-not-reached");
            if (g_alloc.fired && failAt && !threw) { fail("lost-failure", n + ": an allocation failure was swallowed"); return; }
            g_alloc.fired = false;
            if (!threw) {
                s[k].m = A;
                if (usesTmp) { s[j].p.swap(tmp); }
                s[j].m = B;
                if (n == "swapa" && !same(raw, M)) { fail("points", "swap with a point array lost points"); return; }
            } else { // failed: nothing happened (points as before; measures are checked below and later)
                if (!same(p, M)) { if (n == "insr" || n == "split" || n == "copy") s[k].m = Model(p.begin(), p.end()); else { fail("not-atomic", n + " failed with bad_alloc but changed the points"); return; } }
                if (!same(q, N)) { if (n == "copy" && q.size() <= 60) s[j].m = Model(q.begin(), q.end()); else { fail("not-atomic", n + " failed with bad_alloc but changed the other polygon"); return; } }
                if (!query(k, 15, o.c)) return; // a failed operation leaves right measures at once
            }
            if (!points(k) || !points(j)) return;
            if ((o.c >> 8) % 3 == 0 && !query(k, (o.c >> 10) % 16, o.b)) return;
            if ((o.c >> 8) % 5 == 0 && !query(j, (o.c >> 12) % 16, o.b)) return;
            std::string sig = n + strf(" %d %d %d", (int)threw, (int)std::min<size_t>(sz, 3), (int)std::min<size_t>(N.size(), 3)); g_stats.sig(prev + sig); prev = sig;
            u64 h = 1469598103934665603ull; for (size_t t = 0; t < s[k].m.size(); ++t) h = hashStr(strf("%.17g %.17g", s[k].m[t][0], s[k].m[t][1]), h); g_stats.state(h); logf("  -> %s %016llx", threw ? "bad_alloc" : "ok", (unsigned long long)h);
        }
        for (size_t k = 0; k < s.size(); ++k) if (!points(k) || !query(k, 15, script.get("arg"))) return;
    }
    std::string prev;
};
void runScript(const Script &s) { if (s.get("bbox")) { Sim<BP> x(s); x.run(); } else { Sim<PG> x(s); x.run(); } }
Script generateScript(u64 seed, const std::string &) {
    Rng r(seed * 2654435761u + 12345); Script s;
    s.cfg["bbox"] = r.chance(0.7); s.cfg["slots"] = r.below(3); s.cfg["frac"] = r.chance(0.5); s.cfg["arg"] = r.below(100000);
    bool faulty = r.chance(0.5); s.cfg["faulty"] = faulty;
    static const char *names[] = { "push", "push", "push", "ext", "set", "era", "ins", "insr", "split", "swap", "swapa", "rev", "clear", "copy", "ctor", "raw", "pushself", "q", "q", "q" };
    std::vector<std::string> mix; // swarm: a subset of the operations per run
    for (size_t i = 0; i < sizeof names / sizeof *names; ++i) if (i < 1 || i == 17 || r.chance(0.6)) mix.push_back(names[i]);
    int n = r.range(6, 60);
    for (int i = 0; i < n; ++i) {
        Op o; o.name = mix[r.below(mix.size())]; o.a = r.below(1 << 28); o.b = r.below(1 << 28); o.c = r.below(1 << 28);
        if (faulty && r.chance(0.25)) { Fault f; f.kind = "alloc"; f.at = r.range(1, 3); f.arg = 0; o.faults.push_back(f); }
        s.ops.push_back(o);
    }
    return s;
}
