// Deterministic simulation of a GeoMap with its clients: editors issuing Euler
// operations, observers that veto / raise / come and go, library observers
// (edge protection, region statistics), readers, snapshot takers, and a failing
// allocator.  A run is fully described by a Script (see common.hpp).
#include "simmain.hpp"
#include "mapdump.hpp"
#include "facestatistics.hxx"
#include "crackedgemap.hxx"
#include <boost/shared_ptr.hpp>
#include <memory>
#include <functional>
#include <limits>

using vigra::Size2D;

struct SimFault { int id; };
struct NullBuf : std::streambuf { int overflow(int c) { return c; } };
static NullBuf g_nullBuf;

static bool P(const char *p) { return g_viol.wants(p); }

// ------------------------------------------------------------------ geometry generation
struct Builder {
    GeoMap &m; Rng &rng; double quant;
    std::vector<GeoMap::NodePtr> nodes;
    std::vector<std::vector<Pt> > lines; std::vector<std::pair<int,int> > ends;
    std::vector<Pt> npos;
    Builder(GeoMap &mm, Rng &r, double q) : m(mm), rng(r), quant(q) {}
    Pt q(double x, double y) {
        if (quant > 0) { x = std::floor(x / quant + 0.5) * quant; y = std::floor(y / quant + 0.5) * quant; }
        return Pt(x, y);
    }
    int node(double x, double y) {
        Pt p = q(x, y);
        for (size_t i = 0; i < npos.size(); ++i)
            if (std::hypot(npos[i].first - p.first, npos[i].second - p.second) < 0.02) return (int)i;
        for (size_t i = 0; i < lines.size(); ++i)
            for (size_t j = 1; j < lines[i].size(); ++j)
                if (segDist(p, lines[i][j-1], lines[i][j]) < 0.02) return -1;
        npos.push_back(p);
        nodes.push_back(m.addNode(Vector2(p.first, p.second)));
        return (int)npos.size() - 1;
    }
    static double cross(Pt a, Pt b, Pt c) { return (b.first-a.first)*(c.second-a.second) - (b.second-a.second)*(c.first-a.first); }
    static double segSeg(Pt a, Pt b, Pt c, Pt d) {
        double d1 = cross(a,b,c), d2 = cross(a,b,d), d3 = cross(c,d,a), d4 = cross(c,d,b);
        if (((d1 > 0) != (d2 > 0)) && ((d3 > 0) != (d4 > 0))) return 0;
        return std::min(std::min(segDist(a,c,d), segDist(b,c,d)), std::min(segDist(c,a,b), segDist(d,a,b)));
    }
    static bool angleOk(Pt o, Pt a, Pt b) { // directions o->a and o->b differ clearly
        double ax = a.first-o.first, ay = a.second-o.second, bx = b.first-o.first, by = b.second-o.second;
        double la = std::hypot(ax,ay), lb = std::hypot(bx,by);
        double c = ax*by - ay*bx, dt = ax*bx + ay*by;
        return dt < 0 || std::fabs(c) > 0.05 * la * lb;
    }
    bool okPair(const std::vector<Pt> &A, const std::vector<Pt> &B) {
        for (size_t i = 1; i < A.size(); ++i)
            for (size_t j = 1; j < B.size(); ++j) {
                Pt a = A[i-1], b = A[i], c = B[j-1], d = B[j];
                Pt o, u, v; bool share = false;
                if (a == c) { o = a; u = b; v = d; share = true; }
                else if (a == d) { o = a; u = b; v = c; share = true; }
                else if (b == c) { o = b; u = a; v = d; share = true; }
                else if (b == d) { o = b; u = a; v = c; share = true; }
                if (share) {
                    bool oNode = false; // sharing only allowed at end points of both lines
                    if ((o == A.front() || o == A.back()) && (o == B.front() || o == B.back())) oNode = true;
                    if (!oNode || !angleOk(o, u, v)) return false;
                    // both ends shared?
                    if (segDist(u, c, d) < 0.02 || segDist(v, a, b) < 0.02) return false;
                } else if (segSeg(a, b, c, d) < 0.02) return false;
            }
        return true;
    }
    bool okSelf(const std::vector<Pt> &A) {
        for (size_t i = 1; i < A.size(); ++i) {
            if (std::hypot(A[i].first-A[i-1].first, A[i].second-A[i-1].second) < 0.02) return false;
            for (size_t j = i + 1; j < A.size(); ++j) {
                if (j == i + 1) { if (!angleOk(A[i], A[i-1], A[j])) return false; continue; }
                if (i == 1 && j + 1 == A.size() && A.front() == A.back()) { if (!angleOk(A[0], A[1], A[j-1])) return false; continue; }
                if (segSeg(A[i-1], A[i], A[j-1], A[j]) < 0.02) return false;
            }
        }
        return true;
    }
    bool edge(int a, int b, std::vector<Pt> mid) {
        if (a < 0 || b < 0) return false;
        std::vector<Pt> l; l.push_back(npos[a]);
        for (size_t i = 0; i < mid.size(); ++i) l.push_back(q(mid[i].first, mid[i].second));
        l.push_back(npos[b]);
        if (a == b && l.size() < 4) return false;
        if (!okSelf(l)) return false;
        for (size_t i = 0; i < lines.size(); ++i) if (!okPair(l, lines[i])) return false;
        for (size_t i = 0; i < npos.size(); ++i) {
            if ((int)i == a || (int)i == b) continue;
            for (size_t j = 1; j < l.size(); ++j) if (segDist(npos[i], l[j-1], l[j]) < 0.02) return false;
        }
        if (a == b) { double ar = Dump::partial(l); if (std::fabs(ar) < 0.02) return false; }
        Vector2Array pts;
        for (size_t i = 0; i < l.size(); ++i) pts.push_back(Vector2(l[i].first, l[i].second));
        m.addEdge(*nodes[a], *nodes[b], pts);
        lines.push_back(l); ends.push_back(std::make_pair(a, b));
        return true;
    }
    bool straight(int a, int b, int maxMid, double amp) {
        if (a < 0 || b < 0 || a == b) return false;
        std::vector<Pt> mid;
        int k = maxMid ? rng.range(0, maxMid) : 0;
        Pt p = npos[a], r = npos[b];
        double dx = r.first - p.first, dy = r.second - p.second;
        for (int i = 1; i <= k; ++i) {
            double t = i / (double)(k + 1), o = rng.real(-amp, amp);
            mid.push_back(Pt(p.first + t*dx - o*dy, p.second + t*dy + o*dx));
        }
        if (edge(a, b, mid)) return true;
        return edge(a, b, std::vector<Pt>());
    }
    // closed curve with k nodes; returns node ids
    std::vector<int> cycle(double cx, double cy, double r, int k, int sub, double phase, bool rev) {
        std::vector<int> ids; int n = k * sub;
        if (n < 3) { sub = (3 + k - 1) / k; n = k * sub; }
        std::vector<Pt> ring;
        for (int i = 0; i < n; ++i) {
            double a = phase + (rev ? -1 : 1) * 2 * M_PI * i / n, rr = r * rng.real(0.9, 1.0);
            ring.push_back(q(cx + rr * std::cos(a), cy + rr * std::sin(a)));
        }
        for (int i = 0; i < k; ++i) ids.push_back(node(ring[i*sub].first, ring[i*sub].second));
        for (int i = 0; i < k; ++i) {
            std::vector<Pt> mid;
            for (int j = 1; j < sub; ++j) mid.push_back(ring[i*sub + j]);
            edge(ids[i], ids[(i+1) % k], mid);
        }
        return ids;
    }
    void component(double cx, double cy, double r, int depth) {
        if (r < 0.15) return;
        switch (rng.below(9)) {
        case 0: case 1: {
            std::vector<int> ids = cycle(cx, cy, r, rng.range(1, 4), rng.range(1, 4), rng.real(0, 6.28), rng.chance(0.5));
            if (ids.size() >= 3 && rng.chance(0.4)) straight(ids[0], ids[2], 1, 0.05);
            if (depth && rng.chance(0.6)) component(cx + rng.real(-0.1, 0.1) * r, cy + rng.real(-0.1, 0.1) * r, r * rng.real(0.3, 0.6), depth - 1);
            break; }
        case 2: case 3: { // thin ring with a big hole
            std::vector<int> o = cycle(cx, cy, r, rng.range(1, 3), rng.range(4, 6), rng.real(0, 6.28), rng.chance(0.5));
            std::vector<int> i = cycle(cx, cy, r * rng.real(0.72, 0.86), rng.range(1, 4), rng.range(4, 6), rng.real(0, 6.28), rng.chance(0.5));
            if (rng.chance(0.5)) for (size_t k = 0; k < i.size(); ++k) if (rng.chance(0.5)) straight(i[k], o[rng.below((u32)o.size())], 0, 0);
            if (depth && rng.chance(0.7)) component(cx, cy, r * rng.real(0.2, 0.6), depth - 1);
            break; }
        case 4: { // open line / small tree
            int a = node(cx - r*0.6, cy + rng.real(-0.4,0.4)*r), b = node(cx + r*0.6, cy + rng.real(-0.4,0.4)*r);
            straight(a, b, 3, 0.15);
            if (rng.chance(0.6)) { int c = node(cx + rng.real(-0.3,0.3)*r, cy + r*0.8); straight(b, c, 1, 0.1); if (rng.chance(0.5)) { int e = node(cx, cy - r*0.8); straight(a, e, 1, 0.1); } }
            break; }
        case 5: node(cx, cy); break; // isolated node
        case 6: { // flower: several loops at one node
            int c = node(cx, cy); int n = rng.range(1, 3);
            for (int i = 0; i < n && c >= 0; ++i) {
                double a = 2 * M_PI * i / n + rng.real(0, 0.4);
                std::vector<Pt> mid;
                for (int k = -1; k <= 1; ++k) mid.push_back(Pt(cx + r * std::cos(a + 0.5*k) * (k ? 0.8 : 1), cy + r * std::sin(a + 0.5*k) * (k ? 0.8 : 1)));
                if (rng.chance(0.5)) std::reverse(mid.begin(), mid.end());
                edge(c, c, mid);
                if (depth && rng.chance(0.3)) component(cx + 0.65 * r * std::cos(a), cy + 0.65 * r * std::sin(a), r * 0.15, depth - 1);
            }
            break; }
        case 7: { // lens: two nodes, several parallel edges
            int a = node(cx - r, cy), b = node(cx + r, cy); int n = rng.range(2, 4);
            for (int i = 0; i < n; ++i) {
                double o = n == 1 ? 0 : -1 + 2.0 * i / (n - 1);
                std::vector<Pt> mid(1, Pt(cx + rng.real(-0.1, 0.1) * r, cy + o * r * 0.7));
                if (rng.chance(0.5)) edge(a, b, mid); else edge(b, a, mid);
            }
            break; }
        default: { // cross
            int c = node(cx, cy);
            for (int i = 0; i < 4; ++i) { double a = i * M_PI / 2 + 0.3; int b = node(cx + r*0.8*std::cos(a), cy + r*0.8*std::sin(a)); if (rng.chance(0.5)) straight(c, b, 1, 0.05); else straight(b, c, 1, 0.05); }
            break; }
        }
    }
};

static boost::shared_ptr<GeoMap> buildGraph(const Script &s, Rng &rng) {
    int kind = (int)s.get("gen");
    int W = (int)s.get("w", 16), H = (int)s.get("h", 16);
    if (kind == 3) { // crack edges of a random label image
        vigra::IImage img(W, H);
        int nl = rng.range(2, 5), blob = rng.range(1, 4);
        for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) img(x, y) = (int)(hashStr(strf("%d %d %ld", x / blob, y / blob, s.get("genseed"))) % nl);
        for (int k = 0; k < 3; ++k) { // rectangles
            int x0 = rng.range(0, W-2), y0 = rng.range(0, H-2), x1 = rng.range(x0+1, W), y1 = rng.range(y0+1, H), v = rng.range(0, nl-1);
            for (int y = y0; y < y1; ++y) for (int x = x0; x < x1; ++x) img(x, y) = v;
            if (x1-x0 > 3 && y1-y0 > 3 && rng.chance(0.7)) { v = (v+1) % nl; for (int y = y0+1; y < y1-1; ++y) for (int x = x0+1; x < x1-1; ++x) img(x, y) = v; }
        }
        std::auto_ptr<GeoMap> r(CrackEdgeMapGenerator(srcImageRange(img), s.get("eight") != 0).result);
        return boost::shared_ptr<GeoMap>(r.release());
    }
    boost::shared_ptr<GeoMap> m(new GeoMap(Size2D(W, H)));
    double quant = s.get("quant") / 8.0;
    Builder b(*m, rng, quant);
    double ox = s.get("off") / 4.0;
    if (kind == 0 || kind == 1) { // jittered grid with things in its cells
        int nx = (int)s.get("nx", 3), ny = (int)s.get("ny", 3);
        double sx = (W - 2.0) / nx, sy = (H - 2.0) / ny, jit = 0.12;
        std::vector<int> g((nx+1)*(ny+1));
        for (int y = 0; y <= ny; ++y) for (int x = 0; x <= nx; ++x)
            g[y*(nx+1)+x] = b.node(ox + 0.7 + x*sx + rng.real(-jit,jit)*sx, ox + 0.7 + y*sy + rng.real(-jit,jit)*sy);
        double pe = s.get("pe", 80) / 100.0;
        for (int y = 0; y <= ny; ++y) for (int x = 0; x <= nx; ++x) {
            int a = g[y*(nx+1)+x];
            if (x < nx && rng.chance(pe)) { int c = g[y*(nx+1)+x+1]; if (rng.chance(0.5)) b.straight(a, c, 3, 0.1); else b.straight(c, a, 3, 0.1); }
            if (y < ny && rng.chance(pe)) { int c = g[(y+1)*(nx+1)+x]; if (rng.chance(0.5)) b.straight(a, c, 3, 0.1); else b.straight(c, a, 3, 0.1); }
        }
        for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x) {
            double cx = ox + 0.7 + (x+0.5)*sx, cy = ox + 0.7 + (y+0.5)*sy, r = std::min(sx, sy) * 0.3;
            if (kind == 1 && rng.chance(0.6)) {
                size_t n0 = b.npos.size();
                b.component(cx, cy, r, 2);
                if (rng.chance(0.35) && b.npos.size() > n0) b.straight(g[(y + rng.below(2))*(nx+1)+x + rng.below(2)], (int)(n0 + rng.below((u32)(b.npos.size()-n0))), 1, 0.05);
            } else if (rng.chance(0.2)) b.straight(g[y*(nx+1)+x], g[(y+1)*(nx+1)+x+1], 1, 0.03);
        }
    } else { // free components
        int n = rng.range(1, 3);
        for (int i = 0; i < n; ++i)
            b.component(ox + W * (i + 0.5) / n, ox + H * rng.real(0.45, 0.55), std::min(W / (double)n, (double)H) * rng.real(0.3, 0.46), 3);
        if (rng.chance(0.3)) b.node(ox + 0.3, ox + 0.3);
    }
    if (b.lines.empty()) b.cycle(W / 2.0, H / 2.0, std::min(W, H) * 0.35, 2, 3, 0.1, false);
    return m;
}

// ------------------------------------------------------------------ the simulated world
enum Hook { H_NODE, H_PREME, H_POSTME, H_PRESE, H_POSTSE, H_PRERB, H_POSTRB, H_PREMF, H_POSTMF, H_ASSOC };
static const char *hookName[] = { "removeNode", "preMergeEdges", "postMergeEdges", "preSplitEdge", "postSplitEdge", "preRemoveBridge", "postRemoveBridge", "preMergeFaces", "postMergeFaces", "associatePixels" };
static bool vetoable(int h) { return h == H_NODE || h == H_PREME || h == H_PRERB || h == H_PREMF; }

struct Event {
    int obs, hook; long a, b; int outcome; // 0 ok 1 veto 2 throw
    std::vector<std::pair<int,int> > pixels;
    std::set<int> liveAfter;
};
struct ChainEntry { int kind; int id; }; // kind 0 probe, 1 protection, 2 statistics

typedef vigra::MultiArray<2, float> FImg;
typedef FaceColorStatistics<FImg> FStats;

struct World;
struct Probe { World *w; int id; bool live; std::vector<boost::signals2::connection> conns; };

struct StatsSlot {
    std::unique_ptr<FStats> s; bool attached; u32 minSamples; double norm; bool tracked; std::set<u32> inexact;
    std::map<u32, std::vector<double> > frozen;   // after detaching
};

struct World {
    const Script &script; Rng rng;
    boost::shared_ptr<GeoMap> map;
    std::vector<Probe *> probes;          // owned; never shrinks during a run
    std::vector<ChainEntry> chain;        // connection order of live observers
    std::unique_ptr<EdgeProtection> prot; bool protOn;
    FImg image; StatsSlot stat; std::unique_ptr<FStats> statCopy; std::map<u32, std::vector<double> > statCopyFrozen;
    // twin / frozen copies
    boost::shared_ptr<GeoMap> twin; boost::shared_ptr<GeoMap> frozen; Dump frozenDump;
    // held handles
    struct Held { int kind; GeoMap::NodePtr n; GeoMap::EdgePtr e; GeoMap::FacePtr f; u32 label; bool gone; };
    std::vector<Held> held;
    // per op
    const Op *op; int cbIndex, vetoIndex; std::vector<Event> events; bool inOp, dead;
    Dump before, after;
    Dump *cbRef; std::string midError;
    std::set<int> lateAttached; int optionalHook;
    std::string opText;

    World(const Script &s) : script(s), rng(s.get("genseed") * 7919 + 17), protOn(false), op(0), cbIndex(0), vetoIndex(0), inOp(false), dead(false), cbRef(0), optionalHook(-1), single(false), raised(false), noObs(false), qProp("P04"), qMap(0), qDump(0) { stat.attached = false; stat.minSamples = 0; stat.norm = 1; }
    ~World() {
        twin.reset(); frozen.reset(); held.clear();
        if (prot) { prot->detachHooks(); prot.reset(); }
        if (stat.s) { stat.s->detachHooks(); stat.s.reset(); }
        for (size_t i = 0; i < probes.size(); ++i) { for (size_t j = 0; j < probes[i]->conns.size(); ++j) probes[i]->conns[j].disconnect(); }
        map.reset();
        for (size_t i = 0; i < probes.size(); ++i) delete probes[i];
    }

    // ---- observers
    void connectProbe(Probe *p);
    Probe *addProbe() {
        Probe *p = new Probe; p->w = this; p->id = (int)probes.size(); p->live = true;
        connectProbe(p); probes.push_back(p);
        ChainEntry c = { 0, p->id }; chain.push_back(c);
        return p;
    }
    void dropProbe(int id) {
        Probe *p = probes[id];
        for (size_t j = 0; j < p->conns.size(); ++j) p->conns[j].disconnect();
        p->conns.clear(); p->live = false;
        for (size_t i = 0; i < chain.size(); ++i) if (chain[i].kind == 0 && chain[i].id == id) { chain.erase(chain.begin() + i); break; }
    }
    std::vector<int> liveProbes() const { std::vector<int> r; for (size_t i = 0; i < chain.size(); ++i) if (chain[i].kind == 0) r.push_back(chain[i].id); return r; }
    void dropChain(int kind) { for (size_t i = 0; i < chain.size(); ++i) if (chain[i].kind == kind) { chain.erase(chain.begin() + i); return; } }

    // returns verdict; may throw SimFault
    bool callback(Probe *p, int hook, long a, long b, const PixelList *px) {
        Event e; e.obs = p->id; e.hook = hook; e.a = a; e.b = b; e.outcome = 0;
        if (px) for (size_t i = 0; i < px->size(); ++i) e.pixels.push_back(std::make_pair((*px)[i].x, (*px)[i].y));
        int idx = cbIndex++, vidx = vetoable(hook) ? vetoIndex++ : -1;
        if (!inOp) { violation("P02", "stray-callback", strf("%s delivered outside any operation", hookName[hook])); return true; }
        if (!p->live) violation("P02", "late-callback", strf("%s delivered to observer %d after it was disconnected", hookName[hook], p->id));
        g_stats.inc("callbacks");
        // mid-operation state
        if (hook == H_PREMF || hook == H_PREME || hook == H_PRERB || hook == H_PRESE) midCheck(hook, true);
        if (hook == H_POSTMF || hook == H_POSTME || hook == H_POSTRB || hook == H_POSTSE || hook == H_ASSOC) midCheck(hook, false);
        bool verdict = true, raise = false;
        for (size_t i = 0; op && i < op->faults.size(); ++i) {
            const Fault &f = op->faults[i];
            if (f.kind == "veto" && (int)f.at == vidx) { verdict = false; g_stats.inc("fault.veto"); }
            else if (f.kind == "policy" && vetoable(hook) && (hashStr(strf("%d %ld %u", hook == H_NODE, std::labs(a), f.arg)) % 4) == 0) { verdict = false; g_stats.inc("fault.policy-veto"); }
            else if (f.kind == "throw" && (int)f.at == idx) raise = true;
            else if (f.kind == "detach" && (int)f.at == idx) {
                std::vector<int> l = liveProbes();
                if (l.size() > 1) { int v = l[1 + f.arg % (l.size() - 1)]; logf("    detach obs%d", v); dropProbe(v); g_stats.inc("fault.detach-in-callback"); }
            } else if (f.kind == "attach" && (int)f.at == idx && probes.size() < 12) {
                Probe *np = addProbe(); lateAttached.insert(np->id); optionalHook = hook; logf("    attach obs%d", np->id); g_stats.inc("fault.attach-in-callback");
            } else if (f.kind == "query" && (int)f.at == idx) { readSomething(f.arg); g_stats.inc("fault.query-in-callback"); }
        }
        if (!vetoable(hook)) verdict = true;
        if (raise) e.outcome = 2; else if (!verdict) e.outcome = 1;
        std::vector<int> l = liveProbes(); e.liveAfter.insert(l.begin(), l.end());
        events.push_back(e);
        logf("    obs%d %s %ld %ld%s%s", p->id, hookName[hook], a, b, px ? strf(" px=%u", (u32)e.pixels.size()).c_str() : "", raise ? " RAISE" : verdict ? "" : " VETO");
        if (raise) { g_stats.inc("fault.raise"); SimFault sf = { idx }; throw sf; }
        return verdict;
    }
    void midCheck(int hook, bool pre) {
        if (!midError.empty() || !P("P02") || script.get("mid") == 0) return;
        Dump d; std::string err;
        if (!takeDump(*map, d, err, !pre || true)) { midError = std::string(pre ? "before" : "after") + " callback " + hookName[hook] + ": " + err; return; }
        if (pre && singleOp()) { std::string x = diffDump(before, d, true, true, true); if (!x.empty()) midError = strf("map already modified when %s is announced: %s", hookName[hook], x.c_str()); }
        if (!pre) { midDumps.push_back(d); midHooks.push_back(hook); }
    }
    std::vector<Dump> midDumps; std::vector<int> midHooks;
    bool single; bool singleOp() const { return single; }

    void readSomething(u32 a) {
        if (!map->mapInitialized()) { map->nearestNode(Vector2(a % 17, a % 13)); return; }
        // only queries of cells untouched by a running operation are guaranteed; node search and counts are
        map->nearestNode(Vector2(a % 17, a % 13));
        volatile unsigned x = map->nodeCount() + map->edgeCount() + map->faceCount(); (void)x;
    }
    // ---- checks and operations (below)
    struct Sub { int kind; int dart, dart2; u32 survivor, merged, node; std::set<u32> gone, kept; u32 seg; Pt p; bool insert; bool partial; std::vector<std::pair<int,int> > px; };
    enum { S_MF, S_RB, S_ME, S_SE, S_RN };
    std::vector<Sub> subs; std::set<u32> refusedEdges, refusedNodes;
    bool raised; // some observer raised during this operation
    std::vector<ChainEntry> chain0;
    int opDart; int opSeg; bool opIns; Pt opPt; bool noObs;
    bool dump(Dump &d, const char *when, const char *extraProp = 0);
    void exec(const Op &o);
    void finish();
    void drawOracle(const Dump &d, const char *when);
    void labelOracle(const Dump &d, const char *prop, const char *when);
    void statsOracle(const Dump &d, const char *when);
    void checkStats(const FStats &s, GeoMap &m, const Dump &d, const std::set<u32> &inexact, bool tracked, const char *when); void statCopyRun(const Op &o);
    bool parseEvents(std::string &err);
    void applySubs(Dump &m, const Dump &target, std::string &err);
    void query(u32 kind, u32 a);
    void fullQueries();
    void heldOracle();
    void euler(const Op &o);
    void checkStep(const std::string &kind, int status, bool returned, int retLabel);
    void twinStep();
    void bad(const Op &o);
    void doBulk(const Op &o);
    void oom(const Op &o);
    void relabel(const Op &o);
    void setpos(const Op &o);
    void begin(const Op &o, bool isSingle);
    int guarded(const std::function<void()> &f);
    std::string what;
    int pickEdge(u32 a, int which) const;   // which: 0 any, 1 bridge, 2 non-bridge
    bool protRefuses(int hook, const Dump &d, int a) const;
    void edgeQueries(u32 l, u32 sel); void faceQueries(u32 l, u32 sel); void pointQueries(double x, double y);
    void fail4(const std::string &cls, const std::string &d) { violation(qProp, cls, d); }
    const char *qProp; GeoMap *qMap; const Dump *qDump;
    std::set<u32> twinKeep;
};

struct ProbeSlots {
    Probe *p;
    bool node(GeoMap::Node &n) { return p->w->callback(p, H_NODE, n.label(), n.initialized(), 0); }
    bool preME(const GeoMap::Dart &d) { return p->w->callback(p, H_PREME, d.label(), d.startNodeLabel(), 0); }
    void postME(GeoMap::Edge &e) { p->w->callback(p, H_POSTME, e.label(), 0, 0); }
    void preSE(GeoMap::Edge &e, unsigned int seg, Vector2 const &v, bool ins) {
        if (ins && p->w->midError.empty() && (v[0] != p->w->opPt.first || v[1] != p->w->opPt.second)) p->w->midError = "preSplitEdge announces another point than the one that is inserted";
        p->w->callback(p, H_PRESE, e.label(), (long)seg * 2 + (ins ? 1 : 0), 0); }
    void postSE(GeoMap::Edge &e, GeoMap::Edge &n) { p->w->callback(p, H_POSTSE, e.label(), n.label(), 0); }
    bool preRB(const GeoMap::Dart &d) { return p->w->callback(p, H_PRERB, d.label(), 0, 0); }
    void postRB(GeoMap::Face &f) { p->w->callback(p, H_POSTRB, f.label(), 0, 0); }
    bool preMF(const GeoMap::Dart &d) { return p->w->callback(p, H_PREMF, d.label(), (long)d.leftFaceLabel() * 100000 + d.rightFaceLabel(), 0); }
    void postMF(GeoMap::Face &f) { p->w->callback(p, H_POSTMF, f.label(), 0, 0); }
    void assoc(const GeoMap::Face &f, const PixelList &px) { p->w->callback(p, H_ASSOC, f.label(), f.pixelArea(), &px); }
};

void World::connectProbe(Probe *p) {
    ProbeSlots s = { p };
    GeoMap &m = *map;
    p->conns.push_back(m.removeNodeHook.connect([s](GeoMap::Node &n) mutable { return s.node(n); }));
    p->conns.push_back(m.preMergeEdgesHook.connect([s](const GeoMap::Dart &d) mutable { return s.preME(d); }));
    p->conns.push_back(m.postMergeEdgesHook.connect([s](GeoMap::Edge &e) mutable { s.postME(e); }));
    p->conns.push_back(m.preSplitEdgeHook.connect([s](GeoMap::Edge &e, unsigned int i, Vector2 const &v, bool b) mutable { s.preSE(e, i, v, b); }));
    p->conns.push_back(m.postSplitEdgeHook.connect([s](GeoMap::Edge &e, GeoMap::Edge &n) mutable { s.postSE(e, n); }));
    p->conns.push_back(m.preRemoveBridgeHook.connect([s](const GeoMap::Dart &d) mutable { return s.preRB(d); }));
    p->conns.push_back(m.postRemoveBridgeHook.connect([s](GeoMap::Face &f) mutable { s.postRB(f); }));
    p->conns.push_back(m.preMergeFacesHook.connect([s](const GeoMap::Dart &d) mutable { return s.preMF(d); }));
    p->conns.push_back(m.postMergeFacesHook.connect([s](GeoMap::Face &f) mutable { s.postMF(f); }));
    p->conns.push_back(m.associatePixelsHook.connect([s](const GeoMap::Face &f, const PixelList &px) mutable { s.assoc(f, px); }));
}

#include "simmap_oracles.hpp"
#include "simmap_ops.hpp"
