// Simulator for the cell image library (src/cellimage): a pyramid of cell images, i.e. an operation log with
// checkpoints and recovery by replay, driven by seeded histories. Injected: statistics hooks that raise, failing
// allocations, invalid calls, restarts from the serialised cell image, copies diverging from their origin.
#include "common.hpp"
#include "simmain.hpp"
#include <functional>
#include <memory>
#include <vigra/error.hxx>
#include <vigra/stdimage.hxx>
#include "foureightsegmentation.hxx"
#include "cellstatistics.hxx"
#include "cellconfigurations.hxx"
#include "cellpyramid.hxx"
using namespace vigra;
using namespace vigra::cellimage;
typedef cellimage::GeoMap Map;
typedef Map::DartTraverser Dart;

struct HookFault : std::runtime_error { HookFault() : std::runtime_error("injected: statistics hook failed") {} };
static struct { bool armed; long countdown; bool fired; unsigned long calls; } g_hook;
static void hook() { ++g_hook.calls; if (g_hook.armed && --g_hook.countdown <= 0) { g_hook.armed = false; g_hook.fired = true; throw HookFault(); } }
// the statistics a pyramid level carries: the real ones, with hooks that can be told to fail
struct SimStats : ::CellStatistics {
    typedef ::CellStatistics B;
    SimStats(const Map &m, SegmentationData *d, EdgeProtection *p) : B(m, d, p) {}
    void preRemoveIsolatedNode(const Dart &d) { hook(); B::preRemoveIsolatedNode(d); }
    void postRemoveIsolatedNode(Map::FaceInfo &f) { B::postRemoveIsolatedNode(f); hook(); }
    void preRemoveBridge(const Dart &d) { hook(); B::preRemoveBridge(d); }
    void postRemoveBridge(Map::FaceInfo &f) { B::postRemoveBridge(f); hook(); }
    void preMergeFaces(const Dart &d) { hook(); B::preMergeFaces(d); }
    void postMergeFaces(Map::FaceInfo &f) { B::postMergeFaces(f); hook(); }
    void preMergeEdges(const Dart &d) { hook(); B::preMergeEdges(d); }
    void postMergeEdges(Map::EdgeInfo &e) { B::postMergeEdges(e); hook(); }
};
typedef CellPyramid<Map, SimStats> Pyr;
typedef Pyr::Level Level;

// ------------------------------------------------------------------ observation
static std::string rectStr(const Rect2D &r) { return strf("[%d,%d..%d,%d]", r.left(), r.top(), r.right(), r.bottom()); }
typedef std::vector<int> Pix;
static Pix pixels(const Map &m) {
    Pix v; CellPixelSerializer s; v.reserve(m.cellImage.width() * m.cellImage.height());
    for (int y = 0; y < m.cellImage.height(); ++y) for (int x = 0; x < m.cellImage.width(); ++x) v.push_back(s(m.cellImage(x, y)));
    return v;
}
static std::string dump(const Map &m) {
    std::ostringstream o;
    o << m.nodeCount() << ' ' << m.edgeCount() << ' ' << m.faceCount() << ' ' << m.maxNodeLabel() << ' ' << m.maxEdgeLabel() << ' ' << m.maxFaceLabel() << '\n';
    Pix p = pixels(m); for (size_t i = 0; i < p.size(); ++i) o << p[i] << ' ';
    for (u32 i = 0; i < m.maxNodeLabel(); ++i) if (m.node(i).initialized()) { const Map::NodeInfo &n = m.node(i); o << "\nn" << i << ' ' << n.label << rectStr(n.bounds) << n.size << ' ' << n.degree << ' ' << n.anchor.serialize(); }
    for (u32 i = 0; i < m.maxEdgeLabel(); ++i) if (m.edge(i).initialized()) { const Map::EdgeInfo &n = m.edge(i); o << "\ne" << i << ' ' << n.label << rectStr(n.bounds) << n.size << ' ' << n.start.serialize() << ' ' << n.end.serialize(); }
    for (u32 i = 0; i < m.maxFaceLabel(); ++i) if (m.face(i).initialized()) { const Map::FaceInfo &n = m.face(i); o << "\nf" << i << ' ' << n.label << rectStr(n.bounds) << n.size; for (size_t k = 0; k < n.contours.size(); ++k) o << ' ' << n.contours[k].serialize(); }
    return o.str();
}
static std::string dumpStats(const SimStats &s) {
    std::ostringstream o; o.precision(17);
    for (size_t i = 0; i < s.faceStatistics_.size(); ++i) o << s.faceStatistics_[i].count_ << ' ' << s.faceStatistics_[i].sum_ << ' ' << s.faceStatistics_[i].squareSum_ << ';';
    for (size_t i = 0; i < s.edgeStatistics_.size(); ++i) o << s.edgeStatistics_[i].count_ << ' ' << s.edgeStatistics_[i].sum_ << ';';
    for (size_t i = 0; i < s.mergedEdges_.size(); ++i) o << s.mergedEdges_[i] << ' ';
    for (size_t i = 0; i < s.nodeCenters_.size(); ++i) o << s.nodeCenters_[i][0] << ',' << s.nodeCenters_[i][1] << ' ';
    return o.str();
}
// ------------------------------------------------------------------ structure, recomputed from the pixels
static u32 flood(const Pix &p, int W, int H, const std::function<bool(int)> &in, bool eight, std::vector<int> &comp) {
    comp.assign(p.size(), -1); int n = 0; std::vector<int> st;
    for (int i = 0; i < W * H; ++i) {
        if (!in(p[i]) || comp[i] >= 0) continue;
        comp[i] = n; st.push_back(i);
        while (!st.empty()) {
            int c = st.back(); st.pop_back(); int x = c % W, y = c / W;
            for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) {
                if (!eight && dx && dy) continue;
                int X = x + dx, Y = y + dy; if (X < 0 || Y < 0 || X >= W || Y >= H) continue;
                int k = Y * W + X; if (in(p[k]) && comp[k] < 0) { comp[k] = n; st.push_back(k); }
            }
        }
        ++n;
    }
    return n;
}
struct Box { u32 n; Rect2D r; Box() : n(0) {} };
static bool isRegion(int v) { return (v & 3) == CellTypeRegion; }
static bool isContour(int v) { return (v & 3) != CellTypeRegion; }
static std::string structErr(const Map &m, bool ownDarts) {
    int W = m.cellImage.width(), H = m.cellImage.height(); Pix p = pixels(m);
    std::map<u32, Box> cell[3];
    for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) {
        int v = p[y * W + x]; u32 t = v & 3, l = (u32)v >> 2;
        if (t > 2) return strf("pixel (%d,%d) has no cell type", x - 2, y - 2);
        u32 lim = t == CellTypeVertex ? m.maxNodeLabel() : t == CellTypeLine ? m.maxEdgeLabel() : m.maxFaceLabel();
        if (l >= lim) return strf("pixel (%d,%d) has label %u of type %u, the largest is %u", x - 2, y - 2, l, t, lim);
        Box &b = cell[t][l]; ++b.n; b.r |= Point2D(x - 2, y - 2);
    }
    static const char *nm[] = { "face", "edge", "node" }; u32 cnt[3] = { 0, 0, 0 };
    for (int t = 0; t < 3; ++t) {
        u32 lim = t == 2 ? m.maxNodeLabel() : t == 1 ? m.maxEdgeLabel() : m.maxFaceLabel();
        for (u32 l = 0; l < lim; ++l) {
            const Map::CellInfo &c = t == 2 ? (const Map::CellInfo &)m.node(l) : t == 1 ? (const Map::CellInfo &)m.edge(l) : (const Map::CellInfo &)m.face(l);
            bool has = cell[t].count(l);
            if (!c.initialized()) { if (has) return strf("%u pixels belong to %s %u, which does not exist", cell[t][l].n, nm[t], l); continue; }
            ++cnt[t];
            if (c.label != l) return strf("%s %u carries label %u", nm[t], l, c.label);
            if (!has) return strf("%s %u has no pixels", nm[t], l);
            if (cell[t][l].r != c.bounds) return strf("%s %u has bounds %s, its pixels span %s", nm[t], l, rectStr(c.bounds).c_str(), rectStr(cell[t][l].r).c_str());
            if (!(t == 0 && l == 0) && cell[t][l].n != c.size) return strf("%s %u has size %u, it has %u pixels", nm[t], l, c.size, cell[t][l].n);
        }
    }
    if (cnt[2] != m.nodeCount() || cnt[1] != m.edgeCount() || cnt[0] != m.faceCount()) return strf("counts say %u nodes %u edges %u faces, there are %u %u %u", m.nodeCount(), m.edgeCount(), m.faceCount(), cnt[2], cnt[1], cnt[0]);
    u32 V = cnt[2], E = cnt[1], F = cnt[0];
    // faces are exactly the 4-connected regions between the contours
    std::vector<int> comp; u32 nr = flood(p, W, H, isRegion, false, comp);
    std::map<int, int> regionOf; std::set<int> used;
    for (size_t i = 0; i < p.size(); ++i) if (isRegion(p[i])) {
        std::map<int, int>::iterator it = regionOf.find(comp[i]);
        if (it == regionOf.end()) { if (!used.insert(p[i] >> 2).second) return strf("face %d is not connected", p[i] >> 2); regionOf[comp[i]] = p[i] >> 2; }
        else if (it->second != p[i] >> 2) return strf("faces %d and %d are not separated by a contour", it->second, p[i] >> 2);
    }
    if (nr != F) return strf("%u regions in the image, %u faces", nr, F);
    u32 C = flood(p, W, H, isContour, true, comp);
    if ((long)V - (long)E + (long)F != 1 + (long)C) return strf("Euler: %u nodes - %u edges + %u faces != 1 + %u components", V, E, F, C);
    std::vector<int> ncomp; std::set<int> nodeUsed; std::map<int, int> nodeOf;
    flood(p, W, H, [](int v) { return (v & 3) == CellTypeVertex; }, true, ncomp);
    for (size_t i = 0; i < p.size(); ++i) if ((p[i] & 3) == CellTypeVertex) {
        if (!nodeOf.count(ncomp[i])) { if (!nodeUsed.insert(p[i] >> 2).second) return strf("node %d is not connected", p[i] >> 2); nodeOf[ncomp[i]] = p[i] >> 2; }
        else if (nodeOf[ncomp[i]] != p[i] >> 2) return strf("nodes %d and %d touch", nodeOf[ncomp[i]], p[i] >> 2);
    }
    // darts
    std::map<u32, int> dartSeen; std::map<u32, int> perEdge; u32 nd = 0;
    for (u32 l = 0; l < m.maxNodeLabel(); ++l) {
        const Map::NodeInfo &n = m.node(l); if (!n.initialized()) continue;
        Dart d(n.anchor); if (ownDarts && d.segmentation() != &m) return strf("the anchor of node %u belongs to another map", l);
        if (d.neighborCirculator().center()->type() != CellTypeVertex || d.startNodeLabel() != l) return strf("the anchor of node %u does not start there", l);
        u32 deg = 0;
        if (!d.isSingular()) do {
            if (++deg > 2 * E) return strf("the darts around node %u do not close", l);
            if (d.neighborCirculator().center()->type() != CellTypeVertex || d.startNodeLabel() != l) return strf("turning around node %u leads to node %u", l, d.startNodeLabel());
            if (d.edgeLabel() >= m.maxEdgeLabel() || !m.edge(d.edgeLabel()).initialized()) return strf("a dart of node %u has no edge", l);
            if (dartSeen[d.serialize()]++) return strf("dart met twice around node %u", l);
            ++perEdge[d.edgeLabel()]; ++nd;
        } while (d.nextSigma() != n.anchor);
        if (deg != n.degree) return strf("node %u has degree %u, %u darts start there", l, n.degree, deg);
    }
    if (nd != 2 * E) return strf("%u darts, %u edges", nd, E);
    for (u32 l = 0; l < m.maxEdgeLabel(); ++l) {
        const Map::EdgeInfo &e = m.edge(l); if (!e.initialized()) continue;
        if (ownDarts && (e.start.segmentation() != &m || e.end.segmentation() != &m)) return strf("the ends of edge %u belong to another map", l);
        if (perEdge[l] != 2) return strf("edge %u has %d ends", l, perEdge[l]);
        if (e.start.isSingular() || e.end.isSingular() || e.start.edgeLabel() != l || e.end.edgeLabel() != l) return strf("the ends of edge %u point elsewhere", l);
        if (!dartSeen.count(e.start.serialize()) || !dartSeen.count(e.end.serialize()) || e.start == e.end) return strf("the ends of edge %u are not its darts", l);
        Dart d(e.start); d.nextAlpha(); if (d != e.end) return strf("the opposite of edge %u's start is not its end", l);
        d.nextAlpha(); if (d != e.start) return strf("the opposite of edge %u's end is not its start", l);
        if (e.start.leftFaceLabel() != e.end.rightFaceLabel() || e.start.rightFaceLabel() != e.end.leftFaceLabel()) return strf("edge %u: faces differ from end to end", l);
        if (&e.start.startNode() != &m.node(e.start.startNodeLabel()) || &e.start.endNode() != &m.node(e.end.startNodeLabel()) || e.start.endNodeLabel() != e.end.startNodeLabel() || &e.start.edge() != &e) return strf("the end nodes of edge %u differ from end to end", l);
        if (e.isLoop() != (e.start.startNodeLabel() == e.end.startNodeLabel())) return strf("edge %u from node %u to node %u is said%s to be a loop", l, e.start.startNodeLabel(), e.end.startNodeLabel(), e.isLoop() ? "" : " not");
        if (e.isBridge() != (e.start.leftFaceLabel() == e.start.rightFaceLabel())) return strf("edge %u between faces %u and %u is said%s to be a bridge", l, e.start.leftFaceLabel(), e.start.rightFaceLabel(), e.isBridge() ? "" : " not");
        d.nextPhi(); d.prevPhi(); if (d != e.start) return strf("there and back along the contour from edge %u leads elsewhere", l);
    }
    std::map<u32, int> inContour; std::set<u32> isolated; u32 nc = 0;
    for (u32 l = 0; l < m.maxFaceLabel(); ++l) {
        const Map::FaceInfo &f = m.face(l); if (!f.initialized()) continue;
        if (f.contours.empty() && l) return strf("face %u has no contour", l);
        for (size_t k = 0; k < f.contours.size(); ++k) {
            ++nc; Dart d(f.contours[k]); u32 steps = 0;
            if (ownDarts && d.segmentation() != &m) return strf("a contour of face %u belongs to another map", l);
            if (d.neighborCirculator().center()->type() != CellTypeVertex || !m.node(d.startNodeLabel()).initialized()) return strf("contour %u of face %u does not start at a node", (u32)k, l);
            if (d.isSingular()) {
                u32 n = d.startNodeLabel(); if (m.node(n).degree) return strf("contour %u of face %u points to no edge of node %u", (u32)k, l, n);
                if (d.leftFaceLabel() != l) return strf("isolated node %u is a contour of face %u, but lies in %u", n, l, d.leftFaceLabel());
                if (!isolated.insert(n).second) return strf("isolated node %u is a contour twice", n);
                continue;
            }
            do {
                if (++steps > 2 * E) return strf("contour %u of face %u does not close", (u32)k, l);
                if (!dartSeen.count(d.serialize())) return strf("contour %u of face %u uses an unknown dart", (u32)k, l);
                if (d.leftFaceLabel() != l) return strf("contour %u of face %u runs along face %u", (u32)k, l, d.leftFaceLabel());
                if (inContour[d.serialize()]++) return strf("a dart of edge %u is in two contours", d.edgeLabel());
            } while (d.nextPhi() != f.contours[k]);
        }
    }
    if (inContour.size() != nd) return strf("%u of %u darts are in the contours", (u32)inContour.size(), nd);
    for (u32 l = 0; l < m.maxNodeLabel(); ++l) if (m.node(l).initialized() && !m.node(l).degree && !isolated.count(l)) return strf("isolated node %u is in no contour", l);
    if (nc != E + 2 * C - V) return strf("%u contours, expected %u", nc, E + 2 * C - V);
    return "";
}
static std::vector<Dart> allDarts(const Map &m) {
    std::vector<Dart> r;
    for (u32 l = 0; l < m.maxEdgeLabel(); ++l) if (m.edge(l).initialized()) { r.push_back(m.edge(l).start); r.push_back(m.edge(l).end); }
    return r;
}
static std::vector<Dart> isolatedNodes(const Map &m) {
    std::vector<Dart> r;
    for (u32 l = 0; l < m.maxNodeLabel(); ++l) if (m.node(l).initialized() && !m.node(l).degree) r.push_back(m.node(l).anchor);
    return r;
}
static bool bridge(const Dart &d) { return d.leftFaceLabel() == d.rightFaceLabel(); }
static bool mergeable(const Dart &d) { Dart o(d); o.nextSigma(); return d.startNode().degree == 2 && o.edgeLabel() != d.edgeLabel(); }

// ------------------------------------------------------------------ the simulated session
enum Kind { MF, RB, ME, IN, RE, RW };
static const char *kindName[] = { "mergeFaces", "removeBridge", "mergeEdges", "removeIsolatedNode", "removeEdge", "removeEdgeWithEnds" };
typedef std::map<u32, std::set<u32> > Members; // edge -> the original edges it consists of
struct Snap { std::string map, stats; Pix pix; Members mem; };
struct Held { std::unique_ptr<Level> l; };

struct Sim {
    const Script &sc; int w, h; bool rethin; bool outer;
    SegmentationData data; std::unique_ptr<Map> base; std::unique_ptr<EdgeProtection> prot; std::unique_ptr<Pyr> pyr;
    std::vector<Snap> levels; u32 composing; std::vector<Held> held; std::vector<u32> flags; std::string prevSig;
    std::vector<std::pair<std::string, std::unique_ptr<Map> > > copies;
    Sim(const Script &s) : sc(s), composing(0) {}
    Map &seg() { return const_cast<Map &>(pyr->topLevel().segmentation()); }
    Snap &cur() { return levels.back(); }

    bool fail(const char *p, const char *cls, const std::string &d) { violation(p, cls, d); return !g_viol.hit; }
    bool setup() {
        w = (int)sc.get("w", 8); h = (int)sc.get("h", 8); rethin = sc.get("rethin") != 0; outer = sc.get("outer") != 0;
        FImage img(w, h);
        for (int y = 0; y < h; ++y) { long row = sc.get(strf("r%02d", y)); for (int x = 0; x < w; ++x) img(x, y) = (row >> x) & 1; }
        try { base.reset(new Map(srcImageRange(img), 1.0f, sc.get("corner") ? CellTypeVertex : CellTypeLine)); }
        catch (vigra::StdException &e) { logf("image refused"); return fail("P19", "refused-image", e.what()) && false; }
        Rng r((u64)sc.get("values", 1));
        data.preparedOriginal_.resize(w, h); data.gradientMagnitude_.resize(w, h);
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { data.preparedOriginal_(x, y) = (float)r.below(40); data.gradientMagnitude_(x, y) = (float)r.below(60); }
        data.doEdgeRethinning = rethin;
        prot.reset(new EdgeProtection(base->maxEdgeLabel() + 1));
        SimStats st(*base, &data, prot.get());
        flags.assign(base->maxEdgeLabel() + 1, 0);
        Members mem;
        for (u32 l = 0; l < base->maxEdgeLabel(); ++l) if (base->edge(l).initialized()) { mem[l].insert(l); if (!base->edge(l).start.leftFaceLabel() || !base->edge(l).start.rightFaceLabel()) flags[l] = EPBorder; }
        pyr.reset(new Pyr(*base, st));
        levels.push_back(snap(pyr->topLevel(), mem));
        logf("start %dx%d nodes %u edges %u faces %u %016llx", w, h, base->nodeCount(), base->edgeCount(), base->faceCount(), (unsigned long long)hashStr(cur().map));
        g_stats.state(hashStr(cur().map));
        std::string e = structErr(*base, true);
        if (!e.empty()) return fail("P19", "construction", e);
        e = imageErr(img); if (!e.empty()) return fail("P19", "construction-image", e);
        // node centres of the statistics, once
        for (u32 l = 0; l < base->maxNodeLabel(); ++l) if (base->node(l).initialized()) {
            double sx = 0, sy = 0; u32 n = 0;
            for (int y = 0; y < h + 4; ++y) for (int x = 0; x < w + 4; ++x) if (base->cellImage(x, y) == CellPixel(CellTypeVertex, l)) { sx += x - 2; sy += y - 2; ++n; }
            if (std::fabs(st.nodeCenters_[l][0] - sx / n) > 1e-3 || std::fabs(st.nodeCenters_[l][1] - sy / n) > 1e-3) return fail("P20", "node-centre", strf("centre of node %u is (%g,%g), expected (%g,%g)", l, st.nodeCenters_[l][0], st.nodeCenters_[l][1], sx / n, sy / n));
        }
        return checkStats(pyr->topLevel(), cur(), true);
    }
    // the cells are those of the image: contour pixels belong to edges and nodes, all others to faces (unless they are enclosed by a node)
    std::string imageErr(const FImage &img) {
        std::vector<int> was((w + 4) * (h + 4), 0), comp; std::map<int, std::set<int> > lab;
        for (int y = 0; y < h + 4; ++y) for (int x = 0; x < w + 4; ++x) {
            bool frame = !x || !y || x == w + 3 || y == h + 3, border = !frame && (x == 1 || y == 1 || x == w + 2 || y == h + 2);
            was[y * (w + 4) + x] = frame ? 0 : border ? 1 : img(x - 2, y - 2) == 1.0f;
        }
        flood(was, w + 4, h + 4, [](int v) { return v == 0; }, false, comp);
        for (int y = 0; y < h + 4; ++y) for (int x = 0; x < w + 4; ++x) {
            CellPixel p = base->cellImage(x, y); int i = y * (w + 4) + x;
            if (was[i] && p.type() == CellTypeRegion) return strf("contour pixel (%d,%d) belongs to face %u", x - 2, y - 2, (u32)p.label());
            if (!was[i] && p.type() == CellTypeLine) return strf("pixel (%d,%d) off the contours belongs to edge %u", x - 2, y - 2, (u32)p.label());
            if (!was[i]) lab[comp[i]].insert((int)p.type() * 1000000 + (int)p.label());
        }
        for (std::map<int, std::set<int> >::iterator it = lab.begin(); it != lab.end(); ++it) if (it->second.size() != 1) return "a region of the image belongs to several cells";
        return "";
    }
    Snap snap(const Level &l, const Members &mem) { Snap s; s.map = dump(l.segmentation()); s.stats = dumpStats(l.cellStatistics()); s.pix = pixels(l.segmentation()); s.mem = mem; return s; }

    // ---- checks
    bool checkStats(const Level &lv, const Snap &s, bool all) {
        if (!g_viol.wants("P20")) return true;
        const Map &m = lv.segmentation(); const SimStats &st = lv.cellStatistics();
        std::map<u32, std::vector<double> > f, e; // label -> count, sum, squares
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
            CellPixel p = m.cellImage(x + 2, y + 2); double v = data.preparedOriginal_(x, y), g = data.gradientMagnitude_(x, y);
            if (p.type() == CellTypeRegion) { std::vector<double> &a = f[p.label()]; a.resize(3); a[0] += 1; a[1] += v; a[2] += v * v; }
            else if (p.type() == CellTypeLine) { std::vector<double> &a = e[p.label()]; a.resize(2); a[0] += 1; a[1] += g; }
        }
        if (!rethin) for (u32 l = 1; l < m.maxFaceLabel(); ++l) if (m.face(l).initialized()) {
            std::vector<double> a = f[l]; a.resize(3); const StatisticFunctor<float> &q = st.faceStatistics_[l];
            if (q.count_ != a[0] || q.sum_ != a[1] || q.squareSum_ != a[2]) return fail("P20", "face", strf("face %u: statistics say %ld pixels, sum %g, squares %g; its pixels give %g %g %g", l, q.count_, (double)q.sum_, (double)q.squareSum_, a[0], a[1], a[2]));
        }
        for (u32 l = 0; l < m.maxEdgeLabel(); ++l) if (m.edge(l).initialized()) {
            const FindAverage<float> &q = st.edgeStatistics_[l]; const Map::EdgeInfo &ei = m.edge(l); std::vector<double> a = e[l]; a.resize(2);
            if (ei.start.leftFaceLabel() && ei.start.rightFaceLabel()) {
                if (!rethin && (q.count_ != a[0] || q.sum_ != a[1])) return fail("P20", "edge", strf("edge %u: statistics say %g pixels, sum %g; its pixels give %g %g", l, (double)q.count_, (double)q.sum_, a[0], a[1]));
            } else if ((s.mem.count(l) ? borderOnly(s.mem.find(l)->second) : false) && q.average() != NumericTraits<float>::max()) return fail("P20", "border-edge", strf("border edge %u has mean gradient %g", l, (double)q.average()));
            bool any = false; std::set<u32> chain; u32 c = l;
            for (std::set<u32>::const_iterator it = s.mem.find(l)->second.begin(); it != s.mem.find(l)->second.end(); ++it) any = any || flags[*it];
            while (chain.insert(c).second && c < st.mergedEdges_.size()) c = st.mergedEdges_[c];
            if (chain != s.mem.find(l)->second) return fail("P20", "merged-edges", strf("edge %u consists of %u original edges, the statistics know %u", l, (u32)s.mem.find(l)->second.size(), (u32)chain.size()));
            if (st.edgeProtected(l) != any) return fail("P20", "protection", strf("edge %u is%s protected, of its %u original edges %s is", l, any ? " not" : "", (u32)s.mem.find(l)->second.size(), any ? "one" : "none"));
        }
        for (u32 l = 0; l < (u32)flags.size(); ++l) for (u32 f = 1; f <= 4; f *= 2) {
            if (prot->edgeProtected(l, (EdgeProtection::FlagType)f) != ((flags[l] & f) != 0)) return fail("P20", "protection-flag", strf("original edge %u is%s protected with flag %u", l, flags[l] & f ? " not" : "", f));
            u32 k = (l + f) % (u32)flags.size(); if (prot->sameProtection(l, k) != (flags[l] == flags[k])) return fail("P20", "protection-same", strf("protection %u of edge %u and %u of edge %u", flags[l], l, flags[k], k));
        }
        return true;
    }
    bool borderOnly(const std::set<u32> &mem) { for (std::set<u32>::const_iterator it = mem.begin(); it != mem.end(); ++it) { const Map::EdgeInfo &e = base->edge(*it); if (e.start.leftFaceLabel() && e.start.rightFaceLabel()) return false; } return true; }
    bool checkLevel(const Level &l, u32 index, const char *how) {
        const Snap &s = levels[index];
        if (l.index() != index) return fail("P18", "index", strf("%s level %u gives a level that says it is %u", how, index, l.index()));
        if (dump(l.segmentation()) != s.map) return fail("P18", "level-differs", strf("%s level %u of %u: the segmentation is not the one this level had when it was made", how, index, (u32)levels.size()));
        if (dumpStats(l.cellStatistics()) != s.stats) return fail("P18", "level-statistics", strf("%s level %u of %u: the statistics are not the ones this level had when it was made", how, index, (u32)levels.size()));
        if (l.pyramid() != pyr.get()) return fail("P18", "level-pyramid", "level of another pyramid");
        if (g_viol.wants("P19")) { std::string e = structErr(l.segmentation(), true); if (!e.empty()) return fail("P19", "level-structure", strf("%s level %u: %s", how, index, e.c_str())); }
        g_stats.inc("levels-compared");
        return checkStats(l, s, false);
    }
    bool checkTop(const char *what) {
        u32 expect = levels.size() - 1 - (composing ? 1 : 0);
        if (pyr->levelCount() != levels.size()) return fail("P18", "level-count", strf("after %s: %u levels, expected %u", what, pyr->levelCount(), (u32)levels.size()));
        if (pyr->topLevel().index() != expect) return fail("P18", "top-index", strf("after %s: the top level says it is level %u, expected %u", what, pyr->topLevel().index(), expect));
        if ((u32)(pyr->historyEnd() - pyr->historyBegin()) != levels.size() - 1) return fail("P18", "history", strf("after %s: the history has the wrong length", what));
        if (dump(seg()) != cur().map) return fail("P18", "top-changed", strf("after %s: the top level is not in the expected state", what));
        if (dumpStats(pyr->topLevel().cellStatistics()) != cur().stats) return fail("P18", "top-statistics", strf("after %s: the statistics of the top level are not in the expected state", what));
        return true;
    }
    // pixels before/after one successful elementary operation (P19)
    bool checkEffect(Kind k, const Pix &before, const Pix &after, u32 edge, u32 edge2, u32 f1, u32 f2, const std::set<u32> &nodes, u32 survivor) {
        u32 t = k == ME ? CellTypeLine : CellTypeRegion;
        if (k == ME ? (survivor != edge && survivor != edge2) : (survivor != f1 && survivor != f2)) return fail("P19", "survivor", strf("%s returned cell %u", kindName[k], survivor));
        for (size_t i = 0; i < before.size(); ++i) {
            u32 l = (u32)before[i] >> 2, ty = before[i] & 3; bool moves;
            if (k == ME) moves = (ty == CellTypeLine && (l == edge || l == edge2)) || (ty == CellTypeVertex && nodes.count(l));
            else moves = (ty == CellTypeRegion && (l == f1 || l == f2)) || (ty == CellTypeLine && k != IN && l == edge) || (ty == CellTypeVertex && nodes.count(l));
            int want = moves ? (int)(survivor << 2 | t) : before[i];
            if (after[i] != want) return fail("P19", "pixels", strf("%s: pixel %d,%d became cell %d of type %d, expected %d of type %d", kindName[k], (int)(i % (w + 4)) - 2, (int)(i / (w + 4)) - 2, after[i] >> 2, after[i] & 3, want >> 2, want & 3));
        }
        return true;
    }
    std::vector<Dart> candidates(const Map &m, Kind k, bool valid) {
        std::vector<Dart> all = allDarts(m), iso = isolatedNodes(m), r;
        if (k == IN ? !valid : valid) for (size_t i = 0; i < all.size(); ++i) {
            const Dart &d = all[i]; bool touchesOuter = !d.leftFaceLabel() || !d.rightFaceLabel();
            if (valid && touchesOuter && !outer && k != ME) continue;
            bool ok = k == MF ? !bridge(d) : k == RB ? bridge(d) : k == ME ? mergeable(d) : k == IN ? false : true;
            if (ok == valid) r.push_back(d);
        }
        else if (k == IN) r = iso;
        else {
            for (size_t i = 0; i < all.size(); ++i) if (k == MF ? bridge(all[i]) : k == RB ? !bridge(all[i]) : k == ME ? !mergeable(all[i]) : false) r.push_back(all[i]);
            r.insert(r.end(), iso.begin(), iso.end());
        }
        return r;
    }
    Map::CellInfo &perform(Kind k, const Dart &d) {
        switch (k) { case MF: return pyr->mergeFaces(d); case RB: return pyr->removeBridge(d); case ME: return pyr->mergeEdges(d); case IN: return pyr->removeIsolatedNode(d); case RE: return pyr->removeEdge(d); default: return pyr->removeEdgeWithEnds(d); }
    }
    static void performDirect(Map &m, Kind k, const Dart &d) {
        switch (k) { case MF: m.mergeFaces(d); break; case RB: m.removeBridge(d); break; case ME: m.mergeEdges(d); break; case IN: m.removeIsolatedNode(d); break; default: break; }
    }
    bool elementary(const Op &o, Kind k) {
        std::vector<Dart> c = candidates(seg(), k, true);
        if (c.empty()) return true;
        Dart d = c[o.a % c.size()];
        bool sing = d.isSingular(); u32 e = sing ? 0 : d.edgeLabel(), e2 = 0, f1 = d.leftFaceLabel(), f2 = sing ? f1 : d.rightFaceLabel(); std::set<u32> nodes;
        Kind real = k;
        if (k == RE || k == RW) real = f1 == f2 ? RB : MF;
        if (k == ME) { Dart x(d); x.nextSigma(); e2 = x.edgeLabel(); nodes.insert(d.startNodeLabel()); }
        if (k == IN) nodes.insert(d.startNodeLabel());
        if (k == RW) { u32 a = d.edge().start.startNodeLabel(), b = d.edge().end.startNodeLabel(); if (a == b) { if (d.startNode().degree == 2) nodes.insert(a); } else { if (seg().node(a).degree == 1) nodes.insert(a); if (seg().node(b).degree == 1) nodes.insert(b); } }
        Snap before = cur(); bool hookF = false, allocF = false; long at = 0;
        for (size_t i = 0; i < o.faults.size(); ++i) { at = o.faults[i].at; if (o.faults[i].kind == "hook") hookF = true; else if (o.faults[i].kind == "alloc") allocF = true; }
        pyr->topLevel().cellStatistics().clearLastChanges();
        if (!pyr->topLevel().cellStatistics().lastChanges().isEmpty()) return fail("P20", "last-changes-kept", "changes are still reported after they were cleared");
        std::string thrown; u32 survivor = 0; long cnt = 0;
        if (hookF) { g_hook.armed = true; g_hook.countdown = at; g_hook.fired = false; }
        if (allocF) { g_alloc.armed = true; g_alloc.countdown = at; g_alloc.fired = false; }
        try { Map::CellInfo &r = perform(k, d); survivor = r.label; cnt = 1; g_alloc.armed = g_hook.armed = false; }
        catch (HookFault &) { g_alloc.armed = g_hook.armed = false; thrown = "hook"; }
        catch (std::bad_alloc &) { g_alloc.armed = g_hook.armed = false; thrown = "bad_alloc"; }
        catch (std::exception &x) { g_alloc.armed = g_hook.armed = false; thrown = x.what(); }
        bool fired = (hookF && g_hook.fired) || (allocF && g_alloc.fired); (void)cnt;
        if (hookF) g_stats.inc(g_hook.fired ? "fault.hook" : "fault.hook-not-reached");
        if (allocF) g_stats.inc(g_alloc.fired ? "fault.alloc" : "fault.alloc-not-reached");
        g_hook.fired = g_alloc.fired = false;
        logf("%s edge %u faces %u/%u -> %s", kindName[k], e, f1, f2, thrown.empty() ? strf("cell %u", survivor).c_str() : thrown.substr(0, 60).c_str());
        if (!thrown.empty()) {
            if (!fired) { if (!fail("P19", "valid-refused", strf("%s of a valid dart failed: %s", kindName[k], thrown.substr(0, 200).c_str()))) return false; return false; }
            if (thrown != "hook" && thrown != "bad_alloc" && !fail("P18", "failure-replaced", strf("%s: the failure was replaced by: %s", kindName[k], thrown.substr(0, 300).c_str()))) return false;
            return checkTop("a failed operation"); // nothing happened
        }
        if (fired) return fail("P18", "failure-lost", strf("%s: an injected failure was swallowed", kindName[k]));
        // success
        Members mem = before.mem;
        if (k == ME) { std::set<u32> u = mem[e]; u.insert(mem[e2].begin(), mem[e2].end()); mem.erase(e); mem.erase(e2); mem[survivor] = u; }
        else if (k != IN) mem.erase(e);
        Snap now = snap(pyr->topLevel(), mem);
        if (g_log.verbose && getenv("SIM_PIX")) for (int y = 0; y < h + 4; ++y) { for (int x = 0; x < w + 4; ++x) for (int t = 0; t < 1; ++t) { int q = now.pix[y * (w + 4) + x]; printf("%c%-2d ", ".-N?"[q & 3], q >> 2); } puts(""); }
        if (!(k == ME && rethin) && !checkEffect(real, before.pix, now.pix, e, e2, f1, f2, nodes, survivor)) return false;
        if (g_viol.wants("P19")) { std::string x = structErr(seg(), true); if (!x.empty()) return fail("P19", "structure", strf("after %s: %s", kindName[k], x.c_str())); }
        if (composing) levels.back() = now; else levels.push_back(now);
        if (!checkStats(pyr->topLevel(), now, true)) return false;
        if (g_viol.wants("P20")) {
            Rect2D lc = pyr->topLevel().cellStatistics().lastChanges();
            for (size_t i = 0; i < now.pix.size(); ++i) if (now.pix[i] != before.pix[i]) { Point2D q((int)(i % (w + 4)) - 2, (int)(i / (w + 4)) - 2); if (!lc.contains(q)) return fail("P20", "last-changes", strf("%s changed pixel %d,%d outside of lastChanges %s", kindName[k], q.x, q.y, rectStr(lc).c_str())); }
        }
        g_stats.inc("steps"); g_stats.inc(std::string("op.") + kindName[k]); g_stats.state(hashStr(now.map));
        logf("  -> %016llx", (unsigned long long)hashStr(now.map));
        return checkTop(kindName[k]);
    }
    bool invalid(const Op &o) {
        Kind k = (Kind)(o.b % 4); std::vector<Dart> c = candidates(seg(), k, false);
        if (c.empty()) return true;
        Dart d = c[o.a % c.size()]; bool refused = false; std::string what;
        try { perform(k, d); } catch (vigra::PreconditionViolation &x) { refused = true; what = "precondition"; } catch (std::exception &x) { refused = true; what = x.what(); }
        logf("invalid %s -> %s", kindName[k], refused ? what.substr(0, 40).c_str() : "accepted");
        g_stats.inc("fault.invalid-call");
        if (!refused) return fail("P19", "invalid-accepted", strf("%s of a dart it cannot apply to was accepted", kindName[k]));
        if (what != "precondition" && !fail("P19", "invalid-other", strf("%s of a dart it cannot apply to failed otherwise: %s", kindName[k], what.substr(0, 300).c_str()))) return false;
        return checkTop("a refused operation");
    }
    bool badIndex(const Op &o) {
        u32 idx = (u32)levels.size() + o.b % 3; std::string what;
        try {
            if (o.a % 3 == 0) { std::unique_ptr<Level> l(pyr->getLevel(idx)); }
            else { std::unique_ptr<Level> l(pyr->getLevel(o.b % (u32)(levels.size() - (composing ? 1 : 0)))); if (o.a % 3 == 1) l->gotoLevel(idx); else l->approachLevel(idx, 1 + o.c % 5); }
            what = "accepted";
        } catch (vigra::PreconditionViolation &) {} catch (std::exception &x) { what = x.what(); }
        g_stats.inc("fault.invalid-level");
        logf("level %u requested -> %s", idx, what.empty() ? "refused" : what.substr(0, 40).c_str());
        if (!what.empty()) return fail("P18", "bad-index", strf("level %u of %u requested: %s", idx, (u32)levels.size(), what.substr(0, 200).c_str()));
        return checkTop("a refused request");
    }
    void dropHeld(u32 above) { for (size_t i = 0; i < held.size();) if (held[i].l->index() > above) held.erase(held.begin() + i); else ++i; }
    bool covered(const Level &l, const Pix &before, const char *how) {
        Pix now = pixels(l.segmentation()); Rect2D lc = l.cellStatistics().lastChanges();
        for (size_t i = 0; i < now.size(); ++i) if (now[i] != before[i]) { Point2D q((int)(i % (w + 4)) - 2, (int)(i / (w + 4)) - 2); if (!lc.contains(q)) return fail("P20", "last-changes", strf("%s changed pixel %d,%d outside of lastChanges %s", how, q.x, q.y, rectStr(lc).c_str())); }
        return true;
    }
    bool roam(Level &l, u32 idx, u32 c) {
        u32 from = l.index(); Pix before = pixels(l.segmentation());
        l.cellStatistics().clearLastChanges();
        if (c % 2) { l.gotoLevel(idx); logf("gotoLevel %u->%u", from, idx); return checkLevel(l, idx, "gotoLevel") && covered(l, before, "gotoLevel"); }
        u32 steps = 1 + (c / 2) % 4, calls = 0; bool there = false;
        while (!there) {
            there = l.approachLevel(idx, steps); ++calls;
            if (there != (l.index() == idx)) return fail("P18", "approach-result", strf("approachLevel(%u) returned %d at level %u", idx, (int)there, l.index()));
            if (l.index() > idx) return fail("P18", "approach-beyond", strf("approachLevel(%u) went to level %u", idx, l.index()));
            if (!checkLevel(l, l.index(), "approachLevel to") || !covered(l, before, "approachLevel")) return false;
            if (calls > levels.size() + 1) return fail("P18", "approach-stuck", strf("approachLevel(%u, %u) did not arrive after %u calls", idx, steps, calls));
        }
        logf("approachLevel %u->%u in %u", from, idx, calls);
        return true;
    }
    bool fetch(u32 idx, const Op *o) {
        std::unique_ptr<Level> l; bool threw = false; bool allocF = false; long at = 0;
        if (o) for (size_t i = 0; i < o->faults.size(); ++i) if (o->faults[i].kind == "alloc") { allocF = true; at = 1 + o->faults[i].at * 7; }
        if (allocF) { g_alloc.armed = true; g_alloc.countdown = at; g_alloc.fired = false; }
        try { l.reset(pyr->getLevel(idx)); } catch (std::bad_alloc &) { threw = true; }
        g_alloc.armed = false; if (allocF) g_stats.inc(g_alloc.fired ? "fault.alloc" : "fault.alloc-not-reached");
        bool fired = allocF && g_alloc.fired; g_alloc.fired = false;
        logf("getLevel %u%s", idx, threw ? " bad_alloc" : "");
        if (threw) return fired ? checkTop("a failed getLevel") : fail("P18", "get-failed", "getLevel failed");
        if (fired) return fail("P18", "failure-lost", "getLevel swallowed a failed allocation");
        bool ok = checkLevel(*l, idx, "getLevel");
        if (ok && o && !composing && held.size() < 3) { Held x; x.l = std::move(l); held.push_back(std::move(x)); }
        return ok;
    }
    bool step(const Op &o) {
        const std::string &n = o.name; u32 done = (u32)levels.size() - (composing ? 1 : 0); // finished levels
        std::string sig = n + (composing ? "+" : "") + (o.faults.empty() ? "" : "!" + o.faults[0].kind); g_stats.sig(prevSig + ">" + sig); prevSig = sig;
        if (n == "mf") return elementary(o, MF);
        if (n == "rb") return elementary(o, RB);
        if (n == "me") return elementary(o, ME);
        if (n == "in") return elementary(o, IN);
        if (n == "re") return elementary(o, RE);
        if (n == "rw") return elementary(o, RW);
        if (n == "bad") return invalid(o);
        if (n == "badidx") return badIndex(o);
        if (n == "begin") { if (composing > 2) return true; pyr->beginComposite(); logf("beginComposite"); if (!composing++) levels.push_back(cur()); return checkTop("beginComposite"); }
        if (n == "change") {
            if (composing > 2 || (!composing && levels.size() < 2)) return true;
            pyr->changeIntoComposite(); logf("changeIntoComposite"); g_stats.inc("op.changeIntoComposite");
            if (!composing++) dropHeld((u32)levels.size() - 2);
            return checkTop("changeIntoComposite");
        }
        if (n == "end") { if (!composing) return true; pyr->endComposite(); --composing; logf("endComposite"); g_stats.inc("op.composite"); return checkTop("endComposite"); }
        if (n == "get") return fetch(o.a % levels.size(), &o);
        if (n == "cut") {
            u32 idx = o.a % done; if (o.b % 4 == 0) idx = done > 1 + o.b % 3 ? done - 2 - o.b % 3 % (done - 1) : 0; if (idx >= done) idx = done - 1;
            if (composing) { // refused while a composite is open
                bool refused = false; try { pyr->cutAbove(idx); } catch (vigra::PreconditionViolation &) { refused = true; }
                logf("cutAbove %u while composing -> %s", idx, refused ? "refused" : "accepted");
                if (!refused) return fail("P18", "cut-composing", "cutAbove inside a composite was accepted");
                return checkTop("a refused cutAbove");
            }
            if (o.c % 3 == 0) { std::unique_ptr<Level> l(pyr->getLevel(idx)); pyr->cutAbove(*l); } else pyr->cutAbove(idx);
            logf("cutAbove %u of %u", idx, (u32)levels.size()); g_stats.inc("op.cut");
            levels.resize(idx + 1); dropHeld(idx);
            return checkTop("cutAbove");
        }
        if (n == "store") {
            if (composing) return true;
            if (held.size() && o.a % 2) pyr->storeCheckpoint(*held[o.b % held.size()].l); else pyr->storeCheckpoint(pyr->topLevel());
            logf("storeCheckpoint"); g_stats.inc("op.checkpoint"); return checkTop("storeCheckpoint");
        }
        if (n == "roam") { // a level kept by the application moves through the pyramid
            if (held.empty()) return true;
            return roam(*held[o.b % held.size()].l, o.a % done, o.c);
        }
        if (n == "topgo") { // the application shows another level in place of the top, and returns
            if (composing) return true;
            return roam(pyr->topLevel(), o.a % done, o.c) && roam(pyr->topLevel(), done - 1, o.b) && checkTop("returning to the top level");
        }
        if (n == "copy") {
            std::unique_ptr<Map> c;
            if (o.a % 2 && copies.size()) { *copies[o.b % copies.size()].second = seg(); copies[o.b % copies.size()].first = cur().map; return copyCheck(*copies[o.b % copies.size()].second, cur().map); }
            bool allocF = false; long at = 0; for (size_t i = 0; i < o.faults.size(); ++i) if (o.faults[i].kind == "alloc") { allocF = true; at = o.faults[i].at; }
            if (allocF) { g_alloc.armed = true; g_alloc.countdown = at; g_alloc.fired = false; }
            try { c.reset(new Map(seg())); } catch (std::bad_alloc &) {}
            g_alloc.armed = false; if (allocF) g_stats.inc(g_alloc.fired ? "fault.alloc" : "fault.alloc-not-reached"); g_alloc.fired = false;
            logf("copy%s", c ? "" : " bad_alloc");
            if (!c) return checkTop("a failed copy");
            if (!copyCheck(*c, cur().map)) return false;
            if (copies.size() < 3) copies.push_back(std::make_pair(cur().map, std::move(c)));
            return checkTop("copying");
        }
        if (n == "work") { // a copy goes its own way
            if (copies.empty()) return true;
            Map &m = *copies[o.b % copies.size()].second; Kind k = (Kind)(o.c % 4); std::vector<Dart> c = candidates(m, k, true); if (c.empty()) return true;
            Pix before = pixels(m); Dart d = c[o.a % c.size()];
            performDirect(m, k, d); copies[o.b % copies.size()].first = dump(m);
            logf("copy: %s %016llx", kindName[k], (unsigned long long)hashStr(dump(m))); g_stats.inc("op.on-copy");
            if (g_viol.wants("P19")) { std::string e = structErr(m, true); if (!e.empty()) return fail("P19", "copy-structure", strf("after %s on a copy: %s", kindName[k], e.c_str())); }
            if (dump(seg()) != cur().map) return fail("P19", "copy-shared", strf("%s on a copy changed the original", kindName[k]));
            return checkTop("an operation on a copy");
        }
        if (n == "restart") { // only the cell image survives
            CellImage img(seg().cellImage); std::unique_ptr<Map> m; std::string what;
            try { m.reset(new Map(img)); } catch (vigra::StdException &x) { what = x.what(); }
            bool corner = seg().cellImage(1, 1).type() == CellTypeVertex;
            logf("restart -> %s", m ? "ok" : "refused"); g_stats.inc("fault.restart");
            if (!m) return corner ? fail("P19", "restart-refused", "the cell image of a valid map is refused: " + what.substr(0, 200)) : true;
            std::string e = structErr(*m, true); if (!e.empty()) return fail("P19", "restart-structure", "map made from a cell image: " + e);
            if (pixels(*m) != cur().pix) return fail("P19", "restart-pixels", "map made from a cell image has other pixels");
            if (m->nodeCount() != seg().nodeCount() || m->edgeCount() != seg().edgeCount() || m->faceCount() != seg().faceCount()) return fail("P19", "restart-counts", "map made from a cell image has other cells");
            return checkTop("an import");
        }
        if (n == "prot") {
            if (!cur().mem.size()) return true;
            Members::iterator it = cur().mem.begin(); std::advance(it, o.a % cur().mem.size()); u32 flag = 1u << (1 + o.b % 2); bool on = o.c % 3 != 0, change = false;
            for (std::set<u32>::iterator j = it->second.begin(); j != it->second.end(); ++j) { u32 old = flags[*j]; if (on) flags[*j] |= flag; else flags[*j] &= ~flag; change = change || old != flags[*j]; }
            bool r = pyr->topLevel().cellStatistics().protectEdge(it->first, (EdgeProtection::FlagType)flag, on);
            logf("protect edge %u flag %u %d -> %d", it->first, flag, (int)on, (int)r); g_stats.inc("op.protect");
            if (r != change) return fail("P20", "protect-result", strf("protectEdge(%u) returned %d, it changed %s", it->first, (int)r, change ? "something" : "nothing"));
            return checkStats(pyr->topLevel(), cur(), true);
        }
        return true;
    }
    bool copyCheck(const Map &c, const std::string &expect) {
        if (dump(c) != expect) return fail("P19", "copy-differs", "a copy differs from its original");
        if (g_viol.wants("P19")) { std::string e = structErr(c, true); if (!e.empty()) return fail("P19", "copy-structure", "copy: " + e); }
        return true;
    }
    bool finish() {
        g_opIndex = (long)sc.ops.size();
        for (u32 i = 0; i < levels.size(); ++i) if (!fetch(i, 0)) return false;
        for (size_t i = 0; i < held.size(); ++i) if (!checkLevel(*held[i].l, held[i].l->index(), "kept")) return false;
        for (size_t i = 0; i < copies.size(); ++i) if (!copyCheck(*copies[i].second, copies[i].first)) return false;
        return checkTop("the run");
    }
};
void runScript(const Script &s) {
    static std::ostringstream sink; std::streambuf *old = std::cerr.rdbuf(sink.rdbuf()); sink.str("");
    struct Restore { std::streambuf *b; ~Restore() { std::cerr.rdbuf(b); } } restore = { old };
    g_hook.armed = g_hook.fired = false;
    Sim sim(s); g_opIndex = -1;
    if (!sim.setup()) return;
    for (size_t i = 0; i < s.ops.size(); ++i) {
        g_opIndex = (long)i; g_alloc.opTotal = 0; g_alloc.opLimit = 20000000;
        bool ok = sim.step(s.ops[i]); g_alloc.opLimit = 0; sink.str("");
        if (!ok || g_viol.hit) return;
    }
    sim.finish();
}
// ------------------------------------------------------------------ generator
static bool badConfig(const std::vector<std::vector<int> > &c, int x, int y, bool corner) {
    static const int dx[] = { 1, 1, 0, -1, -1, -1, 0, 1 }, dy[] = { 0, -1, -1, -1, 0, 1, 1, 1 }; // east, north-east, ... (y down)
    int conf = 0; // bits from south-east downwards, as initCellImage() collects them
    for (int i = 7, n = 0; n < 8; --i, ++n) conf = conf << 1 | c[y + dy[i]][x + dx[i]];
    CellType t = cellConfigurations[conf];
    return t == CellTypeError || (corner && t == CellTypeErrorOrLine);
}
static bool redundant(const std::vector<std::vector<int> > &c, int x, int y, bool keepCorners) {
    static const int dx[] = { 1, 1, 0, -1, -1, -1, 0, 1 }, dy[] = { 0, -1, -1, -1, 0, 1, 1, 1 };
    int n[8], nb = 0, bg = 0; for (int i = 0; i < 8; ++i) { n[i] = c[y + dy[i]][x + dx[i]]; nb += n[i]; }
    if (nb < 2) return false;
    if (keepCorners && nb == 2 && n[0] + n[2] + n[4] + n[6] == 2) { // the corner of a plain staircase
        bool plain = true;
        for (int i = 0; i < 8; i += 2) if (n[i]) { int k = 0; for (int j = 0; j < 8; ++j) k += c[y + dy[i] + dy[j]][x + dx[i] + dx[j]]; plain = plain && k <= 3; }
        if (plain) return false;
    }
    for (int i = 0; i < 8; i += 2) if (!n[i] && (n[(i + 1) % 8] || n[(i + 2) % 8])) ++bg; // 4-connected background components at 4-neighbours
    return bg == 1;
}
Script generateScript(u64 seed, const std::string &prop) {
    Rng r(seed * 2246822519u + 777); Script s;
    int w = r.range(4, 20), h = r.range(4, 16); bool corner = r.chance(0.3);
    s.cfg["w"] = w; s.cfg["h"] = h; s.cfg["corner"] = corner; s.cfg["values"] = r.below(1 << 20);
    s.cfg["rethin"] = r.chance(prop == "P20" ? 0.15 : 0.35); s.cfg["outer"] = r.chance(0.25);
    std::vector<std::vector<int> > c(h + 4, std::vector<int>(w + 4, 0));
    for (int y = 1; y < h + 3; ++y) for (int x = 1; x < w + 3; ++x) if (y == 1 || x == 1 || y == h + 2 || x == w + 2) c[y][x] = 1;
    int strokes = r.range(1, 2 + w * h / 18);
    for (int i = 0; i < strokes; ++i) {
        int x = r.range(0, w - 1), y = r.range(0, h - 1), k = r.below(5);
        if (k == 0) { int x2 = r.range(0, w - 1), y2 = r.range(0, h - 1); for (int t = std::min(x, x2); t <= std::max(x, x2); ++t) c[y + 2][t + 2] = c[y2 + 2][t + 2] = 1; for (int t = std::min(y, y2); t <= std::max(y, y2); ++t) c[t + 2][x + 2] = c[t + 2][x2 + 2] = 1; }
        else if (k == 1) { int l = r.range(1, w); for (int t = 0; t < l && x + t < w; ++t) c[y + 2][x + t + 2] = 1; }
        else if (k == 2) { int l = r.range(1, h); for (int t = 0; t < l && y + t < h; ++t) c[y + t + 2][x + 2] = 1; }
        else if (k == 3) { int l = r.range(1, w), sg = r.chance(0.5) ? 1 : -1; for (int t = 0; t < l; ++t) { int X = x + t, Y = y + sg * t; if (X < w && Y >= 0 && Y < h) c[Y + 2][X + 2] = 1; } }
        else { int l = r.range(1, 12); for (int t = 0; t < l; ++t) { c[y + 2][x + 2] = 1; x = std::max(0, std::min(w - 1, x + r.range(-1, 1))); y = std::max(0, std::min(h - 1, y + r.range(-1, 1))); } }
    }
    for (int pass = 0; pass < 200; ++pass) { // thin until every configuration is legal
        bool bad = false;
        for (int y = 1; y < h + 3; ++y) for (int x = 1; x < w + 3; ++x) if (c[y][x] && badConfig(c, x, y, corner)) {
            bad = true; int X = x, Y = y;
            if (X < 2 || Y < 2 || X > w + 1 || Y > h + 1) { bool f = false; for (int k = -1; k <= 1 && !f; ++k) for (int j = -1; j <= 1 && !f; ++j) { int a = x + j, b = y + k; if (a >= 2 && b >= 2 && a <= w + 1 && b <= h + 1 && c[b][a]) { X = a; Y = b; f = true; } } }
            if (X >= 2 && Y >= 2 && X <= w + 1 && Y <= h + 1) c[Y][X] = 0;
        }
        if (!bad) break;
    }
    bool corners = r.chance(0.4);
    for (bool more = true; more;) { // remove simple points that are not line ends
        more = false;
        for (int y = 2; y < h + 2; ++y) for (int x = 2; x < w + 2; ++x) if (c[y][x] && redundant(c, x, y, corners)) { c[y][x] = 0; more = true; }
    }
    for (int y = 0; y < h; ++y) { long v = 0; for (int x = 0; x < w; ++x) if (c[y + 2][x + 2]) v |= 1l << x; s.cfg[strf("r%02d", y)] = v; }
    static const char *names[] = { "mf", "mf", "rb", "rb", "me", "me", "in", "re", "rw", "bad", "badidx", "begin", "end", "end", "change", "get", "cut", "store", "roam", "topgo", "copy", "work", "restart", "prot" };
    std::vector<std::string> mix;
    for (size_t i = 0; i < sizeof names / sizeof *names; ++i) if (r.chance(0.65)) mix.push_back(names[i]);
    if (mix.empty()) mix.push_back("re");
    double fp = r.chance(0.5) ? r.real(0, 0.4) : 0; int n = r.range(5, 60);
    for (int i = 0; i < n; ++i) {
        Op o; o.name = mix[r.below(mix.size())]; o.a = r.below(1 << 28); o.b = r.below(1 << 28); o.c = r.below(1 << 28);
        if (r.chance(fp)) { Fault f; f.kind = r.chance(0.5) ? "hook" : "alloc"; f.at = f.kind == "hook" ? r.range(1, 4) : r.range(1, 9); f.arg = 0; o.faults.push_back(f); }
        s.ops.push_back(o);
    }
    return s;
}
