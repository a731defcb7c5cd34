// Canonical dump of a GeoMap through its public interface, independent
// reference model of the Euler operations, and from-scratch geometry oracles.
#ifndef SIM_MAPDUMP_HPP
#define SIM_MAPDUMP_HPP
#include "common.hpp"
#include "cppmap.hxx"
#include "cppmap_utils.hxx"
#include <algorithm>
#include <cmath>

typedef std::pair<double, double> Pt;
struct NodeD { double x, y; int anchor; };
struct EdgeD { u32 s, e, l, r, flags; std::vector<Pt> pts; };
struct FaceD { u32 flags, pixelArea; std::vector<int> contours; /* canonical darts, original order */ std::vector<int> anchors; };

struct Dump {
    bool init, hasLab, sorted;
    u32 nodeCount, edgeCount, faceCount, maxNode, maxEdge, maxFace;
    int w, h;
    std::map<u32, NodeD> nodes;
    std::map<u32, EdgeD> edges;
    std::map<int, int> sigma, isigma;
    std::map<u32, FaceD> faces;
    std::vector<int> raw, lab;      // label image, raw counts / looked-up labels
    std::vector<u32> lut;

    u32 startOf(int d) const { const EdgeD &e = edges.find(std::abs(d))->second; return d > 0 ? e.s : e.e; }
    u32 endOf(int d) const { return startOf(-d); }
    u32 leftOf(int d) const { const EdgeD &e = edges.find(std::abs(d))->second; return d > 0 ? e.l : e.r; }
    int phi(int d) const { return isigma.find(-d)->second; }
    bool isolated(u32 n) const {
        for (std::map<u32, EdgeD>::const_iterator it = edges.begin(); it != edges.end(); ++it)
            if (it->second.s == n || it->second.e == n) return false;
        return true;
    }
    std::vector<int> orbit(int d) const { std::vector<int> o; int x = d; do { o.push_back(x); x = phi(x); } while (x != d && o.size() < 100000); return o; }
    int canon(int d) const { std::vector<int> o = orbit(d); return *std::min_element(o.begin(), o.end()); }
    static double partial(const std::vector<Pt> &p) {
        double r = 0;
        for (size_t i = 1; i < p.size(); ++i) r += p[i].first * p[i-1].second - p[i].second * p[i-1].first;
        return r / 2;
    }
    double orbitArea(int d) const {
        double a = 0; std::vector<int> o = orbit(d);
        for (size_t i = 0; i < o.size(); ++i) {
            const EdgeD &e = edges.find(std::abs(o[i]))->second;
            if (e.l == e.r) continue;
            double p = partial(e.pts);
            a += o[i] > 0 ? p : -p;
        }
        return a;
    }
    double faceArea(u32 f) const {
        double a = 0; const FaceD &fd = faces.find(f)->second;
        for (size_t i = 0; i < fd.contours.size(); ++i) a += orbitArea(fd.contours[i]);
        return a;
    }
    std::vector<int> darts() const {
        std::vector<int> r;
        for (std::map<u32, EdgeD>::const_iterator it = edges.begin(); it != edges.end(); ++it) { r.push_back(it->first); r.push_back(-(int)it->first); }
        return r;
    }
};

// ---- take a dump; false + err if the structure is not a well-formed map
inline bool takeDump(GeoMap &m, Dump &d, std::string &err, bool withLabels = true) {
    d = Dump();
    d.init = m.mapInitialized(); d.hasLab = m.hasLabelImage(); d.sorted = m.edgesSorted();
    d.nodeCount = m.nodeCount(); d.edgeCount = m.edgeCount(); d.faceCount = m.faceCount();
    d.maxNode = m.maxNodeLabel(); d.maxEdge = m.maxEdgeLabel(); d.maxFace = m.maxFaceLabel();
    d.w = m.imageSize().width(); d.h = m.imageSize().height();
    for (u32 l = 0; l < d.maxNode; ++l) {
        GeoMap::NodePtr n = m.node(l);
        if (!n) continue;
        if (n->label() != l) { err = strf("node %u reports label %u", l, n->label()); return false; }
        if (!n->initialized() || n->map() != &m) { err = strf("node %u of the map is not initialized", l); return false; }
        NodeD nd = { n->position()[0], n->position()[1], n->isIsolated() ? 0 : n->anchor().label() };
        d.nodes[l] = nd;
    }
    for (u32 l = 1; l < d.maxEdge; ++l) {
        GeoMap::EdgePtr e = m.edge(l);
        if (!e) continue;
        if (e->label() != l) { err = strf("edge %u reports label %u", l, e->label()); return false; }
        if (!e->initialized() || e->map() != &m) { err = strf("edge %u of the map is not initialized", l); return false; }
        EdgeD ed; ed.s = e->startNodeLabel(); ed.e = e->endNodeLabel();
        ed.l = e->leftFaceLabel(); ed.r = e->rightFaceLabel(); ed.flags = e->flags();
        const GeoMap::Edge &ce = *e;
        for (size_t i = 0; i < ce.size(); ++i) ed.pts.push_back(Pt(ce[i][0], ce[i][1]));
        if (!d.nodes.count(ed.s) || !d.nodes.count(ed.e)) { err = strf("edge %u ends in a removed node (%u -> %u)", l, ed.s, ed.e); return false; }
        d.edges[l] = ed;
    }
    // sigma permutation
    std::vector<int> darts = d.darts();
    for (size_t i = 0; i < darts.size(); ++i) {
        int n = m.dart(darts[i]).nextSigma().label(), p = m.dart(darts[i]).prevSigma().label();
        if (!n || !d.edges.count(std::abs(n))) { err = strf("sigma successor of dart %d is dart %d of no edge", darts[i], n); return false; }
        if (!p || !d.edges.count(std::abs(p))) { err = strf("sigma predecessor of dart %d is dart %d of no edge", darts[i], p); return false; }
        d.sigma[darts[i]] = n; d.isigma[darts[i]] = p;
    }
    for (size_t i = 0; i < darts.size(); ++i)
        if (d.isigma[d.sigma[darts[i]]] != darts[i] || d.sigma[d.isigma[darts[i]]] != darts[i]) {
            err = strf("sigma and its inverse disagree at dart %d", darts[i]); return false; }
    // node orbits
    std::map<u32, u32> deg;
    for (size_t i = 0; i < darts.size(); ++i) {
        if (d.startOf(darts[i]) != d.startOf(d.sigma[darts[i]])) { err = strf("sigma orbit of dart %d mixes nodes", darts[i]); return false; }
        ++deg[d.startOf(darts[i])];
    }
    for (std::map<u32, NodeD>::iterator it = d.nodes.begin(); it != d.nodes.end(); ++it) {
        GeoMap::NodePtr n = m.node(it->first);
        u32 dg = deg.count(it->first) ? deg[it->first] : 0;
        if (n->isIsolated() != (dg == 0)) { err = strf("node %u: isIsolated() is %d but %u darts start there", it->first, (int)n->isIsolated(), dg); return false; }
        if (!dg) continue;
        int a = n->anchor().label();
        if (!d.edges.count(std::abs(a)) || d.startOf(a) != it->first) { err = strf("node %u is anchored at dart %d which does not start there", it->first, a); return false; }
        u32 c = 0; int x = a;
        do { ++c; x = d.sigma[x]; } while (x != a && c <= dg);
        if (c != dg) { err = strf("node %u: %u darts start there, its orbit has %u", it->first, dg, c); return false; }
        if (n->degree() != dg || !n->hasDegree(dg) || n->hasDegree(dg + 1) || !n->hasMinDegree(dg) || n->hasMinDegree(dg + 1)) {
            err = strf("node %u: degree queries disagree with its %u darts", it->first, dg); return false; }
    }
    if (d.nodes.size() != d.nodeCount) { err = strf("nodeCount() %u, but %u nodes exist", d.nodeCount, (u32)d.nodes.size()); return false; }
    if (d.edges.size() != d.edgeCount) { err = strf("edgeCount() %u, but %u edges exist", d.edgeCount, (u32)d.edges.size()); return false; }
    u32 iterN = 0, iterE = 0, iterF = 0;
    for (GeoMap::NodeIterator it = m.nodesBegin(); it.inRange(); ++it) ++iterN;
    for (GeoMap::EdgeIterator it = m.edgesBegin(); it.inRange(); ++it) ++iterE;
    if (iterN != d.nodeCount || iterE != d.edgeCount) { err = "node/edge iteration does not visit every cell once"; return false; }
    if (!d.init) return true;
    // faces
    std::map<int, u32> contourOf;
    for (u32 l = 0; l < d.maxFace; ++l) {
        GeoMap::FacePtr f = m.face(l);
        if (!f) continue;
        if (f->label() != l) { err = strf("face %u reports label %u", l, f->label()); return false; }
        if (!f->initialized() || f->map() != &m) { err = strf("face %u of the map is not initialized", l); return false; }
        FaceD fd; fd.flags = f->flags() & 0x0fffffffu; fd.pixelArea = f->pixelArea();
        for (GeoMap::Face::ContourIterator c = f->contoursBegin(); c != f->contoursEnd(); ++c) {
            int a = c->label();
            if (!a || !d.edges.count(std::abs(a))) { err = strf("face %u has a contour anchored at removed dart %d", l, a); return false; }
            int k = d.canon(a);
            if (contourOf.count(k)) { err = strf("contour of dart %d is listed twice (faces %u and %u)", a, contourOf[k], l); return false; }
            contourOf[k] = l;
            std::vector<int> o = d.orbit(a);
            for (size_t i = 0; i < o.size(); ++i)
                if (d.leftOf(o[i]) != l) { err = strf("dart %d lies on a contour of face %u but its left face is %u", o[i], l, d.leftOf(o[i])); return false; }
            fd.contours.push_back(k); fd.anchors.push_back(a);
        }
        d.faces[l] = fd;
    }
    for (GeoMap::FaceIterator it = m.facesBegin(); it.inRange(); ++it) ++iterF;
    if (d.faces.size() != d.faceCount || iterF != d.faceCount) { err = strf("faceCount() %u, but %u faces exist", d.faceCount, (u32)d.faces.size()); return false; }
    for (size_t i = 0; i < darts.size(); ++i) {
        if (!d.faces.count(d.leftOf(darts[i]))) { err = strf("left face %u of dart %d does not exist", d.leftOf(darts[i]), darts[i]); return false; }
        if (!contourOf.count(d.canon(darts[i]))) { err = strf("dart %d (left face %u) lies on no listed contour", darts[i], d.leftOf(darts[i])); return false; }
    }
    if (d.hasLab && withLabels) {
        vigra::triple<GeoMap::LabelImageIterator, GeoMap::LabelImageIterator, GeoMap::LabelImageAccessor> r = m.srcLabelRange();
        for (int y = 0; y < d.h; ++y)
            for (int x = 0; x < d.w; ++x) {
                d.raw.push_back(r.first(x, y));
                d.lab.push_back(r.third(r.first, vigra::Diff2D(x, y)));
            }
        const LabelLUT &lut = m.faceLabelLUT();
        for (size_t i = 0; i < lut.size(); ++i) d.lut.push_back(lut[i]);
    }
    return true;
}

// structural invariants beyond well-formedness
inline bool checkShape(const Dump &d, std::string &err) {
    for (std::map<u32, EdgeD>::const_iterator it = d.edges.begin(); it != d.edges.end(); ++it) {
        const EdgeD &e = it->second;
        if (e.pts.size() < 2) { err = strf("edge %u has %u points", it->first, (u32)e.pts.size()); return false; }
        const NodeD &s = d.nodes.find(e.s)->second, &t = d.nodes.find(e.e)->second;
        if (e.pts.front() != Pt(s.x, s.y) || e.pts.back() != Pt(t.x, t.y)) { err = strf("edge %u does not start/end at its node positions", it->first); return false; }
    }
    if (!d.init) return true;
    if (!d.faces.count(0)) { err = "infinite face 0 vanished"; return false; }
    for (std::map<u32, FaceD>::const_iterator it = d.faces.begin(); it != d.faces.end(); ++it) {
        const FaceD &f = it->second;
        if (it->first && f.contours.empty()) { err = strf("finite face %u has no contour", it->first); return false; }
        for (size_t i = 0; i < f.contours.size(); ++i) {
            bool outer = it->first && i == 0;
            double a = d.orbitArea(f.contours[i]);
            if ((a > 0) != outer) { err = strf("face %u: contour #%u (dart %d) has area %g, expected an %s contour", it->first, (u32)i, f.contours[i], a, outer ? "outer" : "inner"); return false; }
        }
    }
    // planarity: V - E + F - C == 1 over non-isolated nodes, C = components = number of inner contours
    long V = 0, C = 0;
    for (std::map<u32, NodeD>::const_iterator it = d.nodes.begin(); it != d.nodes.end(); ++it) if (!d.isolated(it->first)) ++V;
    for (std::map<u32, FaceD>::const_iterator it = d.faces.begin(); it != d.faces.end(); ++it) C += (long)it->second.contours.size() - (it->first ? 1 : 0);
    if (V - (long)d.edges.size() + (long)d.faces.size() - C != 1) { err = "Euler-Poincare relation violated"; return false; }
    return true;
}

// compare two dumps; returns "" or the first difference
inline std::string diffDump(const Dump &a, const Dump &b, bool labels = true, bool pixelAreas = true, bool anchors = false) {
    if (a.init != b.init) return "mapInitialized differs";
    if (a.nodeCount != b.nodeCount) return strf("node count %u vs %u", a.nodeCount, b.nodeCount);
    if (a.edgeCount != b.edgeCount) return strf("edge count %u vs %u", a.edgeCount, b.edgeCount);
    if (a.faceCount != b.faceCount) return strf("face count %u vs %u", a.faceCount, b.faceCount);
    if (a.maxNode != b.maxNode || a.maxEdge != b.maxEdge || a.maxFace != b.maxFace) return strf("label ranges (%u %u %u) vs (%u %u %u)", a.maxNode, a.maxEdge, a.maxFace, b.maxNode, b.maxEdge, b.maxFace);
    if (a.sorted != b.sorted) return "edgesSorted differs";
    for (std::map<u32, NodeD>::const_iterator it = a.nodes.begin(); it != a.nodes.end(); ++it) {
        std::map<u32, NodeD>::const_iterator o = b.nodes.find(it->first);
        if (o == b.nodes.end()) return strf("node %u only on one side", it->first);
        if (o->second.x != it->second.x || o->second.y != it->second.y) return strf("position of node %u differs", it->first);
        if (anchors && o->second.anchor != it->second.anchor) return strf("node %u: anchor dart %d vs %d", it->first, it->second.anchor, o->second.anchor);
    }
    if (a.nodes.size() != b.nodes.size()) return "node sets differ";
    for (std::map<u32, EdgeD>::const_iterator it = a.edges.begin(); it != a.edges.end(); ++it) {
        std::map<u32, EdgeD>::const_iterator o = b.edges.find(it->first);
        if (o == b.edges.end()) return strf("edge %u only on one side", it->first);
        const EdgeD &x = it->second, &y = o->second;
        if (x.s != y.s || x.e != y.e) return strf("edge %u: nodes %u->%u vs %u->%u", it->first, x.s, x.e, y.s, y.e);
        if (x.l != y.l || x.r != y.r) return strf("edge %u: faces %u|%u vs %u|%u", it->first, x.l, x.r, y.l, y.r);
        if (x.flags != y.flags) return strf("edge %u: flags %x vs %x", it->first, x.flags, y.flags);
        if (x.pts != y.pts) return strf("edge %u: point lists differ (%u vs %u points)", it->first, (u32)x.pts.size(), (u32)y.pts.size());
    }
    if (a.edges.size() != b.edges.size()) return "edge sets differ";
    for (std::map<int, int>::const_iterator it = a.sigma.begin(); it != a.sigma.end(); ++it) {
        std::map<int, int>::const_iterator o = b.sigma.find(it->first);
        if (o == b.sigma.end() || o->second != it->second) return strf("sigma successor of dart %d differs (%d vs %d)", it->first, it->second, o == b.sigma.end() ? 0 : o->second);
    }
    for (std::map<u32, FaceD>::const_iterator it = a.faces.begin(); it != a.faces.end(); ++it) {
        std::map<u32, FaceD>::const_iterator o = b.faces.find(it->first);
        if (o == b.faces.end()) return strf("face %u only on one side", it->first);
        const FaceD &x = it->second, &y = o->second;
        if (x.flags != y.flags) return strf("face %u: flags %x vs %x", it->first, x.flags, y.flags);
        std::set<int> cx(x.contours.begin(), x.contours.end()), cy(y.contours.begin(), y.contours.end());
        if (cx != cy) return strf("face %u: contour sets differ", it->first);
        if (it->first && !x.contours.empty() && x.contours[0] != y.contours[0]) return strf("face %u: outer contour differs", it->first);
        if (anchors && x.anchors != y.anchors) return strf("face %u: contour anchors differ", it->first);
        if (pixelAreas && x.pixelArea != y.pixelArea) return strf("face %u: pixelArea %u vs %u", it->first, x.pixelArea, y.pixelArea);
    }
    if (a.faces.size() != b.faces.size()) return "face sets differ";
    if (labels) {
        if (a.hasLab != b.hasLab) return "label image presence differs";
        if (a.lab != b.lab) return "label images differ";
        if (a.lut != b.lut) return "label lookup tables differ";
    }
    return "";
}

inline u64 dumpHash(const Dump &d, bool geometry) {
    std::ostringstream o;
    o << d.init << d.hasLab << ' ' << d.nodeCount << ' ' << d.edgeCount << ' ' << d.faceCount;
    for (std::map<u32, EdgeD>::const_iterator it = d.edges.begin(); it != d.edges.end(); ++it)
        o << '|' << it->first << ',' << it->second.s << ',' << it->second.e << ',' << it->second.l << ',' << it->second.r << ',' << it->second.flags;
    for (std::map<int, int>::const_iterator it = d.sigma.begin(); it != d.sigma.end(); ++it) o << ';' << it->second;
    u64 h = hashStr(o.str());
    if (geometry)
        for (std::map<u32, EdgeD>::const_iterator it = d.edges.begin(); it != d.edges.end(); ++it)
            for (size_t i = 0; i < it->second.pts.size(); ++i) {
                u64 b[2]; memcpy(&b[0], &it->second.pts[i].first, 8); memcpy(&b[1], &it->second.pts[i].second, 8);
                h = (h ^ b[0]) * 1099511628211ull; h = (h ^ b[1]) * 1099511628211ull;
            }
    for (size_t i = 0; i < d.lab.size(); ++i) h = (h ^ (u64)(u32)d.lab[i]) * 1099511628211ull;
    return h;
}

// ---------------------------------------------------------------- reference model
namespace model {
inline void detach(Dump &d, int dart) {
    int n = d.sigma[dart], p = d.isigma[dart];
    d.sigma[p] = n; d.isigma[n] = p;
    d.sigma.erase(dart); d.isigma.erase(dart);
}
inline void rebuildFaces(Dump &d) {
    if (!d.init) return;
    std::map<u32, std::vector<int> > c;
    std::set<int> seen;
    std::vector<int> darts = d.darts();
    for (size_t i = 0; i < darts.size(); ++i) {
        int k = d.canon(darts[i]);
        if (seen.insert(k).second) c[d.leftOf(k)].push_back(k);
    }
    for (std::map<u32, FaceD>::iterator it = d.faces.begin(); it != d.faces.end(); ++it) {
        std::vector<int> v = c[it->first];
        if (it->first)
            for (size_t i = 1; i < v.size(); ++i)
                if (d.orbitArea(v[i]) > 0) std::swap(v[0], v[i]);
        it->second.contours = v;
    }
}
inline void dropEdge(Dump &d, u32 e) { d.edges.erase(e); --d.edgeCount; }
inline void dropNode(Dump &d, u32 n) { d.nodes.erase(n); --d.nodeCount; }

// removes edge |dart|; endpoints left without darts are dropped unless in keep
inline void removeEdgeCommon(Dump &d, int dart, const std::set<u32> &keep, bool dropIsolated) {
    u32 a = d.startOf(dart), b = d.endOf(dart);
    detach(d, dart); detach(d, -dart);
    dropEdge(d, std::abs(dart));
    if (dropIsolated) {
        if (d.isolated(a) && !keep.count(a)) dropNode(d, a);
        if (b != a && d.isolated(b) && !keep.count(b)) dropNode(d, b);
    }
}
inline void mergeFaces(Dump &d, u32 edge, u32 survivor, u32 merged, const std::set<u32> &keep) {
    for (std::map<u32, EdgeD>::iterator it = d.edges.begin(); it != d.edges.end(); ++it) {
        if (it->second.l == merged) it->second.l = survivor;
        if (it->second.r == merged) it->second.r = survivor;
    }
    d.faces.erase(merged); --d.faceCount;
    removeEdgeCommon(d, (int)edge, keep, true);
    rebuildFaces(d);
}
inline void removeBridge(Dump &d, u32 edge, const std::set<u32> &keep) { removeEdgeCommon(d, (int)edge, keep, true); rebuildFaces(d); }
inline void removeGraphEdge(Dump &d, u32 edge) { removeEdgeCommon(d, (int)edge, std::set<u32>(), false); }
inline void mergeEdges(Dump &d, int ds, int dm) { // both start at the merged node, |ds| survives
    u32 n = d.startOf(ds);
    u32 far = d.endOf(dm);
    EdgeD s = d.edges[std::abs(ds)], m = d.edges[std::abs(dm)];
    std::vector<Pt> mp = m.pts; if (dm < 0) std::reverse(mp.begin(), mp.end());   // from n to far
    if (ds > 0) { // survivor starts at n: prepend reversed mp
        std::vector<Pt> p(mp.rbegin(), mp.rend()); p.insert(p.end(), s.pts.begin() + 1, s.pts.end()); s.pts = p; s.s = far;
    } else { s.pts.insert(s.pts.end(), mp.begin() + 1, mp.end()); s.e = far; }
    // sigma: ds leaves n's orbit and takes the place of -dm
    detach(d, ds); detach(d, dm);
    int nx = d.sigma[-dm], pv = d.isigma[-dm];
    if (nx == -dm) { d.sigma.erase(-dm); d.isigma.erase(-dm); d.sigma[ds] = ds; d.isigma[ds] = ds; }
    else { d.sigma.erase(-dm); d.isigma.erase(-dm); d.sigma[pv] = ds; d.isigma[ds] = pv; d.sigma[ds] = nx; d.isigma[nx] = ds; }
    d.edges[std::abs(ds)] = s;
    dropEdge(d, std::abs(dm)); dropNode(d, n);
    rebuildFaces(d);
}
inline void splitEdge(Dump &d, u32 edge, u32 seg, Pt p, bool insert) {
    EdgeD e = d.edges[edge], n = e;
    u32 nn = d.maxNode, ne = d.maxEdge;
    if (insert) { ++seg; e.pts.insert(e.pts.begin() + seg, p); } else p = e.pts[seg];
    n.pts.assign(e.pts.begin() + seg, e.pts.end());
    e.pts.resize(seg + 1);
    n.s = nn; e.e = nn;
    NodeD nd = { p.first, p.second, 0 };
    d.nodes[nn] = nd; ++d.nodeCount; ++d.maxNode;
    int old = -(int)edge, neu = -(int)ne;
    int nx = d.sigma[old], pv = d.isigma[old];
    if (nx == old) { d.sigma[neu] = neu; d.isigma[neu] = neu; }
    else { d.sigma[pv] = neu; d.isigma[neu] = pv; d.sigma[neu] = nx; d.isigma[nx] = neu; }
    d.sigma[old] = (int)ne; d.isigma[old] = (int)ne; d.sigma[(int)ne] = old; d.isigma[(int)ne] = old;
    d.edges[edge] = e; d.edges[ne] = n; ++d.edgeCount; ++d.maxEdge;
    rebuildFaces(d);
}
}

// ---------------------------------------------------------------- geometry oracles
// face at p by ray casting against all non-bridge edges (p must not lie on an edge)
inline u32 rayFace(const Dump &d, double px, double py) {
    bool found = false; double bx = 0, bs = 0; u32 face = 0;
    for (std::map<u32, EdgeD>::const_iterator it = d.edges.begin(); it != d.edges.end(); ++it) {
        const EdgeD &e = it->second;
        for (size_t i = 1; i < e.pts.size(); ++i) {
            Pt a = e.pts[i-1], b = e.pts[i];
            bool down = b.second > a.second;           // y increases along the edge
            if (a.second == b.second) continue;
            Pt lo = down ? a : b, hi = down ? b : a;
            if (!(lo.second <= py && py < hi.second)) continue;
            double slope = (hi.first - lo.first) / (hi.second - lo.second);
            double x = lo.first + slope * (py - lo.second);
            if (x < px) continue;
            if (!found || x < bx - 1e-12 || (std::fabs(x - bx) <= 1e-12 && slope < bs)) {
                found = true; bx = x; bs = slope;
                // we look at this segment from its smaller-x side
                face = down ? e.r : e.l;
            }
        }
    }
    return found ? face : 0;
}
inline double segDist(Pt p, Pt a, Pt b) {
    double dx = b.first - a.first, dy = b.second - a.second, l = dx*dx + dy*dy;
    double t = l > 0 ? ((p.first - a.first)*dx + (p.second - a.second)*dy) / l : 0;
    if (t < 0) t = 0; if (t > 1) t = 1;
    return std::hypot(p.first - a.first - t*dx, p.second - a.second - t*dy);
}
inline double edgeDist(const Dump &d, double x, double y) {
    double best = 1e300;
    for (std::map<u32, EdgeD>::const_iterator it = d.edges.begin(); it != d.edges.end(); ++it)
        for (size_t i = 1; i < it->second.pts.size(); ++i)
            best = std::min(best, segDist(Pt(x, y), it->second.pts[i-1], it->second.pts[i]));
    return best;
}
inline Vector2Polygon polyOf(const std::vector<Pt> &p) {
    std::vector<Vector2> v;
    for (size_t i = 0; i < p.size(); ++i) v.push_back(Vector2(p[i].first, p[i].second));
    return Vector2Polygon(v.begin(), v.end());
}
// pixels crossed by an edge (clipped to the image), from scratch
inline std::set<std::pair<int,int> > scanPixels(const vigra::Scanlines &s, int w, int h) {
    std::set<std::pair<int,int> > r;
    for (int y = std::max(0, s.startIndex()); y < std::min(h, s.endIndex()); ++y) {
        const vigra::Scanlines::Scanline &l = s[y];
        for (size_t j = 0; j < l.size(); ++j)
            for (int x = std::max(0, l[j].begin); x < std::min(w, l[j].end); ++x) r.insert(std::make_pair(x, y));
    }
    return r;
}
#endif
