// Oracles of the map simulator.  Everything is computed from the Dump (public
// interface, no caches) - never from the cached measures under test.
static bool near(double a, double b, double tol = 1e-6) { return std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)); }

bool World::dump(Dump &d, const char *when, const char *extraProp) {
    std::string err;
    bool ok = takeDump(*map, d, err);
    if (ok) ok = checkShape(d, err);
    if (!ok) {
        if (extraProp) violation(extraProp, "malformed-map", strf("%s: %s", when, err.c_str()));
        violation("P03", "malformed-map", strf("%s: %s", when, err.c_str()));
        dead = true;
    }
    return ok;
}

int World::guarded(const std::function<void()> &f) {
    what.clear(); inOp = true;
    g_alloc.opTotal = 0; g_alloc.opLimit = 4000000;
    int r = 0;
    try { f(); }
    catch (SimFault &) { r = 1; }
    catch (std::exception &e) { r = 2; what = e.what(); }
    inOp = false; g_alloc.opLimit = 0;
    return r;
}

// ------------------------------------------------------------------ edge protection model
bool World::protRefuses(int hook, const Dump &d, int a) const {
    std::map<u32, EdgeD>::const_iterator e = d.edges.find(std::abs(a));
    if (e == d.edges.end()) return false;
    if (hook == H_PREMF || hook == H_PRERB) return (e->second.flags & 0xff) != 0;
    if (hook == H_PREME) {
        int o = d.sigma.find(a)->second;
        return e->second.flags != d.edges.find(std::abs(o))->second.flags;
    }
    return false;
}

// ------------------------------------------------------------------ notification protocol
// Consumes the recorded events as a sequence of elementary operations; every
// phase must reach every connected observer once, in connection order, until
// one of them refuses or raises.
bool World::parseEvents(std::string &err) {
    subs.clear(); refusedEdges.clear(); refusedNodes.clear(); raised = false;
    std::vector<ChainEntry> ch = chain0;
    std::set<int> known; for (size_t i = 0; i < ch.size(); ++i) if (ch[i].kind == 0) known.insert(ch[i].id);
    Dump st = before;   // model state while parsing (topology needed for protection and node ends)
    size_t p = 0;
    // one phase: returns 0 done, 1 refused, 2 raised, -1 protocol error
    auto phase = [&](int hook, long a, long b, bool checkB, std::vector<std::pair<int,int> > *px) -> int {
        std::vector<ChainEntry> here = ch; std::set<int> late;
        for (size_t i = 0; i < here.size(); ++i) {
            if (here[i].kind == 1) { if (vetoable(hook) && hook != H_NODE && protRefuses(hook, st, (int)a)) return 1; continue; }
            if (here[i].kind == 2) continue;
            int id = here[i].id;
            bool live = false; for (size_t k = 0; k < ch.size(); ++k) if (ch[k].kind == 0 && ch[k].id == id) live = true;
            bool optional = late.count(id) != 0;
            bool match = p < events.size() && events[p].obs == id && events[p].hook == hook && events[p].a == a && (!checkB || events[p].b == b);
            if (!live) continue; // disconnected meanwhile: must not be called (an event would be left over)
            if (!match) {
                if (optional) continue;
                if (p < events.size()) err = strf("expected %s(%ld) at observer %d, got %s(%ld) at observer %d", hookName[hook], a, id, hookName[events[p].hook], events[p].a, events[p].obs);
                else err = strf("%s(%ld) never reached observer %d", hookName[hook], a, id);
                return -1;
            }
            const Event &e = events[p++];
            if (px) { if (px->empty()) *px = e.pixels; else if (*px != e.pixels) { err = "observers got different pixel lists"; return -1; } }
            for (std::set<int>::const_iterator l = e.liveAfter.begin(); l != e.liveAfter.end(); ++l)
                if (known.insert(*l).second) { ChainEntry c = { 0, *l }; ch.push_back(c); here.push_back(c); late.insert(*l); }
            for (size_t k = 0; k < ch.size();) { if (ch[k].kind == 0 && !e.liveAfter.count(ch[k].id)) ch.erase(ch.begin() + k); else ++k; }
            if (e.outcome == 2) return 2;
            if (e.outcome == 1) return 1;
        }
        return 0;
    };
    while (p < events.size()) {
        if (raised) { err = "notifications continue after an observer raised"; return false; }
        const Event e = events[p];
        Sub s; s.kind = -1; s.partial = false; s.dart = s.dart2 = 0; s.survivor = s.merged = s.node = 0; s.seg = 0; s.insert = false;
        int r;
        if (e.hook == H_PREMF || e.hook == H_PRERB) {
            s.kind = e.hook == H_PREMF ? S_MF : S_RB; s.dart = (int)e.a;
            if (!st.edges.count(std::labs(e.a))) { err = strf("%s for dart %ld of no edge", hookName[e.hook], e.a); return false; }
            u32 L = st.leftOf(s.dart), R = st.leftOf(-s.dart);
            s.survivor = L; s.merged = R;
            if ((s.kind == S_MF) != (L != R)) { err = strf("%s announced for an edge between faces %u and %u", hookName[e.hook], L, R); return false; }
            if (s.kind == S_MF && e.b != (long)L * 100000 + R) { err = "pre-notification sees wrong faces"; return false; }
            r = phase(e.hook, e.a, e.b, true, 0);
            if (r < 0) return false;
            if (r) { refusedEdges.insert(std::abs(s.dart)); if (r == 2) raised = true; continue; }
            // nodes left isolated
            u32 n1 = st.startOf(s.dart), n2 = st.endOf(s.dart);
            std::set<u32> iso;
            if (st.sigma[s.dart] == s.dart) iso.insert(n1);
            if (st.sigma[-s.dart] == -s.dart) iso.insert(n2);
            if (n1 == n2 && st.sigma[s.dart] == -s.dart && st.sigma[-s.dart] == s.dart) iso.insert(n1);
            std::set<u32> todo = iso;
            while (!todo.empty() && !raised) {
                u32 n;
                if (p < events.size() && events[p].hook == H_NODE && todo.count((u32)events[p].a)) n = (u32)events[p].a;
                else { err = strf("node %u was left isolated but its removal was not announced", *todo.begin()); return false; }
                todo.erase(n);
                r = phase(H_NODE, n, 1, true, 0);
                if (r < 0) return false;
                if (r == 2) raised = true;
                if (r) { s.kept.insert(n); refusedNodes.insert(n); } else s.gone.insert(n);
            }
            if (raised) {
                s.partial = true;
                if (p < events.size() && events[p].hook == H_ASSOC && events[p].a == (long)s.survivor) { std::string dummy; std::swap(dummy, err); phase(H_ASSOC, s.survivor, 0, false, &s.px); err = ""; }
                subs.push_back(s); continue;
            }
            model::mergeFaces, (void)0;
            if (s.kind == S_MF) model::mergeFaces(st, std::abs(s.dart), s.survivor, s.merged, s.kept); else model::removeBridge(st, std::abs(s.dart), s.kept);
            r = phase(s.kind == S_MF ? H_POSTMF : H_POSTRB, s.survivor, 0, true, 0);
            if (r < 0) return false;
            if (r == 2) raised = true;
            else if (p < events.size() && events[p].hook == H_ASSOC) {
                r = phase(H_ASSOC, s.survivor, 0, false, &s.px);
                if (r < 0) return false;
                if (r == 2) raised = true;
            }
            // an observer raised: the completed operation may still hand over pixels while unwinding
            if (raised && p < events.size() && events[p].hook == H_ASSOC && events[p].a == (long)s.survivor) { std::string dummy; std::swap(dummy, err); phase(H_ASSOC, s.survivor, 0, false, &s.px); err = ""; }
            subs.push_back(s);
        } else if (e.hook == H_PREME) {
            s.kind = S_ME; s.dart = (int)e.a;
            if (!st.edges.count(std::labs(e.a))) { err = strf("preMergeEdges for dart %ld of no edge", e.a); return false; }
            s.node = st.startOf(s.dart); s.dart2 = st.sigma[s.dart];
            if (e.b != (long)s.node) { err = "preMergeEdges sees a wrong start node"; return false; }
            if (st.sigma[s.dart2] != s.dart || std::abs(s.dart2) == std::abs(s.dart)) { err = strf("edge merge announced at node %u which is not of degree 2", s.node); return false; }
            r = phase(H_PREME, e.a, e.b, true, 0);
            if (r < 0) return false;
            if (r) { refusedNodes.insert(s.node); if (r == 2) raised = true; continue; }
            r = phase(H_NODE, s.node, 1, true, 0);
            if (r < 0) return false;
            if (r) { refusedNodes.insert(s.node); if (r == 2) raised = true; continue; }
            if (!(p < events.size() && events[p].hook == H_POSTME)) { err = "edge merge was announced and accepted but not confirmed"; return false; }
            u32 sv = (u32)events[p].a;
            if (sv == (u32)std::abs(s.dart2)) std::swap(s.dart, s.dart2);
            else if (sv != (u32)std::abs(s.dart)) { err = strf("postMergeEdges names edge %u, merged were %d and %d", sv, std::abs(s.dart), std::abs(s.dart2)); return false; }
            s.survivor = sv;
            model::mergeEdges(st, s.dart, s.dart2);
            r = phase(H_POSTME, sv, 0, true, 0);
            if (r < 0) return false;
            if (r == 2) raised = true;
            subs.push_back(s);
        } else if (e.hook == H_PRESE) {
            s.kind = S_SE; s.dart = (int)e.a; s.seg = (u32)(e.b / 2); s.insert = e.b & 1; s.p = opPt;
            if (!st.edges.count((u32)e.a)) { err = "split of an edge that does not exist"; return false; }
            if ((int)s.seg != opSeg || s.insert != opIns) { err = "split announced with wrong arguments"; return false; }
            r = phase(H_PRESE, e.a, e.b, true, 0);
            if (r < 0) return false;
            if (r == 2) { raised = true; continue; }
            u32 ne = st.maxEdge;
            r = phase(H_POSTSE, e.a, ne, true, 0);
            if (r < 0) return false;
            if (r == 2) raised = true;
            model::splitEdge(st, (u32)e.a, s.seg, s.p, s.insert);
            subs.push_back(s);
        } else if (e.hook == H_NODE) {
            s.kind = S_RN; s.node = (u32)e.a;
            if (!st.nodes.count(s.node) || !st.isolated(s.node)) { err = strf("removal of node %u announced although it is not an isolated node", s.node); return false; }
            r = phase(H_NODE, e.a, 1, true, 0);
            if (r < 0) return false;
            if (r) { refusedNodes.insert(s.node); if (r == 2) raised = true; continue; }
            model::dropNode(st, s.node);
            subs.push_back(s);
        } else { err = strf("unexpected %s(%ld)", hookName[e.hook], e.a); return false; }
    }
    return true;
}

// what the map must look like after the completed elementary operations
void World::applySubs(Dump &m, const Dump &target, std::string &err) {
    for (size_t i = 0; i < subs.size(); ++i) {
        const Sub &s = subs[i];
        switch (s.kind) {
        case S_MF: {
            double a = m.faceArea(s.survivor), b = m.faceArea(s.merged);
            if (s.merged == 0) err = "the infinite face was merged away";
            else if (s.survivor != 0 && a < b - 1e-6 * (1 + std::fabs(b))) err = strf("face %u (area %g) survived instead of the larger face %u (area %g)", s.survivor, a, s.merged, b);
            std::set<u32> keep = s.kept;
            if (s.partial) { u32 n1 = m.startOf(s.dart), n2 = m.endOf(s.dart); if (target.nodes.count(n1)) keep.insert(n1); if (target.nodes.count(n2)) keep.insert(n2); }
            model::mergeFaces(m, std::abs(s.dart), s.survivor, s.merged, keep);
            break; }
        case S_RB: {
            std::set<u32> keep = s.kept;
            if (s.partial) { u32 n1 = m.startOf(s.dart), n2 = m.endOf(s.dart); if (target.nodes.count(n1)) keep.insert(n1); if (target.nodes.count(n2)) keep.insert(n2); }
            model::removeBridge(m, std::abs(s.dart), keep);
            break; }
        case S_ME: model::mergeEdges(m, s.dart, s.dart2); break;
        case S_SE: model::splitEdge(m, (u32)s.dart, s.seg, s.p, s.insert); break;
        case S_RN: model::dropNode(m, s.node); break;
        }
    }
}

// ------------------------------------------------------------------ label image
static bool clipSeg(Pt a, Pt b, double x0, double y0, double x1, double y1) { // does a-b meet the closed box
    double t0 = 0, t1 = 1, dx = b.first - a.first, dy = b.second - a.second;
    double p[4] = { -dx, dx, -dy, dy }, q[4] = { a.first - x0, x1 - a.first, a.second - y0, y1 - a.second };
    for (int i = 0; i < 4; ++i) {
        if (p[i] == 0) { if (q[i] < 0) return false; continue; }
        double r = q[i] / p[i];
        if (p[i] < 0) { if (r > t0) t0 = r; } else { if (r < t1) t1 = r; }
        if (t0 > t1) return false;
    }
    return true;
}
// half size of the largest square around (x,y) that no edge meets (up to 0.75)
static double edgeBoxDist(const Dump &d, int x, int y) {
    double r = 1;
    for (std::map<u32, EdgeD>::const_iterator it = d.edges.begin(); it != d.edges.end(); ++it)
        for (size_t i = 1; i < it->second.pts.size(); ++i) {
            if (clipSeg(it->second.pts[i-1], it->second.pts[i], x - 0.5 + 1e-6, y - 0.5 + 1e-6, x + 0.5 - 1e-6, y + 0.5 - 1e-6)) return 0;
            if (clipSeg(it->second.pts[i-1], it->second.pts[i], x - 0.5 - 1e-6, y - 0.5 - 1e-6, x + 0.5 + 1e-6, y + 0.5 + 1e-6)) r = 0.5;
        }
    return r;
}
void World::labelOracle(const Dump &d, const char *prop, const char *when) {
    if (!d.hasLab || !d.init || !g_viol.wants(prop)) return;
    std::vector<int> must(d.w * d.h, 0), may(d.w * d.h, 0);
    const double E = 1e-6;
    for (std::map<u32, EdgeD>::const_iterator it = d.edges.begin(); it != d.edges.end(); ++it) {
        std::map<int, int> mu, ma;
        const std::vector<Pt> &P_ = it->second.pts;
        for (size_t i = 1; i < P_.size(); ++i) {
            Pt a = P_[i-1], b = P_[i];
            int x0 = std::max(0, (int)std::floor(std::min(a.first, b.first) - 0.5)), x1 = std::min(d.w - 1, (int)std::ceil(std::max(a.first, b.first) + 0.5));
            int y0 = std::max(0, (int)std::floor(std::min(a.second, b.second) - 0.5)), y1 = std::min(d.h - 1, (int)std::ceil(std::max(a.second, b.second) + 0.5));
            for (int y = y0; y <= y1; ++y) for (int x = x0; x <= x1; ++x) {
                if (clipSeg(a, b, x - 0.5 - E, y - 0.5 - E, x + 0.5 + E, y + 0.5 + E)) ++ma[y * d.w + x];
                if (clipSeg(a, b, x - 0.5 + E, y - 0.5 + E, x + 0.5 - E, y + 0.5 - E)) mu[y * d.w + x] = 1;
            }
        }
        for (std::map<int, int>::iterator m = ma.begin(); m != ma.end(); ++m) may[m->first] += m->second;
        for (std::map<int, int>::iterator m = mu.begin(); m != mu.end(); ++m) must[m->first] += 1;
    }
    std::map<u32, u32> area;
    for (int i = 0; i < d.w * d.h; ++i) {
        int x = i % d.w, y = i / d.w, raw = d.raw[i];
        if (raw < 0) {
            if (-raw < must[i] || -raw > may[i]) { violation(prop, "edge-pixel-count", strf("%s: pixel (%d,%d) is marked as crossed by %d edges, but %d..%d edges cross it", when, x, y, -raw, must[i], may[i])); return; }
        } else {
            if (must[i]) { violation(prop, "edge-pixel-lost", strf("%s: pixel (%d,%d) is labelled %d although %d edges cross it", when, x, y, d.lab[i], must[i])); return; }
            if (!d.faces.count((u32)d.lab[i])) { violation(prop, "label-of-removed-face", strf("%s: pixel (%d,%d) carries label %d of a face that does not exist", when, x, y, d.lab[i])); return; }
            if (!may[i]) {
                u32 f = rayFace(d, x, y);
                if ((int)f != d.lab[i]) { violation(prop, "wrong-label", strf("%s: pixel (%d,%d) is labelled %d but lies in face %u", when, x, y, d.lab[i], f)); return; }
            }
            ++area[(u32)d.lab[i]];
        }
    }
    for (std::map<u32, FaceD>::const_iterator it = d.faces.begin(); it != d.faces.end(); ++it)
        if (it->second.pixelArea != area[it->first]) { violation(prop, "pixel-area", strf("%s: face %u reports pixelArea %u, the label image has %u pixels of it", when, it->first, it->second.pixelArea, area[it->first])); return; }
}

// drawing the regions from scratch gives the same regions
void World::drawOracle(const Dump &d, const char *when) {
    if (!d.init || !P("P05") || d.w * d.h == 0) return;
    typedef vigra::MultiArray<2, int> Img; g_stats.inc("label-drawings");
    Img neg(Img::difference_type(d.w, d.h), 0), lab(Img::difference_type(d.w, d.h), 0);
    const GeoMap &cm = *map;
    drawLabelImage(cm, destMultiArrayRange(neg), true); drawLabelImage(cm, destMultiArrayRange(lab), false);
    for (int y = 0; y < d.h; ++y) for (int x = 0; x < d.w; ++x) {
        double box = edgeBoxDist(d, x, y);
        int n = neg(x, y), l = lab(x, y);
        if (box < 0.5 - 1e-6 && n != -1) { violation("P05", "drawn-edge-missing", strf("%s: drawing the labels gives %d at (%d,%d), which an edge crosses", when, n, x, y)); return; }
        if (edgeDist(d, x, y) < 1e-6) continue;
        u32 f = rayFace(d, x, y);
        if (box > 0.5 + 1e-6 && n != (int)f) { violation("P05", "drawn-label", strf("%s: drawing the labels gives %d at (%d,%d), which lies in face %u", when, n, x, y, f)); return; }
        if (l != (int)f) { violation("P05", "drawn-label", strf("%s: drawing the labels without edges gives %d at (%d,%d), which lies in face %u", when, l, x, y, f)); return; }
    }
}

// ------------------------------------------------------------------ region statistics
static void statFreeze(const FStats &s, std::map<u32, std::vector<double> > &out) {
    out.clear();
    for (u32 f = 0; f < s.size(); ++f) {
        std::vector<double> v; if (s[f]) { double c = s.pixelCount(f); v.push_back(c); v.push_back(c ? (double)s.average(f) : 0); v.push_back(c ? (double)s.variance(f, false) : 0); }
        out[f] = v;
    }
}
static bool statFrozen(const FStats &s, const std::map<u32, std::vector<double> > &want) { std::map<u32, std::vector<double> > v; statFreeze(s, v); return v == want; }
void World::statsOracle(const Dump &d, const char *when) {
    if (!stat.s || !P("P06")) return;
    if (!stat.attached) { // detached: nothing may change any more
        if (!statFrozen(*stat.s, stat.frozen)) violation("P06", "changed-after-detach", strf("%s: statistics changed after detaching", when));
        return;
    }
    checkStats(*stat.s, *map, d, stat.inexact, stat.tracked, when);
    if (statCopy && !g_viol.hit && !statFrozen(*statCopy, statCopyFrozen)) violation("P06", "copy-changed", strf("%s: a copy of the statistics that observes nothing changed", when));
}
void World::checkStats(const FStats &s, GeoMap &m_, const Dump &d, const std::set<u32> &inexact, bool tracked, const char *when) {
    if (!d.hasLab) return;
    std::map<u32, std::vector<double> > px;
    for (int i = 0; i < d.w * d.h; ++i) if (d.raw[i] >= 0) px[(u32)d.lab[i]].push_back(image(i % d.w, i / d.w));
    if (!s.checkConsistency()) { violation("P06", "inconsistent", strf("%s: the statistics report themselves inconsistent", when)); return; }
    std::map<u32, double> avg;
    for (std::map<u32, FaceD>::const_iterator it = d.faces.begin(); it != d.faces.end(); ++it) {
        u32 f = it->first;
        if (f >= s.size() || !s[f]) { violation("P06", "missing", strf("%s: no statistics for face %u", when, f)); return; }
        const std::vector<double> &v = px[f];
        double n = s.pixelCount(f);
        // faces that had too few pixels at first are sampled more densely until they are big enough or merged with an exact one
        bool exact = !inexact.count(f) || v.size() >= stat.minSamples;
        if (!tracked && n != (double)v.size() && s.superSampledCount()) exact = false;
        if (!exact) { g_stats.inc("probe.supersampled-face"); continue; }
        if (n != (double)v.size()) { violation("P06", "count", strf("%s: face %u has %u pixels but %g samples", when, f, (u32)v.size(), n)); return; }
        if (v.empty()) continue;
        double m = 0, q = 0; for (size_t i = 0; i < v.size(); ++i) m += v[i]; m /= v.size();
        for (size_t i = 0; i < v.size(); ++i) q += (v[i] - m) * (v[i] - m);
        if (!near(s.average(f), m, 1e-5)) { violation("P06", "average", strf("%s: face %u has average %g, should be %g", when, f, (double)s.average(f), m)); return; }
        avg[f] = m;
        if (!near(s.variance(f, false), q / v.size(), 1e-4)) { violation("P06", "variance", strf("%s: face %u has variance %g, should be %g", when, f, (double)s.variance(f, false), q / v.size())); return; }
        if (v.size() > 1 && !near(s.variance(f, true), q / (v.size() - 1), 1e-4)) { violation("P06", "variance", strf("%s: face %u has unbiased variance %g, should be %g", when, f, (double)s.variance(f, true), q / (v.size() - 1))); return; }
    }
    for (std::map<u32, EdgeD>::const_iterator it = d.edges.begin(); it != d.edges.end(); ++it) {
        u32 l = it->second.l, r = it->second.r; if (!avg.count(l) || !avg.count(r)) continue;
        for (int side = 1; side >= -1; side -= 2) {
            GeoMap::Dart t = m_.dart(side * (int)it->first);
            double want = std::fabs(avg[l] - avg[r]) / stat.norm, got = s.faceMeanDiff(t);
            if (!near(got, want, 1e-4)) { violation("P06", "difference", strf("%s: regions %u and %u differ by %g, reported is %g", when, l, r, want, got)); return; }
            if (!l || !r || l == r) continue;
            double a1 = d.faceArea(l), a2 = d.faceArea(r); if (!(a1 > 1e-3) || !(a2 > 1e-3)) continue;
            double ah = a1 * a2 / (a1 + a2), h2 = want * want * ah;
            if (!near(s.faceAreaHomogeneity(t), ah, 1e-4) || !near(s.faceHomogeneity2(t), h2, 1e-3) || !near(s.faceHomogeneity(t), std::sqrt(h2), 1e-3)) { violation("P06", "homogeneity", strf("%s: homogeneity of regions %u and %u is (%g, %g, %g), should be (%g, %g, %g)", when, l, r, s.faceAreaHomogeneity(t), s.faceHomogeneity2(t), s.faceHomogeneity(t), ah, h2, std::sqrt(h2))); return; }
        }
    }
    if (!s.superSampledCount()) {
        FImg out(FImg::difference_type(d.w, d.h), -7.0f);
        vigra::BasicImageView<float> view = vigra::makeBasicImageView(out); s.copyRegionImage(destImage(view));
        for (int i = 0; i < d.w * d.h; ++i) if (d.raw[i] >= 0 && !near(out(i % d.w, i / d.w), avg[(u32)d.lab[i]], 1e-4)) { violation("P06", "region-image", strf("%s: region image has %g at (%d,%d), the region's average is %g", when, (double)out(i % d.w, i / d.w), i % d.w, i / d.w, avg[(u32)d.lab[i]])); return; }
    }
}
// a copy of the statistics, attached to a copy of the map, goes on by itself
void World::statCopyRun(const Op &o) {
    if (!stat.s || !stat.attached || !after.init || !after.hasLab || !P("P06")) return;
    if (o.a & 1) { statCopy.reset(new FStats(*stat.s)); statFreeze(*stat.s, statCopyFrozen); logf("op statistics copied"); if (!statFrozen(*statCopy, statCopyFrozen)) violation("P06", "bad-copy", "a fresh copy of the statistics differs"); return; }
    boost::shared_ptr<GeoMap> m2(new GeoMap(*map)); std::unique_ptr<FStats> c(new FStats(*stat.s));
    std::map<u32, std::vector<double> > mine; statFreeze(*stat.s, mine);
    c->attachHooks(m2); std::set<u32> inexact = stat.inexact;
    Dump d = after; std::string err; Rng r(o.c + 5); int n = 1 + o.b % 6;
    logf("op statistics and map copied"); g_stats.inc("statistics-copies");
    checkStats(*c, *m2, d, inexact, stat.tracked, "copied statistics");
    for (int i = 0; i < n && !g_viol.hit; ++i) {
        std::vector<u32> es; for (std::map<u32, EdgeD>::iterator it = d.edges.begin(); it != d.edges.end(); ++it) if (it->second.l != it->second.r) es.push_back(it->first);
        if (es.empty()) break;
        u32 e = es[r.below((u32)es.size())], l = d.edges[e].l, rr = d.edges[e].r;
        GeoMap::FacePtr f = m2->mergeFaces(m2->dart(r.below(2) ? (int)e : -(int)e)); if (!f) continue;
        u32 sv = f->label(), gone = sv == l ? rr : l; logf("    copy: mergeFaces(%u) -> %u", e, sv);
        if (!inexact.count(gone)) inexact.erase(sv); inexact.erase(gone);
        f.reset();
        if (!takeDump(*m2, d, err)) return;
        checkStats(*c, *m2, d, inexact, stat.tracked, "merge in the copied map");
    }
    if (!g_viol.hit && !statFrozen(*stat.s, mine)) violation("P06", "copy-shared", "merging in a copy of the map changed the statistics of the original");
    if (o.b & 64) { m2.reset(); } c.reset();
}

// ------------------------------------------------------------------ measures
static double lenOf(const std::vector<Pt> &p) { double l = 0; for (size_t i = 1; i < p.size(); ++i) l += std::hypot(p[i].first - p[i-1].first, p[i].second - p[i-1].second); return l; }
typedef GeoMap::Face::BoundingBox BBox;
static bool boxIs(const BBox &b, double x0, double y0, double x1, double y1) { return near(b.begin()[0], x0, 1e-9) && near(b.begin()[1], y0, 1e-9) && near(b.end()[0], x1, 1e-9) && near(b.end()[1], y1, 1e-9); }
static void growBox(double *b, const std::vector<Pt> &p) { for (size_t i = 0; i < p.size(); ++i) { b[0] = std::min(b[0], p[i].first); b[1] = std::min(b[1], p[i].second); b[2] = std::max(b[2], p[i].first); b[3] = std::max(b[3], p[i].second); } }

static std::string scanDiff(const vigra::Scanlines &a, const vigra::Scanlines &b, int w, int h) {
    std::set<std::pair<int,int> > x = scanPixels(a, w, h), y = scanPixels(b, w, h);
    if (x == y) return "";
    return strf("%u vs %u pixels", (u32)x.size(), (u32)y.size());
}
void World::edgeQueries(u32 l, u32 sel) {
    GeoMap &m = *qMap; const EdgeD &e = qDump->edges.find(l)->second; GeoMap::EdgePtr p = m.edge(l);
    if (sel & 1) { double v = p->length(), r = lenOf(e.pts); if (!near(v, r)) { fail4("edge-length", strf("edge %u reports length %.12g, its points give %.12g", l, v, r)); return; } }
    if (sel & 2) { double v = p->partialArea(), r = Dump::partial(e.pts); if (!near(v, r)) { fail4("edge-area", strf("edge %u reports partial area %.12g, its points give %.12g", l, v, r)); return; } }
    if (sel & 4) { double b[4] = { 1e300, 1e300, -1e300, -1e300 }; growBox(b, e.pts); if (!boxIs(p->boundingBox(), b[0], b[1], b[2], b[3])) { fail4("edge-bbox", strf("edge %u reports a wrong bounding box", l)); return; } }
    if (sel & 8) { std::string s = scanDiff(p->scanLines(), *scanPoly(polyOf(e.pts)), qDump->w + 8, qDump->h + 8); if (!s.empty()) { fail4("edge-scanlines", strf("edge %u reports scanlines that do not belong to its points (%s)", l, s.c_str())); return; } }
    if (sel & 16) {
        if (p->isLoop() != (e.s == e.e) || p->isBridge() != (e.l == e.r)) { fail4("edge-kind", strf("edge %u: isLoop/isBridge wrong", l)); return; }
        GeoMap::Dart d = m.dart(-(int)l);
        if (!near(d.partialArea(), -Dump::partial(e.pts)) || d.size() != e.pts.size() || d[0][0] != e.pts.back().first || d[0][1] != e.pts.back().second) { fail4("dart", strf("reversed dart of edge %u is not the reversed edge", l)); return; }
        for (int sg = -1; sg <= 1; sg += 2) {
            GeoMap::Dart t = m.dart(sg * (int)l); DartPointIter it(t); size_t n = 0; bool ok = true; std::vector<Pt> q = e.pts; if (sg < 0) std::reverse(q.begin(), q.end());
            for (; it.inRange() && n <= q.size(); ++it, ++n) if (n >= q.size() || (*it)[0] != q[n].first || (*it)[1] != q[n].second || t[(int)n][0] != q[n].first || t[(int)n][1] != q[n].second) { ok = false; break; }
            if (!ok || n != q.size()) { fail4("dart-points", strf("point iteration over dart %d is wrong", sg * (int)l)); return; }
            if (t.startNodeLabel() != (sg > 0 ? e.s : e.e) || t.endNodeLabel() != (sg > 0 ? e.e : e.s) || t.leftFaceLabel() != (sg > 0 ? e.l : e.r) || t.rightFaceLabel() != (sg > 0 ? e.r : e.l)) { fail4("dart", strf("dart %d: wrong ends or faces", sg * (int)l)); return; }
        }
    }
}
void World::faceQueries(u32 l, u32 sel) {
    GeoMap &m = *qMap; const Dump &d = *qDump; const FaceD &f = d.faces.find(l)->second; GeoMap::FacePtr p = m.face(l);
    if (sel & 1) { double v = p->area(), r = d.faceArea(l); if (!near(v, r)) { fail4("face-area", strf("face %u reports area %.12g, its contours enclose %.12g", l, v, r)); return; } }
    if ((sel & 2) && l) {
        double b[4] = { 1e300, 1e300, -1e300, -1e300 }; std::vector<int> o = d.orbit(f.contours[0]);
        for (size_t i = 0; i < o.size(); ++i) growBox(b, d.edges.find(std::abs(o[i]))->second.pts);
        if (!boxIs(p->boundingBox(), b[0], b[1], b[2], b[3])) { fail4("face-bbox", strf("face %u reports bounding box [%g %g %g %g], its outer contour spans [%g %g %g %g]", l, p->boundingBox().begin()[0], p->boundingBox().begin()[1], p->boundingBox().end()[0], p->boundingBox().end()[1], b[0], b[1], b[2], b[3])); return; }
    }
    if (sel & 4) {
        if (p->holeCount() != f.contours.size() - (l ? 1 : 0)) { fail4("hole-count", strf("face %u: holeCount() wrong", l)); return; }
        for (size_t i = 0; i < f.contours.size(); ++i) {
            GeoMap::Dart c = m.dart(f.contours[i]); std::vector<int> o = d.orbit(f.contours[i]);
            double len = 0; for (size_t k = 0; k < o.size(); ++k) len += lenOf(d.edges.find(std::abs(o[k]))->second.pts);
            double ar = d.orbitArea(f.contours[i]);
            if (!near(contourArea(c), ar)) { fail4("contour-area", strf("contourArea(dart %d) = %.12g, should be %.12g", f.contours[i], contourArea(c), ar)); return; }
            if (!near(contourLength(c), len)) { fail4("contour-length", strf("contourLength(dart %d) = %.12g, should be %.12g", f.contours[i], contourLength(c), len)); return; }
            if (std::fabs(ar) > 1e-3) { double iq = isoperimetricQuotient(c), ri = len * len / (4 * M_PI * ar); if (!near(iq, ri, 1e-5)) { fail4("isoperimetric", strf("isoperimetricQuotient(dart %d) = %.12g, should be %.12g", f.contours[i], iq, ri)); return; } }
            Vector2Polygon cp = contourPoly(c);
            if (!near(cp.length(), len) || !cp.closed()) { fail4("contour-polygon", strf("contourPoly(dart %d) has length %.12g, should be %.12g (closed=%d)", f.contours[i], cp.length(), len, (int)cp.closed())); return; }
            // traversal: the darts of the contour in order, forwards and backwards, and all of their points
            std::vector<Pt> seq; GeoMap::Dart t = c, back = c; bool ok = true;
            for (size_t k = 0; k < o.size(); ++k) {
                if (t.label() != o[k]) ok = false;
                const EdgeD &e = d.edges.find(std::abs(o[k]))->second; std::vector<Pt> q = e.pts; if (o[k] < 0) std::reverse(q.begin(), q.end());
                seq.insert(seq.end(), q.begin() + (k ? 1 : 0), q.end());
                t.nextPhi(); back.prevPhi();
                if (back.label() != o[o.size() - 1 - k]) ok = false;
            }
            if (!ok || t.label() != o[0] || back.label() != o[0]) { fail4("contour-darts", strf("traversing the contour from dart %d does not give its darts", f.contours[i])); return; }
            ok = cp.size() == seq.size(); for (size_t k = 0; ok && k < seq.size(); ++k) ok = cp[k][0] == seq[k].first && cp[k][1] == seq[k].second;
            if (!ok) { fail4("contour-polygon", strf("contourPoly(dart %d) has %u points, which are not the %u points of the contour", f.contours[i], (u32)cp.size(), (u32)seq.size())); return; }
            for (int twice = 0; twice < 2; ++twice) {
                size_t n = 1 - twice;
                for (ContourPointIter it(c, twice); it.inRange() && n <= seq.size(); ++it, ++n) if (n >= seq.size() || (*it)[0] != seq[n].first || (*it)[1] != seq[n].second) { n = seq.size() + 1; break; }
                if (n != seq.size()) { fail4("contour-points", strf("contour iteration from dart %d does not give the %u points of the contour", f.contours[i], (u32)seq.size())); return; }
            }
        }
    }
    if ((sel & 8) && l) { // scanlines of the outer contour
        std::auto_ptr<vigra::Scanlines> s = p->scanLines();
        std::set<std::pair<int,int> > want, got;
        std::vector<int> o = d.orbit(f.contours[0]);
        std::auto_ptr<vigra::Scanlines> fresh;
        for (size_t i = 0; i < o.size(); ++i) { std::set<std::pair<int,int> > e = scanPixels(*scanPoly(polyOf(d.edges.find(std::abs(o[i]))->second.pts)), d.w, d.h); want.insert(e.begin(), e.end()); }
        got = scanPixels(*s, d.w, d.h);
        if (want != got) { fail4("face-scanlines", strf("face %u: scanlines cover %u pixels, its outer contour crosses %u", l, (u32)got.size(), (u32)want.size())); return; }
    }
}
void World::pointQueries(double x, double y) {
    GeoMap &m = *qMap; const Dump &d = *qDump;
    // nearest node
    GeoMap::NodePtr n = m.nearestNode(Vector2(x, y)); double best = 1e300;
    for (std::map<u32, NodeD>::const_iterator it = d.nodes.begin(); it != d.nodes.end(); ++it) best = std::min(best, std::hypot(it->second.x - x, it->second.y - y));
    if (!n != d.nodes.empty()) { fail4("nearest-node", strf("nearestNode(%g,%g) finds %s", x, y, n ? "a node in an empty map" : "nothing")); return; }
    if (n) {
        if (!d.nodes.count(n->label()) || !n->initialized()) { fail4("nearest-node", strf("nearestNode(%g,%g) returns removed node %u", x, y, n->label())); return; }
        double dist = std::hypot(n->position()[0] - x, n->position()[1] - y);
        if (!near(dist, best, 1e-9)) { fail4("nearest-node", strf("nearestNode(%g,%g) returns a node at distance %g, the nearest is at %g", x, y, dist, best)); return; }
        GeoMap::NodePtr lim = m.nearestNode(Vector2(x, y), best * best * 0.81);
        if (lim && best > 1e-6) { fail4("nearest-node", "nearestNode ignores the distance limit"); return; }
    }
    if (!d.init || edgeDist(d, x, y) < 1e-6) return;
    u32 f = rayFace(d, x, y);
    u32 g = m.faceAt(Vector2(x, y))->label();
    if (f != g) { fail4("face-at", strf("faceAt(%g,%g) returns face %u, the point lies in face %u", x, y, g, f)); return; }
    const GeoMap &cm = m; u32 g2 = cm.faceAt(Vector2(x, y))->label();
    if (f != g2) { fail4("face-at", strf("const faceAt(%g,%g) returns face %u, the point lies in face %u", x, y, g2, f)); return; }
    for (std::map<u32, FaceD>::const_iterator it = d.faces.begin(); it != d.faces.end(); ++it)
        if (m.face(it->first)->contains(Vector2(x, y)) != (it->first == f)) { fail4("contains", strf("face %u %s point (%g,%g) which lies in face %u", it->first, it->first == f ? "does not contain" : "contains", x, y, f)); return; }
}
void World::query(u32 kind, u32 a) {
    qMap = map.get(); qDump = &after; qProp = "P04";
    const Dump &d = after;
    u32 k = kind % 8;
    if (k < 3 && !d.edges.empty()) { std::map<u32, EdgeD>::const_iterator it = d.edges.begin(); std::advance(it, a % d.edges.size()); edgeQueries(it->first, (kind >> 3) & 31); }
    else if (k < 6 && d.init) { std::map<u32, FaceD>::const_iterator it = d.faces.begin(); std::advance(it, a % d.faces.size()); faceQueries(it->first, (kind >> 3) & 15); }
    else pointQueries((a % 1009) / 1009.0 * (d.w + 2) - 1, ((a / 1009) % 1013) / 1013.0 * (d.h + 2) - 1);
}
void World::fullQueries() {
    qMap = map.get(); qDump = &after;
    for (std::map<u32, EdgeD>::const_iterator it = after.edges.begin(); it != after.edges.end(); ++it) edgeQueries(it->first, 31);
    for (std::map<u32, FaceD>::const_iterator it = after.faces.begin(); it != after.faces.end(); ++it) faceQueries(it->first, 15);
    Rng r(script.get("genseed") + 99);
    for (int i = 0; i < 12; ++i) pointQueries(r.real(-1, after.w + 1), r.real(-1, after.h + 1));
    for (std::map<u32, EdgeD>::const_iterator it = after.edges.begin(); it != after.edges.end(); ++it) { // close to edges
        const std::vector<Pt> &p = it->second.pts; size_t i = 1 + r.below((u32)p.size() - 1); double t = r.real(0.2, 0.8), o = r.chance(0.5) ? 1e-3 : -1e-3;
        pointQueries(p[i-1].first + t * (p[i].first - p[i-1].first) - o * (p[i].second - p[i-1].second), p[i-1].second + t * (p[i].second - p[i-1].second) + o * (p[i].first - p[i-1].first));
    }
}

// ------------------------------------------------------------------ handles
template <class F> static int throwsPrecondition(F f) { try { f(); } catch (std::exception &) { return 1; } return 0; }
void World::heldOracle() {
    if (!P("P09")) return;
    for (size_t i = 0; i < held.size(); ++i) {
        Held &h = held[i]; bool exists, init; GeoMap *hm; u32 lab;
        if (h.kind == 0) { exists = map && !h.gone && after.nodes.count(h.label); init = h.n->initialized(); hm = h.n->map(); lab = h.n->label(); }
        else if (h.kind == 1) { exists = map && !h.gone && after.edges.count(h.label); init = h.e->initialized(); hm = h.e->map(); lab = h.e->label(); }
        else { exists = map && !h.gone && after.faces.count(h.label); init = h.f->initialized(); hm = h.f->map(); lab = h.f->label(); }
        if (!exists) h.gone = true;
        const char *kn[] = { "node", "edge", "face" };
        if (init != exists) { violation("P09", "handle-state", strf("handle of %s %u reports initialized=%d although the cell %s", kn[h.kind], h.label, (int)init, exists ? "exists" : "is gone")); return; }
        if (hm != (exists ? map.get() : (GeoMap *)0)) { violation("P09", "handle-map", strf("handle of %s %u refers to a wrong map", kn[h.kind], h.label)); return; }
        if (lab != h.label) { violation("P09", "handle-label", strf("handle of %s %u reports label %u", kn[h.kind], h.label, lab)); return; }
        if (exists) {
            bool same = h.kind == 0 ? map->node(lab) == h.n : h.kind == 1 ? map->edge(lab) == h.e : map->face(lab) == h.f;
            if (!same) { violation("P09", "handle-identity", strf("handle of %s %u is not the map's cell any more", kn[h.kind], h.label)); return; }
            continue;
        }
        bool ok = true; // a handle of a removed cell refuses to navigate instead of crashing
        if (h.kind == 0) {
            GeoMap::Node &n = *h.n;
            ok = throwsPrecondition([&] { n.anchor(); }) && throwsPrecondition([&] { n.setPosition(Vector2(1, 1)); });
            bool wasIso = n.isIsolated();
            if (!wasIso) ok = ok && throwsPrecondition([&] { n.degree(); }) && throwsPrecondition([&] { n.hasDegree(2); }) && throwsPrecondition([&] { n.hasMinDegree(2); });
        } else if (h.kind == 1) {
            GeoMap::Edge &e = *h.e;
            ok = throwsPrecondition([&] { e.startNode(); }) && throwsPrecondition([&] { e.endNode(); }) && throwsPrecondition([&] { e.leftFace(); }) && throwsPrecondition([&] { e.rightFace(); });
            volatile double l = e.length() + e.partialArea(); (void)l; e.boundingBox();
            if (e.size() < 2) ok = false;
        } else {
            GeoMap::Face &f = *h.f;
            ok = throwsPrecondition([&] { f.contains(Vector2(1, 1)); });
        }
        if (!ok) { violation("P09", "dead-handle", strf("handle of removed %s %u still navigates", kn[h.kind], h.label)); return; }
        g_stats.inc("dead-handle-checks");
    }
}
