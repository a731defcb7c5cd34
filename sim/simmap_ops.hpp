// Operations of the map simulator, script generation and the run loop.

int World::pickEdge(u32 a, int which) const {
    std::vector<int> c;
    for (std::map<u32, EdgeD>::const_iterator it = after.edges.begin(); it != after.edges.end(); ++it) {
        bool br = it->second.l == it->second.r;
        if (which == 0 || (which == 1) == br) c.push_back((int)it->first);
    }
    return c.empty() ? 0 : c[a % c.size()];
}

void World::begin(const Op &o, bool isSingle) {
    op = &o; cbIndex = vetoIndex = 0; events.clear(); midDumps.clear(); midHooks.clear(); midError.clear();
    chain0 = chain; lateAttached.clear(); before = after; single = isSingle; subs.clear(); refusedEdges.clear(); refusedNodes.clear(); raised = false;
    noObs = true; for (size_t i = 0; i < chain0.size(); ++i) if (chain0[i].kind == 0) noObs = false;
    opSeg = -1; opIns = false;
}

// everything that is checked after an operation has returned or raised
void World::checkStep(const std::string &kind, int status, bool returned, int retLabel) {
    bool bulk = !single;
    bool cancelled = !returned || status;
    g_stats.inc("op." + kind); if (status == 1) g_stats.inc("op-raised"); else if (status == 2) g_stats.inc("op-exception"); else if (!returned && single) g_stats.inc("op-refused");
    if (!dump(after, strf("after %s", opText.c_str()).c_str(), bulk ? "P08" : cancelled ? "P01" : (const char *)0)) return;
    if (status == 2) { violation("P03", "unexpected-exception", strf("%s: %s", opText.c_str(), what.c_str())); violation("P08", "unexpected-exception", strf("%s: %s", opText.c_str(), what.c_str())); dead = true; return; }
    std::string err; bool parsed = false;
    if (!noObs && chain0[0].kind == 0) {
        parsed = parseEvents(err);
        if (!parsed) {
            violation("P02", "protocol", strf("%s: %s", opText.c_str(), err.c_str()));
            if (protOn) violation("P07", "protocol", strf("%s: %s", opText.c_str(), err.c_str()));
            if (single && (err.find("never reached") != std::string::npos || cancelled)) violation("P01", "protocol", strf("%s: %s", opText.c_str(), err.c_str()));
        } else if (raised != (status == 1)) {
            violation("P02", "exception-lost", strf("%s: an observer raised but the caller was not told", opText.c_str()));
            violation("P01", "exception-lost", strf("%s: an observer raised but the caller was not told", opText.c_str()));
        }
    }
    bool modelOk = parsed;
    if (!parsed && (bulk || status == 1)) twin.reset(); // nobody recorded what was done
    if (!parsed && single && status == 0) { // no recorder: what happened is told by the return value
        subs.clear();
        if (returned) {
            Sub s; s.kind = -1; s.partial = true; s.dart = s.dart2 = 0; s.survivor = s.merged = s.node = 0; s.seg = 0; s.insert = false;
            s.dart = opDart;
            if (kind == "mf") { s.kind = S_MF; u32 L = before.leftOf(opDart), R = before.leftOf(-opDart); s.survivor = retLabel; s.merged = retLabel == (int)L ? R : L; if (retLabel != (int)L && retLabel != (int)R) { violation("P03", "return-value", opText + " returned a face that was not involved"); return; } }
            else if (kind == "rb") { s.kind = S_RB; s.survivor = before.leftOf(opDart); }
            else if (kind == "me") { s.kind = S_ME; s.dart2 = before.sigma[opDart]; if (retLabel == std::abs(s.dart2)) std::swap(s.dart, s.dart2); s.survivor = retLabel; }
            else if (kind == "se") { s.kind = S_SE; s.dart = opDart; s.seg = opSeg; s.insert = opIns; s.p = opPt; }
            else if (kind == "rn") { s.kind = S_RN; s.node = opDart; }
            subs.push_back(s);
        } else if (noObs) {
            int hook = kind == "mf" ? H_PREMF : kind == "rb" ? H_PRERB : kind == "me" ? H_PREME : -1;
            bool just = protOn && hook >= 0 && (protRefuses(hook, before, opDart));
            if (!just) { violation("P03", "refused-without-reason", opText + " was refused although no observer objected"); violation("P07", "refused-without-reason", opText + " was refused although no observer objected"); return; }
        }
        modelOk = true;
    }
    if (modelOk) {
        Dump m = before; err.clear();
        applySubs(m, after, err);
        if (!err.empty()) { violation("P03", "survivor", strf("%s: %s", opText.c_str(), err.c_str())); }
        bool changed = !subs.empty();
        std::string diff = changed ? diffDump(m, after, false, false) : diffDump(before, after, true, true, true);
        if (!diff.empty() && raised && changed) { // raised in the middle: all or nothing
            std::string d2 = diffDump(before, after, true, true, true);
            if (d2.empty()) diff.clear(); else { violation("P01", "half-done", strf("%s (an observer raised): %s", opText.c_str(), diff.c_str())); }
        }
        if (!diff.empty()) {
            if (!changed) { violation("P01", "not-atomic", strf("%s was %s but: %s", opText.c_str(), raised ? "aborted by a raising observer" : "refused", diff.c_str())); if (bulk) violation("P08", "not-atomic", strf("%s did nothing but: %s", opText.c_str(), diff.c_str())); }
            violation("P03", "refinement", strf("%s: model and map differ: %s", opText.c_str(), diff.c_str()));
            if (bulk) violation("P08", "effect", strf("%s: %s", opText.c_str(), diff.c_str()));
            dead = true; return;
        }
        if (single && status == 0) {
            if (returned != changed) { violation("P01", "return-value", strf("%s returned %s although it %s", opText.c_str(), returned ? "success" : "nothing", changed ? "was carried out" : "was refused")); violation("P03", "return-value", opText + ": wrong return value"); }
            if (returned && changed && !subs[0].partial) {
                int want = subs[0].kind == S_SE ? (int)before.maxEdge : subs[0].kind == S_RN ? retLabel : (int)subs[0].survivor;
                if (retLabel != want) violation("P03", "return-value", strf("%s returned cell %d instead of %d", opText.c_str(), retLabel, want));
            }
        }
        // edge protection
        if (protOn) {
            Dump x = before; 
            for (size_t i = 0; i < subs.size(); ++i) {
                const Sub &s = subs[i];
                if ((s.kind == S_MF || s.kind == S_RB) && x.edges.count(std::abs(s.dart)) && (x.edges[std::abs(s.dart)].flags & 0xff)) { violation("P07", "protected-edge-removed", strf("%s removed protected edge %d", opText.c_str(), std::abs(s.dart))); return; }
                if (s.kind == S_ME && x.edges.count(std::abs(s.dart)) && x.edges.count(std::abs(s.dart2)) && x.edges[std::abs(s.dart)].flags != x.edges[std::abs(s.dart2)].flags) { violation("P07", "different-flags-merged", strf("%s merged edges %d and %d of different flags", opText.c_str(), s.dart, s.dart2)); return; }
            }
        }
        // hand-over of pixels
        if (P("P05") && parsed && !raised && before.hasLab && after.hasLab) {
            std::multiset<std::pair<int,int> > got, want;
            for (size_t i = 0; i < subs.size(); ++i) got.insert(subs[i].px.begin(), subs[i].px.end());
            for (int i = 0; i < after.w * after.h; ++i) if (before.raw[i] < 0 && after.raw[i] >= 0) want.insert(std::make_pair(i % after.w, i / after.w));
            if (got != want) { violation("P05", "associated-pixels", strf("%s: %u pixels became part of a face, %u were announced", opText.c_str(), (u32)want.size(), (u32)got.size())); return; }
        }
    }
    // state seen by observers
    if (P("P02") && !midError.empty()) violation("P02", "mid-state", midError);
    if (P("P02") && single && status == 0 && returned)
        for (size_t i = 0; i < midDumps.size(); ++i) {
            std::string x = diffDump(midDumps[i], after, true, midHooks[i] == H_ASSOC);
            if (!x.empty()) { violation("P02", "mid-state", strf("%s: the map seen in %s is not the final one: %s", opText.c_str(), hookName[midHooks[i]], x.c_str())); break; }
        }
    labelOracle(after, "P05", opText.c_str());
    if (cancelled && !bulk) labelOracle(after, "P01", opText.c_str());
    if (status == 1 && (!subs.empty() || !parsed) && stat.s) { stat.s->detachHooks(); dropChain(2); stat.s.reset(); } // an observer raised mid-way: later observers were not told
    if (stat.s) {
        if (modelOk) { for (size_t i = 0; i < subs.size(); ++i) if (subs[i].kind == S_MF) { if (!stat.inexact.count(subs[i].merged)) stat.inexact.erase(subs[i].survivor); stat.inexact.erase(subs[i].merged); } }
        else stat.tracked = false;
    }
    statsOracle(after, opText.c_str());
    if (g_opIndex % 4 == 1) drawOracle(after, opText.c_str());
    heldOracle();
    twinStep();
    g_stats.state(dumpHash(after, false));
    std::string sig = kind; for (size_t i = 0; i < events.size() && i < 40; ++i) sig += strf(" %d%d%d", events[i].hook, events[i].outcome, events[i].obs);
    g_stats.sig(sig);
    logf("  -> %s ret=%d label=%d n=%u e=%u f=%u h=%016llx", status ? "exception" : "returned", (int)returned, retLabel, after.nodeCount, after.edgeCount, after.faceCount, (unsigned long long)dumpHash(after, true));
}

void World::euler(const Op &o) {
    const std::string &k = o.name; bool ret = false; int rl = 0, status = 0;
    begin(o, true);
    GeoMap &m = *map;
    if (k == "mf" || k == "rb" || k == "re") {
        if (!before.init && k != "re") return;
        int e = pickEdge(o.a, k == "mf" ? 2 : k == "rb" ? 1 : 0);
        if (!e) return;
        opDart = (o.b & 1) ? -e : e;
        opText = strf("%s(dart %d)", k == "mf" ? "mergeFaces" : k == "rb" ? "removeBridge" : "removeEdge", opDart);
        logf("op %s", opText.c_str());
        bool br = before.init && before.edges[e].l == before.edges[e].r;
        status = guarded([&] { GeoMap::FacePtr f = k == "mf" ? m.mergeFaces(m.dart(opDart)) : k == "rb" ? m.removeBridge(m.dart(opDart)) : m.removeEdge(m.dart(opDart)); if (f) { ret = true; rl = (int)f->label(); } });
        if (!before.init) { // plain graph: no observers involved, nodes stay
            if (!dump(after, opText.c_str(), "P03")) return;
            Dump x = before; model::removeGraphEdge(x, (u32)e);
            std::string df = diffDump(x, after);
            if (!df.empty() || status || ret) violation("P03", "graph-remove", strf("%s on a graph: %s", opText.c_str(), df.c_str()));
            if (!events.empty()) violation("P02", "protocol", "notifications for removing an edge of a graph");
            if (twin) twin->removeEdge(twin->dart(opDart));
            return;
        }
        checkStep(br ? "rb" : "mf", status, ret, rl);
    } else if (k == "me") {
        std::vector<int> c;
        for (std::map<int, int>::const_iterator it = before.sigma.begin(); it != before.sigma.end(); ++it) if (it->second != it->first && before.sigma[it->second] == it->first && it->second != -it->first) c.push_back(it->first);
        if (c.empty()) return;
        opDart = c[o.a % c.size()];
        opText = strf("mergeEdges(dart %d)", opDart); logf("op %s", opText.c_str());
        status = guarded([&] { GeoMap::EdgePtr e = m.mergeEdges(m.dart(opDart)); if (e) { ret = true; rl = (int)e->label(); } });
        checkStep("me", status, ret, rl);
    } else if (k == "se") {
        int e = pickEdge(o.a, 0); if (!e) return;
        const std::vector<Pt> &pts = before.edges[e].pts;
        opDart = e;
        if ((o.b & 1) && pts.size() >= 3) { opIns = false; opSeg = 1 + (o.b >> 1) % (pts.size() - 2); opPt = pts[opSeg]; }
        else {
            opIns = true; opSeg = (o.b >> 1) % (pts.size() - 1);
            double t = 0.3 + 0.4 * (o.c % 101) / 100.0; Pt a = pts[opSeg], b = pts[opSeg + 1];
            if (std::hypot(a.first - b.first, a.second - b.second) < 0.01) return;
            opPt = Pt(a.first + t * (b.first - a.first), a.second + t * (b.second - a.second));
            // a point that rounding puts off the segment can change which pixels the edge crosses (known finding, see DESIGN.md)
            std::vector<Pt> p1(pts.begin(), pts.begin() + opSeg + 1), p2(pts.begin() + opSeg + 1, pts.end()); p1.push_back(opPt); p2.insert(p2.begin(), opPt);
            std::set<std::pair<int,int> > s0 = scanPixels(*scanPoly(polyOf(pts)), before.w, before.h), s1 = scanPixels(*scanPoly(polyOf(p1)), before.w, before.h), s2 = scanPixels(*scanPoly(polyOf(p2)), before.w, before.h);
            s1.insert(s2.begin(), s2.end());
            if (s0 != s1 && !script.get("splitany")) return;
        }
        opText = strf("splitEdge(edge %d, segment %d, %s)", e, opSeg, opIns ? "new point" : "existing point"); logf("op %s", opText.c_str());
        GeoMap::EdgePtr ep = m.edge(e);
        status = guarded([&] { GeoMap::EdgePtr r = opIns ? m.splitEdge(*ep, opSeg, Vector2(opPt.first, opPt.second)) : m.splitEdge(*ep, opSeg); if (r) { ret = true; rl = (int)r->label(); } });
        checkStep("se", status, ret, rl);
    } else if (k == "rn") {
        std::vector<int> c; for (std::map<u32, NodeD>::const_iterator it = before.nodes.begin(); it != before.nodes.end(); ++it) if (before.isolated(it->first)) c.push_back((int)it->first);
        if (c.empty()) return;
        opDart = c[o.a % c.size()];
        opText = strf("removeIsolatedNode(%d)", opDart); logf("op %s", opText.c_str());
        GeoMap::NodePtr n = m.node(opDart);
        status = guarded([&] { ret = m.removeIsolatedNode(*n); }); rl = opDart;
        checkStep("rn", status, ret, rl);
    }
}

// ------------------------------------------------------------------ bulk operations
void World::doBulk(const Op &o) {
    if (!after.init) return;
    begin(o, false);
    const std::string &k = o.name; GeoMap &m = *map;
    std::set<u32> req; unsigned count = 0; bool haveCount = true; int face = -1; int status; bool isProtected = false;
    bool nodes0 = false, nodes2 = false;
    if (k == "RE") {
        std::vector<CellLabel> l;
        for (std::map<u32, EdgeD>::const_iterator it = before.edges.begin(); it != before.edges.end(); ++it)
            if (hashStr(strf("%u %u", it->first, o.a)) % 100 < 15 + o.b % 60) { req.insert(it->first); l.push_back(it->first); }
        if (o.c % 3 == 1) std::reverse(l.begin(), l.end());
        else if (o.c % 3 == 2) { Rng r(o.c); for (size_t i = l.size(); i > 1; --i) std::swap(l[i-1], l[r.below((u32)i)]); }
        opText = strf("removeEdges(%u labels)", (u32)l.size()); logf("op %s", opText.c_str());
        status = guarded([&] { count = removeEdges(m, l.begin(), l.end()); }); nodes0 = nodes2 = true;
    } else if (k == "RB") {
        for (std::map<u32, EdgeD>::const_iterator it = before.edges.begin(); it != before.edges.end(); ++it) if (it->second.l == it->second.r) req.insert(it->first);
        if (o.a % 3 == 0) { // caller-chosen subset
            std::list<CellLabel> l;
            for (std::set<u32>::iterator it = req.begin(); it != req.end();) { std::set<u32>::iterator n = it; ++n; if (hashStr(strf("%u %u", *it, o.b)) % 3) { l.push_back(*it); if (hashStr(strf("d%u %u", *it, o.b)) % 7 == 0) l.push_back(*it); } else req.erase(it); it = n; }
            opText = strf("removeBridges(%u labels)", (u32)l.size()); logf("op %s", opText.c_str());
            status = guarded([&] { count = removeBridges(m, l); });
        } else {
            opText = "removeBridges()"; logf("op %s", opText.c_str());
            status = guarded([&] { count = removeBridges(m); });
        }
    } else if (k == "RI") { opText = "removeIsolatedNodes()"; logf("op %s", opText.c_str()); status = guarded([&] { count = removeIsolatedNodes(m); }); nodes0 = true; }
    else if (k == "M2") { opText = "mergeDegree2Nodes()"; logf("op %s", opText.c_str()); status = guarded([&] { count = mergeDegree2Nodes(m); }); nodes2 = true; }
    else { // MC
        int e = pickEdge(o.a, 2); if (!e) return;
        int d = (o.b & 1) ? -e : e;
        std::vector<int> orb = before.orbit(d);
        for (size_t i = 0; i < orb.size(); ++i) if (before.leftOf(-orb[i]) == before.leftOf(-d)) { req.insert(std::abs(orb[i])); if (before.edges[std::abs(orb[i])].flags & 0xff) isProtected = true; }
        bool deg2 = (o.b & 2) != 0; haveCount = false;
        opText = strf("mergeFacesCompletely(dart %d, %d)", d, (int)deg2); logf("op %s", opText.c_str());
        GeoMap::Dart dd = m.dart(d);
        status = guarded([&] { GeoMap::FacePtr f = mergeFacesCompletely(dd, deg2); if (f) face = (int)f->label(); });
    }
    checkStep(k, status, true, (int)count);
    if (dead || g_viol.hit || !P("P08") || status) return;
    if (noObs || chain0[0].kind) return;
    // effect, completeness, count
    unsigned done = 0; int survivor = -1;
    for (size_t i = 0; i < subs.size(); ++i) {
        ++done;
        if (subs[i].kind == S_MF || subs[i].kind == S_RB) {
            if (!req.count(std::abs(subs[i].dart))) { violation("P08", "unrequested-edge", strf("%s removed edge %d which was not asked for", opText.c_str(), std::abs(subs[i].dart))); return; }
            if (subs[i].kind == S_MF) survivor = (int)subs[i].survivor;
        }
        if (subs[i].kind == S_ME && !(nodes2 || (k == "MC" && (o.b & 2)))) { violation("P08", "unrequested-merge", opText + " merged edges without being asked to"); return; }
    }
    if (k == "MC" && isProtected && (!subs.empty() || face >= 0)) { violation("P08", "protected", opText + " merged across a protected edge"); return; }
    if (k == "MC" && face != survivor) { violation("P08", "return-value", strf("%s returned face %d, survivor is %d", opText.c_str(), face, survivor)); return; }
    if (haveCount && count != done) { violation("P08", "count", strf("%s reports %u operations, %u were carried out", opText.c_str(), count, done)); return; }
    if (!(k == "MC" && isProtected))
        for (std::set<u32>::iterator it = req.begin(); it != req.end(); ++it)
            if (after.edges.count(*it) && !refusedEdges.count(*it)) {
                bool mergedIn = false; // an edge that was merged keeps one label: cannot be a requested one, those are gone or refused
                if (!mergedIn) { violation("P08", "edge-left", strf("%s left edge %u although nobody refused its removal", opText.c_str(), *it)); return; }
            }
    for (std::map<u32, NodeD>::iterator it = after.nodes.begin(); it != after.nodes.end(); ++it) {
        if (refusedNodes.count(it->first)) continue;
        if (nodes0 && after.isolated(it->first)) { violation("P08", "node-left", strf("%s left isolated node %u although nobody refused its removal", opText.c_str(), it->first)); return; }
    }
    if (nodes2)
        for (std::map<int, int>::iterator it = after.sigma.begin(); it != after.sigma.end(); ++it)
            if (it->second != it->first && it->second != -it->first && after.sigma[it->second] == it->first && !refusedNodes.count(after.startOf(it->first))) { violation("P08", "degree-2-left", strf("%s left degree-2 node %u although nobody refused", opText.c_str(), after.startOf(it->first))); return; }
}

// ------------------------------------------------------------------ copies
void World::twinStep() {
    if (frozen && P("P10")) {
        Dump d; std::string err;
        if (!takeDump(*frozen, d, err)) { violation("P10", "copy-corrupted", strf("%s damaged an independent copy: %s", opText.c_str(), err.c_str())); return; }
        std::string x = diffDump(frozenDump, d, true, true, true);
        if (!x.empty()) { violation("P10", "copy-not-independent", strf("%s on the original changed a copy: %s", opText.c_str(), x.c_str())); return; }
    }
    if (!twin) return;
    for (size_t i = 0; i < subs.size(); ++i) {
        const Sub &s = subs[i];
        twinKeep = s.kept; if (s.partial) for (std::map<u32, NodeD>::iterator it = after.nodes.begin(); it != after.nodes.end(); ++it) twinKeep.insert(it->first);
        bool ok = true; u32 rl = s.survivor;
        try {
            if (s.kind == S_MF) { GeoMap::FacePtr f = twin->mergeFaces(twin->dart(s.dart)); ok = (bool)f; if (f) rl = f->label(); }
            else if (s.kind == S_RB) ok = (bool)twin->removeBridge(twin->dart(s.dart));
            else if (s.kind == S_ME) { GeoMap::EdgePtr f = twin->mergeEdges(twin->dart(s.dart)); ok = (bool)f; if (f) rl = f->label(); }
            else if (s.kind == S_SE) ok = (bool)(s.insert ? twin->splitEdge(*twin->edge(s.dart), s.seg, Vector2(s.p.first, s.p.second)) : twin->splitEdge(*twin->edge(s.dart), s.seg));
            else { GeoMap::NodePtr n = twin->node(s.node); ok = n && twin->removeIsolatedNode(*n); }
        } catch (std::exception &e) { violation("P10", "copy-diverged", strf("%s works on the original but fails on its copy: %s", opText.c_str(), e.what())); twin.reset(); return; }
        twinKeep.clear();
        if (!ok) { violation("P10", "copy-diverged", strf("%s works on the original but is refused by its copy", opText.c_str())); twin.reset(); return; }
        if (rl != s.survivor && (s.kind == S_MF || s.kind == S_ME)) { // equal areas: either may survive
            bool tie = s.kind == S_ME;
            if (s.kind == S_MF) tie = s.survivor && s.merged && rl == s.merged && before.faces.count(s.survivor) && before.faces.count(s.merged) && near(before.faceArea(s.survivor), before.faceArea(s.merged), 1e-6);
            if (s.kind == S_MF && subs.size() > 1 && s.survivor && s.merged && rl == s.merged) tie = true;
            if (!tie) violation("P10", "copy-diverged", strf("%s: another cell survives in the copy", opText.c_str()));
            twin.reset(); return;
        }
    }
    Dump d; std::string err;
    if (!takeDump(*twin, d, err) || !checkShape(d, err)) { violation("P10", "copy-malformed", strf("%s on a copy: %s", opText.c_str(), err.c_str())); twin.reset(); return; }
    std::string x = diffDump(after, d, true, after.hasLab);
    if (!x.empty()) { violation("P10", "copy-diverged", strf("after %s original and copy differ: %s", opText.c_str(), x.c_str())); twin.reset(); return; }
    if (P("P10")) {
        Dump again; if (!takeDump(*map, again, err)) { violation("P10", "original-corrupted", err); dead = true; return; }
        x = diffDump(after, again, true, true, true); if (!x.empty()) violation("P10", "original-changed", strf("working on the copy changed the original: %s", x.c_str()));
        // measures of the copy
        qMap = twin.get(); qDump = &after; qProp = "P10";
        Rng r(g_opIndex * 31 + script.get("genseed"));
        if (r.chance(0.4)) {
            if (!after.edges.empty()) { std::map<u32, EdgeD>::iterator it = after.edges.begin(); std::advance(it, r.below((u32)after.edges.size())); edgeQueries(it->first, 31); }
            if (after.init) { std::map<u32, FaceD>::iterator it = after.faces.begin(); std::advance(it, r.below((u32)after.faces.size())); faceQueries(it->first, 15); }
            pointQueries(r.real(0, after.w), r.real(0, after.h));
        }
    }
}

// ------------------------------------------------------------------ calls that must be rejected
void World::bad(const Op &o) {
    begin(o, false);
    GeoMap &m = *map; u32 k = o.a % 14; std::function<void()> f; std::string n;
    int eb = pickEdge(o.b, 1), en = pickEdge(o.b, 2), ea = pickEdge(o.b, 0);
    int sg = (o.c & 1) ? -1 : 1;
    switch (k) {
    case 0: if (!before.init || !eb) return; n = strf("mergeFaces(bridge %d)", eb * sg); f = [&] { m.mergeFaces(m.dart(eb * sg)); }; break;
    case 1: if (!before.init || !en) return; n = strf("removeBridge(non-bridge %d)", en * sg); f = [&] { m.removeBridge(m.dart(en * sg)); }; break;
    case 2: {
        if (!ea) return; int d = ea * sg; int s1 = before.sigma[d];
        if (s1 != d && s1 != -d && before.sigma[s1] == d) return; // would be legal
        n = strf("mergeEdges(dart %d at a node it cannot merge)", d); f = [&m, d] { m.mergeEdges(m.dart(d)); }; break; }
    case 3: { if (!ea) return; u32 seg = (u32)before.edges[ea].pts.size() - 1 + (o.c % 4); n = strf("splitEdge(%d, %u)", ea, seg); f = [&m, ea, seg, &o] { if (o.c & 8) m.splitEdge(*m.edge(ea), seg, Vector2(1, 1)); else m.splitEdge(*m.edge(ea), seg); }; break; }
    case 4: case 5: { // darts of removed edges
        int d = 0; for (u32 l = 1 + o.b % std::max(1u, before.maxEdge); l < before.maxEdge; ++l) if (!before.edges.count(l)) { d = (int)l * sg; break; }
        if (o.c % 5 == 0) d = (int)before.maxEdge + (int)(o.b % 3);
        n = strf("operation on dart %d of no edge", d);
        u32 w = o.c % 3; if (!before.init && w != 2) return;
        f = [&m, d, w] { if (w == 0) m.mergeFaces(m.dart(d)); else if (w == 1) m.removeBridge(m.dart(d)); else m.mergeEdges(m.dart(d)); }; break; }
    case 6: if (!before.init || before.nodes.size() < 1) return; n = "addEdge() after initializeMap()"; f = [&] { Vector2Array p; p.push_back(Vector2(1, 1)); p.push_back(Vector2(2, 2)); GeoMap::NodePtr a, b; for (std::map<u32, NodeD>::iterator it = before.nodes.begin(); it != before.nodes.end(); ++it) if (before.isolated(it->first)) a = m.node(it->first); if (a) m.addEdge(*a, *a, p); else { GeoMap::Dart d = m.dart(before.edges.empty() ? 0 : (int)before.edges.begin()->first); if (before.edges.empty()) vigra_precondition(false, "nothing"); m.addEdge(d, d, p); } }; break;
    case 7: if (!before.init) return; n = "initializing twice"; f = [&] { u32 w = o.c % 3; if (w == 0) m.initializeMap(o.c & 8); else if (w == 1) m.sortEdgesDirectly(); else m.setSigmaMapping(m.sigmaMapping()); }; break;
    case 8: case 9: {
        if (!before.init) return; n = "changeFaceLabels() with an invalid mapping";
        f = [&] {
            std::vector<CellLabel> l(before.maxFace, 0); u32 nl = 0;
            for (u32 i = 0; i < before.maxFace; ++i) if (before.faces.count(i)) l[i] = nl++;
            u32 w = o.c % 3;
            if (w == 0) l.push_back(0);
            else if (w == 1 && nl > 1) { u32 last = 0; for (u32 i = 0; i < before.maxFace; ++i) if (before.faces.count(i)) last = i; l[last] = 0; std::vector<u32> perm; }
            else { m.changeFaceLabels(l, nl ? nl - 1 : 0); return; }
            if (w == 1 && nl > 2) std::swap(l[before.faces.begin()->first], l[(++before.faces.begin())->first]);
            m.changeFaceLabels(l, nl);
        }; break; }
    case 10: n = "cell access beyond the label range"; f = [&] { u32 w = o.c % 3; if (w == 0) m.node(before.maxNode + o.b % 3); else if (w == 1) m.edge(before.maxEdge + o.b % 3); else m.face(before.maxFace + o.b % 3); }; break;
    case 11: if (!before.init || !eb) return; n = strf("mergeFacesCompletely(bridge %d)", eb * sg); f = [&] { GeoMap::Dart d = m.dart(eb * sg); mergeFacesCompletely(d, true); }; break;
    case 12: if (before.init) { n = "boundingBox() of the infinite face"; f = [&] { m.face(0)->boundingBox(); }; } else { n = "faceAt() on a graph"; f = [&] { m.faceAt(Vector2(3, 3)); }; } break;
    default: {
        if (before.hasLab) { // removeEdges with a label of no edge
            int d = 0; for (u32 l = 1; l < before.maxEdge; ++l) if (!before.edges.count(l)) d = (int)l;
            if (!d) return; n = strf("removeEdges([%d]) of no edge", d); f = [&m, d] { std::vector<CellLabel> l(1, (CellLabel)d); removeEdges(m, l.begin(), l.end()); };
        } else { n = "label image access without label image"; f = [&] { m.srcLabelRange(); }; }
        break; }
    }
    opText = n; logf("op bad %s", n.c_str());
    int st = guarded(f);
    g_stats.inc("fault.invalid-call");
    if (st != 2) { violation("P01", "not-rejected", strf("%s was not rejected", n.c_str())); dead = true; return; }
    if (!events.empty()) violation("P01", "rejected-but-announced", strf("%s was rejected, but observers were notified", n.c_str()));
    if (!dump(after, strf("after rejected %s", n.c_str()).c_str(), "P01")) return;
    std::string x = diffDump(before, after, true, true, true);
    if (!x.empty()) { violation("P01", "rejected-not-atomic", strf("%s was rejected but: %s", n.c_str(), x.c_str())); dead = true; }
}

// ------------------------------------------------------------------ failing allocations in readers
void World::oom(const Op &o) {
    begin(o, false);
    GeoMap &m = *map; const Dump &d = before; u32 k = o.a % 9; std::string n; std::function<void()> f;
    int e = pickEdge(o.b, 0); u32 fc = 0;
    if (d.init) { std::map<u32, FaceD>::const_iterator it = d.faces.begin(); std::advance(it, o.b % d.faces.size()); fc = it->first; }
    boost::shared_ptr<GeoMap> cp; double px = (o.b % 97) / 97.0 * d.w, py = (o.b / 97 % 89) / 89.0 * d.h;
    bool toggles = false;
    switch (k) {
    case 0: if (!e) return; n = strf("edge %d scanLines()", e); f = [&] { m.edge(e)->scanLines(); }; break;
    case 1: if (!fc) return; n = strf("face %u scanLines()", fc); f = [&] { m.face(fc)->scanLines(); }; break;
    case 2: if (!e) return; n = strf("contourPoly(%d)", e); f = [&] { contourPoly(m.dart(e)); }; break;
    case 3: if (!d.init) return; n = "faceAt()"; f = [&] { m.faceAt(Vector2(px, py)); }; break;
    case 4: if (!d.init) return; n = strf("face %u contains()", fc); f = [&] { m.face(fc)->contains(Vector2(px, py)); }; break;
    case 5: case 6: n = "copying the map"; f = [&] { cp.reset(new GeoMap(m)); }; break;
    case 7: n = "checkConsistency()"; f = [&] { m.checkConsistency(); }; break;
    default: if (!d.init || stat.attached) return; n = "setHasLabelImage()"; toggles = true; f = [&] { m.setHasLabelImage(!d.hasLab); }; break;
    }
    opText = n + " with failing allocation";
    u32 span = k == 5 || k == 6 ? 8 + (u32)d.edges.size() * 6 : k == 8 ? 12 + (u32)d.edges.size() * 6 : 12;
    g_alloc.fired = false; g_alloc.countdown = 1 + o.c % span;
    logf("op oom %s at %ld", n.c_str(), g_alloc.countdown);
    int st = guarded([&] { g_alloc.armed = true; try { f(); } catch (...) { g_alloc.armed = false; throw; } g_alloc.armed = false; });
    bool fired = g_alloc.fired; g_alloc.fired = false;
    logf("  -> status %d fired %d", st, (int)fired);
    if (fired) g_stats.inc("fault.alloc"); else g_stats.inc("fault.alloc-not-reached");
    if (fired && st == 0) { violation("P11", "swallowed", opText + ": the failed allocation was not reported"); }
    if (!dump(after, opText.c_str(), "P11")) return;
    if (toggles) {
        if (fired) { if (after.hasLab != before.hasLab) violation("P11", "half-done", opText + ": the label image is half built"); std::string x = diffDump(before, after, after.hasLab, after.hasLab); if (!x.empty()) violation("P11", "half-done", strf("%s: %s", opText.c_str(), x.c_str())); }
        if (twin && !fired) twin->setHasLabelImage(!d.hasLab);
        labelOracle(after, "P11", opText.c_str());
    } else {
        std::string x = diffDump(before, after, true, true, true);
        if (!x.empty()) { violation("P11", "state-changed", strf("%s changed the map: %s", opText.c_str(), x.c_str())); dead = true; return; }
    }
    if (cp) { Dump c; std::string err; if (!takeDump(*cp, c, err)) violation("P11", "bad-copy", err); else { std::string x = diffDump(before, c); if (!x.empty()) violation("P11", "bad-copy", x); } }
    qMap = map.get(); qDump = &after; qProp = "P11"; // and the answers are right afterwards
    if (e && after.edges.count(e)) edgeQueries(e, 31);
    if (after.init && after.faces.count(fc)) faceQueries(fc, 15);
    pointQueries(px, py);
}

void World::relabel(const Op &o) {
    if (!after.init || stat.s) return;
    begin(o, false);
    std::vector<CellLabel> l(before.maxFace, 0); std::vector<u32> ex; Rng r(o.a);
    for (std::map<u32, FaceD>::iterator it = before.faces.begin(); it != before.faces.end(); ++it) if (it->first) ex.push_back(it->first);
    u32 maxL = (u32)ex.size() + 1 + o.b % 3; std::vector<u32> nl; for (u32 i = 1; i < maxL; ++i) nl.push_back(i);
    for (size_t i = nl.size(); i > 1; --i) std::swap(nl[i-1], nl[r.below((u32)i)]);
    std::map<u32, u32> mp; mp[0] = 0;
    for (size_t i = 0; i < ex.size(); ++i) { l[ex[i]] = nl[i]; mp[ex[i]] = nl[i]; }
    opText = "changeFaceLabels()"; logf("op relabel");
    int st = guarded([&] { map->changeFaceLabels(l, maxL); });
    if (st) { violation("P03", "relabel", "changeFaceLabels failed: " + what); dead = true; return; }
    if (twin) twin->changeFaceLabels(l, maxL);
    if (!dump(after, "after changeFaceLabels()")) return;
    Dump x = before; x.maxFace = maxL; x.faces.clear();
    for (std::map<u32, EdgeD>::iterator it = x.edges.begin(); it != x.edges.end(); ++it) { it->second.l = mp[it->second.l]; it->second.r = mp[it->second.r]; }
    for (std::map<u32, FaceD>::iterator it = before.faces.begin(); it != before.faces.end(); ++it) x.faces[mp[it->first]] = it->second;
    std::string df = diffDump(x, after, false, true);
    if (!df.empty()) { violation("P03", "relabel", "changeFaceLabels: " + df); violation("P05", "relabel", "changeFaceLabels: " + df); dead = true; return; }
    for (size_t i = 0; i < held.size(); ++i) if (held[i].kind == 2) if (!held[i].f->initialized()) held[i].gone = true; else held[i].label = mp[held[i].label];
    labelOracle(after, "P05", "changeFaceLabels()");
    heldOracle(); twinStep();
}

void World::setpos(const Op &o) {
    if (after.hasLab || after.nodes.empty()) return; // with a label image the geometry is fixed
    begin(o, false);
    std::map<u32, NodeD>::iterator it = before.nodes.begin(); std::advance(it, o.a % before.nodes.size());
    double dx = ((int)(o.b % 201) - 100) * 4e-5, dy = ((int)(o.c % 201) - 100) * 4e-5;
    u32 n = it->first; double x = it->second.x + dx, y = it->second.y + dy;
    opText = strf("setPosition(node %u)", n); logf("op %s", opText.c_str());
    int st = guarded([&] { map->node(n)->setPosition(Vector2(x, y)); });
    if (st) { violation("P04", "setPosition", what); dead = true; return; }
    if (twin) twin->node(n)->setPosition(Vector2(x, y));
    if (!dump(after, opText.c_str(), "P04")) return;
    Dump m = before; m.nodes[n].x = x; m.nodes[n].y = y;
    for (std::map<u32, EdgeD>::iterator e = m.edges.begin(); e != m.edges.end(); ++e) { if (e->second.s == n) e->second.pts.front() = Pt(x, y); if (e->second.e == n) e->second.pts.back() = Pt(x, y); }
    std::string df = diffDump(m, after);
    if (!df.empty()) { violation("P03", "setPosition", df); violation("P04", "setPosition", df); dead = true; return; }
    twinStep();
}

void World::exec(const Op &o) {
    const std::string &k = o.name;
    opText = k;
    if (k == "mf" || k == "rb" || k == "re" || k == "me" || k == "se" || k == "rn") euler(o);
    else if (k == "RE" || k == "RB" || k == "RI" || k == "M2" || k == "MC") doBulk(o);
    else if (k == "bad") bad(o);
    else if (k == "oom") oom(o);
    else if (k == "relabel") relabel(o);
    else if (k == "setpos") setpos(o);
    else if (k == "q") { op = 0; logf("op query %u %u", o.a % 256, o.b); query(o.a, o.b); g_stats.inc("queries"); }
    else if (k == "init") {
        if (after.init) return;
        begin(o, false); op = 0; opText = "initializeMap()"; logf("op init %u", o.a & 1);
        int st = guarded([&] { map->initializeMap(o.a & 1); });
        if (st) { dead = true; g_stats.inc("init-failed"); if (P("P03") && std::string(what).find("identical angles") == std::string::npos) violation("P03", "init", "initializeMap failed: " + what); return; }
        if (twin) { try { twin->initializeMap(o.a & 1); } catch (std::exception &e) { violation("P10", "copy-diverged", std::string("initializeMap fails on the copy: ") + e.what()); twin.reset(); } }
        if (!events.empty()) violation("P02", "protocol", "notifications during initializeMap()");
        if (!dump(after, "after initializeMap()")) return;
        // faces must be the regions of the plane
        Rng r(script.get("genseed") + 5);
        if (P("P03")) for (std::map<u32, EdgeD>::const_iterator it = after.edges.begin(); it != after.edges.end(); ++it) {
            const std::vector<Pt> &p = it->second.pts; Pt a = p[0], b = p[1]; double l = std::hypot(b.first - a.first, b.second - a.second);
            double mx = (a.first + b.first) / 2, my = (a.second + b.second) / 2, nx = (b.second - a.second) / l * 1e-4, ny = -(b.first - a.first) / l * 1e-4;
            if (rayFace(after, mx + nx, my + ny) != it->second.l || rayFace(after, mx - nx, my - ny) != it->second.r) { violation("P03", "embedding", strf("initializeMap(): the faces on the two sides of edge %u are not the regions there", it->first)); break; }
        }
        if (P("P03") && !map->checkConsistency()) violation("P03", "self-check", "checkConsistency() fails right after initializeMap()");
        labelOracle(after, "P05", "initializeMap()");
        twinStep();
    }
    else if (k == "obs+") { if (probes.size() < 8) { addProbe(); logf("op attach"); } }
    else if (k == "obs-") { std::vector<int> l = liveProbes(); if (l.size() > 1) { int v = l[1 + o.a % (l.size() - 1)]; dropProbe(v); logf("op detach %d", v); } }
    else if (k == "prot+") { if (!protOn) { prot.reset(new EdgeProtection(map)); protOn = true; ChainEntry c = { 1, 0 }; chain.push_back(c); logf("op protect"); } }
    else if (k == "prot-") { if (protOn) { if (o.a & 1) prot->detachHooks(); prot.reset(); protOn = false; dropChain(1); logf("op unprotect"); } }
    else if (k == "stat+") {
        if (!stat.s && after.init && after.hasLab) {
            static const u32 mins[] = { 0, 1, 1, 4 };
            stat.minSamples = mins[o.a % 4]; static const double norms[] = { 1, 1, 2, 255 }; stat.norm = norms[o.c % 4]; statCopy.reset();
            image.reshape(FImg::difference_type(after.w, after.h)); Rng r(o.b + 3);
            for (int y = 0; y < after.h; ++y) for (int x = 0; x < after.w; ++x) image(x, y) = (float)r.range(0, 255);
            stat.s.reset(new FStats(map, image, stat.norm, stat.minSamples)); stat.attached = true; stat.frozen.clear(); stat.inexact.clear(); stat.tracked = true;
            for (std::map<u32, FaceD>::iterator it = after.faces.begin(); it != after.faces.end(); ++it) if (it->first && it->second.pixelArea < stat.minSamples) stat.inexact.insert(it->first);
            ChainEntry c = { 2, 0 }; chain.push_back(c);
            logf("op statistics min=%u", stat.minSamples); opText = "FaceColorStatistics()"; statsOracle(after, opText.c_str());
        }
    }
    else if (k == "stat-") {
        if (stat.s && stat.attached && !(o.a & 1)) {
            stat.s->detachHooks(); stat.attached = false; dropChain(2);
            statFreeze(*stat.s, stat.frozen);
            logf("op statistics detached");
        } else if (stat.s) { stat.s.reset(); stat.attached = false; dropChain(2); logf("op statistics gone"); }
    }
    else if (k == "statcopy") statCopyRun(o);
    else if (k == "flag") {
        int e = pickEdge(o.a, 0); if (!e) return; u32 bits[] = { 1, 2, 0x80, 0x100, 0x400, 0x11 }; u32 b = bits[o.b % 6]; bool on = o.c % 3;
        map->edge(e)->setFlag(b, on); if (twin) twin->edge(e)->setFlag(b, on); logf("op flag %d %x %d", e, b, (int)on);
        after.edges[e].flags = on ? after.edges[e].flags | b : after.edges[e].flags & ~b;
    }
    else if (k == "fflag") {
        if (!after.init) return;
        std::map<u32, FaceD>::iterator it = after.faces.begin(); std::advance(it, o.a % after.faces.size()); u32 b = 1u << (o.b % 8); bool on = o.c % 3;
        map->face(it->first)->setFlag(b, on); if (twin) twin->face(it->first)->setFlag(b, on); logf("op fflag %u %x", it->first, b);
        it->second.flags = on ? it->second.flags | b : it->second.flags & ~b;
    }
    else if (k == "hold") {
        Held h; h.kind = o.a % 3; h.gone = false; h.label = 0;
        if (h.kind == 0 && !after.nodes.empty()) { std::map<u32, NodeD>::iterator it = after.nodes.begin(); std::advance(it, o.b % after.nodes.size()); h.label = it->first; h.n = map->node(h.label); }
        else if (h.kind == 1 && !after.edges.empty()) { std::map<u32, EdgeD>::iterator it = after.edges.begin(); std::advance(it, o.b % after.edges.size()); h.label = it->first; h.e = map->edge(h.label); }
        else if (h.kind == 2 && !after.faces.empty()) { std::map<u32, FaceD>::iterator it = after.faces.begin(); std::advance(it, o.b % after.faces.size()); h.label = it->first; h.f = map->face(h.label); }
        else return;
        held.push_back(h); logf("op hold %d %u", h.kind, h.label);
    }
    else if (k == "copy" || k == "twin") {
        boost::shared_ptr<GeoMap> c(new GeoMap(*map)); Dump d; std::string err; logf("op %s", k.c_str());
        g_stats.inc("copies");
        if (!takeDump(*c, d, err)) { violation("P10", "bad-copy", "fresh copy: " + err); return; }
        std::string x = diffDump(after, d); if (!x.empty()) { violation("P10", "bad-copy", "fresh copy differs: " + x); return; }
        if (k == "copy") { frozen = c; frozenDump = d; }
        else { twin = c; World *w = this; twin->removeNodeHook.connect([w](GeoMap::Node &n) { return !w->twinKeep.count(n.label()); }); }
    }
    else if (k == "lab") {
        if (!after.init || stat.s) return;
        bool on = o.a & 1; logf("op label image %d", (int)on); opText = "setHasLabelImage()";
        begin(o, false);
        map->setHasLabelImage(on); if (twin) twin->setHasLabelImage(on);
        if (!dump(after, "setHasLabelImage()", "P05")) return;
        std::string x = diffDump(before, after, false, false); if (!x.empty() || after.hasLab != on) violation("P05", "toggle", "setHasLabelImage changed the map: " + x);
        labelOracle(after, "P05", "setHasLabelImage()"); twinStep();
    }
}

void World::finish() {
    if (dead || g_viol.hit) return;
    opText = "end of run"; begin(Op(), false); op = 0;
    if (P("P04")) { qProp = "P04"; fullQueries(); if (!g_viol.hit && after.init && !map->checkConsistency()) violation("P04", "self-check", "checkConsistency() fails at the end of the run"); }
    if (P("P03") && !map->checkConsistency()) violation("P03", "self-check", "checkConsistency() fails at the end of the run");
    Dump d; if (!dump(d, "at the end")) return;
    std::string x = diffDump(after, d, true, true, true); if (!x.empty()) violation("P04", "reader-changed-map", "queries changed the map: " + x);
    if (P("P10")) { subs.clear(); twinStep(); }
    if (P("P09")) { // the map goes away while handles stay
        twin.reset(); frozen.reset();
        if (prot) { prot.reset(); protOn = false; } if (stat.s) stat.s.reset();
        for (size_t i = 0; i < probes.size(); ++i) if (i & 1) dropProbe((int)i); // some observers are still connected when the map dies
        map.reset(); after = Dump();
        heldOracle();
        for (size_t i = 0; i < probes.size(); ++i) for (size_t j = 0; j < probes[i]->conns.size(); ++j) probes[i]->conns[j].disconnect();
    }
}

void runScript(const Script &s) {
    static bool quiet = false; if (!quiet) { std::cerr.rdbuf(&g_nullBuf); quiet = true; }
    World w(s); Rng rng((u64)s.get("genseed") * 2654435761u + 11);
    g_opIndex = -1;
    w.map = buildGraph(s, rng);
    if (s.get("obs", 1)) for (long i = 0; i < s.get("obs", 1); ++i) w.addProbe();
    if (!w.dump(w.after, "initial graph")) return;
    logf("graph n=%u e=%u init=%d", w.after.nodeCount, w.after.edgeCount, (int)w.after.init);
    for (size_t i = 0; i < s.ops.size() && !w.dead && !g_viol.hit; ++i) { g_opIndex = (long)i; w.exec(s.ops[i]); }
    g_opIndex = (long)s.ops.size();
    w.finish();
    g_stats.inc("steps", s.ops.size());
}

// ------------------------------------------------------------------ script generation
static Op mk(const char *n, Rng &r) { Op o; o.name = n; o.a = r.u() >> 4; o.b = r.u() >> 4; o.c = r.u() >> 4; return o; }
Script generateScript(u64 seed, const std::string &prop) {
    Rng r(seed * 1000003ull + hashStr(prop));
    Script s;
    s.cfg["genseed"] = (long)(r.next() % 1000000007ull);
    int kinds[] = { 0, 1, 1, 1, 2, 2, 3 }; int kind = kinds[r.below(7)];
    s.cfg["gen"] = kind;
    s.cfg["w"] = r.range(kind == 3 ? 6 : 8, kind == 3 ? 10 : 16); s.cfg["h"] = r.range(kind == 3 ? 6 : 8, kind == 3 ? 10 : 16);
    s.cfg["nx"] = r.range(1, 4); s.cfg["ny"] = r.range(1, 4); s.cfg["pe"] = r.range(60, 100);
    if (r.chance(0.12)) { s.cfg["nx"] = r.range(4, 6); s.cfg["ny"] = r.range(4, 6); s.cfg["w"] = s.cfg["h"] = 20; } // large enough to grow the dart tables
    s.cfg["quant"] = r.chance(0.4) ? r.range(1, 4) : 0; s.cfg["off"] = r.chance(0.3) ? r.range(-6, 6) : 0; s.cfg["eight"] = r.below(2);
    s.cfg["obs"] = r.chance(0.08) && prop != "P02" && prop != "P08" ? 0 : r.range(1, 3);
    s.cfg["mid"] = prop == "P02" || prop.empty();
    bool faulty = !r.chance(0.25); // a quarter of the runs has no faults at all
    s.cfg["faulty"] = faulty;
    // swarm: each run enables a subset of operations with random weights
    std::vector<std::pair<const char *, double> > w;
    auto add = [&](const char *n, double x) { if (x > 0 && r.chance(0.75)) w.push_back(std::make_pair(n, x * r.real(0.3, 1.7))); };
    bool p1 = prop == "P01", p4 = prop == "P04", p5 = prop == "P05", p6 = prop == "P06", p7 = prop == "P07", p8 = prop == "P08", p9 = prop == "P09", p10 = prop == "P10", p11 = prop == "P11";
    w.push_back(std::make_pair("mf", p8 ? 2.0 : 6.0)); w.push_back(std::make_pair("rb", p8 ? 1.0 : 3.0)); w.push_back(std::make_pair("re", p8 ? 1.0 : 2.0));
    add("me", p8 ? 1 : 4); add("se", 4); add("rn", 1);
    add("RE", p8 ? 5 : 0.5); add("RB", p8 ? 4 : 0.4); add("RI", p8 ? 1.5 : 0.3); add("M2", p8 ? 2 : 0.4); add("MC", p8 ? 4 : p7 ? 2 : 0.6);
    add("bad", p1 ? 4 : 0.5); add("obs+", 0.7); add("obs-", 0.5);
    add("prot+", p7 ? 3 : 0.6); add("prot-", p7 ? 1 : 0.4); add("flag", p7 ? 4 : 1.0); add("fflag", 0.5);
    add("stat+", p6 ? 2 : p9 ? 1 : 0.4); add("statcopy", p6 ? 1 : 0); add("stat-", p6 ? 0.5 : p9 ? 1 : 0.3);
    add("q", p4 ? 8 : p10 || p11 ? 3 : 1); add("hold", p9 ? 6 : 0.4); add("copy", p10 ? 2 : 0.2); add("twin", p10 ? 2 : 0.1);
    add("relabel", p5 ? 1 : 0.5); add("lab", p5 || p4 ? 1.2 : 0.4); add("setpos", p4 ? 1.5 : 0.3); add("oom", p11 ? 8 : 0.2);
    double tot = 0; for (size_t i = 0; i < w.size(); ++i) tot += w[i].second;
    auto pick = [&]() -> const char * { double x = r.real(0, tot); for (size_t i = 0; i < w.size(); ++i) { if (x < w[i].second) return w[i].first; x -= w[i].second; } return "mf"; };
    double fr = faulty ? r.real(0.1, 0.6) : 0;
    auto faults = [&](Op &o) {
        if (!faulty) return;
        bool bulk = o.name.size() == 2 && o.name[0] < 'a';
        static const char *eul = "mf rb re me se rn RE RB RI M2 MC";
        if (!strstr(eul, o.name.c_str())) return;
        if (r.chance(fr)) { Fault f; f.kind = bulk && r.chance(0.5) ? "policy" : "veto"; f.at = r.chance(0.6) ? r.below(2) : r.below(bulk ? 20 : 6); f.arg = r.below(1000); o.faults.push_back(f); }
        if (r.chance(fr * 0.5)) { Fault f; f.kind = "throw"; f.at = r.chance(0.5) ? r.below(3) : r.below(bulk ? 30 : 9); f.arg = 0; o.faults.push_back(f); }
        if (r.chance(fr * 0.3)) { Fault f; f.kind = r.chance(0.6) ? "detach" : "attach"; f.at = r.below(bulk ? 12 : 6); f.arg = r.below(100); o.faults.push_back(f); }
        if (r.chance(fr * 0.3)) { Fault f; f.kind = "query"; f.at = r.below(6); f.arg = r.below(10000); o.faults.push_back(f); }
    };
    if (kind != 3) {
        if (r.chance(0.2)) { int n = r.range(1, 5); for (int i = 0; i < n; ++i) { static const char *g[] = { "se", "me", "re", "rn", "q", "setpos", "bad", "hold", "obs+", "twin" }; Op o = mk(g[r.below(10)], r); faults(o); s.ops.push_back(o); } }
        Op o = mk("init", r); o.a = r.chance(p5 || p6 ? 0.95 : p4 ? 0.45 : 0.7) ? 1 : 0; s.ops.push_back(o);
    }
    if (p6) s.ops.push_back(mk("stat+", r));
    if (p7) { s.ops.push_back(mk("prot+", r)); for (int i = r.range(0, 4); i > 0; --i) s.ops.push_back(mk("flag", r)); }
    if (p10 && r.chance(0.5)) s.ops.push_back(mk("twin", r));
    int n = r.chance(0.1) ? r.range(40, 80) : r.range(4, 28);
    for (int i = 0; i < n; ++i) { Op o = mk(pick(), r); faults(o); s.ops.push_back(o); }
    return s;
}
