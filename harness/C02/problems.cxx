// FLAGS: HDF5
// TOOLS: opengm2wudag partition2potts matching2opengm matching2opengm-N2N opengm-brain-converter
#include "gen_model.hxx"
#include "tool.hxx"
#include <opengm/graphicalmodel/graphicalmodel_hdf5.hxx>
using namespace gen;
typedef opengm::GraphicalModel<double, opengm::Adder, opengm::meta::TypeListGenerator<opengm::ExplicitFunction<double, size_t, size_t>, opengm::PottsFunction<double, size_t, size_t> >::type, opengm::DiscreteSpace<size_t, size_t> > G2;
static double at(const G2& g, Vec x) { if (x.empty()) x.push_back(0); return g.evaluate(x.begin()); }
// a partition problem: terms of two variables that only ask whether the two labels are equal (and constants for the graph format)
static Model genPartition(pbt::Ctx& c, bool constants, bool twoLabels) {
   Model m; size_t n = c.range(2, 6), l = twoLabels ? 2 : c.range(2, 4); m.labels = Vec(n, l); size_t k = c.range(0, 8);
   for (size_t i = 0; i < k; ++i) { Func f; Vec vars; if (constants && c.flip(0.2)) { f.kind = EXPL; f.p = { (double)c.sym(20) / 4 }; c.label("constant factor"); } else { vars = c.subset(n, 2); f.shape = Vec(2, l); double a = (double)c.sym(20) / 4, b = (double)c.sym(20) / 4; f.kind = c.flip(0.4) ? EXPL : POTTS; if (f.kind == POTTS) f.p = { a, b }; else for (size_t j = 0; j < l * l; ++j) f.p.push_back(j % l == j / l ? a : b); }
      m.funcs.push_back(f); m.factors.push_back({ i, vars }); c.nontrivialIf(!vars.empty()); }
   return m;
}
static void store(const Model& m, const std::string& path) { G2 g(opengm::DiscreteSpace<size_t, size_t>(m.labels.begin(), m.labels.end())); for (auto& fa : m.factors) { const Func& f = m.funcs[fa.f]; G2::FunctionIdentifier id = f.kind == POTTS ? g.addFunction(opengm::PottsFunction<double, size_t, size_t>(f.shape[0], f.shape[1], f.p[0], f.p[1])) : g.addFunction(makeExplicit<double, size_t, size_t>(f)); g.addFactor(id, fa.vars.begin(), fa.vars.end()); } opengm::hdf5::save(g, path, "gm"); }
PROP(weighted_graph, 1600, 40000) {
   Model m = genPartition(c, true, c.flip()); c.note(m.str()); tool::Dir d; std::string in = d.file("m.h5"), out = d.file("m.txt"); store(m, in); tool::Result r = tool::run(d, "opengm2wudag", { in, out }, 8); CHECK(r.ok(), "opengm2wudag: " << r.str()); c.note(tool::slurp(out));
   std::istringstream s(tool::slurp(out)); size_t n, e; double k; CHECK((bool)(s >> n >> e >> k), "header"); CHECK_EQ(n, m.n(), "vertices"); struct Ed { size_t u, v; double w; }; std::vector<Ed> es; Ed a; while (s >> a.u >> a.v >> a.w) es.push_back(a); s.clear(); std::string rest; s >> rest; CHECK(rest.empty(), "text after the last edge: " << rest); CHECK_EQ(es.size(), e, "edges announced in the header");
   for (auto& x : es) CHECK(x.u < n && x.v < n, "edge " << x.u << " " << x.v);
   forAll(m.labels, [&](const Vec& x) { double v = k; for (auto& ed : es) if (x[ed.u] != x[ed.v]) v += ed.w; CHECK_NEAR(v, m.sum(x), 1e-9, "weight of the partition " << pbt::vec(x)); });
}
PROP(potts, 1600, 40000) {
   Model m = genPartition(c, false, false); c.note(m.str()); size_t L = c.range(1, 5); tool::Dir d; std::string in = d.file("m.h5"), out = d.file("p.h5"); store(m, in); tool::Result r = tool::run(d, "partition2potts", { in, out, std::to_string(L) }, 8); CHECK(r.ok(), "partition2potts: " << r.str());
   G2 g; opengm::hdf5::load(g, out, "gm"); CHECK_EQ((size_t)g.numberOfVariables(), m.n(), "variables"); for (size_t v = 0; v < m.n(); ++v) CHECK_EQ((size_t)g.numberOfLabels(v), L, "labels of variable " << v); size_t budget = 500; c.labelIf(L > m.labels[0], "more labels than in the source"); c.labelIf(L < m.labels[0], "fewer labels than in the source");
   // the partition problem: every term asks only whether the two labels are equal; the first variable is fixed to label 0
   forAll(Vec(m.n(), L), [&](const Vec& x) { if (!budget) return; --budget; double v = 0; for (auto& fa : m.factors) { const Func& f = m.funcs[fa.f]; v += f.eval(x[fa.vars[0]] == x[fa.vars[1]] ? Vec{ 0, 0 } : Vec{ 0, 1 }); } double e = at(g, x); if (x[0] == 0) CHECK_NEAR(e, v, 1e-9, "energy of " << pbt::vec(x)); else CHECK(e > 1e8, "the first variable takes label " << x[0] << " at the cost " << e); });
}
struct As { size_t l, r; double v; }; struct Ed { size_t a, b; double v; };
// identifiers of the assignments in the order of their lines: usually counted upwards, but the file names each of them, so any order says the same
static std::vector<size_t> identifiers(pbt::Ctx& c, size_t n) { std::vector<size_t> id(n); for (size_t i = 0; i < n; ++i) id[i] = i; if (n > 1 && c.flip(0.3)) { auto p = c.perm(n); for (size_t i = 0; i < n; ++i) id[i] = p[i]; c.label("identifiers not in the order of the lines"); } return id; }
static double cost(pbt::Ctx& c) { return (double)c.sym(40) / 4; }
// one-sided matching: every point of the left takes a point of the right, no two the same
PROP(matching_one_sided, 1600, 40000) {
   size_t nl = c.range(1, 4), nr = c.range(1, 4); std::vector<As> as; for (size_t l = 0; l < nl; ++l) for (size_t r = 0; r < nr; ++r) if (c.flip(0.6)) as.push_back({ l, r, cost(c) }); if (c.flip(0.4)) { auto p = c.perm(as.size()); std::vector<As> q; for (auto i : p) q.push_back(as[i]); as = q; c.label("shuffled assignments"); }
   std::vector<Ed> es; for (size_t a = 0; a < as.size(); ++a) for (size_t b = a + 1; b < as.size(); ++b) if (as[a].l != as[b].l && as[a].r != as[b].r && c.flip(0.4)) { if (c.flip(0.3)) { es.push_back({ b, a, cost(c) }); c.label("edge in descending order"); } else es.push_back({ a, b, cost(c) }); if (c.flip(0.1)) { es.push_back({ a, b, cost(c) }); c.label("repeated edge"); } }
   c.nontrivialIf(nl > 1 && !es.empty()); std::ostringstream o; o.precision(17); o << "p " << nl << " " << nr << " " << as.size() << " " << es.size() << "\n"; std::vector<size_t> id = identifiers(c, as.size()); for (size_t i = 0; i < as.size(); ++i) o << "a " << id[i] << " " << as[i].l << " " << as[i].r << " " << as[i].v << "\n"; for (auto& e : es) o << "e " << id[e.a] << " " << id[e.b] << " " << e.v << "\n"; std::string t = o.str(); bool nl2 = c.flip(0.7); if (!nl2) t.resize(t.size() - 1); c.labelIf(nl2, "newline at the end"); c.labelIf(es.empty(), "no edges"); c.note(t);
   tool::Dir d; std::string in = d.file("m.dd"), out = d.file("m.h5"); tool::spit(in, t); tool::Result r = tool::run(d, "matching2opengm-N2N", { in, out }, 8); CHECK(r.ok(), "matching2opengm-N2N: " << r.str()); CHECK(r.out.find("Wrong number") == std::string::npos, "the converter miscounts: " << r.out);
   G2 g; opengm::hdf5::load(g, out, "gm"); CHECK_EQ((size_t)g.numberOfVariables(), nl, "variables"); for (size_t v = 0; v < nl; ++v) CHECK_EQ((size_t)g.numberOfLabels(v), nr, "labels of variable " << v);
   forAll(Vec(nl, nr), [&](const Vec& x) { double v = 0; bool ok = true; for (auto& a : as) if (x[a.l] == a.r) v += a.v; for (auto& e : es) if (x[as[e.a].l] == as[e.a].r && x[as[e.b].l] == as[e.b].r) v += e.v; for (size_t i = 0; i < nl; ++i) for (size_t j = 0; j < i; ++j) if (x[i] == x[j]) ok = false; double e = at(g, x); if (ok) CHECK_NEAR(e, v, 1e-9, "energy of the matching " << pbt::vec(x)); else CHECK(e > 9e5, "the labeling " << pbt::vec(x) << " matches two points with the same one at the cost " << e); });
}
// matching of key points of both sides: every key point takes one of its candidates or stays unmatched
PROP(matching_key_points, 1600, 40000) {
   size_t nl = c.range(1, 4), nr = c.range(1, 4); Vec kl, kr; for (size_t l = 0; l < nl; ++l) if (kl.empty() || c.flip(0.6)) kl.push_back(l); bool right = c.flip(0.8); if (right) for (size_t r = 0; r < nr; ++r) if (c.flip(0.5)) kr.push_back(r);
   std::vector<As> as; size_t lastLeft = 0; for (size_t l : kl) { std::vector<size_t> q = c.subsetOf(nr, 0.6); if (q.empty()) q.push_back(c.upTo(nr - 1)); for (size_t r : q) as.push_back({ l, r, cost(c) }); lastLeft = l; } size_t nLeft = as.size();
   // the format tells the two blocks apart by the left point of the first assignment of the second block, which is smaller than the last key point of the first block
   for (size_t i = 0; i < kr.size(); ++i) { std::vector<size_t> q = c.subsetOf(nl, 0.6); if (q.empty()) q.push_back(c.upTo(nl - 1)); if (i == 0 && q[0] >= lastLeft) { if (lastLeft == 0) { kr.clear(); break; } q.insert(q.begin(), c.upTo(lastLeft - 1)); } for (size_t l : q) as.push_back({ l, kr[i], cost(c) }); }
   auto isL = [&](size_t i) { return i < nLeft; }; auto keyOf = [&](size_t i) -> size_t { if (isL(i)) return std::find(kl.begin(), kl.end(), as[i].l) - kl.begin(); return kl.size() + (std::find(kr.begin(), kr.end(), as[i].r) - kr.begin()); };
   std::vector<Ed> es; for (size_t a = 0; a < as.size(); ++a) for (size_t b = a + 1; b < as.size(); ++b) if (keyOf(a) != keyOf(b) && c.flip(0.25)) { if (c.flip(0.3)) { es.push_back({ b, a, cost(c) }); c.label("edge in descending order"); } else es.push_back({ a, b, cost(c) }); }
   double lambda = 1; bool withLambda = c.flip(0.3); if (withLambda) lambda = c.pick({ 0.5, 2., 0. }); std::ostringstream o; o.precision(17); if (c.flip(0.3)) o << "c a comment\n"; o << "p " << nl << " " << nr << " " << as.size() << " " << es.size() << "\n"; std::vector<size_t> id = identifiers(c, as.size()); for (size_t i = 0; i < as.size(); ++i) o << "a " << id[i] << " " << as[i].l << " " << as[i].r << " " << as[i].v << "\n"; for (auto& e : es) o << "e " << id[e.a] << " " << id[e.b] << " " << e.v << "\n"; std::string t = o.str(); bool nl2 = c.flip(0.7); if (!nl2) t.resize(t.size() - 1); c.labelIf(nl2, "newline at the end"); c.note(t); c.labelIf(!kr.empty(), "key points on both sides");
   tool::Dir d; std::string in = d.file("m.dd"), out = d.file("m.h5"), co = d.file("m.h5.co"); tool::spit(in, t); std::vector<std::string> args = { in, out }; if (withLambda) { std::ostringstream q; q << lambda; args.push_back(q.str()); } tool::Result r = tool::run(d, "matching2opengm", args, 8); CHECK(r.ok(), "matching2opengm: " << r.str()); CHECK(r.out.find("Wrong number") == std::string::npos, "the converter miscounts: " << r.out);
   size_t n = kl.size() + kr.size(); c.nontrivialIf(n > 1 && !es.empty()); G2 g; opengm::hdf5::load(g, out, "gm"); CHECK_EQ((size_t)g.numberOfVariables(), n, "variables");
   // candidates of every key point: its own assignments, then those induced by the other side
   std::vector<Vec> lab(n); Vec var(as.size()), pos(as.size()); for (size_t i = 0; i < as.size(); ++i) { size_t k = keyOf(i); var[i] = k; pos[i] = lab[k].size(); lab[k].push_back(isL(i) ? as[i].r : as[i].l); }
   Vec line(as.size()); for (size_t i = 0; i < as.size(); ++i) line[id[i]] = i;
   for (size_t i : line) { if (isL(i)) { auto it = std::find(kr.begin(), kr.end(), as[i].r); if (it == kr.end()) continue; Vec& q = lab[kl.size() + (it - kr.begin())]; if (std::find(q.begin(), q.end(), as[i].l) == q.end()) { q.push_back(as[i].l); c.label("induced candidate"); } } else { auto it = std::find(kl.begin(), kl.end(), as[i].l); if (it == kl.end()) continue; Vec& q = lab[it - kl.begin()]; if (std::find(q.begin(), q.end(), as[i].r) == q.end()) { q.push_back(as[i].r); c.label("induced candidate"); } } }
   Vec nlab; for (size_t v = 0; v < n; ++v) { nlab.push_back(lab[v].size() + 1); CHECK_EQ((size_t)g.numberOfLabels(v), nlab[v], "labels of key point " << v); }
   { std::istringstream s(tool::slurp(co)); size_t i, v, l, k = 0; while (s >> i >> v >> l) { CHECK(i == k && i < as.size() && v == var[line[i]] && l == pos[line[i]], "the mapping file says that assignment " << i << " is label " << l << " of variable " << v); ++k; } CHECK_EQ(k, as.size(), "lines of the mapping file"); }
   size_t budget = 800; const size_t NONE = 99; forAll(nlab, [&](const Vec& x) { if (!budget) return; --budget; Vec f; for (size_t v = 0; v < n; ++v) f.push_back(x[v] < lab[v].size() ? lab[v][x[v]] : NONE);
      bool ok = true; for (size_t a = 0; a < n; ++a) for (size_t b = a + 1; b < n; ++b) { bool la = a < kl.size(), lb = b < kl.size(); if (la == lb) { if (f[a] != NONE && f[a] == f[b]) ok = false; } else { bool ab = f[a] == kr[b - kl.size()], ba = f[b] == kl[a]; if (ab != ba) ok = false; } }
      double v = 0; auto on = [&](size_t i) { return x[var[i]] == pos[i]; }; for (size_t i = 0; i < as.size(); ++i) if (on(i)) v += as[i].v; for (auto& e : es) if (on(e.a) && on(e.b)) v += lambda * e.v; double en = at(g, x);
      if (ok) CHECK_NEAR(en, v, 1e-9, "energy of the matching " << pbt::vec(x) << " (features " << pbt::vec(f) << ")"); else CHECK(en > 9e4, "the inconsistent labeling " << pbt::vec(x) << " (features " << pbt::vec(f) << ") has the energy " << en); });
}
PROP(brain, 400, 8000) {
   size_t D[3]; for (auto& x : D) x = c.range(1, 3); std::string data; for (size_t i = 0; i < D[0] * D[1] * D[2]; ++i) data += (char)(unsigned char)(c.flip(0.2) ? c.pick({ 0, 255, 4, 45, 105, 150, 204, 128 }) : (int)c.upTo(255)); double w = (double)c.sym(20) / 4; tool::Dir d; std::string in = d.file("b.raw"), out = d.file("b.h5"); tool::spit(in, data); std::ostringstream ws; ws << w; std::vector<std::string> a = { in, out }; for (auto x : D) a.push_back(std::to_string(x)); a.push_back(ws.str());
   { std::ostringstream o; o << "dims " << D[0] << " " << D[1] << " " << D[2] << " weight " << w << " bytes"; for (char ch : data) o << " " << (int)(unsigned char)ch; c.note(o.str()); } c.nontrivialIf(data.size() > 1);
   tool::Result r = tool::run(d, "opengm-brain-converter", a, 8); CHECK(r.ok(), "opengm-brain-converter: " << r.str()); G2 g; opengm::hdf5::load(g, out, "gm"); CHECK_EQ((size_t)g.numberOfVariables(), data.size(), "variables"); const double centre[5] = { 4, 45, 105, 150, 204 };
   for (int k = 0; k < 40; ++k) { Vec x(data.size()); for (auto& l : x) l = c.upTo(4); double e = 0; for (size_t z = 0; z < D[2]; ++z) for (size_t y = 0; y < D[1]; ++y) for (size_t q = 0; q < D[0]; ++q) { size_t i = q + D[0] * (y + D[1] * z); e += std::fabs((double)(unsigned char)data[i] - centre[x[i]]); if (q + 1 < D[0] && x[i] != x[i + 1]) e += w; if (y + 1 < D[1] && x[i] != x[i + D[0]]) e += w; if (z + 1 < D[2] && x[i] != x[i + D[0] * D[1]]) e += w; } CHECK_NEAR(at(g, x), e, 1e-9, "energy of " << pbt::vec(x)); }
}
