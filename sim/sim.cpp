// Workload interpreter, case reader and fork server.
#include <nikfemm.hpp>
#include <map>
#include <memory>
#include <sstream>
#include <charconv>
#include <cstring>
#include <cmath>
#include <algorithm>
#include <unordered_set>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <signal.h>
#include <poll.h>
#include <time.h>
#include <fcntl.h>
#include <fenv.h>
#include <locale.h>
#include <sched.h>
#include <new>
#include <iostream>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <xmmintrin.h>
#include "rt.h"
#ifdef NIKFEMM_USE_OPENCV
#include <opencv2/core/utility.hpp>
#include <opencv2/imgcodecs.hpp>
#endif

using namespace nikfemm;
using rt::Lib;
namespace rt { int last_start(); }
extern "C" int64_t rt_sim_elapsed();

// The locale is part of the simulated environment; the harness itself must not follow it.
struct OS : std::ostringstream { OS() { imbue(std::locale::classic()); } };
// ---- digests ------------------------------------------------------------------------------
struct Dg {
    uint64_t h = 1469598103934665603ull;
    void b(const void* p, size_t n) { const uint8_t* c = (const uint8_t*)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } }
    void u(uint64_t v) { h ^= v; h *= 1099511628211ull; h ^= h >> 29; }
    void d(double v) { uint64_t w; if (v != v) w = 0x7ff8dead; else memcpy(&w, &v, 8); u(w); }
    void v(const Vector& a) { d(a.x); d(a.y); }
    void vd(const std::vector<double>& a) { u(a.size()); for (double x : a) d(x); }
    void vv(const std::vector<Vector>& a) { u(a.size()); for (auto& x : a) v(x); }
    void s(const std::string& a) { u(a.size()); b(a.data(), a.size()); }
};
static void dprop(Dg& g, const MagnetostaticProp& p) { g.d(p.J); g.v(p.M); g.d(p.mu); g.u(p.bh_curve.size()); for (auto& q : p.bh_curve) { g.d(q.B); g.d(q.H); } }
static void dprop(Dg& g, const CurrentDensityProp& p) { g.d(p.sigma); }
template <class P> static void ddrawing(Dg& g, Drawing<P>& d) {
    g.u(d.region_map.size()); for (auto& p : d.region_map) dprop(g, p);
    g.u(d.regions.size()); for (auto& r : d.regions) { g.v(r.first); g.u(r.second); }
    g.vv(d.points);
    g.u(d.segments.size()); for (auto& s : d.segments) { g.u(s.p1); g.u(s.p2); }
    g.u(d.polygons.size()); for (auto& p : d.polygons) g.vv(p.points);
}
template <class P> static void dmesh(Dg& g, Mesh<P>& m) {
    g.v(m.center); g.d(m.radius); g.d(m.epsilon); g.d(m.depth);
    if (!m.data.pointlist || !m.data.trianglelist) { g.u(77); return; }
    g.u(m.data.numberofpoints); g.u(m.data.numberoftriangles);
    for (int i = 0; i < m.data.numberofpoints; i++) g.v(m.data.pointlist[i]);
    for (int i = 0; i < m.data.numberoftriangles; i++) { for (int j = 0; j < 3; j++) g.u(m.data.trianglelist[i][j]); if (m.data.triangleattributelist) g.d(m.data.triangleattributelist[i]); }
}
template <class T, class F> static void dsys_g(Dg& g, System<T>& s, F val) {
    std::vector<uint64_t> k; k.reserve(s.A.elems.size());
    for (auto& e : s.A.elems) k.push_back(e.first);
    std::sort(k.begin(), k.end());
    g.u(s.A.m); g.u(k.size());
    for (auto x : k) { g.u(x); g.d(val(s.A.elems.at(x))); }
    g.u(s.b.size()); for (auto& x : s.b) g.d(val(x));
}
static void dsys(Dg& g, System<double>& s) { dsys_g(g, s, [](double v) { return v; }); }
static void dsys(Dg& g, System<NonLinearExpression>& s, size_t ntri) {
    std::vector<double> mu(ntri); rt::Rng r(42); for (auto& x : mu) x = 0.5 + r.unit();
    dsys_g(g, s, [&](NonLinearExpression& e) { return e.evaluate(mu); });
}
static void dcsr(Dg& g, const BaseCSR& c) { g.u(c.m); g.u(c.nnz); for (auto x : c.row_ptr) g.u(x); for (auto x : c.col_ind) g.u(x); g.vd(c.val); g.vd(c.diag); }

// ---- objects ------------------------------------------------------------------------------
struct Obj { virtual ~Obj() {} bool bad = false; };
struct MagO : Obj { MagO() {} explicit MagO(const MagO& o, int) : s(o.s), A(o.A), B(o.B) {} MagnetostaticSimulation s; std::unique_ptr<System<NonLinearExpression>> sys; std::vector<double> A; std::vector<Vector> B; };
struct CdO : Obj { std::unique_ptr<CurrentDensitySimulation> s; std::unique_ptr<System<double>> sys; std::vector<double> V; };
struct MlO : Obj { std::unique_ptr<MultiLayerCurrentDensitySimulation> s; std::unique_ptr<System<double>> sys; std::vector<double> V; };
struct AlgO : Obj { std::vector<NonLinearExpression> ex; std::unique_ptr<System<double>> sys; std::unique_ptr<MatCSRSymmetric> csr; std::vector<double> x; };
struct ShpO : Obj { Polygon a, b; MagnetostaticProp p; Drawing<MagnetostaticProp> d; std::vector<Segment> segs; std::vector<Circle> cs; };   // geometry and materials on their own
struct Skip {};

typedef std::map<std::string, std::unique_ptr<Obj>> Slots;
static Slots shared_slots;

struct Toks {
    std::vector<std::string> t; size_t p = 0;
    const std::string& s() { if (p >= t.size()) rt::fail_now("machinery", "missing argument in " + (t.empty() ? std::string("?") : t[0])); return t[p++]; }
    double d() { const char* c = s().c_str(); return strtod_c(c); }
    long i() { return strtol(s().c_str(), nullptr, 0); }
    bool more() { return p < t.size(); }
    static double strtod_c(const char* c) {   // the simulated locale must not change the workload
        static locale_t lc = newlocale(LC_ALL_MASK, "C", nullptr); return strtod_l(c, nullptr, lc);
    }
};

template <class T> static T* need(Slots& sl, const std::string& n) {
    Obj* o = nullptr;
    if (n.size() > 2 && n[0] == 'S' && n[1] == '.') { auto it = shared_slots.find(n); if (it != shared_slots.end()) o = it->second.get(); }
    else { auto it = sl.find(n); if (it != sl.end()) o = it->second.get(); }
    T* r = dynamic_cast<T*>(o);
    if (!r || r->bad) throw Skip();
    return r;
}
static Slots& home(Slots& sl, const std::string& n) { return n.size() > 2 && n[0] == 'S' && n[1] == '.' ? shared_slots : sl; }

static MagnetostaticProp mag_prop(double J, double mx, double my, int mat) {
    MagnetostaticProp p; p.J = J; p.M = Vector(mx, my);
    switch (mat) { case 0: p.mu = magnetostatic_materials::air; break; case 1: p.mu = magnetostatic_materials::copper; break; case 2: p.mu = magnetostatic_materials::iron_linear; break;
        case 3: p.mu = magnetostatic_materials::neodymium; break;
        case 5: p.mu = 0; for (auto& q : magnetostatic_materials::iron) p.bh_curve.insert({q.B, q.H * 1.7}); break;
        case 6: { p.mu = 0; size_t n = 0; for (auto& q : magnetostatic_materials::iron) if (n++ % 2 == 0) p.bh_curve.insert(q); break; }
        default: p.mu = 0; p.bh_curve = magnetostatic_materials::iron; }
    return p;
}
static bool inside_some(const std::vector<Polygon>& ps, Vector q) { for (auto& p : ps) if (p.contains(q)) return true; return false; }

// The drawing verbs common to all models.
template <class P> static bool draw_verb(const std::string& v, Drawing<P>& d, Toks& t) {
    if (v == "rect") { double a = t.d(), b = t.d(), c = t.d(), e = t.d(); Lib l; d.drawRectangle(Vector(a, b), Vector(c, e)); return true; }
    if (v == "rectwh") { double a = t.d(), b = t.d(), c = t.d(), e = t.d(); Lib l; d.drawRectangle(Vector(a, b), c, e); return true; }
    if (v == "circle") { double a = t.d(), b = t.d(), r = t.d(); int n = t.i(); Lib l; d.drawCircle(Vector(a, b), r, n); return true; }
    if (v == "poly" || v == "polyobj" || v == "polyptr") {
        int n = t.i(); std::vector<Vector> p; for (int i = 0; i < n; i++) { double a = t.d(), b = t.d(); p.push_back(Vector(a, b)); }
        Lib l; if (v == "poly") d.drawPolygon(p); else if (v == "polyobj") d.drawPolygon(Polygon(p)); else d.drawPolygon(p.data(), (uint32_t)p.size()); return true; }
    if (v == "point") { double a = t.d(), b = t.d(); Lib l; d.drawPoint(Vector(a, b)); return true; }
    if (v == "refine") { Lib l; d.addRefiningPoints(); return true; }
    if (v == "translate") { double a = t.d(), b = t.d(); Lib l; d.translate(Vector(a, b)); return true; }
    return false;
}
// Queries every mesh offers.
template <class P> static bool mesh_query(const std::string& v, Mesh<P>& m, Toks& t, Dg& g) {
    if (v == "area") { double a = t.d(), b = t.d(); double r; { Lib l; r = m.computeAreaIntegral(Vector(a, b)); } g.d(r); return true; }
    if (v == "mass") { double a = t.d(), b = t.d(), c = t.d(); double r; { Lib l; r = m.computeMass(Vector(a, b), c); } g.d(r); return true; }
    if (v == "bary") { double a = t.d(), b = t.d(); Vector r; { Lib l; r = m.computeBarycenter(Vector(a, b)); } g.v(r); return true; }
    if (v == "inertia") { double a = t.d(), b = t.d(), c = t.d(), d = t.d(), e = t.d(); double r; { Lib l; r = m.computeInertiaMoment(Vector(a, b), Vector(c, d), e); } g.d(r); return true; }
    if (v == "inner") { double a = t.d(), b = t.d(); std::vector<Vector> pts; { Lib l; Polygon p = m.getInnermostPolygon(Vector(a, b)); rt::NoFault nf; pts = p.points; } g.vv(pts); { Lib l; std::vector<Vector>().swap(pts); } return true; }
    if (v == "pprop") { int i = t.i(); if (m.drawing.polygons.empty()) throw Skip(); std::unique_ptr<P> p; { Lib l; p.reset(new P(m.drawing.getPolygonProp(m.drawing.polygons[i % m.drawing.polygons.size()]))); } dprop(g, *p); { Lib l; p.reset(); } return true; }
    if (v == "geomq") { rt::Rng r(t.i()); if (!m.data.numberoftriangles) throw Skip(); double q[60]; { Lib l; for (int i = 0; i < 6; i++) { uint32_t e = r.below(m.data.numberoftriangles); double* w = q + i * 8; Vector c = m.data.getElemBarycenter(e); w[0] = c.x; w[1] = c.y; w[2] = m.data.getArea(e); w[3] = m.data.getOrientedArea(e); w[4] = m.data.getDoubleOrientedArea(e); w[5] = m.data.pointInElem(e, c); w[6] = m.data.pointInElem(e, Vector(r.unit(), r.unit())); w[7] = m.data.getArea(m.data.trianglelist[e][0], m.data.trianglelist[e][1], m.data.trianglelist[e][2]); }
        for (int i = 0; i < 2; i++) { double* w = q + 48 + i * 4; m.getMeshBoundingBox(w[0], w[1], w[2], w[3], i); } m.getMeshScaleOffset(300, 200, q[56], q[57], q[58], q[59], false); } for (double x : q) g.d(x); return true; }
    if (v == "deps") { double r; { Lib l; r = m.drawing.getCurrentEpsilon(); } g.d(r); return true; }
    if (v == "polyq") {           // the polygons and properties of the drawing, asked directly
        rt::Rng r(t.i()); auto& d = m.drawing; if (d.polygons.empty() || d.points.empty()) throw Skip(); double q[40]; int n = 0;
        { Lib l; for (int i = 0; i < 8; i++) { Polygon& p = d.polygons[r.below(d.polygons.size())]; Polygon& o = d.polygons[r.below(d.polygons.size())]; const Vector& x = d.points[r.below(d.points.size())]; const Vector& y = d.points[r.below(d.points.size())];
            q[n++] = p.contains(Vector((x.x + y.x) / 2, (x.y + y.y) / 2)); q[n++] = p.contains(x, r.below(2), 1e-9); q[n++] = p.contains(o); q[n++] = p == o; }
          for (int i = 0; i < 3; i++) { uint32_t k = r.below(d.region_map.size() + 1); P c = d.region_map.empty() ? P() : *d.getRegionPtrFromId(k % d.region_map.size()); q[n++] = d.region_map.empty() ? 0 : *d.getRegionPtrFromId(k % d.region_map.size()) == c; } }
        for (int i = 0; i < n; i++) g.d(q[i]); return true; }
    return false;
}
// queries that need no mesh
// the same model under voltages of the caller's own: on a copy of its system
template <class M, class F, class S> static void other_voltages(Dg& g, const M& m, const System<double>& sys, uint64_t seed, F set, S solve) {
    rt::Rng r(seed); uint32_t n = m.data.numberofpoints; if (!n) throw Skip();
    std::unique_ptr<System<double>> y; std::vector<double> V;
    { Lib l; y.reset(new System<double>(sys)); }
    for (int k = 1 + (int)r.below(3); k-- > 0;) { Vector p(m.data.pointlist[r.below(n)].x, m.data.pointlist[r.below(n)].y); double u = r.unit() * 4 - 2; Lib l; set(*y, p, u); }
    dsys(g, *y);
    { Lib l; V = solve(*y); } g.vd(V);
    { Lib l; y.reset(); std::vector<double>().swap(V); }
}
static bool early(const std::string& v) { return v == "area" || v == "mass" || v == "bary" || v == "inertia" || v == "inner" || v == "pprop" || v == "deps" || v == "polyq"; }
// copies of a model in a container that moves them about
template <class S, class F> static void containers(const S& src, int n, F digest) {
    Lib l; std::vector<S> w;
    for (int i = 0; i <= n; i++) w.push_back(src);
    w.erase(w.begin()); w.insert(w.begin(), S(w.back())); if (w.size() > 1) std::swap(w.front(), w.back());
    std::vector<S> u(w); w.clear(); u.resize(1, src); w = u; w.push_back(std::move(u[0])); u.clear();
    rt::NoFault nf; for (auto& x : w) digest(x);
}
// What a file that was written without an exception must hold, worked out without the code that wrote it.
static const char DISK[] = "/simdisk/";
static void matrix_file(const std::string& f, MatCSRSymmetric& A, std::string& note) {
    std::string c; if (!rt::disk_read(f, c)) { note = "FILE " + f + " is not there"; return; }
    const char *p = c.data(), *e = p + c.size(); uint32_t m = A.m;
    for (uint32_t i = 0; i < m; i++) {
        for (uint32_t j = 0; j < m; j++) {
            while (p < e && (*p == ' ' || *p == '\t')) p++;
            double x = 0, y = A(i, j); auto r = std::from_chars(p, e, x);
            if (r.ec != std::errc() || r.ptr == p) { OS o; o << "FILE " << f << " has no entry " << i << "," << j << " of " << m << "x" << m; note = o.str(); return; }
            if (!(x == y || (x != x && y != y) || fabs(x - y) <= 1e-9 * fabs(y))) { OS o; o << "FILE " << f << " has " << x << " at " << i << "," << j << " where the matrix has " << y; note = o.str(); return; }
            p = r.ptr;
        }
        while (p < e && (*p == ' ' || *p == '\t' || *p == '\r')) p++;
        if (p == e || *p != '\n') { OS o; o << "FILE " << f << " does not end row " << i; note = o.str(); return; }
        p++;
    }
    while (p < e && isspace((unsigned char)*p)) p++;
    if (p != e) note = "FILE " + f + " has more than the matrix";
}
#ifdef NIKFEMM_USE_OPENCV
template <class F> static void image_file(const std::string& f, uint32_t w, uint32_t h, F differs, std::string& note) {
    std::string c; if (!rt::disk_read(f, c)) { note = "FILE " + f + " is not there"; return; }
    cv::Mat got = c.empty() ? cv::Mat() : cv::imdecode(std::vector<unsigned char>(c.begin(), c.end()), cv::IMREAD_COLOR);
    if (got.empty()) { OS o; o << "FILE " << f << " is no picture (" << c.size() << " bytes)"; note = o.str(); return; }
    if (got.cols != (int)w || got.rows != (int)h) { OS o; o << "FILE " << f << " is " << got.cols << "x" << got.rows << " instead of " << w << "x" << h; note = o.str(); return; }
    if (f.size() > 4 && f.substr(f.size() - 4) != ".jpg" && differs(got)) note = "FILE " + f + " does not show the whole picture";
}
static bool other_picture(const cv::Mat& a, const cv::Mat& b) {
    for (int i = 0; i < a.rows; i++) if (memcmp(a.ptr(i), b.ptr(i), (size_t)a.cols * 3)) return true;
    return false;
}
template <class P> static bool plot_verb(const std::string& v, Mesh<P>& m, std::vector<double>& node, std::vector<Vector>& elem, Toks& t, std::string& note) {
    if (v == "dplot") { int w = t.i(), h = t.i(); std::string n = t.s(), f = DISK + n; { Lib l; m.drawing.plotToFile(w, h, f); }
        image_file(n, w, h, [&](const cv::Mat& got) { cv::Mat want = cv::Mat::zeros(h, w, CV_8UC3); m.drawing.plotRend(&want, w, h); return other_picture(got, want); }, note); return true; }
    if (v == "nplot") { int w = t.i(), h = t.i(); std::string n = t.s(), f = DISK + n; int fl = t.i(); if (node.empty()) throw Skip(); { Lib l; m.NodeScalarPlotToFile(w, h, node, f, fl & 1, fl & 2, fl & 4); }
        image_file(n, w, h, [&](const cv::Mat& got) { cv::Mat want(h, w, CV_8UC3, cv::Scalar(255, 255, 255)); m.NodeScalarPlotRend(&want, w, h, node, fl & 1, fl & 2, fl & 4); cv::flip(want, want, 0); return other_picture(got, want); }, note); return true; }
    if (v == "eplot") { int w = t.i(), h = t.i(); std::string n = t.s(), f = DISK + n; int fl = t.i(); if (elem.empty()) throw Skip(); { Lib l; m.ElemScalarPlotToFile(w, h, elem, f, fl & 1, fl & 2, fl & 4); }
        image_file(n, w, h, [&](const cv::Mat& got) { cv::Mat want = cv::Mat::zeros(h, w, CV_8UC3); std::vector<double> s; for (auto& x : elem) s.push_back(x.norm()); m.ElemScalarPlotRend(&want, w, h, s, fl & 1, fl & 2, fl & 4); cv::flip(want, want, 0); return other_picture(got, want); }, note); return true; }
    return false;
}
#endif
// Plain copies of harness-owned results into client memory happen without injected faults.
template <class T> static void keep(std::vector<T>& dst, std::vector<T>&& src) { Lib l; dst = std::move(src); }

static std::vector<double> pattern(size_t n, uint64_t seed) { std::vector<double> v(n); rt::Rng r(seed); for (auto& x : v) x = r.unit() * 2 - 1; return v; }

// ---- minimum enclosing circle: independent exhaustive reference --------------------------------
static std::string mec_check(const std::vector<Vector>& pts, const Circle& c) {
    typedef long double L;
    size_t n = pts.size();
    L scale = 0; for (auto& p : pts) for (auto& q : pts) scale = std::max(scale, hypotl((L)p.x - q.x, (L)p.y - q.y));
    L mag = 0; for (auto& p : pts) mag = std::max(mag, std::max(fabsl(p.x), fabsl(p.y)));
    L tol = 1e-7L * scale + 1e-11L * mag + 1e-12L;
    if (n == 0) return c.radius == 0 ? "" : "empty set gives a circle of non-zero radius";
    if (!std::isfinite(c.radius) || !std::isfinite(c.center.x) || !std::isfinite(c.center.y)) return "not finite";
    for (auto& p : pts) if (hypotl((L)p.x - c.center.x, (L)p.y - c.center.y) > c.radius + tol) { char b[200]; snprintf(b, sizeof b, "point outside by %.3Lg of %.3g", hypotl((L)p.x - c.center.x, (L)p.y - c.center.y) - c.radius, c.radius); return b; }
    // the smallest circle of a few points, by trying all pairs and triples
    L best = 0, mx = pts[0].x, my = pts[0].y;
    auto exhaust = [&](const std::vector<Vector>& q) {
        best = q.size() == 1 ? 0 : 1e300L; mx = q[0].x; my = q[0].y;
        auto ok = [&](L x, L y, L r) { for (auto& p : q) if (hypotl(p.x - x, p.y - y) > r + tol * 1e-3L) return false; return true; };
        auto take = [&](L x, L y, L r) { if (r < best && ok(x, y, r)) { best = r; mx = x; my = y; } };
        for (size_t i = 0; i < q.size(); i++) for (size_t j = i + 1; j < q.size(); j++) {
            L x = ((L)q[i].x + q[j].x) / 2, y = ((L)q[i].y + q[j].y) / 2; take(x, y, hypotl(q[i].x - x, q[i].y - y));
            for (size_t k = j + 1; k < q.size(); k++) {
                L bx = (L)q[j].x - q[i].x, by = (L)q[j].y - q[i].y, cx = (L)q[k].x - q[i].x, cy = (L)q[k].y - q[i].y, D = 2 * (bx * cy - by * cx);
                if (fabsl(D) < 1e-30L) continue;
                L B = bx * bx + by * by, C = cx * cx + cy * cy, ux = (cy * B - by * C) / D, uy = (bx * C - cx * B) / D;
                take(ux + q[i].x, uy + q[i].y, hypotl(ux, uy));
            }
        }
    };
    if (n <= 14) exhaust(pts);
    else {                             // the same on a growing set: the smallest circle of a subset is never larger than that of all
        std::vector<Vector> q{pts[0]}; bool done = false;
        for (int it = 0; it < 30 && !done; it++) {
            exhaust(q); if (best > 1e299L) return "";
            L far = 0; size_t w = 0; for (size_t i = 0; i < n; i++) { L d = hypotl(pts[i].x - mx, pts[i].y - my); if (d > far) { far = d; w = i; } }
            if (far <= best + tol * 1e-2L) done = true; else q.push_back(pts[w]);
        }
        if (!done) return "";
    }
    if (best < 1e299L && c.radius > best + tol) { char b[200]; snprintf(b, sizeof b, "radius %.17g, smallest possible %.17Lg", c.radius, best); return b; }
    return "";
}

// ---- one operation ------------------------------------------------------------------------
static uint64_t run_op(Slots& sl, const std::string& line, std::string& note) {
    Toks t; { std::istringstream is(line); std::string w; while (is >> w) t.t.push_back(w); }
    std::string verb = t.s(); size_t dot = verb.find('.'); std::string kind = verb.substr(0, dot), v = verb.substr(dot + 1);
    Dg g;
    if (kind == "geo") {
        if (v == "mec" || v == "mecset") {
            int n = t.i(); std::vector<Vector> p; for (int i = 0; i < n; i++) { double a = t.d(), b = t.d(); p.push_back(Vector(a, b)); }
            Circle c;
            if (v == "mec") { std::unique_ptr<std::vector<Vector>> q; Lib l; c = Circle::getMinimumEnclosingCircle(p); }
            else { Lib l; std::unordered_set<Vector> s(p.begin(), p.end()); c = Circle::getMinimumEnclosingCircle(s); }
            std::string e = mec_check(p, c); if (!e.empty()) note = "MEC " + e;
            g.u(e.empty());
        } else if (v == "enc") {
            int n = t.i(); std::vector<Vector> p; for (int i = 0; i < n; i++) { double a = t.d(), b = t.d(); p.push_back(Vector(a, b)); }
            Circle c; { Lib l; c = Circle::getEnclosingCircle(p); } g.v(c.center); g.d(c.radius);
        } else if (v == "polys") {     // containment, rotation, translation, comparison on two polygons and some probes
            int n = t.i(); std::vector<Vector> p; for (int i = 0; i < n; i++) { double a = t.d(), b = t.d(); p.push_back(Vector(a, b)); }
            double ang = t.d(); int probes = t.i(); uint64_t seed = t.i(); rt::Rng r(seed);
            std::vector<Vector> pr; for (int i = 0; i < probes; i++) { double a = r.unit() * 10 - 5, b = r.unit() * 10 - 5; pr.push_back(Vector(a, b)); }
            std::vector<int> res; std::vector<Vector> pts; res.reserve(probes * 3 + 8);
            { Lib l; Polygon a(p); Polygon b(a); b.rotate(ang, Vector(0.25, -0.5)); b.translate(Vector(0.125, 0.375));
              for (auto& q : pr) { res.push_back(a.contains(q)); res.push_back(b.contains(q)); res.push_back(b.contains(q, true, 1e-3)); }
              res.push_back(a == b); res.push_back(a.contains(b)); rt::NoFault nf; pts = b.points; }
            for (int x : res) g.u(x); g.vv(pts); { Lib l; std::vector<Vector>().swap(pts); }
        } else if (v == "misc") {      // vectors, segments, circles and single triangles
            uint64_t seed = t.i(); int n = t.i(); bool grid = t.i(); rt::Rng r(seed); std::vector<Vector> p; std::vector<double> q; q.reserve(n * 40);
            for (int i = 0; i < n + 4; i++) { double a = r.unit() * 6 - 3, b = r.unit() * 6 - 3; if (grid) { a = floor(a); b = floor(b); } p.push_back(Vector(a, b)); }
            for (int i = 0; i < n; i++) { Lib l; Vector a = p[i], b = p[i + 1], c = p[i + 2], d = p[i + 3];
                q.push_back(Segment::segmentsIntersect(a, b, c, d)); q.push_back(Segment::pointInSegmentBB(a, b, c)); q.push_back(Segment::pointInSegmentBB(a, Segment(b, c))); q.push_back(Segment::pointSegmentDistance(a, b, c)); q.push_back(Segment::pointSegmentDistance(a, Segment(b, d))); q.push_back(Segment(a, b) == Segment(b, a)); q.push_back(Segment(a, b) != Segment(c, d)); q.push_back(Segment(a, b).length());
                q.push_back(Vector::orientedAngle(a, b, c)); q.push_back(Vector::absoluteAngle(a, b, c)); q.push_back(Vector::doubleOrientedArea(a, b, c)); q.push_back(Vector::area(a, b, c)); q.push_back(Vector::distance(a, b)); q.push_back(Vector::distanceSquared(a, b)); q.push_back(a * b); q.push_back(a ^ b); q.push_back(a == b);
                Vector e = a; e += b; e -= c; e *= 1.5; e /= 0.75; e.translate(d); q.push_back(e.rotate(0.3).norm()); q.push_back(e.rotate(0.3, b).normSquared()); q.push_back(e.normalize().x); q.push_back(e.normal().y); q.push_back(Vector::lerp(a, b, 0.3).x); q.push_back(Vector::midPoint(a, b).y); q.push_back((-a).x);
                q.push_back(geomOrientation(a, b, c)); q.push_back(pointInTriangle(d, a, b, c)); Circle k = Circle::getCircleFromPoints(a, b), k3 = Circle::getCircleFromPoints(a, b, c); q.push_back(k.contains(c)); q.push_back(k.circumference()); q.push_back(k == k3); q.push_back(k3.radius); q.push_back(k3.center.x);
                { std::vector<Vector> w(p.begin() + i, p.begin() + i + 3); Circle tc = Circle::trivialCircleFromPoints(w); q.push_back(tc.radius); q.push_back(Circle(a, 2.5).containsPoints(w)); } }
            for (double x : q) g.d(x);
        } else if (v == "mu") {        // permeability of a material with a curve drawn from the seed
            uint64_t seed = t.i(); int n = t.i(); rt::Rng r(seed); MagnetostaticProp pr, po; std::vector<double> q; q.reserve(64);
            { Lib l; pr = mag_prop(1, 0.5, 0, 0); BH_Curve c; double B = 0, H = 0; for (int i = 0; i < n; i++) { B += 0.1 + r.unit(); H += 50 + r.unit() * 4000; c.insert({B, H}); } pr.bh_curve = c; po = pr; q.push_back(po == pr); q.push_back(po != pr); q.push_back(pr.isLinear()); po.bh_curve.clear(); q.push_back(po == pr); q.push_back(po.isLinear()); if (!pr.isLinear()) for (int i = 0; i < 24; i++) q.push_back(pr.getMu(r.unit() * (B + 1))); if (!pr.isLinear()) q.push_back(pr.getMu(0)); q.push_back(po.getMu(1.5)); }
            for (double x : q) g.d(x); { Lib l; pr.bh_curve.clear(); po.bh_curve.clear(); }
        } else rt::fail_now("machinery", "unknown verb " + verb);
        return g.h;
    }
    std::string slot = t.s();
    if (v == "del") { auto& h = home(sl, slot); auto it = h.find(slot); if (it == h.end()) throw Skip(); { Lib l; it->second.reset(); } h.erase(it); return 1; }
    auto put = [&](Obj* o) { auto& h = home(sl, slot); auto& r = h[slot]; { Lib l; r.reset(); } r.reset(o); };
    if (kind == "shp") {
        auto all = [&](ShpO* o) { g.vv(o->a.points); g.vv(o->b.points); dprop(g, o->p); ddrawing(g, o->d); for (auto& x : o->segs) { g.v(x.p1); g.v(x.p2); } for (auto& x : o->cs) { g.v(x.center); g.d(x.radius); } };
        if (v == "new") { rt::Rng r(t.i()); int n = t.i(); ShpO* o; { Lib l; std::unique_ptr<ShpO> h(new ShpO); std::vector<Vector> w; for (int i = 0; i < n + 3; i++) w.push_back(Vector(i * 2, 0).rotate(2 * M_PI * i / (n + 3)) + Vector(r.unit(), r.unit()));
            h->a = Polygon(w); h->b = h->a; h->b.translate(Vector(r.unit(), r.unit())); h->p = mag_prop(r.unit(), r.unit(), 0, 4); double B = 0, H = 0; h->p.bh_curve.clear(); for (int i = 0; i < n; i++) { B += 0.1 + r.unit(); H += 50 + r.unit() * 4000; h->p.bh_curve.insert({B, H}); }
            h->d.drawRectangle(Vector(-9, -9), Vector(9, 9)); h->d.drawPolygon(Polygon({Vector(-1, -1), Vector(1, -1), Vector(0, 2)})); h->d.drawRegion(Vector(0, 0), h->p); h->d.drawRegion(Vector(8, 8), mag_prop(0, 0, 0, 0));
            for (int i = 0; i < n; i++) { h->segs.push_back(Segment(w[i], w[i + 1])); h->cs.push_back(Circle(w[i], 1 + r.unit())); } o = h.release(); } put(o); all(o); return g.h; }
        if (v == "copy" || v == "assign") { ShpO* src = need<ShpO>(sl, t.s()); ShpO* o; if (v == "copy") { { Lib l; o = new ShpO(*src); } put(o); } else { o = need<ShpO>(sl, slot); Lib l; *o = *src; } all(o); return g.h; }
        ShpO* o = need<ShpO>(sl, slot);
        if (v == "state") { all(o); return g.h; }
        if (v == "vecs") { containers(*o, t.i(), [&](ShpO& x) { all(&x); }); return g.h; }
        if (v == "shift") { double x = t.d(), y = t.d(), an = t.d(); { Lib l; o->a.rotate(an, Vector(y, x)); o->a.translate(Vector(x, y)); o->b.translate(Vector(y, x)).rotate(an, Vector(x, 0)); o->d.translate(Vector(x, y)); } all(o); return g.h; }
        if (v == "q") {
            rt::Rng r(t.i()); int n = t.i(); std::vector<double> q; q.reserve(n * 16);
            for (int i = 0; i < n; i++) { Lib l; Vector x(r.unit() * 24 - 12, r.unit() * 24 - 12); const ShpO& c = *o; const Segment& s1 = c.segs[r.below(c.segs.size())]; const Segment& s2 = c.segs[r.below(c.segs.size())];
                switch (r.below(11)) { case 0: q.push_back(c.a.contains(x)); break; case 1: q.push_back(c.b.contains(x, r.below(2), 0.1)); break; case 2: q.push_back(c.a.contains(c.b)); q.push_back(c.a == c.b); break; case 3: q.push_back(c.p.getMu(r.below(4) ? r.unit() * 4 : 0)); q.push_back(c.p.isLinear()); break;
                    case 4: { MagnetostaticProp w = c.p; q.push_back(w == c.p); w.J += 1; q.push_back(w != c.p); Polygon y = c.a.copy(); q.push_back(y == c.a); break; }
                    case 5: q.push_back(*c.d.getRegionPtrFromId(r.below(2)) == c.p); q.push_back(c.d.getRegionPtrFromId(r.below(2))->mu); q.push_back(c.d.polygons[r.below(2)].contains(x)); break;
                    case 6: q.push_back(Segment::segmentsIntersect(s1.p1, s1.p2, s2.p1, s2.p2)); q.push_back(s1 == s2); q.push_back(Segment::pointSegmentDistance(x, s1)); break;
                    case 7: { const Circle& k1 = c.cs[r.below(c.cs.size())]; Circle k2 = Circle::getMinimumEnclosingCircle(c.a.points); q.push_back(k1 != c.cs[0]); { rt::NoFault nf; std::string e = mec_check(c.a.points, k2); if (!e.empty()) note = "MEC " + e; q.push_back(e.empty()); } break; }
                    case 8: { Polygon y = c.b.copy(); y.rotate(r.unit(), x); q.push_back(y.points[0].x); q.push_back(c.a.contains(y)); if (!i) c.a.print(); { Segment s3 = s1; q.push_back(s3.length()); } q.push_back(s1 != s2); q.push_back(Segment::pointInSegmentBB(x, s1)); q.push_back(x.rotate(0.7, s1.p1).norm()); q.push_back(x.normalize().y); break; }
                    case 9: { CurrentDensityProp e{(double)r.below(2)}, f{(double)r.below(2)}; q.push_back(e == f); q.push_back(e != f); q.push_back(std::hash<CurrentDensityProp>()(e) == std::hash<CurrentDensityProp>()(f)); BH_Point w{1, (double)r.below(3)}, z{1, 2}; q.push_back(w == z); q.push_back(c.p.bh_curve.count(w)); break; }
                    default: q.push_back(c.cs[r.below(c.cs.size())] == c.cs[0]); q.push_back(o->cs[r.below(c.cs.size())].contains(x)); break; } }
            for (double x : q) g.d(x); return g.h; }
        rt::fail_now("machinery", "unknown verb " + verb);
    }
    if (kind == "mag") {
        if (v == "new") { MagO* o; { Lib l; o = new MagO; } put(o); return 1; }
        if (v == "copy" || v == "assign" || v == "move") {
            MagO* src = need<MagO>(sl, t.s()); 
            if (v == "copy") { MagO* o = nullptr; { Lib l; std::unique_ptr<MagO> n(new MagO(*src, 0)); if (src->sys) n->sys.reset(new System<NonLinearExpression>(*src->sys)); o = n.release(); } put(o); }
            else { MagO* o = need<MagO>(sl, slot); Lib l; if (v == "assign") o->s = src->s; else { MagnetostaticSimulation tmp(src->s); o->s = std::move(tmp); } std::unique_ptr<System<NonLinearExpression>> ns; if (src->sys) ns.reset(new System<NonLinearExpression>(*src->sys)); std::vector<double> na(src->A); std::vector<Vector> nb(src->B); o->sys = std::move(ns); o->A.swap(na); o->B.swap(nb); }
            MagO* o = need<MagO>(sl, slot); ddrawing(g, o->s.mesh.drawing); dmesh(g, o->s.mesh); if (o->sys) dsys(g, *o->sys, o->s.mesh.data.numberoftriangles); return g.h;
        }
        MagO* o = need<MagO>(sl, slot);
        if (draw_verb(v, o->s.mesh.drawing, t)) { ddrawing(g, o->s.mesh.drawing); return g.h; }
        if (v == "refmag") { { Lib l; o->s.mesh.refineMeshAroundMagnets(); } ddrawing(g, o->s.mesh.drawing); return g.h; }
        if (v == "region") { double x = t.d(), y = t.d(), J = t.d(), mx = t.d(), my = t.d(); int mat = t.i(); MagnetostaticProp p = mag_prop(J, mx, my, mat); { Lib l; o->s.mesh.drawing.drawRegion(Vector(x, y), p); } ddrawing(g, o->s.mesh.drawing); return g.h; }
        if (v == "gen") {
            int ref = t.i(); double a = t.d(); int ang = t.i(); int rm = t.i();
            { Lib l; o->sys.reset(); o->sys.reset(new System<NonLinearExpression>(o->s.generateSystem(ref, a, ang, rm))); }
            ddrawing(g, o->s.mesh.drawing); dmesh(g, o->s.mesh); dsys(g, *o->sys, o->s.mesh.data.numberoftriangles); note = "nodes=" + std::to_string(o->s.mesh.data.numberofpoints); return g.h;
        }
        if (v == "vecs") { containers(o->s, t.i(), [&](MagnetostaticSimulation& x) { ddrawing(g, x.mesh.drawing); dmesh(g, x.mesh); }); return g.h; }
        if (v == "sysvecs") { if (!o->sys) throw Skip(); containers(*o->sys, t.i(), [&](System<NonLinearExpression>& x) { dsys(g, x, o->s.mesh.data.numberoftriangles); }); return g.h; }
        if (v == "state") { ddrawing(g, o->s.mesh.drawing); dmesh(g, o->s.mesh); if (o->sys) dsys(g, *o->sys, o->s.mesh.data.numberoftriangles); g.vd(o->A); g.vv(o->B); return g.h; }
        if (!o->sys && early(v) && mesh_query(v, o->s.mesh, t, g)) return g.h;
        if (!o->sys) throw Skip();
        bool sh = slot[0] == 'S' && slot[1] == '.' && &home(sl, slot) == &shared_slots;
        if (v == "solve") { std::vector<double> A; { Lib l; A = o->s.solve(*o->sys); } g.vd(A); if (!sh || o->A.empty()) keep(o->A, std::move(A)); else { Lib l; std::vector<double>().swap(A); } return g.h; }
        if (v == "csr") { std::vector<double> mu(o->s.mesh.data.numberoftriangles); rt::Rng r(t.more() ? t.i() : 7); for (auto& x : mu) x = 0.5 + r.unit();
            std::unique_ptr<NonLinearMatCSRSymmetric> c; { Lib l; c.reset(new NonLinearMatCSRSymmetric(o->sys->A)); c->evaluate(mu); } dcsr(g, *c); { Lib l; c.reset(); } return g.h; }
        if (v == "getfem") { std::unique_ptr<System<NonLinearExpression>> s; { Lib l; s.reset(new System<NonLinearExpression>(o->s.mesh.getFemSystem())); } dsys(g, *s, o->s.mesh.data.numberoftriangles); { Lib l; s.reset(); } return g.h; }
        if (mesh_query(v, o->s.mesh, t, g)) return g.h;
        if (o->A.size() != (size_t)o->s.mesh.data.numberofpoints) throw Skip();
        if (v == "curl" || v == "grad") { std::vector<Vector> B; { Lib l; B = v == "curl" ? o->s.mesh.computeCurl(o->A) : o->s.mesh.computeGrad(o->A); } g.vv(B); if (v == "curl" && (!sh || o->B.empty())) keep(o->B, std::move(B)); else { Lib l; std::vector<Vector>().swap(B); } return g.h; }
        if (o->B.size() != (size_t)o->s.mesh.data.numberoftriangles) throw Skip();
        if (v == "force") { double x = t.d(), y = t.d(); Vector r; { Lib l; r = o->s.computeForceIntegrals(o->B, Vector(x, y)); } g.v(r); return g.h; }
        if (v == "torque") { double x = t.d(), y = t.d(), cx = t.d(), cy = t.d(); double r; { Lib l; r = o->s.computeTorqueIntegral(o->B, Vector(x, y), Vector(cx, cy)); } g.d(r); return g.h; }
        if (v == "stress") { double x = t.d(), y = t.d(), cx = t.d(), cy = t.d(); StressTensor r; { Lib l; r = o->s.computeStressIntegral(o->B, Vector(x, y), Vector(cx, cy)); } g.v(r.Force); g.d(r.Torque); return g.h; }
        if (v == "enorm") { std::vector<double> r; { Lib l; r = element_wise_norm(o->B); } g.vd(r); { Lib l; std::vector<double>().swap(r); } return g.h; }
#ifdef NIKFEMM_USE_OPENCV
        if (plot_verb(v, o->s.mesh, o->A, o->B, t, note)) return 1;
#endif
    } else if (kind == "cd") {
        if (v == "new") { double d = t.d(); CdO* o; { Lib l; std::unique_ptr<CdO> q(new CdO); if (d == 1) q->s.reset(new CurrentDensitySimulation()); else q->s.reset(new CurrentDensitySimulation(d)); o = q.release(); } put(o); return 1; }
        if (v == "copy" || v == "assign") {
            CdO* src = need<CdO>(sl, t.s());
            if (v == "copy") { CdO* o; { Lib l; std::unique_ptr<CdO> n(new CdO); n->s.reset(new CurrentDensitySimulation(*src->s)); if (src->sys) n->sys.reset(new System<double>(*src->sys)); n->V = src->V; o = n.release(); } put(o); }
            else { CdO* o = need<CdO>(sl, slot); Lib l; *o->s = *src->s; std::unique_ptr<System<double>> ns; if (src->sys) ns.reset(new System<double>(*src->sys)); std::vector<double> nv(src->V); o->sys = std::move(ns); o->V.swap(nv); }
            CdO* o = need<CdO>(sl, slot); ddrawing(g, o->s->mesh.drawing); dmesh(g, o->s->mesh); if (o->sys) dsys(g, *o->sys); return g.h;
        }
        CdO* o = need<CdO>(sl, slot);
        if (draw_verb(v, o->s->mesh.drawing, t)) { ddrawing(g, o->s->mesh.drawing); return g.h; }
        if (v == "region") { double x = t.d(), y = t.d(), s = t.d(); { Lib l; o->s->mesh.drawing.drawRegion(Vector(x, y), {s}); } ddrawing(g, o->s->mesh.drawing); return g.h; }
        if (v == "gen") { int ref = t.i(); double a = t.d(); int ang = t.i(); { Lib l; o->sys.reset(); o->sys.reset(new System<double>(o->s->generateSystem(ref, a, ang))); }
            ddrawing(g, o->s->mesh.drawing); dmesh(g, o->s->mesh); dsys(g, *o->sys); note = "nodes=" + std::to_string(o->s->mesh.data.numberofpoints); return g.h; }
        if (v == "vecs") { containers(*o->s, t.i(), [&](CurrentDensitySimulation& x) { ddrawing(g, x.mesh.drawing); dmesh(g, x.mesh); }); return g.h; }
        if (v == "sysvecs") { if (!o->sys) throw Skip(); containers(*o->sys, t.i(), [&](System<double>& x) { dsys(g, x); }); return g.h; }
        if (v == "state") { ddrawing(g, o->s->mesh.drawing); dmesh(g, o->s->mesh); if (o->sys) dsys(g, *o->sys); g.vd(o->V); return g.h; }
        if (!o->sys && early(v) && mesh_query(v, o->s->mesh, t, g)) return g.h;
        if (!o->sys) throw Skip();
        bool sh = &home(sl, slot) == &shared_slots;
        if (v == "cot") { std::unique_ptr<System<double>> s; { Lib l; s.reset(new System<double>(o->s->mesh.getFemSystemCotangentWeights())); } dsys(g, *s); { Lib l; s.reset(); } return g.h; }
        if (v == "getfem") { std::unique_ptr<System<double>> s; { Lib l; s.reset(new System<double>(o->s->mesh.getFemSystem())); } dsys(g, *s); { Lib l; s.reset(); } return g.h; }
        if (v == "volt") { double x = t.d(), y = t.d(), V = t.d(); { Lib l; o->s->setVoltage(*o->sys, Vector(x, y), V); } dsys(g, *o->sys); return g.h; }
        if (v == "bc") { other_voltages(g, o->s->mesh, *o->sys, t.i(), [&](System<double>& y, Vector p, double V) { o->s->setVoltage(y, p, V); }, [&](System<double>& y) { return o->s->solve(y); }); return g.h; }
        if (v == "solve") { std::vector<double> V; { Lib l; V = o->s->solve(*o->sys); } g.vd(V); if (!sh || o->V.empty()) keep(o->V, std::move(V)); else { Lib l; std::vector<double>().swap(V); } return g.h; }
        if (v == "csr") { std::unique_ptr<MatCSRSymmetric> c; { Lib l; c.reset(new MatCSRSymmetric(o->sys->A)); } dcsr(g, *c); { Lib l; c.reset(); } return g.h; }
        if (mesh_query(v, o->s->mesh, t, g)) return g.h;
        if (o->V.size() != (size_t)o->s->mesh.data.numberofpoints) throw Skip();
        if (v == "grad" || v == "curl") { std::vector<Vector> B; { Lib l; B = v == "curl" ? o->s->mesh.computeCurl(o->V) : o->s->mesh.computeGrad(o->V); } g.vv(B); { Lib l; std::vector<Vector>().swap(B); } return g.h; }
#ifdef NIKFEMM_USE_OPENCV
        if (v == "dplot" || v == "nplot") { std::vector<Vector> none; if (plot_verb(v, o->s->mesh, o->V, none, t, note)) return 1; }
        if (v == "eplot") { std::vector<Vector> B; { Lib l; rt::NoFault nf; B = o->s->mesh.computeGrad(o->V); } struct Drop { std::vector<Vector>& b; ~Drop() { Lib l; std::vector<Vector>().swap(b); } } drop{B}; if (plot_verb(v, o->s->mesh, o->V, B, t, note)) return 1; }
#endif
    } else if (kind == "ml") {
        if (v == "new") { int n = t.i(); std::vector<double> d; for (int i = 0; i < n && t.more(); i++) d.push_back(t.d()); MlO* o; { Lib l; std::unique_ptr<MlO> q(new MlO); if (d.empty()) q->s.reset(new MultiLayerCurrentDensitySimulation(n)); else q->s.reset(new MultiLayerCurrentDensitySimulation(n, d)); o = q.release(); } put(o); return 1; }
        if (v == "copy" || v == "assign") {
            MlO* src = need<MlO>(sl, t.s());
            if (v == "copy") { MlO* o; { Lib l; std::unique_ptr<MlO> n(new MlO); n->s.reset(new MultiLayerCurrentDensitySimulation(*src->s)); if (src->sys) n->sys.reset(new System<double>(*src->sys)); n->V = src->V; o = n.release(); } put(o); }
            else { MlO* o = need<MlO>(sl, slot); Lib l; *o->s = *src->s; std::unique_ptr<System<double>> ns; if (src->sys) ns.reset(new System<double>(*src->sys)); std::vector<double> nv(src->V); o->sys = std::move(ns); o->V.swap(nv); }
            MlO* o = need<MlO>(sl, slot); for (auto& m : o->s->meshes) { ddrawing(g, m.drawing); dmesh(g, m); } if (o->sys) dsys(g, *o->sys); return g.h;
        }
        MlO* o = need<MlO>(sl, slot);
        auto all = [&]() { g.u(o->s->interconnections.size()); for (auto& c : o->s->interconnections) { g.v(c.p1); g.v(c.p2); g.u(c.layer1_id); g.u(c.layer2_id); g.d(c.R); } for (auto& m : o->s->meshes) { ddrawing(g, m.drawing); dmesh(g, m); } if (o->sys) dsys(g, *o->sys); };
        if (v == "inter") { int a = t.i(); double x1 = t.d(), y1 = t.d(); int b = t.i(); double x2 = t.d(), y2 = t.d(), R = t.d(); { Lib l; o->s->interconnections.push_back({Vector(x1, y1), Vector(x2, y2), (uint64_t)a, (uint64_t)b, R}); } all(); return g.h; }
        if (v == "gen") { int ref = t.i(); double a = t.d(); int ang = t.i(); { Lib l; o->sys.reset(); o->sys.reset(new System<double>(o->s->generateSystem(ref, a, ang))); } all(); note = "nodes=" + std::to_string(o->sys->b.size()); return g.h; }
        if (v == "vecs") { containers(*o->s, t.i(), [&](MultiLayerCurrentDensitySimulation& x) { g.u(x.interconnections.size()); for (auto& m : x.meshes) { ddrawing(g, m.drawing); dmesh(g, m); } }); return g.h; }
        if (v == "state") { all(); g.vd(o->V); return g.h; }
        bool sh = &home(sl, slot) == &shared_slots;
        if (v == "solve") { if (!o->sys) throw Skip(); std::vector<double> V; { Lib l; V = o->s->solve(*o->sys); } g.vd(V); if (!sh || o->V.empty()) keep(o->V, std::move(V)); else { Lib l; std::vector<double>().swap(V); } return g.h; }
        if (v == "power") { if (!o->sys || o->V.size() != o->sys->b.size()) throw Skip(); std::vector<double> P; { Lib l; P = o->s->computePowerDensity(o->V); } g.vd(P); { Lib l; std::vector<double>().swap(P); } return g.h; }
        if (v == "csr") { if (!o->sys) throw Skip(); std::unique_ptr<MatCSRSymmetric> c; { Lib l; c.reset(new MatCSRSymmetric(o->sys->A)); } dcsr(g, *c); { Lib l; c.reset(); } return g.h; }
        int layer = t.i(); if (layer < 0 || layer >= (int)o->s->meshes.size()) throw Skip();
        if (draw_verb(v, o->s->meshes[layer].drawing, t)) { ddrawing(g, o->s->meshes[layer].drawing); return g.h; }
        if (v == "region") { double x = t.d(), y = t.d(), s = t.d(); { Lib l; o->s->meshes[layer].drawing.drawRegion(Vector(x, y), {s}); } ddrawing(g, o->s->meshes[layer].drawing); return g.h; }
        if (!o->sys && early(v) && mesh_query(v, o->s->meshes[layer], t, g)) return g.h;
        if (!o->sys) throw Skip();
        if (v == "volt") { double x = t.d(), y = t.d(), V = t.d(); { Lib l; o->s->setVoltage(*o->sys, Vector(x, y), V, layer); } dsys(g, *o->sys); return g.h; }
        if (v == "bc") { other_voltages(g, o->s->meshes[layer], *o->sys, t.i(), [&](System<double>& y, Vector p, double V) { o->s->setVoltage(y, p, V, layer); }, [&](System<double>& y) { return o->s->solve(y); }); return g.h; }
        if (mesh_query(v, o->s->meshes[layer], t, g)) return g.h;
    } else if (kind == "alg") {
        if (v == "new") { int m = t.i(); AlgO* o; { Lib l; std::unique_ptr<AlgO> q(new AlgO); q->sys.reset(new System<double>(m)); o = q.release(); } put(o); return 1; }
        if (v == "copy") { AlgO* src = need<AlgO>(sl, t.s()); AlgO* o; { Lib l; std::unique_ptr<AlgO> n(new AlgO); n->sys.reset(new System<double>(*src->sys)); if (src->csr) n->csr.reset(new MatCSRSymmetric(*src->csr)); n->x = src->x; n->ex = src->ex; o = n.release(); } put(o); dsys(g, *o->sys); if (o->csr) dcsr(g, *o->csr); return g.h; }
        if (v == "assign") { AlgO* src = need<AlgO>(sl, t.s()); AlgO* o = need<AlgO>(sl, slot); { Lib l; *o->sys = *src->sys; if (!src->csr) o->csr.reset(); else if (o->csr) *o->csr = *src->csr; else o->csr.reset(new MatCSRSymmetric(*src->csr)); o->x = src->x; o->ex = src->ex; } dsys(g, *o->sys); if (o->csr) dcsr(g, *o->csr); return g.h; }
        AlgO* o = need<AlgO>(sl, slot); uint32_t m = o->sys->A.m;
        if (v == "fill") { int nnz = t.i(); rt::Rng r(t.i()); struct E { uint32_t i, j; double v; }; std::vector<E> es;
            for (uint32_t i = 0; i < m; i++) es.push_back({i, i, 4.0 + r.unit() * 4});
            for (int k = 0; m && k < nnz; k++) { uint32_t i = r.below(m), j = r.below(m); double val = -r.unit() * 4.0 * m / (2.0 * nnz + m) ; if (i == j) continue; if (i > j) std::swap(i, j); es.push_back({i, j, val}); }
            std::vector<double> bb = pattern(m, r.next());
            { Lib l; for (auto& e : es) o->sys->A(e.i, e.j) = e.v; for (uint32_t i = 0; i < m; i++) o->sys->b[i] = bb[i]; } dsys(g, *o->sys); return g.h; }
        if (!m && (v == "set" || v == "diri" || v == "at")) throw Skip();
        if (v == "set") { uint32_t i = t.i(), j = t.i(); double val = t.d(); { Lib l; o->sys->A(i % m, j % m) = val; } dsys(g, *o->sys); return g.h; }
        if (v == "diri") { uint32_t i = t.i(); double val = t.d(); { Lib l; o->sys->addDirichletBoundaryCondition(i % m, val); } dsys(g, *o->sys); return g.h; }
        auto dex = [&]() { std::vector<double> mu(16); rt::Rng r(5); for (auto& x : mu) x = 0.5 + r.unit(); g.u(o->ex.size()); for (auto& e : o->ex) { NonLinearExpression c(e); g.u(c.isLinear()); g.d(c.evaluate(mu)); } };
        if (v == "state") { dsys(g, *o->sys); if (o->csr) dcsr(g, *o->csr); g.vd(o->x); dex(); return g.h; }
        if (v == "vecs") { if (o->csr) containers(*o->csr, t.i(), [&](MatCSRSymmetric& x) { dcsr(g, x); }); return g.h; }
        if (v == "sysvecs") { containers(*o->sys, t.i(), [&](System<double>& x) { dsys(g, x); }); return g.h; }
        if (v == "xnew") { int n = t.i(); { Lib l; std::vector<NonLinearExpression> q(n); o->ex.swap(q); } dex(); return g.h; }
        if (v == "xterm" || v == "xsub") { uint32_t i = t.i(); double c = t.d(); uint32_t e = t.i() % 16; if (o->ex.empty()) throw Skip(); { Lib l; auto& x = o->ex[i % o->ex.size()]; if (v == "xterm") x += NonLinearTerm{c, e}; else x -= NonLinearTerm{c, e}; } dex(); return g.h; }
        if (v == "xadd" || v == "xdif" || v == "xset" || v == "xmul") { uint32_t i = t.i(), j = t.i(); double c = t.d(); if (o->ex.empty()) throw Skip(); { Lib l; auto& x = o->ex[i % o->ex.size()]; auto& y = o->ex[j % o->ex.size()]; if (v == "xset") { if (i == j) x = c; else x = y; } else if (&x != &y) { if (v == "xadd") x += y; else if (v == "xdif") x -= y; else x = y * c; } else if (v == "xadd") x += c; else x -= c; } dex(); return g.h; }
        if (v == "csr") { { Lib l; std::unique_ptr<MatCSRSymmetric> c(new MatCSRSymmetric(o->sys->A)); o->csr = std::move(c); } dcsr(g, *o->csr); return g.h; }
        if (!o->csr) throw Skip();
        m = o->csr->m;
        if (v == "mult") { int w = t.i(); std::vector<double> x = pattern(m, t.i()), y(m);
            if (w == 0) { Lib l; mult(y, *o->csr, x); } else if (w == 1) { Lib l; MatCSRLowerTri q(*o->csr); mult(y, q, x); } else { Lib l; MatCSRUpperTri q(*o->csr); mult(y, q, x); } g.vd(y); return g.h; }
        if (v == "vec") { uint64_t s = t.i(); std::vector<double> a = pattern(m, s), b = pattern(m, s + 1), y(m); double r1, r2, r3; bool n1, n2;
            { Lib l; using nikfemm::add; using nikfemm::sub; using nikfemm::mult; using nikfemm::div; add(y, a, b); mult(y, 1.5, y); sub(y, y, a); div(y, y, 3.0); mult(y, y, b); addScaled(y, y, 0.25, a); r1 = nikfemm::dot(a, b); r2 = nikfemm::norm(y); r3 = nikfemm::squareSum(a); n1 = nikfemm::isnan(y); n2 = nikfemm::isnan(*o->csr); add(a, y, 2.0); sub(b, y, 1.0); copy(y, a); }
            g.vd(y); g.vd(a); g.vd(b); g.d(r1); g.d(r2); g.d(r3); g.u(n1); g.u(n2); return g.h; }
        if (v == "ic") { std::unique_ptr<MatCSRLowerTri> c; { Lib l; c.reset(new MatCSRLowerTri(incompleteCholeskyDecomposition(*o->csr))); } dcsr(g, *c); { Lib l; c.reset(); } return g.h; }
        if (v == "ssor") { double w = t.d(); std::vector<double> x = pattern(m, t.i()), y(m); { Lib l; multSSORPreconditioner(*o->csr, y, x, w); } g.vd(y); return g.h; }
        if (v == "at") { uint64_t s = t.i(); rt::Rng r(s); double q[24]; { Lib l; for (auto& x : q) { uint32_t i = r.below(m), j = r.below(m); x = (*o->csr)(i, j); } } for (double x : q) g.d(x); return g.h; }
        if (v == "solve") { int w = t.i(); double e = t.d(); int it = t.i(); std::vector<double> x(m, 0.0); 
            { Lib l; const MatCSRSymmetric& A = *o->csr; const std::vector<double>& b = o->sys->b; if (w == 0) conjugateGradientSolver(A, b, x, e, it); else if (w == 1) preconditionedJacobiConjugateGradientSolver(A, b, x, e, it); else if (w == 2) preconditionedSSORConjugateGradientSolver(A, b, x, 1.5, e, it); else preconditionedIncompleteCholeskyConjugateGradientSolver(A, b, x, e, it); }
            g.vd(x); return g.h; }
        if (v == "copymat") { std::unique_ptr<MatCSRSymmetric> c; { Lib l; c.reset(new MatCSRSymmetric(*o->csr)); } dcsr(g, *c); { Lib l; c.reset(); } return g.h; }
        if (v == "print") { Lib l; o->csr->printCSR(); o->csr->print(); return 1; }
        if (v == "write") { std::string n = t.s(), f = DISK + n; { Lib l; o->csr->write_to_file(f.c_str()); } matrix_file(n, *o->csr, note); return 1; }
#ifdef NIKFEMM_USE_OPENCV
        if (v == "plot") { std::string n = t.s(), f = DISK + n; { Lib l; o->csr->plot(f); }
            image_file(n, m, m, [&](const cv::Mat& got) { for (uint32_t i = 0; i < m; i++) for (uint32_t j = 0; j < m; j++) { auto& q = got.at<cv::Vec3b>(i, j); if ((q[0] || q[1] || q[2]) != ((*o->csr)(i, j) != 0.0)) return true; } return false; }, note); return 1; }
#endif
    }
    rt::fail_now("machinery", "unknown verb " + verb);
    return 0;
}

// ---- settings: what belongs to the process and is not the library's to change -----------------
typedef std::vector<std::pair<const char*, std::string>> Settings;
template <class T> static std::string txt(const T& v) { OS o; o << v; return o.str(); }
static void own_settings(Settings& v) {                    // of the calling thread
    unsigned short cw = 0; asm volatile("fnstcw %0" : "=m"(cw));
    v.emplace_back("rounding-mode", txt(fegetround())); v.emplace_back("sse-control", txt(_mm_getcsr() & ~0x3fu)); v.emplace_back("x87-control", txt(cw));
    locale_t l = uselocale((locale_t)0); v.emplace_back("thread-locale", l == LC_GLOBAL_LOCALE ? "global" : txt((void*)l));
    sigset_t m; sigemptyset(&m); pthread_sigmask(SIG_SETMASK, nullptr, &m); std::string q; for (int i = 1; i < 65; i++) q += sigismember(&m, i) == 1 ? '1' : '0'; v.emplace_back("signal-mask", q);
}
template <class S> static void stream(Settings& v, const char* name, S& s) {
    OS o; o << "flags " << (long)s.flags() << " precision " << s.precision() << " width " << s.width() << " fill " << (int)s.fill() << " exceptions " << (int)s.exceptions() << " buffer " << (void*)s.rdbuf() << " tie " << (void*)s.tie() << " locale " << s.getloc().name();
    if (!rt::env.console) o << " state " << (int)s.rdstate();
    v.emplace_back(name, o.str());
}
extern "C" char** environ;
static void all_settings(Settings& v) {                    // of the whole process
    { OS o; for (int c : {LC_CTYPE, LC_NUMERIC, LC_TIME, LC_COLLATE, LC_MONETARY, LC_MESSAGES}) o << setlocale(c, nullptr) << '/'; v.emplace_back("locale", o.str()); }
    v.emplace_back("c++-locale", std::locale().name());
    stream(v, "std::cout", std::cout); stream(v, "std::cerr", std::cerr); stream(v, "std::clog", std::clog); stream(v, "std::cin", std::cin); 
    { OS o; for (int i = 1; i < 65; i++) { struct sigaction a; memset(&a, 0, sizeof a); if (sigaction(i, nullptr, &a) == 0) o << i << ':' << (void*)a.sa_handler << ':' << a.sa_flags << ' '; } v.emplace_back("signal-handlers", o.str()); }
    { mode_t m = umask(0); umask(m); v.emplace_back("umask", txt(m)); }
    { char b[4096]; v.emplace_back("working-directory", getcwd(b, sizeof b) ? b : "?"); }
    { OS o; for (char** e = environ; e && *e; e++) o << *e << ';'; v.emplace_back("environment", o.str()); }
    v.emplace_back("new-handler", txt((void*)std::get_new_handler())); v.emplace_back("terminate-handler", txt((void*)std::get_terminate()));
    { OS o; for (int i = 0; i < RLIM_NLIMITS; i++) { struct rlimit r; if (getrlimit((__rlimit_resource_t)i, &r) == 0) o << i << ':' << r.rlim_cur << ':' << r.rlim_max << ' '; } v.emplace_back("limits", o.str()); }
    { OS o; for (int i = 0; i < 3; i++) { struct itimerval t; memset(&t, 0, sizeof t); getitimer((__itimer_which_t)i, &t); o << (t.it_value.tv_sec || t.it_value.tv_usec) << ' '; } v.emplace_back("timers", o.str()); }
    v.emplace_back("priority", txt(getpriority(PRIO_PROCESS, 0)));
    { cpu_set_t c; CPU_ZERO(&c); sched_getaffinity(0, sizeof c, &c); v.emplace_back("affinity", txt(CPU_COUNT(&c))); }
    { OS o; for (int i = 0; i < 100; i++) { int f = fcntl(i, F_GETFD); if (f != -1) o << i << ':' << f << ':' << fcntl(i, F_GETFL) << ' '; } v.emplace_back("descriptors", o.str()); }
    v.emplace_back("random-seed", txt(rt::reseeds) + "_calls_to_srand");
#ifdef NIKFEMM_USE_OPENCV
    v.emplace_back("opencv", txt(cv::getNumThreads()) + "/" + txt(cv::useOptimized()));
#endif
}
static void compare(Settings& a, const Settings& b, const std::string& where) {
    for (size_t i = 0; i < b.size(); i++) if (a[i].second != b[i].second) { OS o; o << "G " << where << ' ' << b[i].first << ' '; std::string x = a[i].second, y = b[i].second; size_t k = 0; while (k < x.size() && k < y.size() && x[k] == y[k]) k++; while (k && x[k - 1] != ' ') k--; for (auto* q : {&x, &y}) { *q = q->substr(k, 60); for (char& ch : *q) if (ch == '\n') ch = '_'; } o << '[' << x << "] became [" << y << ']'; rt::out(o.str()); }
    a = b;
}
static void nothing_handler() { throw std::bad_alloc(); }
static void vary_settings(uint64_t seed) {                 // the caller's own choices, before anything runs
    if (seed < 2) return;
    rt::Rng r(seed);
    auto st = [&](std::ostream& s) {
        if (r.below(2)) s.setf(r.below(2) ? std::ios::fixed : std::ios::scientific, std::ios::floatfield);
        if (r.below(3) == 0) s.setf(std::ios::hex, std::ios::basefield);
        if (r.below(3) == 0) s << std::showpos << std::boolalpha << std::uppercase << std::showbase << std::left;
        if (r.below(2)) s.precision((int)r.below(18));
        if (r.below(3) == 0) s.fill('*');
        if (r.below(4) == 0 && !rt::env.console) s.exceptions(std::ios::badbit);
        if (r.below(5) == 0) { try { s.imbue(std::locale("C.UTF-8")); } catch (...) {} }
    };
    st(std::cout); if (r.below(2)) st(std::cerr); if (r.below(3) == 0) st(std::clog);
    if (r.below(3) == 0) umask(077);
    if (r.below(3) == 0) { signal(SIGUSR1, SIG_IGN); signal(SIGHUP, SIG_IGN); }
    if (r.below(4) == 0) signal(SIGPIPE, SIG_IGN);
    if (r.below(3) == 0) { setenv("LC_NUMERIC", "C", 1); setenv("NIKFEMM_X", "1", 1); }
    if (r.below(4) == 0) std::set_new_handler(nothing_handler);
    if (r.below(5) == 0) std::cin.tie(nullptr);
}
static void vary_own(uint64_t seed, int tid) {
    if (seed < 2) return;
    rt::Rng r(seed * 31 + tid);
    if (r.below(7) == 0) fesetround(r.below(2) ? FE_UPWARD : FE_TOWARDZERO);
    if (r.below(7) == 0) _mm_setcsr(_mm_getcsr() | 0x8040);     // denormals are zero
    if (r.below(6) == 0) { unsigned short cw; asm volatile("fnstcw %0" : "=m"(cw)); cw = (unsigned short)((cw & ~0x300) | (r.below(2) ? 0x200 : 0)); asm volatile("fldcw %0" : : "m"(cw)); }
    if (r.below(4) == 0) { static locale_t l = newlocale(LC_ALL_MASK, "C.UTF-8", (locale_t)0); if (l) uselocale(l); }
    if (r.below(4) == 0) { sigset_t m; sigemptyset(&m); sigaddset(&m, SIGUSR2); pthread_sigmask(SIG_BLOCK, &m, nullptr); }
}

// ---- a case ---------------------------------------------------------------------------------
struct Client { int worker = 0; std::vector<std::string> ops; std::vector<rt::Fault> faults; int onfail = 0; /*0 stop 1 retry 2 continue without the object 3 continue with it*/ int max_retry = 8; bool keep = false; Slots slots; };
static bool alone_here = true;           // one client in this phase: it answers for the whole process
struct Phase { std::vector<Client> clients; rt::Sched sched; bool join = false; int idx = 0; };
struct Case { std::vector<Phase> phases; bool sites = false; uint64_t budget = 0; std::string id; bool final_live = false; };

static std::string hex(uint64_t v) { char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long)v); return b; }
struct Run { Client* c; int phase, idx; };
static std::string clean(const char* s) { std::string r; for (; *s && r.size() < 120; s++) r += (*s == '\n' || *s == ' ') ? '_' : *s; return r.empty() ? "-" : r; }

static void destroy(Slots& s) { for (auto& kv : s) { Lib l; kv.second.reset(); } s.clear(); }

static void body(int tid, void* arg) {
    Run* r = (Run*)arg; Client& c = *r->c;
    Settings had; auto look = [&](Settings& v) { own_settings(v); if (alone_here) all_settings(v); };
    if (rt::env.settings) { vary_own(rt::env.settings, tid); look(had); }
    for (size_t i = 0; i < c.ops.size(); i++) {
        rt::op_boundary();
        for (int att = 0;; att++) {
            rt::Op acc; std::string st, note; uint64_t dg = 0; bool again = false, stop = false;
            rt::op_begin(tid, (int)i, att, &acc);
            try { dg = run_op(c.slots, c.ops[i], note); st = "ok"; }
            catch (Skip&) { st = "skip"; }
            catch (std::exception& e) { int status; char* dn = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &status); st = std::string("exc:") + clean(dn ? dn : "?") + ":" + clean(e.what()); free(dn); }
            catch (...) { st = "foreign:unknown-exception-type"; }
            rt::op_end(tid);
            if (rt::env.settings) { Settings now; look(now); OS o; o << r->phase << ' ' << r->idx << ' ' << i << ' ' << att << ' ' << (st == "ok" ? "ok" : st == "skip" ? "skip" : "exc"); compare(had, now, o.str()); }
            if (st.compare(0, 4, "exc:") == 0 && acc.faults) { if (c.onfail == 1) { again = att + 1 < c.max_retry; if (!again) stop = true; } else if (c.onfail == 0) stop = true; else if (c.onfail == 2) { // spoil the object the failed call worked on
                    std::istringstream is(c.ops[i]); std::string a, b; is >> a >> b; auto& h = home(c.slots, b); auto it = h.find(b); if (it != h.end()) it->second->bad = true; } }
            Dg h; h.s(st); h.u(dg); h.u(acc.allocs); h.u(acc.steps); rt::hash_event(h.h);
            OS o; o << "R " << r->phase << ' ' << r->idx << ' ' << i << ' ' << att << ' ' << st << ' ' << hex(dg) << ' ' << acc.allocs << ' ' << acc.steps << ' ' << acc.faults << ' ' << acc.maxsize << ' ' << acc.opens << ' ' << acc.writes << ' ' << acc.closes << ' ' << rt::disk_open_fds() << ' ' << (note.empty() ? "-" : clean(note.c_str()));
            rt::out(o.str());
            if (!acc.sites.empty()) { OS q; q << "A " << r->phase << ' ' << r->idx << ' ' << i; for (auto& s : acc.sites) q << ' ' << s.k << ':' << hex(s.hash).substr(8) << ':' << s.size; rt::out(q.str()); }
            if (rt::env.disk && (acc.opens || acc.writes)) for (auto& n : rt::disk_names()) { std::string ct; rt::disk_read(n, ct); Dg f; f.s(ct); rt::out("F " + std::to_string(r->phase) + " " + std::to_string(r->idx) + " " + std::to_string(i) + " " + std::to_string(att) + " " + n + " " + hex(f.h) + " " + std::to_string(ct.size())); }
            if (stop) { i = c.ops.size(); break; }
            if (!again) break;
        }
    }
    rt::op_boundary();
    if (!c.keep) { rt::Op acc; rt::op_begin(tid, 1000000, 0, &acc); destroy(c.slots); rt::op_end(tid); if (rt::env.settings) { Settings now; look(now); OS o; o << r->phase << ' ' << r->idx << " 1000000 0 ok"; compare(had, now, o.str()); } }
}

static rt::FaultKind fkind(const std::string& s) {
    static const char* n[] = {"alloc", "allocsize", "budget", "open", "write", "close", "full", "fsync", "rename"};
    for (int i = 0; i < 9; i++) if (s == n[i]) return (rt::FaultKind)i;
    rt::fail_now("machinery", "unknown fault " + s); return rt::F_ALLOC;
}
static bool parse(const std::string& text, Case& cs, std::string& err) {
    std::istringstream is(text); std::string line; Phase* ph = nullptr; Client* cl = nullptr;
    while (std::getline(is, line)) {
        std::istringstream ls(line); std::string w; if (!(ls >> w) || w[0] == '#') continue;
        if (w == "case") { ls >> cs.id; }
        else if (w == "sites") { cs.sites = true; }
        else if (w == "budget") { ls >> cs.budget; }
        else if (w == "env") { std::string kv; while (ls >> kv) { size_t e = kv.find('='); std::string k = kv.substr(0, e); long long v = strtoll(kv.c_str() + e + 1, nullptr, 0);
            rt::Env& x = rt::env;
            if (k == "heap_seed") x.heap_seed = v; else if (k == "heap_fill") x.heap_fill = v; else if (k == "heap_mode") x.heap_mode = v; else if (k == "stack") x.stack_seed = v; else if (k == "clock_mode") x.clock_mode = v; else if (k == "clock_seed") x.clock_seed = v; else if (k == "clock_base") x.clock_base = v;
            else if (k == "rand_mode") x.rand_mode = v; else if (k == "rand_seed") x.rand_seed = v; else if (k == "console") x.console = v; else if (k == "locale") x.locale = v; else if (k == "errno") x.err_no = v; else if (k == "disk") x.disk = v; else if (k == "settings") x.settings = v; else if (k == "machine") x.machine = v; else { err = "env " + k; return false; } } }
        else if (w == "randlist") { long v; while (ls >> v) rt::rand_list.push_back((int)v); }
        else if (w == "phase") { cs.phases.emplace_back(); ph = &cs.phases.back(); ph->idx = cs.phases.size() - 1; cl = nullptr; std::string f; while (ls >> f) if (f == "join") ph->join = true; }
        else if (w == "sched" && ph) { std::string k; ls >> k; rt::Sched& s = ph->sched; if (k == "geo") s.policy = 1; else if (k == "static") s.policy = 2; else if (k == "pct") s.policy = 3; else if (k == "shared") s.policy = 4; else if (k == "op") s.policy = 5; else s.policy = 0; ls >> s.seed >> s.p >> s.q >> s.n; }
        else if (w == "start" && ph) ls >> ph->sched.start;
        else if (w == "switch" && ph) { rt::Switch s; ls >> s.tid >> s.step >> s.next; ph->sched.list.push_back(s); }
        else if (w == "client" && ph) { ph->clients.emplace_back(); cl = &ph->clients.back(); cl->worker = ph->clients.size() - 1; std::string f; while (ls >> f) { if (f.compare(0, 3, "on=") == 0) cl->worker = atoi(f.c_str() + 3); else if (f == "retry") cl->onfail = 1; else if (f == "continue") cl->onfail = 2; else if (f == "go") cl->onfail = 3; else if (f == "keep") cl->keep = true; } }
        else if (w == "op" && cl) { std::string r; std::getline(ls, r); cl->ops.push_back(r); }
        else if (w == "fault" && cl) { rt::Fault f; std::string k; ls >> f.op >> f.attempt >> k; f.kind = fkind(k); ls >> f.a >> f.b; if (!(ls >> f.err)) f.err = 0; cl->faults.push_back(f); }
        else { err = line; return false; }
    }
    return true;
}
static void tail() {
    OS o;
    o << "Z hash=" << hex(rt::event_hash) << " steps=" << rt::steps_total << " switches=" << rt::nswitch_total << " inter=" << hex(rt::sig_interleaving) << " memerr=" << rt::mem_errors << " simns=" << rt_sim_elapsed() << " clock=" << rt::clock_reads << " rand=" << rt::rand_draws << " console=" << rt::console_faults << " fired=";
    for (int i = 0; i < 9; i++) o << (i ? "," : "") << rt::fired[i];
    rt::out(o.str());
    if (rt::mem_errors) rt::out(std::string("M ") + rt::mem_error_first);
    if (rt::free_error_first[0]) rt::out(std::string("MF ") + rt::free_error_first);
}
static void run_case(const std::string& text) {
    rt::init_child();
    rt::on_abnormal = tail;
    Case cs; std::string err;
    if (!parse(text, cs, err)) rt::fail_now("machinery", "bad case line: " + err);
    rt::apply_env();
    rt::want_sites = cs.sites;
    if (cs.budget) rt::step_budget = cs.budget;
    vary_settings(rt::env.settings);
    for (auto& ph : cs.phases) {
        std::vector<int> w; std::vector<void*> args; std::vector<std::unique_ptr<Run>> runs;
        for (size_t i = 0; i < ph.clients.size(); i++) { runs.emplace_back(new Run{&ph.clients[i], ph.idx, (int)i}); w.push_back(ph.clients[i].worker); args.push_back(runs.back().get()); rt::set_faults(ph.clients[i].worker, ph.clients[i].faults); }
        alone_here = ph.clients.size() == 1;
        Settings before; if (rt::env.settings && !alone_here) all_settings(before);
        rt::run_phase(w, body, args.data(), ph.sched);
        if (rt::env.settings && !alone_here) { Settings now; all_settings(now); compare(before, now, std::to_string(ph.idx) + " -1 0 0 ok"); }
        if (ph.clients.size() > 1) {
            rt::out("ST " + std::to_string(ph.idx) + " " + std::to_string(rt::last_start()) + " " + std::to_string(rt::static_hits));
            if (ph.sched.policy) { OS o; o << "S " << ph.idx; size_t n = 0; for (auto& s : rt::recorded) { if (n++ > 100000) break; o << ' ' << s.tid << ':' << s.step << ':' << s.next; if (o.tellp() > 50000) { rt::out(o.str()); o.str(""); o << "S " << ph.idx; } } rt::out(o.str()); }
        }
        for (auto& c : ph.clients) if (!c.faults.empty()) rt::set_faults(c.worker, {});
        if (ph.join) rt::join_workers();
        rt::Live l = rt::live_all();
        rt::out("L " + std::to_string(ph.idx) + " " + std::to_string(l.blocks) + " " + std::to_string(l.bytes) + " 0");
    }
    // objects kept alive by earlier phases, and shared ones, end here on a fresh worker
    {
        Phase* ph = nullptr; (void)ph; static Client fin; static std::vector<Slots*> all; for (auto& p : cs.phases) for (auto& c : p.clients) if (!c.slots.empty()) all.push_back(&c.slots); if (!shared_slots.empty()) all.push_back(&shared_slots);
        if (!all.empty()) { std::vector<int> w{0}; void* a[1] = {nullptr}; rt::run_phase(w, [](int tid, void*) { rt::Op acc; rt::op_begin(tid, 1000001, 0, &acc); for (auto* s : all) destroy(*s); rt::op_end(tid); }, a, rt::Sched()); }
    }
    rt::join_workers();
    std::string msg; if (!rt::heap_check(msg)) { rt::mem_errors++; if (!rt::mem_error_first[0]) snprintf(rt::mem_error_first, sizeof rt::mem_error_first, "%s", msg.c_str()); }
    rt::Live l = rt::live_all();
    rt::out("L end " + std::to_string(l.blocks) + " " + std::to_string(l.bytes) + " 0");
    if (l.blocks) for (auto& s : rt::live_dump(0, 12)) rt::out("LB " + s);
    tail();
    rt::out("E");
    rt::out_flush();
    _exit(0);
}

// ---- server: "<id> <len> <wall ms>\n<case text>" in, "<id> <len>\n<result>" out ------------------
static bool read_all(int fd, char* p, size_t n) { while (n) { ssize_t r = read(fd, p, n); if (r < 0 && errno == EINTR) continue; if (r <= 0) return false; p += r; n -= r; } return true; }
static std::string run_forked(const std::string& text, int wall_ms) {
    int pfd[2]; if (pipe(pfd)) return "X machinery pipe\n";
    pid_t pid = fork();
    if (pid < 0) { close(pfd[0]); close(pfd[1]); return "X machinery fork\n"; }
    if (pid == 0) {
        close(pfd[0]); int hi = fcntl(pfd[1], F_DUPFD, 100); close(pfd[1]); rt::out_fd = hi;
        int dn = open("/dev/null", O_RDWR); dup2(dn, 0); dup2(dn, 1); dup2(dn, 2); close(dn);
        run_case(text); _exit(0);
    }
    close(pfd[1]);
    std::string res; char buf[65536]; struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0); bool killed = false;
    while (true) {
        struct timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1); long el = (t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000;
        if (el > wall_ms) { kill(pid, SIGKILL); killed = true; break; }
        struct pollfd p{pfd[0], POLLIN, 0}; int r = poll(&p, 1, wall_ms - el + 1);
        if (r <= 0) continue;
        ssize_t n = read(pfd[0], buf, sizeof buf); if (n <= 0) break; res.append(buf, n);
    }
    close(pfd[0]);
    int st; waitpid(pid, &st, 0);
    if (killed) res += "X wall-timeout no answer within the wall-clock limit\n";
    else if (WIFSIGNALED(st)) res += "X killed signal " + std::to_string(WTERMSIG(st)) + "\n";
    return res;
}
int main(int argc, char** argv) {
    if (!getenv("NIKSIM_NOASLR")) { int p = personality(0xffffffff); if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) >= 0) { setenv("NIKSIM_NOASLR", "1", 1); execv("/proc/self/exe", argv); } }
    rt::init_process();
#ifdef NIKFEMM_USE_OPENCV
    cv::setNumThreads(1);
    { cv::Mat w = cv::Mat::zeros(8, 8, CV_8UC3); cv::line(w, {0, 0}, {5, 5}, {255, 255, 255}, 1); std::vector<uchar> b; cv::imencode(".png", w, b); cv::imencode(".jpg", w, b); cv::imencode(".bmp", w, b); cv::flip(w, w, 0); std::vector<std::vector<cv::Point>> pp(1, {{0, 0}, {3, 0}, {0, 3}}); cv::fillPoly(w, pp, {1, 2, 3}); cv::circle(w, {3, 3}, 2, {1, 2, 3}, -1); }
#endif
    if (argc > 1 && strcmp(argv[1], "--file") == 0) {
        std::string t; FILE* f = fopen(argv[2], "r"); if (!f) return 2; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); fclose(f);
        std::string r = run_forked(t, argc > 3 ? atoi(argv[3]) : 120000); fwrite(r.data(), 1, r.size(), stdout); fflush(stdout); return 0;
    }
    std::string line; char ch;
    while (true) {
        line.clear(); while (true) { ssize_t r = read(0, &ch, 1); if (r < 0 && errno == EINTR) continue; if (r <= 0) return 0; if (ch == '\n') break; line += ch; }
        unsigned long id, len; int wall; if (sscanf(line.c_str(), "%lu %lu %d", &id, &len, &wall) != 3) return 3;
        std::string t(len, 0); if (!read_all(0, &t[0], len)) return 0;
        std::string r = run_forked(t, wall);
        char h[64]; int hn = snprintf(h, sizeof h, "%lu %zu\n", id, r.size());
        std::string o(h, hn); o += r; size_t p = 0; while (p < o.size()) { ssize_t w = write(1, o.data() + p, o.size() - p); if (w < 0 && errno == EINTR) continue; if (w <= 0) return 0; p += w; }
    }
}
