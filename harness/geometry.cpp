// C33..C37: min/max, ranges, rectangles, lines, points, sizes.
//! header-only
#include "vf.h"
#include <teiacare/sdk/math.hpp>
#include <teiacare/sdk/geometry/range.hpp>
#include <teiacare/sdk/geometry/rectangle.hpp>
#include <teiacare/sdk/geometry/line.hpp>
#include <teiacare/sdk/geometry/point.hpp>
#include <teiacare/sdk/geometry/size.hpp>
#include <cmath>
#include <optional>
using namespace tc::sdk;

namespace {
template <class T, class G> void minmax(G gen) {
  const T a = gen("a"), b = gen("b"), c = gen("c"), d = gen("d");
  const T m2 = tc::sdk::max(a, b), n2 = tc::sdk::min(a, b); CHECK((m2 == a || m2 == b) && m2 >= a && m2 >= b, "maximum of two"); CHECK((n2 == a || n2 == b) && n2 <= a && n2 <= b, "minimum of two");
  const T m3 = tc::sdk::max(a, b, c), n3 = tc::sdk::min(a, b, c); CHECK((m3 == a || m3 == b || m3 == c) && m3 >= a && m3 >= b && m3 >= c, "maximum of three"); CHECK((n3 == a || n3 == b || n3 == c) && n3 <= a && n3 <= b && n3 <= c, "minimum of three");
  const T m4 = tc::sdk::max(a, b, c, d), n4 = tc::sdk::min(a, b, c, d); CHECK((m4 == a || m4 == b || m4 == c || m4 == d) && m4 >= a && m4 >= b && m4 >= c && m4 >= d, "maximum of four"); CHECK((n4 == a || n4 == b || n4 == c || n4 == d) && n4 <= a && n4 <= b && n4 <= c && n4 <= d, "minimum of four");
  COVER("done");
}
double any_double(const char* n) { const uint64_t u = vf::any<uint64_t>(n); double d; __builtin_memcpy(&d, &u, 8); vf::assume(d == d); return d; }
float any_float(const char* n) { const uint32_t u = vf::any<uint32_t>(n); float d; __builtin_memcpy(&d, &u, 4); vf::assume(d == d); return d; }
constexpr int64_t R = 1 << 28;
int co(const char* n, int64_t lo = -R, int64_t hi = R) { return (int)vf::range(lo, hi, n); }
}
//@ C33 H_minmax_int | all quadruples of 32-bit integers
ENTRY(H_minmax_int) {
  minmax<int>([](const char* n) { return vf::any<int>(n); });
}
//@ C33 H_minmax_uint | all quadruples of unsigned 64-bit integers
ENTRY(H_minmax_uint) {
  minmax<uint64_t>([](const char* n) { return vf::any<uint64_t>(n); });
}
//@ C33 H_minmax_float | all quadruples of non-NaN floats
ENTRY(H_minmax_float) {
  minmax<float>(any_float);
}
//@ C33 H_minmax_double | all quadruples of non-NaN doubles
ENTRY(H_minmax_double) {
  minmax<double>(any_double);
}

namespace { template <class T> range<T> any_range(const char* n, T lo, T hi) { const T a = (T)vf::range((int64_t)lo, (int64_t)hi, n), b = (T)vf::range((int64_t)lo, (int64_t)hi, n); vf::assume(a <= b); return range<T>(a, b); } }
//@ C34 H_range_sets | all pairs of ordered ranges and all values within 2^28: membership, intersection, union
ENTRY(H_range_sets) {
  const auto a = any_range<int>("a", -R, R), b = any_range<int>("b", -R, R); const int v = co("v"); auto in = [](const range<int>& r, int x) { return r.min() <= x && x < r.max(); };
  CHECK(a.contains(v) == in(a, v), "contains exactly lower <= v < upper"); CHECK(a.is_null() == (a.min() == a.max()), "null exactly when empty"); CHECK(a.lenght() == a.max() - a.min(), "length");
  if (!a.is_null() && !b.is_null()) { const bool over = (a.min() > b.min() ? a.min() : b.min()) < (a.max() < b.max() ? a.max() : b.max()); CHECK(a.intersects(b) == over && b.intersects(a) == over, "intersect exactly when they share a value"); CHECK(a.contains(b) == (a.min() <= b.min() && b.max() <= a.max()), "contains a range exactly when it contains its values"); if (over) COVER("overlap"); else COVER("apart"); }
  if (a.intersects(b)) CHECK(in(a.get_intersection(b), v) == (in(a, v) && in(b, v)), "the intersection contains exactly the values in both"); else CHECK(a.get_intersection(b) == range<int>() && a.get_intersection(b).is_null(), "the null range when they do not intersect");
  const auto u = a.get_union(b); CHECK(u.min() == (a.min() < b.min() ? a.min() : b.min()) && u.max() == (a.max() > b.max() ? a.max() : b.max()), "the union is the smallest range covering both"); if (in(a, v) || in(b, v)) CHECK(in(u, v), "the union covers both");
  CHECK(a.get_intersection(b) == b.get_intersection(a) && u == b.get_union(a), "symmetric"); CHECK((a == b) == (a.min() == b.min() && a.max() == b.max()) && (a != b) == !(a == b), "equality");
}
//@ C34 H_range_edit | all ordered ranges, values and fractions: clamping, moving bounds, mapping
ENTRY(H_range_edit) {
  const auto a = any_range<int>("a", -R, R); const int v = co("v"), c = a.clamp(v); CHECK(c >= a.min() && c <= a.max(), "clamping stays within"); CHECK(c == (v < a.min() ? a.min() : v > a.max() ? a.max() : v), "the nearest value");
  auto m = a; m.set_min(v); CHECK(m.min() == v && m.max() == (v > a.max() ? v : a.max()), "moving the lower bound drags the upper one"); m = a; m.set_max(v); CHECK(m.max() == v && m.min() == (v < a.min() ? v : a.min()), "moving the upper bound drags the lower one");
  CHECK(a.map(0.0) == a.min() && a.map(1.0) == a.max(), "end points map to the bounds"); CHECK(a.map(0.5) == a.min() + (a.max() - a.min()) * 0.5, "the middle"); const int k = co("k", 0, 16); CHECK(a.map(k / 16.0) * 16 == 16.0 * a.min() + (double)k * (a.max() - a.min()), "linear"); COVER("done");
}
//@ C34 H_range_double | all ordered ranges of non-NaN doubles and all values: membership, clamping, moving bounds
ENTRY(H_range_double) {
  const double lo = any_double("lo"), hi = any_double("hi"), v = any_double("v"); vf::assume(lo <= hi); const range<double> r(lo, hi); CHECK(r.contains(v) == (lo <= v && v < hi), "membership"); const double c = r.clamp(v); CHECK(c >= lo && c <= hi && (c == v || (v < lo && c == lo) || (v > hi && c == hi)), "clamping");
  auto m = r; m.set_min(v); CHECK(m.min() == v && m.max() == (v > hi ? v : hi), "moving the lower bound"); m = r; m.set_max(v); CHECK(m.max() == v && m.min() == (v < lo ? v : lo), "moving the upper bound"); COVER("done");
}

namespace {
using rect = rectangle<int>; using pt = point<int>;
rect any_rect(const char* n) { const int x = co(n), y = co(n), w = co(n, 0, R), h = co(n, 0, R); return rect(x, y, w, h); }
struct box { int64_t l, t, r, b; }; box bx(const rect& r) { return {r.top_left().x(), r.top_left().y(), (int64_t)r.top_left().x() + r.width(), (int64_t)r.top_left().y() + r.height()}; }
int64_t mx(int64_t a, int64_t b) { return a > b ? a : b; } int64_t mn(int64_t a, int64_t b) { return a < b ? a : b; }
}
//@ C35 H_rect_points | all rectangles with extents up to 2^28 and all points: containment, corners, centre, area, translation, setters
ENTRY(H_rect_points) {
  const int x = co("x"), y = co("y"), w = co("w", 0, R), h = co("h", 0, R), px = co("px"), py = co("py"); const rect r(x, y, w, h), q(pt(x, y), w, h); CHECK(r == q && !(r != q), "both constructions agree");
  CHECK(r.contains(pt(px, py)) == (x < px && px < x + w && y < py && py < y + h), "inside exactly strictly between the edges");
  CHECK(r.top_left() == pt(x, y) && r.top_right() == pt(x + w, y) && r.bottom_left() == pt(x, y + h) && r.bottom_right() == pt(x + w, y + h), "corners"); CHECK(r.width() == w && r.height() == h && r.size() == tc::sdk::size<int>(w, h), "size");
  CHECK(r.center() == point<double>(x + w * 0.5, y + h * 0.5), "centre"); CHECK(r.is_null() == (w <= 0 && h <= 0), "null exactly without any extent"); const rectangle<int64_t> l(x, y, w, h); CHECK(l.area() == (int64_t)w * h, "area");
  const int dx = co("dx"), dy = co("dy"); rect t = r; t.translate(dx, dy); CHECK(t == rect(x + dx, y + dy, w, h), "translation moves the position only"); CHECK(r.translated(dx, dy) == t && r == q, "both forms agree and the returning one leaves the rectangle alone");
  rect s = r; s.set_width(h); CHECK(s == rect(x, y, h, h), "width"); s.set_height(w); CHECK(s == rect(x, y, h, w), "height"); s.set_size(w, h); CHECK(s == r, "size"); s.set_position(pt(px, py)); CHECK(s == rect(px, py, w, h), "position"); COVER("done");
}
//@ C35 H_rect_pairs | all pairs of rectangles with extents up to 2^28: equality, containment, intersection test, intersection and union
ENTRY(H_rect_pairs) {
  const rect a = any_rect("a"), b = any_rect("b"); const box p = bx(a), q = bx(b); const bool pa = a.width() > 0 && a.height() > 0, pb = b.width() > 0 && b.height() > 0;
  CHECK((a == b) == (p.l == q.l && p.t == q.t && p.r == q.r && p.b == q.b) && (a != b) == !(a == b), "equality");
  CHECK(a.contains(b) == (p.l < q.l && p.t < q.t && q.r < p.r && q.b < p.b), "contains exactly the rectangles strictly between its edges");
  const int64_t l = mx(p.l, q.l), t = mx(p.t, q.t), r = mn(p.r, q.r), m = mn(p.b, q.b);
  if (pa && pb) { const bool over = l < r && t < m; CHECK(a.intersects(b) == over && b.intersects(a) == over, "intersect exactly when the interiors overlap"); const box i = bx(a.get_intersection(b)); if (l <= r && t <= m) { CHECK(i.l == l && i.t == t && i.r == r && i.b == m, "the largest rectangle inside both"); } else { CHECK(a.get_intersection(b) == rect() && a.get_intersection(b).is_null(), "null when apart"); COVER("apart"); }
    const box u = bx(a.get_union(b)); CHECK(u.l == mn(p.l, q.l) && u.t == mn(p.t, q.t) && u.r == mx(p.r, q.r) && u.b == mx(p.b, q.b), "the smallest rectangle enclosing both"); if (over) COVER("overlap"); }
  if (b.is_null()) { CHECK(a.get_union(b) == a, "null rectangles are neutral for the union"); CHECK(!a.intersects(b) && !b.intersects(a) && a.get_intersection(b).is_null() && b.get_intersection(a).is_null(), "and intersect nothing"); if (!a.is_null()) CHECK(b.get_union(a) == a, "null rectangles are neutral for the union"); COVER("null"); }
}

namespace {
struct seg { int64_t ax, ay, bx, by; };
seg any_seg(const char* n, int k) { seg s; s.ax = vf::range(-k, k, n); s.ay = vf::range(-k, k, n); s.bx = vf::range(-k, k, n); s.by = vf::range(-k, k, n); return s; }
line<int> ln(const seg& s) { return line<int>(pt((int)s.ax, (int)s.ay), pt((int)s.bx, (int)s.by)); }
int64_t orient(int64_t ax, int64_t ay, int64_t bx, int64_t by, int64_t cx, int64_t cy) { return (bx - ax) * (cy - ay) - (by - ay) * (cx - ax); }
int sg(int64_t v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
bool parallel(const seg& s, const seg& t) { return (s.bx - s.ax) * (t.by - t.ay) == (s.by - s.ay) * (t.bx - t.ax); }
// non-parallel segments share a point exactly when each one's end points are on different sides of (or on) the other's line
bool meet(const seg& s, const seg& t) { return sg(orient(s.ax, s.ay, s.bx, s.by, t.ax, t.ay)) * sg(orient(s.ax, s.ay, s.bx, s.by, t.bx, t.by)) <= 0 && sg(orient(t.ax, t.ay, t.bx, t.by, s.ax, s.ay)) * sg(orient(t.ax, t.ay, t.bx, t.by, s.bx, s.by)) <= 0; }
}
//@ C36 H_seg_decision | all pairs of segments with end points in -7..7 (thorough -31..31): decision against exact orientation tests, symmetry and direction
ENTRY(H_seg_decision) {
  const int k = vf::thorough() ? 31 : 7; const seg s = any_seg("s", k), t = any_seg("t", k); const bool hit = ln(s).intersects(ln(t));
  if (!parallel(s, t)) { CHECK(hit == meet(s, t), "intersect exactly when they share a point"); }
  else CHECK(!hit || (orient(s.ax, s.ay, s.bx, s.by, t.ax, t.ay) == 0), "parallel segments on different lines never intersect");
  CHECK(ln(s).get_intersection(ln(t)).has_value() == hit, "a point is reported exactly when they intersect"); COVER("done");
}
//@ C36 H_seg_symmetry | all pairs of segments with end points in -7..7 (thorough -31..31): order and direction do not matter
ENTRY(H_seg_symmetry) {
  const int k = vf::thorough() ? 31 : 7; const seg s = any_seg("s", k), t = any_seg("t", k); const seg r{s.bx, s.by, s.ax, s.ay}; const bool hit = ln(s).intersects(ln(t)); vf::assume(!parallel(s, t)); CHECK(ln(t).intersects(ln(s)) == hit, "symmetric"); CHECK(ln(r).intersects(ln(t)) == hit && ln(s).intersects(ln(seg{t.bx, t.by, t.ax, t.ay})) == hit, "direction does not matter"); COVER("done");
}
//@ C36 H_seg_ends | all pairs of non-parallel segments in -1000..1000 that share an end point or touch at one: reported as intersecting
ENTRY(H_seg_ends) {
  const int64_t K = 1000; const int64_t x = vf::range(-K, K, "x"), y = vf::range(-K, K, "y"), ux = vf::range(-K, K, "u"), uy = vf::range(-K, K, "u"), vx = vf::range(-K, K, "v"), vy = vf::range(-K, K, "v"); vf::assume(ux * vy != uy * vx); const bool f1 = vf::choose(2, "d1"), f2 = vf::choose(2, "d2");
  const pt p((int)x, (int)y), q((int)(x + ux), (int)(y + uy)), r((int)(x + vx), (int)(y + vy)); const line<int> a(f1 ? p : q, f1 ? q : p), b(f2 ? p : r, f2 ? r : p); CHECK(a.intersects(b), "segments sharing an end point intersect"); const line<int> c(pt((int)(x - vx), (int)(y - vy)), r); CHECK(a.intersects(c) && c.intersects(a), "a segment ending on another intersects it"); COVER("done");
}

//@ C36 H_seg_point split=101:0..6;102:0..6 | all pairs of intersecting segments with any start in -1000..1000, every direction in -3..3 (thorough -6..6 when the determinant is small) whose determinant is a power of two: the reported point is exactly the common one
ENTRY(H_seg_point) {
  const int K = vf::thorough() ? 2 : 1; const int64_t dx = K * (vf::param(0) - 3), dy = K * (vf::param(1) - 3), ex = vf::choose(7, "ex") - 3, ey = vf::choose(7, "ey") - 3, den = dx * ey - dy * ex; const uint64_t a = den < 0 ? -den : den; if (a == 0 || (a & (a - 1))) { COVER("done"); return; }
  using pl = point<int64_t>; const int64_t ax = vf::range(-1000, 1000, "ax"), ay = vf::range(-1000, 1000, "ay"), cx = vf::range(-1000, 1000, "cx"), cy = vf::range(-1000, 1000, "cy"); const line<int64_t> s(pl(ax, ay), pl(ax + dx, ay + dy)), t(pl(cx, cy), pl(cx + ex, cy + ey));
  const int64_t num = (cx - ax) * ey - (cy - ay) * ex; const auto p = s.get_intersection(t); if (!p) { COVER("done"); return; }
  CHECK(p->x() * (double)den == (double)(ax * den + num * dx) && p->y() * (double)den == (double)(ay * den + num * dy), "the reported point is the common point"); COVER("done");
}

//@ C37 H_points | all points within 2^28 and all scalars: arithmetic, equality, setters
ENTRY(H_points) {
  const int ax = co("ax"), ay = co("ay"), bx = co("bx"), by = co("by"); const pt a(ax, ay), b(bx, by); CHECK(a.x() == ax && a.y() == ay, "coordinates");
  CHECK(a + b == pt(ax + bx, ay + by), "addition"); CHECK(a - b == pt(ax - bx, ay - by), "subtraction"); CHECK(a + b - b == a, "inverse"); pt c = a; c += b; CHECK(c == a + b, "in place"); c = a; c -= b; CHECK(c == a - b, "in place"); c = a; c.add_delta(bx, by); CHECK(c == a + b, "by deltas"); c.sub_delta(bx, by); CHECK(c == a, "by deltas");
  CHECK((a == b) == (ax == bx && ay == by) && (a != b) == !(a == b), "equality"); CHECK(a.is_origin() == (ax == 0 && ay == 0), "origin"); c = a; c.set_x(bx); CHECK(c == pt(bx, ay), "setting x"); c.set_y(by); CHECK(c == b, "setting y");
  const int k = co("k", -7, 7); CHECK(a * k == pt(ax * k, ay * k), "scaling"); c = a; c *= k; CHECK(c == a * k, "scaling in place"); if (k) { CHECK(a / k == pt(ax / k, ay / k), "division"); c = a; c /= k; CHECK(c == a / k, "division in place"); } COVER("done");
}
//@ C37 H_points_double | all points with integral double coordinates within 2^28 scaled by every k/4
ENTRY(H_points_double) {
  using pd = point<double>; const int ax = co("ax"), ay = co("ay"), bx = co("bx"), by = co("by"); const pd a(ax, ay), b(bx, by); CHECK(a + b == pd((double)ax + bx, (double)ay + by) && a - b == pd((double)ax - bx, (double)ay - by), "arithmetic"); pd c = a; c += b; c -= b; CHECK(c == a, "inverse"); const double k = co("k", -64, 64) / 4.0; CHECK(a * k == pd(ax * k, ay * k), "scaling"); c = a; c *= k; CHECK(c == a * k, "scaling in place"); const pt i(ax, ay); CHECK(i * 0.5 == pt(ax / 2, ay / 2), "scaling integers by a fraction truncates"); CHECK(a / 4 == pd(ax / 4.0, ay / 4.0), "division"); COVER("done");
}
//@ C37 H_distance | all points in -15..15 (thorough -63..63): distances are the integral part of the exact ones
ENTRY(H_distance) {
  const int K = vf::thorough() ? 63 : 15; const int ax = co("ax", -K, K), ay = co("ay", -K, K), bx = co("bx", -K, K), by = co("by", -K, K); const pt a(ax, ay), b(bx, by);
  const int e = (bx - ax) * (bx - ax) + (by - ay) * (by - ay), f = ax * ax + ay * ay; auto root = [&](int v) { int n = 0; for (int k = 1; k < 3 * K; k++) n += k * k <= v; return n; };
  CHECK(a.distance(b) == root(e), "distance"); CHECK(b.distance(a) == a.distance(b), "symmetric"); CHECK(a.distance_from_origin() == root(f), "distance from the origin"); COVER("done");
}
//@ C37 H_lines_sizes | all lines and sizes: equality, orientation, null tests, setters
ENTRY(H_lines_sizes) {
  const int v[8] = {vf::any<int>("a"), vf::any<int>("b"), vf::any<int>("c"), vf::any<int>("d"), vf::any<int>("e"), vf::any<int>("f"), vf::any<int>("g"), vf::any<int>("h")}; const pt p(v[0], v[1]), q(v[2], v[3]), r(v[4], v[5]), s(v[6], v[7]); const line<int> a(p, q), b(r, s);
  CHECK((a == b) == ((p == r && q == s) || (p == s && q == r)) && (a != b) == !(a == b), "line equality ignores direction"); CHECK(a.is_null() == (p == q) && a.is_vertical() == (v[0] == v[2]) && a.is_horizontal() == (v[1] == v[3]), "orientation"); CHECK(a.start() == p && a.end() == q, "end points"); auto c = a; c.set_start(r); CHECK(c.start() == r && c.end() == q, "setting the start"); c.set_end(s); CHECK(c == b && c.end() == s, "setting the end");
  using sz = tc::sdk::size<int>; const sz x(v[0], v[1]), y(v[2], v[3]); CHECK((x == y) == (v[0] == v[2] && v[1] == v[3]) && (x != y) == !(x == y), "size equality"); CHECK(x.is_null() == (v[0] == 0 && v[1] == 0), "null size"); auto z = x; z.set_width(v[2]); CHECK(z == sz(v[2], v[1]) && z.width() == v[2], "setting the width"); z.set_height(v[3]); CHECK(z == y && z.height() == v[3], "setting the height"); COVER("done");
}
