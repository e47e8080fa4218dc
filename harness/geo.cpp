// Executable oracles for the properties of the geometric layer.  Compiled with -DP_<id> for one property.
#include "domain/global.hpp"
#include "domain/geometrics/angle.hpp"
#include "domain/geometrics/bounding.hpp"
#include "domain/geometrics/coord.hpp"
#include "domain/geometrics/edge.hpp"
#include "domain/geometrics/normal.hpp"
#include "domain/geometrics/point.hpp"
#include "domain/geometrics/polygon.hpp"
#include "domain/geometrics/range.hpp"
#include "domain/geometrics/relation.hpp"
#include "domain/geometrics/segment.hpp"
#include "domain/geometrics/space.hpp"
#include "domain/material.hpp"
#include "utils/state_management.hpp"
#include "h.hpp"

using namespace domain;
using std::vector;
using std::unique_ptr;
using std::shared_ptr;
using h::Desc;
using h::check;

struct P { double x, y; };
static double const T = 1e-8;

static std::string str(P p) { return "(" + h::num(p.x) + "," + h::num(p.y) + ")"; }
static std::string str(vector<P> const& v) { std::string s; for(auto p : v) s += str(p); return s; }
static Point pt(P p) { return Point(p.x, p.y); }
static double v(Coord const& c) { return c.value(); }

static vector<unique_ptr<Point const>> mk(vector<P> const& l) {
	vector<unique_ptr<Point const>> r;
	for(auto p : l) r.push_back(std::make_unique<Point const>(p.x, p.y));
	return r;
}

static vector<P> rand_points(int n, bool exact) {
	vector<P> r;
	int m = exact ? h::modeq() : h::modev();
	for(int i = 0; i < n; ++i) {
		int mm = h::coin(4) ? (exact ? h::modeq() : h::modev()) : m;
		P p{h::coordv(mm), h::coordv(mm)};
		// orthogonal steps are the common case of a polygon
		if(i && h::coin()) { if(h::coin()) p.x = r.back().x; else p.y = r.back().y; }
		if(i && h::coin(12)) p = r[h::rnd() % r.size()];
		r.push_back(p);
	}
	return r;
}

static int rand_n() { static int const t[] = {1, 2, 3, 3, 4, 4, 4, 5, 6, 7, 8, 9, 12, 20}; return t[h::rnd() % 14]; }

// simple polygons: star-shaped around a centre, or orthogonal staircases
static vector<P> simple_polygon() {
	vector<P> r;
	int kind = h::ri(0, 3);
	double s = h::coin() ? 1 : 0.5;
	if(kind == 0) {
		double x0 = h::ri(-5, 5), y0 = h::ri(-5, 5), x1 = x0 + h::ri(1, 6), y1 = y0 + h::ri(1, 6);
		r = {{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}};
	} else if(kind == 1) { // star-shaped
		int n = h::ri(3, 9);
		vector<double> a;
		for(int i = 0; i < n; ++i) a.push_back((i + h::ru(0.1, 0.9)) * 2 * std::numbers::pi / n);
		for(double t : a) { double d = h::ri(4, 40); r.push_back({std::round(d * std::cos(t)), std::round(d * std::sin(t))}); }
	} else if(kind == 2) { // staircase / comb
		int n = h::ri(1, 5);
		double x = h::ri(-5, 0);
		double base = h::ri(-5, 0);
		r.push_back({x, base});
		vector<P> top;
		double hgt = base + h::ri(1, 6);
		top.push_back({x, hgt});
		for(int i = 0; i < n; ++i) {
			x += h::ri(1, 3);
			top.push_back({x, hgt});
			if(i + 1 < n) { double nh = base + h::ri(1, 6); if(nh == hgt) nh += 1; hgt = nh; top.push_back({x, hgt}); }
		}
		r.push_back({x, base});
		for(int i = (int) top.size() - 1; i >= 0; --i) r.push_back(top[i]);
	} else { // triangle / L shape
		double a = h::ri(1, 4), b = h::ri(1, 4), c = a + h::ri(1, 4), d = b + h::ri(1, 4);
		r = {{0, 0}, {c, 0}, {c, b}, {a, b}, {a, d}, {0, d}};
	}
	for(auto& p : r) { p.x *= s; p.y *= s; }
	if(h::coin()) std::reverse(r.begin(), r.end());
	std::rotate(r.begin(), r.begin() + h::ri(0, (int) r.size() - 1), r.end());
	if(h::coin()) for(auto& p : r) std::swap(p.x, p.y);
	return r;
}

[[maybe_unused]] static bool in_seg_exact(P a, P b, P q) {
	double cr = (b.x - a.x) * (q.y - a.y) - (b.y - a.y) * (q.x - a.x);
	return cr == 0 && q.x >= std::min(a.x, b.x) && q.x <= std::max(a.x, b.x) && q.y >= std::min(a.y, b.y) && q.y <= std::max(a.y, b.y);
}

static double cross3(P a, P b, P c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }

static double area2(vector<P> const& l) {
	double s = 0;
	for(std::size_t i = 0; i < l.size(); ++i) { P a = l[i], b = l[(i + 1) % l.size()]; s += a.x * b.y - b.x * a.y; }
	return s;
}

static bool is_simple(vector<P> const& l) {
	int n = l.size();
	for(int i = 0; i < n; ++i) {
		P a = l[i], b = l[(i + 1) % n];
		if(a.x == b.x && a.y == b.y) return false;
		for(int j = i + 1; j < n; ++j) {
			P c = l[j], d = l[(j + 1) % n];
			bool adj = j == i + 1 || (i == 0 && j == n - 1);
			auto sg = [](double x) { return (x > 0) - (x < 0); };
			if(!adj) {
				if(sg(cross3(a, b, c)) * sg(cross3(a, b, d)) <= 0 && sg(cross3(c, d, a)) * sg(cross3(c, d, b)) <= 0) {
					if(std::max(std::min(a.x, b.x), std::min(c.x, d.x)) <= std::min(std::max(a.x, b.x), std::max(c.x, d.x))
					&& std::max(std::min(a.y, b.y), std::min(c.y, d.y)) <= std::min(std::max(a.y, b.y), std::max(c.y, d.y)))
						return false;
				}
			} else {
				P q = j == i + 1 ? d : c; // far end
				P e = j == i + 1 ? a : b;
				if(j == i + 1 && in_seg_exact(a, b, d)) return false;
				if(j == i + 1 && in_seg_exact(c, d, a)) return false;
				if(i == 0 && j == n - 1 && (in_seg_exact(a, b, c) || in_seg_exact(c, d, b))) return false;
				(void) q; (void) e;
			}
		}
	}
	return true;
}

[[maybe_unused]] static shared_ptr<Polygon> mk_polygon(vector<P> const& l, Plane plane = XY, double z0 = 0, double z1 = 1) {
	return std::make_shared<Polygon>(plane, std::make_shared<Material>(Material::Type::CONDUCTOR, "m"), "p", 1, Polygon::RangeZ(z0, z1), mk(l), Caretaker::singleton().get_history_root());
}

struct Seg { P a, b; };
// the same geometric segment through either class
static unique_ptr<Segment> mk_seg(Seg s, Point const& p0, Point const& p1, bool as_edge) {
	if(as_edge) return std::make_unique<Edge>(XY, &p0, &p1, nullptr);
	(void) s;
	return std::make_unique<Range>(p0, p1);
}

static bool near(double a, double b, double tol = 1e-9) { return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }

[[maybe_unused]] static Segment::Axis axis_of(double dx, double dy) {
	bool zx = std::fabs(dx) < T, zy = std::fabs(dy) < T;
	return zx && zy ? Segment::Axis::POINT : zx ? Segment::Axis::V : zy ? Segment::Axis::H : Segment::Axis::DIAGONAL;
}

// two related segments: random, colinear, touching, nested, crossing
static void seg_pair(Seg& s, Seg& t, bool exact = true) {
	int m = exact ? h::modeq() : h::modev();
	auto c = [&] { return h::coordv(m); };
	int k = h::ri(0, 6);
	s = {{c(), c()}, {c(), c()}};
	t = {{c(), c()}, {c(), c()}};
	if(k == 0) { s.b.y = s.a.y; t.a.y = t.b.y = h::coin(6) ? c() : s.a.y; }
	if(k == 1) { s.b.x = s.a.x; t.a.x = t.b.x = h::coin(6) ? c() : s.a.x; }
	if(k == 2) { s.b.y = s.a.y; t.b.x = t.a.x; }
	if(k == 3) { s.b.x = s.a.x; t.b.y = t.a.y; }
	if(k == 4) { double dx = h::ri(-3, 3), dy = h::ri(-3, 3); int i[4]; for(int& x : i) x = h::ri(-4, 4);
		P o{(double) h::ri(-3, 3), (double) h::ri(-3, 3)};
		s = {{o.x + i[0] * dx, o.y + i[0] * dy}, {o.x + i[1] * dx, o.y + i[1] * dy}};
		t = {{o.x + i[2] * dx, o.y + i[2] * dy}, {o.x + i[3] * dx, o.y + i[3] * dy}}; }
	if(k == 5) { t.a = h::coin() ? s.a : s.b; }
	if(h::coin(20)) s.b = s.a;
	if(h::coin()) std::swap(s, t);
}

static std::string str(Seg const& s) { return str(s.a) + "-" + str(s.b); }

#define MAIN(id) int main(int argc, char** argv) { h::init(argc, argv); while(h::more()) id(); return h::done(); }

#ifdef P_G01
static void G01() {
	for(int it = 0; it < 50; ++it) {
		auto l = rand_points(rand_n(), false);
		h::begin("vertices " + str(l));
		auto test = [&](Bounding2D const& b, vector<P> const& l, char const* what) {
			double xs[2] = {l[0].x, l[0].x}, ys[2] = {l[0].y, l[0].y};
			for(auto p : l) { xs[0] = std::min(xs[0], p.x); xs[1] = std::max(xs[1], p.x); ys[0] = std::min(ys[0], p.y); ys[1] = std::max(ys[1], p.y); }
			check(v(b[XMIN]) == xs[0], std::string(what) + ": lowest x is " + h::num(v(b[XMIN])));
			check(v(b[XMAX]) == xs[1], std::string(what) + ": highest x is " + h::num(v(b[XMAX])));
			check(v(b[YMIN]) == ys[0], std::string(what) + ": lowest y is " + h::num(v(b[YMIN])));
			check(v(b[YMAX]) == ys[1], std::string(what) + ": highest y is " + h::num(v(b[YMAX])));
		};
		test(detect_bounding(mk(l)), l, "bounding of a vertex list");
		if(it < 5) test(mk_polygon(l)->bounding, l, "Polygon::bounding");
		vector<P> s{l[0], l.size() > 1 ? l[1] : l[0]};
		Point a(pt(s[0])), b(pt(s[1]));
		test(bounding(*mk_seg({}, a, b, true)), s, "bounding of an edge");
		test(bounding(*mk_seg({}, a, b, false)), s, "bounding of a range");
	}
}
MAIN(G01)
#endif

#ifdef P_G02
static void G02() {
	for(int it = 0; it < 200; ++it) {
		int m = h::modev();
		double a[4], b[4];
		for(int i = 0; i < 4; i += 2) {
			a[i] = h::coordv(m); a[i + 1] = h::coordv(m); b[i] = h::coordv(m); b[i + 1] = h::coordv(m);
			if(h::coin(4)) b[i] = a[h::ri(i, i + 1)];
			if(h::coin(6)) b[i + 1] = a[h::ri(i, i + 1)];
			if(h::coin(10)) a[i + 1] = a[i];
			if(a[i] > a[i + 1]) std::swap(a[i], a[i + 1]);
			if(b[i] > b[i + 1]) std::swap(b[i], b[i + 1]);
		}
		Desc d; d << "a=[" << a[0] << "," << a[1] << "]x[" << a[2] << "," << a[3] << "] b=[" << b[0] << "," << b[1] << "]x[" << b[2] << "," << b[3] << "]";
		double c = h::coin(3) ? a[h::ri(0, 1)] : h::coordv(m);
		d << " c=" << c;
		h::begin(d.o.str());
		bool ox = std::max(a[0], b[0]) <= std::min(a[1], b[1]), oy = std::max(a[2], b[2]) <= std::min(a[3], b[3]);
		bool sx = std::max(a[0], b[0]) < std::min(a[1], b[1]), sy = std::max(a[2], b[2]) < std::min(a[3], b[3]);
		Bounding1D a1{a[0], a[1]}, b1{b[0], b[1]};
		Bounding2D a2{a[0], a[1], a[2], a[3]}, b2{b[0], b[1], b[2], b[3]};
		check(does_overlap(a1, b1) == ox, "1D ranges overlap");
		check(does_overlap(b1, a1) == ox, "1D ranges overlap, exchanged");
		check(does_overlap(a2, b2) == (ox && oy), "boxes overlap");
		check(does_overlap(b2, a2) == (ox && oy), "boxes overlap, exchanged");
		check(does_overlap_strict(a2, b2) == (sx && sy), "boxes strictly overlap");
		check(does_overlap_strict(b2, a2) == (sx && sy), "boxes strictly overlap, exchanged");
		check(does_overlap(a1, Coord(c)) == (a[0] <= c && c <= a[1]), "coordinate in a range");
		Polygon::RangeZ za(h::coin() ? a[0] : a[1], 0), zb(b[0], b[1]);
		za = {a[0], a[1]};
		Polygon::RangeZ zr(a[1], a[0]);
		check(v(za.min) == a[0] && v(za.max) == a[1] && v(zr.min) == a[0] && v(zr.max) == a[1], "a height covers the span of its coordinates in either order");
		check(does_overlap(zr, zb) == ox && does_overlap(zb, zr) == ox, "heights overlap");
		auto ch = cast(H, a2), cv = cast(V, a2);
		check(v(ch[0]) == a[0] && v(ch[1]) == a[1] && v(cv[0]) == a[2] && v(cv[1]) == a[3], "box cast to an axis");
	}
}
MAIN(G02)
#endif

#ifdef P_G03
static void G03() {
	static Axis const hv[3][2] = {{Y, Z}, {Z, X}, {X, Y}};
	for(int it = 0; it < 50; ++it) for(auto plane : AllPlane) {
		double x = h::coordv(h::modev()), y = h::coordv(h::modev());
		Desc d; d << "plane " << (int) plane << " point (" << x << "," << y << ")";
		h::begin(d.o.str());
		Axis ah = hv[plane][0], av = hv[plane][1], an = (Axis) (3 - ah - av);
		check(transpose(plane, H) == ah && transpose(plane, V) == av, "view axes map to the plane's spatial axes");
		check(transpose(plane, ah) == std::optional(H) && transpose(plane, av) == std::optional(V), "spatial axes map back to the view axes");
		check(transpose(plane, an) == std::nullopt, "third axis maps to nothing");
		check(Axes[plane][H] == ah && Axes[plane][V] == av, "axis table");
		check(transpose(plane, Segment::Axis::H) == std::optional(av) && transpose(plane, Segment::Axis::V) == std::optional(ah), "a segment is meshed along the perpendicular axis");
		check(!transpose(plane, Segment::Axis::DIAGONAL) && !transpose(plane, Segment::Axis::POINT), "diagonals and points are not meshed along an axis");
		Point p(x, y);
		check(v(coord(p, H)) == x && v(coord(p, V)) == y, "coordinate by view axis");
		check(coord(p, Segment::Axis::H).has_value() && v(*coord(p, Segment::Axis::H)) == y && v(*coord(p, Segment::Axis::V)) == x, "coordinate by segment axis");
		check(!coord(p, Segment::Axis::DIAGONAL) && !coord(p, Segment::Axis::POINT), "no coordinate for other segments");
		check(reverse(H) == V && reverse(V) == H, "reverse view axis");
		check(cast(H) == Segment::Axis::H && cast(V) == Segment::Axis::V && cast(Segment::Axis::H) == std::optional(H) && cast(Segment::Axis::V) == std::optional(V)
		   && !cast(Segment::Axis::DIAGONAL) && !cast(Segment::Axis::POINT), "casts between axes");
		check(reverse(Normal::XMIN) == Normal::XMAX && reverse(Normal::XMAX) == Normal::XMIN && reverse(Normal::YMIN) == Normal::YMAX && reverse(Normal::YMAX) == Normal::YMIN
		   && reverse(Normal::ZMIN) == Normal::ZMAX && reverse(Normal::ZMAX) == Normal::ZMIN && reverse(Normal::NONE) == Normal::NONE, "reverse normal");
	}
}
MAIN(G03)
#endif

#ifdef P_G04
static void G04() {
	for(int it = 0; it < 100; ++it) {
		int m = h::modev();
		double a = h::coordv(m), b = h::coordv(h::coin() ? m : h::modev()), n = h::coordv(h::modev());
		if(h::coin(4)) { static double const e[] = {0, 1e-9, -1e-9, 9e-9, -9e-9, 1.1e-8, -1.1e-8, 2e-8, 1e-7, -1e-7}; b = a + e[h::rnd() % 10]; }
		Desc d; d << "a=" << a << " b=" << b << " n=" << n;
		h::begin(d.o.str());
		Coord A(a), B(b);
		double df = std::fabs(a - b);
		if(std::fabs(df - T) > 1e-12) {
			check((A == B) == (df < T), "equality within tolerance");
			check((A != B) == !(df < T), "inequality");
			check((B == A) == (A == B), "equality is symmetric");
		}
		check((A < B) == (a < b) && (A > B) == (a > b) && (A <= B) == (a <= b) && (A >= B) == (a >= b), "orderings follow the values");
		check(v(A + B) == a + b && v(A - B) == a - b && v(A * B) == a * b, "arithmetic");
		if(b != 0) check(v(A / B) == a / b, "division");
		check(near(v(mid(A, B)), (a + b) / 2, 1e-12) && v(mid(A, B)) == v(mid(B, A)), "midpoint");
		check(v(distance(A, B)) == df && v(distance(B, A)) == df, "distance");
		check(double(A) == a && A.value() == a, "value");
		double a2 = h::coordv(m), b2 = h::coin(3) ? a2 : h::coordv(m);
		Point p(a, a2), q(b, b2);
		Point s = p + q, r = p - q, k = n * p, md = mid(p, q);
		check(v(s.x) == a + b && v(s.y) == a2 + b2, "point addition");
		check(v(r.x) == a - b && v(r.y) == a2 - b2, "point subtraction");
		check(v(k.x) == a * n && v(k.y) == a2 * n, "point scaling");
		Point k2 = p * n;
		check(v(k2.x) == a * n && v(k2.y) == a2 * n, "point scaling on the right");
		check(v(md.x) == v(mid(A, B)) && near(v(md.y), (a2 + b2) / 2, 1e-12), "point midpoint");
		if(std::fabs(df - T) > 1e-12 && std::fabs(std::fabs(a2 - b2) - T) > 1e-12) {
			check((p == q) == (df < T && std::fabs(a2 - b2) < T), "point equality");
			Point q2(b2, b);
			check((Point(a2, a) == q2) == (p == q), "point equality, axes exchanged");
		}
	}
}
MAIN(G04)
#endif

#ifdef P_G05
static void G05() {
	for(int it = 0; it < 100; ++it) {
		auto l = rand_points(4, false);
		if(h::coin(3)) { static double const e[] = {0, 1e-9, -5e-9, 2e-8, -3e-8, 1e-7}; l[1] = {l[0].x + e[h::rnd() % 6], h::coin() ? l[1].y : l[0].y + e[h::rnd() % 6]}; }
		if(h::coin(3)) { l[2] = l[h::ri(0, 1)]; l[3] = l[h::ri(0, 1)]; }
		h::begin("points " + str(l));
		auto safe = [](double a) { return std::fabs(std::fabs(a) - T) > 1e-11; };
		double dx = l[1].x - l[0].x, dy = l[1].y - l[0].y;
		Point a(pt(l[0])), b(pt(l[1])), c(pt(l[2])), e(pt(l[3]));
		Plane plane = (Plane) h::ri(0, 2);
		Edge g(plane, &a, &b, nullptr);
		Range r(a, b);
		if(safe(dx) && safe(dy)) {
			auto ax = axis_of(dx, dy);
			check(axis(a, b) == ax && axis(Point(dx, dy)) == ax && g.axis == ax && r.axis == ax, "classification");
			Edge::Direction di = Edge::Direction::NONE;
			if(ax == Segment::Axis::H) di = dx > 0 ? Edge::Direction::XMAX : Edge::Direction::XMIN;
			if(ax == Segment::Axis::V) di = dy > 0 ? Edge::Direction::YMAX : Edge::Direction::YMIN;
			check(g.direction == di, "direction");
		}
		check(&g.p0() == &a && &g.p1() == &b, "an edge keeps its endpoints");
		check(v(r.p0().x) == l[0].x && v(r.p0().y) == l[0].y && v(r.p1().x) == l[1].x && v(r.p1().y) == l[1].y, "a range keeps its endpoints");
		check(v(g.vec.x) == dx && v(g.vec.y) == dy, "edge vector");
		check(g.plane == plane && g.normal == Normal::NONE, "edge plane and normal");
		Range r2(c, e);
		Edge g2(plane, &c, &e, nullptr);
		bool ok = true;
		for(int i = 0; i < 2; ++i) for(int j = 2; j < 4; ++j) ok &= safe(l[i].x - l[j].x) && safe(l[i].y - l[j].y);
		if(ok) {
			auto eq = [](P p, P q) { return std::fabs(p.x - q.x) < T && std::fabs(p.y - q.y) < T; };
			bool same = (eq(l[0], l[2]) && eq(l[1], l[3])) || (eq(l[0], l[3]) && eq(l[1], l[2]));
			check((r == r2) == same, "equality of two ranges");
			check((r2 == r) == same, "equality of two ranges, exchanged");
			check((g == r2) == same && (r2 == g) == same && (g2 == r) == same && (r == g2) == same, "equality of an edge and a range");
		}
	}
}
MAIN(G05)
#endif

#ifdef P_G06
static void G06() {
	for(int it = 0; it < 40; ++it) {
		bool simple = h::coin();
		auto l = simple ? simple_polygon() : rand_points(rand_n(), true);
		h::begin("vertices " + str(l));
		double a = area2(l) / 2;
		auto want = std::fabs(a) < T ? Polygon::Rotation::COLINEAR : a > 0 ? Polygon::Rotation::CCW : Polygon::Rotation::CW;
		auto ps = mk(l);
		check(detect_rotation(ps) == want, "rotation of a vertex list");
		vector<Point const*> raw;
		for(auto const& p : ps) raw.push_back(p.get());
		check(detect_rotation(raw) == want, "rotation of a pointer list");
		auto pg = mk_polygon(l, (Plane) h::ri(0, 2));
		check(pg->rotation == want, "Polygon::rotation");
		for(auto const& e : pg->edges) {
			double dx = v(e->p1().x) - v(e->p0().x), dy = v(e->p1().y) - v(e->p0().y);
			Normal n = Normal::NONE;
			// right-hand side when counter-clockwise, left-hand side when clockwise
			if(want != Polygon::Rotation::COLINEAR) {
				bool ccw = want == Polygon::Rotation::CCW;
				if(dy == 0 && dx != 0) n = (dx > 0) == ccw ? Normal::YMIN : Normal::YMAX;
				if(dx == 0 && dy != 0) n = (dy > 0) == ccw ? Normal::XMAX : Normal::XMIN;
			}
			check(e->normal == n, "normal of edge " + str(P{v(e->p0().x), v(e->p0().y)}) + "-" + str(P{v(e->p1().x), v(e->p1().y)}) + " is " + std::to_string((int) e->normal));
		}
	}
}
MAIN(G06)
#endif

#ifdef P_G07
static void G07() {
	for(int it = 0; it < 40; ++it) {
		auto l = rand_points(rand_n(), false);
		Plane plane = (Plane) h::ri(0, 2);
		h::begin("plane " + std::to_string((int) plane) + " vertices " + str(l));
		auto test = [&](auto const& ps, auto const& es) {
			check(ps.size() == l.size() && es.size() == l.size(), "as many edges as vertices: " + std::to_string(es.size()));
			for(std::size_t i = 0; i < l.size(); ++i) {
				check(v(ps[i]->x) == l[i].x && v(ps[i]->y) == l[i].y, "vertex order");
				check(&es[i]->p1() == ps[i].get(), "edge " + std::to_string(i) + " ends on its vertex");
				check(&es[i]->p0() == ps[(i + l.size() - 1) % l.size()].get(), "edge " + std::to_string(i) + " starts on the previous vertex");
				check(es[i]->plane == plane, "edge plane");
			}
		};
		auto ps = mk(l);
		test(ps, detect_edges(ps, plane, nullptr));
		auto pg = mk_polygon(l, plane);
		test(pg->points, pg->edges);
		check(pg->plane == plane, "polygon plane");
	}
}
MAIN(G07)
#endif

#ifdef P_G08
static void G08() {
	for(int it = 0; it < 200; ++it) {
		Seg s, t;
		seg_pair(s, t);
		bool ea = h::coin(), eb = h::coin();
		h::begin(str(s) + " and " + str(t));
		Point a0(pt(s.a)), a1(pt(s.b)), b0(pt(t.a)), b1(pt(t.b));
		auto A = mk_seg(s, a0, a1, ea), B = mk_seg(t, b0, b1, eb);
		double ax0 = std::min(s.a.x, s.b.x), ax1 = std::max(s.a.x, s.b.x), ay0 = std::min(s.a.y, s.b.y), ay1 = std::max(s.a.y, s.b.y);
		double bx0 = std::min(t.a.x, t.b.x), bx1 = std::max(t.a.x, t.b.x), by0 = std::min(t.a.y, t.b.y), by1 = std::max(t.a.y, t.b.y);
		bool meet = ax0 <= bx1 && bx0 <= ax1 && ay0 <= by1 && by0 <= ay1;
		bool hh = A->axis == Segment::Axis::H && B->axis == Segment::Axis::H && ay0 == by0;
		bool vv = A->axis == Segment::Axis::V && B->axis == Segment::Axis::V && ax0 == bx0;
		auto o = overlap(*A, *B), m = merge(*A, *B);
		auto box = [](Range const& r) { return std::array{std::min(v(r.p0().x), v(r.p1().x)), std::max(v(r.p0().x), v(r.p1().x)), std::min(v(r.p0().y), v(r.p1().y)), std::max(v(r.p0().y), v(r.p1().y))}; };
		if(!meet) check(!o && !m, "nothing is shared: no overlap, no merge");
		if((hh || vv) && meet) {
			check(o.has_value() && m.has_value(), "shared part reported");
			check(box(*o) == std::array{std::max(ax0, bx0), std::min(ax1, bx1), std::max(ay0, by0), std::min(ay1, by1)}, "overlap is the shared part");
			check(box(*m) == std::array{std::min(ax0, bx0), std::max(ax1, bx1), std::min(ay0, by0), std::max(ay1, by1)}, "merge is the union's extent");
		}
		auto i = intersection(*A, *B);
		bool hv = A->axis == Segment::Axis::H && B->axis == Segment::Axis::V, vh = A->axis == Segment::Axis::V && B->axis == Segment::Axis::H;
		if(hv || vh) {
			check(i.has_value(), "horizontal and vertical: intersection reported");
			check(v(i->x) == (hv ? t.a.x : s.a.x) && v(i->y) == (hv ? s.a.y : t.a.y), "intersection of a horizontal and a vertical segment");
		} else {
			double ux = s.b.x - s.a.x, uy = s.b.y - s.a.y, wx = t.b.x - t.a.x, wy = t.b.y - t.a.y;
			double den = ux * wy - uy * wx;
			double mm = den != 0 ? (ux * (s.a.y - t.a.y) - uy * (s.a.x - t.a.x)) / den : -1;
			bool diag = A->axis == Segment::Axis::DIAGONAL || B->axis == Segment::Axis::DIAGONAL;
			if(den == 0 || !diag) check(!i, "parallel segments do not intersect");
			else if(std::fabs(mm) > 1e-6 && std::fabs(mm - 1) > 1e-6) {
				check(i.has_value() == (mm > 0 && mm < 1), "intersection reported when the first line meets the second segment");
			}
			if(i) check(near(v(i->x), t.a.x + mm * wx, 1e-7) && near(v(i->y), t.a.y + mm * wy, 1e-7), "intersection is on both lines");
		}
		Point md = mid(*A);
		check(near(v(md.x), (s.a.x + s.b.x) / 2) && near(v(md.y), (s.a.y + s.b.y) / 2), "middle of a segment");
	}
}
MAIN(G08)
#endif

#ifdef P_G09
static int sg(double x) { return (x > 0) - (x < 0); }
static void G09() {
	for(int it = 0; it < 200; ++it) {
		Seg s, t;
		seg_pair(s, t);
		P q{h::coordv(h::modeq()), h::coordv(h::modeq())};
		if(h::coin()) { int n = h::ri(-2, 6); q = {s.a.x + n * (s.b.x - s.a.x) / 4, s.a.y + n * (s.b.y - s.a.y) / 4}; }
		h::begin(str(s) + " and " + str(t) + " point " + str(q));
		Point a0(pt(s.a)), a1(pt(s.b)), b0(pt(t.a)), b1(pt(t.b)), p(pt(q));
		bool ea = h::coin(), eb = h::coin();
		auto A = mk_seg(s, a0, a1, ea), B = mk_seg(t, b0, b1, eb);
		check((A->relation_to(p) == relation::SegmentPoint::ON) == in_seg_exact(s.a, s.b, q), "point on a segment");
		check((mk_seg({}, a1, a0, ea)->relation_to(p) == relation::SegmentPoint::ON) == in_seg_exact(s.a, s.b, q), "point on the reversed segment");
		int r1 = sg(cross3(s.a, s.b, t.a)), r2 = sg(cross3(s.a, s.b, t.b)), r3 = sg(cross3(t.a, t.b, s.a)), r4 = sg(cross3(t.a, t.b, s.b));
		bool meet = std::max(std::min(s.a.x, s.b.x), std::min(t.a.x, t.b.x)) <= std::min(std::max(s.a.x, s.b.x), std::max(t.a.x, t.b.x))
		         && std::max(std::min(s.a.y, s.b.y), std::min(t.a.y, t.b.y)) <= std::min(std::max(s.a.y, s.b.y), std::max(t.a.y, t.b.y));
		auto want = relation::SegmentSegment::APART;
		if(!r1 && !r2 && !r3 && !r4) want = meet ? relation::SegmentSegment::OVERLAPPING : relation::SegmentSegment::COLINEAR;
		else if(r1 != r2 && r3 != r4) want = relation::SegmentSegment::CROSSING;
		check(A->relation_to(*B) == want, "relation is " + std::to_string((int) A->relation_to(*B)) + " instead of " + std::to_string((int) want));
		check(B->relation_to(*A) == want, "relation, exchanged, is " + std::to_string((int) B->relation_to(*A)) + " instead of " + std::to_string((int) want));
	}
}
MAIN(G09)
#endif

#ifdef P_G10
// winding number, exact on the grid
static int winding(vector<P> const& l, P q) {
	int w = 0;
	for(std::size_t i = 0; i < l.size(); ++i) {
		P a = l[i], b = l[(i + 1) % l.size()];
		if(a.y <= q.y) { if(b.y > q.y && cross3(a, b, q) > 0) ++w; }
		else if(b.y <= q.y && cross3(a, b, q) < 0) --w;
	}
	return w;
}
static void G10() {
	for(int it = 0; it < 10; ++it) {
		auto l = simple_polygon();
		if(!is_simple(l)) continue;
		auto pg = mk_polygon(l, (Plane) h::ri(0, 2));
		for(int k = 0; k < 25; ++k) {
			P q;
			int m = h::ri(0, 5);
			if(m == 0) q = l[h::rnd() % l.size()];
			else if(m == 1) { std::size_t i = h::rnd() % l.size(); P a = l[i], b = l[(i + 1) % l.size()]; int n = h::ri(0, 4); q = {a.x + n * (b.x - a.x) / 4, a.y + n * (b.y - a.y) / 4}; }
			else if(m == 2) q = {l[h::rnd() % l.size()].x, l[h::rnd() % l.size()].y};
			else if(m == 3) { std::size_t i = h::rnd() % l.size(), j = h::rnd() % l.size(); q = {(l[i].x + l[j].x) / 2, (l[i].y + l[j].y) / 2}; }
			else if(m == 4) q = {l[h::rnd() % l.size()].x, h::ri(-20, 20) / 2.0};
			else q = {h::ri(-40, 40) / 4.0, h::ri(-40, 40) / 4.0};
			h::begin("polygon " + str(l) + " point " + str(q));
			bool on = false;
			for(std::size_t i = 0; i < l.size(); ++i) on |= in_seg_exact(l[i], l[(i + 1) % l.size()], q);
			auto want = on ? relation::PolygonPoint::ON : winding(l, q) != 0 ? relation::PolygonPoint::IN : relation::PolygonPoint::OUT;
			auto got = pg->relation_to(pt(q));
			check(got == want, "point is " + std::to_string((int) got) + " instead of " + std::to_string((int) want) + " (IN=" + std::to_string((int) relation::PolygonPoint::IN) + " ON=" + std::to_string((int) relation::PolygonPoint::ON) + " OUT=" + std::to_string((int) relation::PolygonPoint::OUT) + ")");
		}
	}
}
MAIN(G10)
#endif

#ifdef P_G11
static void G11() {
	for(int it = 0; it < 60; ++it) {
		int m = h::modev();
		P a{h::coordv(m), h::coordv(m)}, b{h::coordv(m), h::coordv(m)};
		if(h::coin(4)) { double k = h::ri(-3, 3); b = {a.x * k, a.y * k}; }
		if(h::coin(6)) b = {-a.y, a.x};
		if((a.x == 0 && a.y == 0) || (b.x == 0 && b.y == 0)) continue;
		h::begin("directions " + str(a) + " " + str(b));
		double c = (a.x * b.x + a.y * b.y) / (std::hypot(a.x, a.y) * std::hypot(b.x, b.y));
		double want = std::acos(std::clamp(c, -1.0, 1.0)) * 180 / std::numbers::pi;
		double g = v(angle(pt(a), pt(b))), g2 = v(angle(pt(b), pt(a)));
		check(std::fabs(g - want) < 1e-4, "angle is " + h::num(g) + " instead of " + h::num(want));
		check(g >= 0 && g <= 180, "angle range");
		check(std::fabs(g - g2) < 1e-9, "order of the directions");
		Point o(0, 0), pa(pt(a)), pb(pt({a.x + b.x, a.y + b.y}));
		Edge e0(XY, &o, &pa, nullptr), e1(XY, &pa, &pb, nullptr);
		Angle an(pa, &e0, &e1, nullptr);
		check(std::fabs(v(an.angle) - v(angle(e0.vec, e1.vec))) < 1e-12 && an.e0 == &e0 && an.e1 == &e1 && an.p == pa, "angle of two edges");
	}
	for(int it = 0; it < 10; ++it) {
		std::size_t n = h::coin(5) ? h::ri(0, 40) : h::ri(0, 12);
		double x = h::coordv(h::modev()), y = h::coordv(h::modev()), r = std::fabs(h::coordv(h::modev())) + 0.125;
		Desc d; d << "circle centre (" << x << "," << y << ") radius " << r << " slices per quarter " << n;
		h::begin(d.o.str());
		auto c = circle_to_points(Point(x, y), r, n);
		std::size_t q = n ? n : 1;
		check(c.size() == 4 * q, "number of vertices is " + std::to_string(c.size()));
		double tol = 1e-9 * std::max(1.0, std::max(r, std::max(std::fabs(x), std::fabs(y))));
		for(std::size_t i = 0; i < c.size(); ++i) {
			double t = i * (std::numbers::pi / 2) / q;
			check(std::fabs(v(c[i]->x) - (x + r * std::cos(t))) < tol && std::fabs(v(c[i]->y) - (y + r * std::sin(t))) < tol, "vertex " + std::to_string(i) + " of the circle");
		}
	}
}
MAIN(G11)
#endif
