// Executable oracles for the conflict layer and the board.  Compiled with -DP_<id> for one property.
#include "domain/global.hpp"
#include "domain/board.hpp"
#include "domain/conflict_manager.hpp"
#include "domain/conflicts/conflict.hpp"
#include "domain/conflicts/conflict_colinear_edges.hpp"
#include "domain/conflicts/conflict_diagonal_or_circular_zone.hpp"
#include "domain/conflicts/conflict_edge_in_polygon.hpp"
#include "domain/conflicts/conflict_too_close_meshline_policies.hpp"
#include "domain/geometrics/angle.hpp"
#include "domain/geometrics/coord.hpp"
#include "domain/geometrics/edge.hpp"
#include "domain/geometrics/normal.hpp"
#include "domain/geometrics/polygon.hpp"
#include "domain/geometrics/segment.hpp"
#include "domain/material.hpp"
#include "domain/mesh/interval.hpp"
#include "domain/mesh/meshline.hpp"
#include "domain/mesh/meshline_policy.hpp"
#include "domain/meshline_policy_manager.hpp"
#include "utils/state_management.hpp"
#include "h.hpp"

using namespace domain;
using std::vector;
using std::shared_ptr;
using std::unique_ptr;
using std::make_unique;
using std::make_shared;
using std::size_t;
using std::string;
using std::optional;
using h::Desc;
using h::check;
using MLP = MeshlinePolicy;
using Policy = MLP::Policy;
using MN = MLP::Normal;

static double v(Coord const& c) { return c.value(); }
static Axis const AX[3] = {X, Y, Z};
static Plane const PL[3] = {YZ, ZX, XY};
// horizontal, vertical and remaining axis of each plane (right-handed cycle)
static int const HA[3] = {1, 2, 0}, VA[3] = {2, 0, 1};
static bool near(double a, double b, double e = 1e-9) { return std::fabs(a - b) <= e * (1 + std::fabs(a) + std::fabs(b)); }
static Timepoint* root() { return Caretaker::singleton().get_history_root(); }

struct World {
	struct Reset { ~Reset() { Caretaker::singleton().reset(); } } reset; // last destroyed
	Caretaker& ct = Caretaker::singleton();
	GlobalParams gp;
	ConflictManager cm;
	MeshlinePolicyManager mm;
	vector<unique_ptr<Point>> pts;
	vector<shared_ptr<Edge>> edges;
	explicit World(Params p = {}) : gp(std::move(p), root()), cm(root()), mm(&gp, root()) {
		cm.init(&mm);
		mm.init(&cm);
	}
	Edge* edge(int pl, double x0, double y0, double x1, double y1) {
		pts.push_back(make_unique<Point>(x0, y0));
		pts.push_back(make_unique<Point>(x1, y1));
		edges.push_back(make_shared<Edge>(PL[pl], pts[pts.size() - 2].get(), pts.back().get(), root()));
		return edges.back().get();
	}
	void flags(Edge* e, bool to_mesh, bool to_reverse) {
		auto s = e->get_current_state();
		s.to_mesh = to_mesh;
		s.to_reverse = to_reverse;
		e->set_next_state(s);
	}
};

struct Ed { int pl; bool horiz; double c; double a, b; Normal n; bool mesh, rev; };
static char const* nn(Normal n) {
	switch(n) { case Normal::XMIN: return "XMIN"; case Normal::XMAX: return "XMAX"; case Normal::YMIN: return "YMIN"; case Normal::YMAX: return "YMAX"; default: return "-"; }
}
static char const* const pln[3] = {"YZ", "ZX", "XY"};
static string str(Ed const& e) {
	return (Desc() << "{" << pln[e.pl] << (e.horiz ? " H @" : " V @") << e.c << " " << e.a << ".." << e.b << " " << nn(e.n) << (e.mesh ? "" : " unmeshed") << (e.rev ? " reversed" : "") << "}").o.str();
}
static Edge* put(World& w, Ed const& e) {
	Edge* r = e.horiz ? w.edge(e.pl, e.a, e.c, e.b, e.c) : w.edge(e.pl, e.c, e.a, e.c, e.b);
	r->normal = e.n;
	if(!e.mesh || e.rev || h::coin()) w.flags(r, e.mesh, e.rev);
	return r;
}
static Normal norm(bool horiz, int k) { return k == 0 ? Normal::NONE : horiz ? (k == 1 ? Normal::YMIN : Normal::YMAX) : (k == 1 ? Normal::XMIN : Normal::XMAX); }
// side (0 none, 1 min, 2 max) the edge faces
static int side(Normal n) { return n == Normal::NONE ? 0 : n == Normal::XMIN || n == Normal::YMIN || n == Normal::ZMIN ? 1 : 2; }

// random boards: rectangles, triangles, L shapes on a small grid
struct Poly { int pl; vector<std::pair<double, double>> p; size_t prio; int mat; double z0, z1; };
static vector<shared_ptr<Material>> mats() {
	vector<shared_ptr<Material>> r;
	for(auto t : {Material::Type::PORT, Material::Type::CONDUCTOR, Material::Type::DIELECTRIC, Material::Type::AIR}) r.push_back(make_shared<Material>(t, "m"));
	return r;
}
static string str(Poly const& p) {
	Desc d;
	d << "{" << pln[p.pl] << " prio " << p.prio << " mat " << p.mat << " z " << p.z0 << ".." << p.z1;
	for(auto& [x, y] : p.p) d << " (" << x << "," << y << ")";
	d << "}";
	return d.o.str();
}
static string str(vector<Poly> const& l) { string s; for(auto& p : l) s += str(p); return s; }
static Poly rand_poly(int pl, bool ortho, bool allmat = true) {
	Poly r;
	r.pl = pl;
	int g = h::coin() ? 4 : 8;
	double x0 = h::ri(0, g), y0 = h::ri(0, g), x1 = x0 + h::ri(1, 4), y1 = y0 + h::ri(1, 4);
	r.p = {{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}};
	if(!ortho && h::coin(3)) r.p.erase(r.p.begin() + h::ri(0, 3));
	else if(h::coin(4) && x1 - x0 >= 2 && y1 - y0 >= 2) r.p = {{x0, y0}, {x1, y0}, {x1, y0 + 1}, {x0 + 1, y0 + 1}, {x0 + 1, y1}, {x0, y1}};
	if(h::coin()) std::reverse(r.p.begin(), r.p.end());
	std::rotate(r.p.begin(), r.p.begin() + h::ri(0, (int) r.p.size() - 1), r.p.end());
	static size_t const huge[] = {0, 1, 0x7fffffff, 0x80000000ul, 0xfffffffful, 0x100000000ul, 0x7ffffffffffffffful, 0xfffffffffffffffful};
	r.prio = h::coin() ? 1 : h::coin(4) ? huge[h::ri(0, 7)] : h::ri(0, 3);
	r.mat = allmat || !h::coin(5) ? h::ri(0, 3) : 4;
	r.z0 = h::ri(0, 3); r.z1 = h::coin(3) ? r.z0 : h::ri(0, 4);
	return r;
}
static shared_ptr<Board> build(vector<Poly> const& l, vector<shared_ptr<Material>> const& m, shared_ptr<Material> bg, Params p = {}, vector<std::pair<int, double>> const& fixed = {}) {
	Board::Builder b;
	if(bg) b.set_background_material(bg);
	for(auto& q : l) {
		vector<unique_ptr<Point const>> pts;
		for(auto& [x, y] : q.p) pts.push_back(make_unique<Point const>(x, y));
		b.add_polygon(PL[q.pl], q.mat < 4 ? m[q.mat] : nullptr, "p", q.prio, {q.z0, q.z1}, std::move(pts));
	}
	for(auto& [a, c] : fixed) b.add_fixed_meshline_policy(AX[a], c);
	return b.build(std::move(p));
}

struct PolRef { Axis axis; Policy p; MN n; double c; bool en; vector<IMeshLineOrigin*> o; MLP const* ptr; };
static vector<PolRef> pols(MeshlinePolicyManager const& m) {
	vector<PolRef> r;
	for(auto a : AX) for(auto& p : m.get_meshline_policies(a)) {
		auto const& s = p->get_current_state();
		check(p->axis == a, "a policy is listed on another axis than its own");
		r.push_back({p->axis, s.policy, s.normal, v(p->coord), s.is_enabled, s.origins, p.get()});
	}
	return r;
}

//============================================================================ M02
#ifdef P_M02
static void one() {
	int pl = h::ri(0, 2);
	bool horiz = h::coin();
	double c = h::coordv(h::modev());
	int n = h::sz(2, 6);
	int bias = h::ri(0, 4);
	vector<Ed> l;
	for(int i = 0; i < n; ++i) {
		int k = bias < 3 && !h::coin(4) ? bias : h::ri(1, 2);
		if(h::coin(10)) k = 0;
		double a = h::ri(-5, 5), b = a + (h::coin() ? 1 : -1) * h::ri(1, 5);
		bool rev = h::coin(4);
		l.push_back({pl, horiz, c, a, b, norm(horiz, k), bias == 4 ? h::coin(5) : !h::coin(4), rev});
	}
	string d;
	for(auto& e : l) d += str(e);
	bool by_manager = h::coin();
	h::begin(d);
	World w;
	vector<Edge*> es;
	for(auto& e : l) es.push_back(put(w, e));
	Axis axis = AX[horiz ? VA[pl] : HA[pl]];
	shared_ptr<ConflictColinearEdges> cf;
	if(by_manager) {
		for(int i = 1; i < n; ++i) w.cm.add_colinear_edges(es[0], es[i]);
		check(w.cm.get_colinear_edges(axis).size() == 1, "no group on the perpendicular axis");
		cf = w.cm.get_colinear_edges(axis)[0];
	} else {
		cf = make_shared<ConflictColinearEdges>(axis, es[0], es[1], root());
		for(int i = 2; i < n; ++i) cf->append(es[i], h::coin() ? nullptr : Caretaker::singleton().make_next_timepoint());
	}
	// bystanders
	w.mm.add_meshline_policy({}, axis, Policy::HALFS, MN::NONE, 99, true, w.mm.next_timepoint());
	auto p0 = pols(w.mm);
	bool none = false, mn = false, mx = false;
	for(auto& e : l) if(e.mesh) {
		int s = side(e.n);
		if(s && e.rev) s = 3 - s;
		(s == 0 ? none : s == 1 ? mn : mx) = true;
	}
	if(by_manager) w.cm.auto_solve_all_colinear_edges(axis); else cf->auto_solve(w.mm);
	auto p1 = pols(w.mm);
	auto const& s = cf->get_current_state();
	check(s.edges == es, "the group's edges changed");
	if(!none && !mn && !mx) {
		check(p1.size() == p0.size(), "a policy was made although no edge is to be meshed");
		check(!s.is_solved && !s.solution && !s.meshline_policy, "a solution was recorded although no edge is to be meshed");
		return;
	}
	check(p1.size() == p0.size() + 1, "not exactly one policy was made");
	check(s.is_solved && s.meshline_policy && s.solution == (IConflictSolution*) s.meshline_policy, "the policy is not recorded as the group's solution");
	PolRef const* r = nullptr;
	for(auto& p : p1) if(p.ptr == s.meshline_policy) r = &p;
	check(r, "the recorded policy is not in the manager");
	for(auto& p : p0) check(p.ptr != r->ptr, "the recorded policy is not new");
	Policy ep = none ? Policy::ONELINE : mn && mx ? Policy::HALFS : Policy::THIRDS;
	MN en = ep != Policy::THIRDS ? MN::NONE : mn ? MN::MIN : MN::MAX;
	check(r->p == ep && r->n == en, "wrong kind or side of policy");
	check(r->axis == axis && near(r->c, c, 1e-12), "the policy is not at the edges' coordinate on the perpendicular axis");
	check(r->en, "the policy is not enabled");
	check(r->o == vector<IMeshLineOrigin*>{cf.get()}, "the policy's origin is not the group");
}
#endif

//============================================================================ M03
#ifdef P_M03
static void one() {
	auto rp = [] { int k = h::ri(0, 3); return std::pair{k == 0 ? Policy::ONELINE : k == 1 ? Policy::HALFS : Policy::THIRDS, k < 2 ? MN::NONE : k == 2 ? MN::MIN : MN::MAX}; };
	auto [pa, na] = rp();
	auto [pb, nb] = rp();
	int m = h::modev();
	double ca = h::coordv(m), cb = h::coin() ? ca + h::ri(-8, 8) / 8.0 : h::coordv(m);
	int ax = h::ri(0, 2);
	bool mgr = h::coin();
	h::begin((Desc() << "kinds " << (int) pa << "/" << (int) na << " " << (int) pb << "/" << (int) nb << " at " << ca << " " << cb << " axis " << ax << (mgr ? " registered" : "")).o.str());
	std::tuple<Policy, MN, double> got[2];
	for(int order = 0; order < 2; ++order) {
		World w;
		MLP* a = w.mm.add_meshline_policy({}, AX[ax], pa, na, ca, true, w.mm.next_timepoint());
		MLP* b = w.mm.add_meshline_policy({}, AX[ax], pb, nb, cb, true, w.mm.next_timepoint());
		MLP* o = w.mm.add_meshline_policy({}, AX[(ax + 1) % 3], pb, nb, ca, true, w.mm.next_timepoint());
		(void) o;
		shared_ptr<ConflictTooCloseMeshlinePolicies> cf;
		if(order) std::swap(a, b);
		if(mgr) { check(w.cm.add_too_close_meshline_policies(a, b), "a legitimate conflict was refused"); cf = w.cm.get_too_close_meshline_policies(AX[ax])[0]; }
		else cf = make_shared<ConflictTooCloseMeshlinePolicies>(AX[ax], a, b, root());
		auto p0 = pols(w.mm);
		cf->auto_solve(w.mm);
		auto p1 = pols(w.mm);
		check(p1.size() == p0.size() + 1, "not exactly one policy was made");
		auto const& s = cf->get_current_state();
		check(s.is_solved && s.meshline_policy && s.solution == (IConflictSolution*) s.meshline_policy, "the policy is not recorded as the solution");
		PolRef const* r = nullptr;
		for(auto& p : p1) if(p.ptr == s.meshline_policy) r = &p;
		check(r && r->ptr != a && r->ptr != b, "the recorded policy is not the new one");
		size_t i = 0;
		for(auto& p : p0) {
			while(i < p1.size() && p1[i].ptr == r->ptr) ++i;
			check(p1[i].ptr == p.ptr && p1[i].en == p.en && p1[i].p == p.p && p1[i].n == p.n, "another policy changed");
			++i;
		}
		check(r->en, "the policy is not enabled");
		check(r->axis == AX[ax], "the policy is on another axis");
		check(r->o == vector<IMeshLineOrigin*>{cf.get()}, "the policy's origin is not the conflict");
		got[order] = {r->p, r->n, r->c};
		Policy ep; MN en = MN::NONE; double ec = (ca + cb) / 2;
		bool oa = pa == Policy::ONELINE, ob = pb == Policy::ONELINE;
		if(oa || ob) { ep = Policy::ONELINE; if(!(oa && ob)) ec = oa ? ca : cb; }
		else if(pa == Policy::THIRDS && pb == Policy::THIRDS && na == nb) { ep = Policy::THIRDS; en = na; }
		else ep = Policy::HALFS;
		check(r->p == ep && r->n == en, "the kind or side is not the documented one");
		check(near(r->c, ec, 1e-12), "the coordinate is not the documented one");
		check(r->c >= std::min(ca, cb) && r->c <= std::max(ca, cb), "the coordinate does not lie between the original ones");
	}
	check(std::get<0>(got[0]) == std::get<0>(got[1]) && std::get<1>(got[0]) == std::get<1>(got[1]) && near(std::get<2>(got[0]), std::get<2>(got[1]), 1e-12), "the result depends on the order");
}
#endif

//============================================================================ M11
#ifdef P_M11
static void one() {
	bool board = h::coin(3);
	if(board) {
		vector<Poly> l;
		int pl = h::ri(0, 2), n = h::sz(1, 6);
		for(int i = 0; i < n; ++i) l.push_back(rand_poly(h::coin(4) ? h::ri(0, 2) : pl, h::coin()));
		h::begin("board " + str(l));
		World::Reset reset;
		auto b = build(l, mats(), nullptr);
		for(auto p : PL) b->detect_colinear_edges(p);
		// expected groups: per plane and orientation, the edges of equal coordinate
		size_t groups = 0;
		for(auto p : PL) {
			int k = p == YZ ? 0 : p == ZX ? 1 : 2;
			std::map<std::pair<bool, double>, std::set<Edge*>> g;
			for(auto* e : b->get_current_state().edges[p]) {
				bool H = v(e->p0().y) == v(e->p1().y), V = v(e->p0().x) == v(e->p1().x);
				if(H == V) { check(e->get_current_state().conflicts.empty(), "a diagonal edge was grouped"); continue; }
				g[{H, H ? v(e->p0().y) : v(e->p0().x)}].insert(e);
			}
			for(auto& [key, es] : g) {
				Axis ax = AX[key.first ? VA[k] : HA[k]];
				int hits = 0;
				for(auto& c : b->get_conflicts_colinear_edges(ax)) {
					auto const& ce = c->get_current_state().edges;
					if(std::any_of(ce.begin(), ce.end(), [&](Edge* e) { return es.contains(e); })) {
						++hits;
						check(ce.size() == es.size() && std::set<Edge*>(ce.begin(), ce.end()) == es, "a group does not hold exactly the colinear edges, once each");
						for(auto* e : ce) check(e->get_current_state().conflicts == vector<Conflict*>{c.get()}, "a grouped edge is not told about its group exactly once");
					}
				}
				check(hits == (es.size() > 1), "colinear edges are not in exactly one group of the perpendicular axis");
				groups += hits;
			}
		}
		size_t all = 0;
		for(auto a : AX) all += b->get_conflicts_colinear_edges(a).size();
		check(all == groups, "there are other groups");
		return;
	}
	int n = h::sz(2, 7), m = h::sz(1, 9);
	vector<Ed> l;
	int pl0 = h::ri(0, 2);
	bool ho = h::coin();
	vector<bool> diag;
	for(int i = 0; i < n; ++i) {
		l.push_back({h::coin(5) ? h::ri(0, 2) : pl0, h::coin(5) ? h::coin() : ho, (double) h::ri(0, 1), (double) i, i + 1.0, Normal::NONE, true, false});
		diag.push_back(h::coin(10));
	}
	vector<std::pair<int, int>> req;
	for(int i = 0; i < m; ++i) { int a = h::ri(0, n - 1), b = h::ri(0, n - 1); if(a != b) req.push_back({a, b}); }
	Desc d;
	for(int i = 0; i < n; ++i) d << (diag[i] ? "diagonal" : "") << str(l[i]);
	for(auto& [a, b] : req) d << "(" << a << "," << b << ")";
	h::begin(d.o.str());
	World w;
	vector<Edge*> es;
	for(int i = 0; i < n; ++i) es.push_back(diag[i] ? w.edge(l[i].pl, 0, 0, 1 + i, 1) : put(w, l[i]));
	std::map<Edge*, int> id;
	for(int i = 0; i < n; ++i) id[es[i]] = i;
	// reference groups
	vector<vector<int>> g[3];
	vector<vector<std::pair<int, int>>> told(n); // (axis, group)
	auto prior = [&] { vector<EdgeState> r; for(auto* e : es) r.push_back(e->get_current_state()); return r; };
	for(auto& [i, j] : req) {
		auto s0 = prior();
		w.cm.add_colinear_edges(es[i], es[j]);
		if(l[i].pl == l[j].pl && !diag[i] && !diag[j] && l[i].horiz == l[j].horiz) {
			int ax = l[i].horiz ? VA[l[i].pl] : HA[l[i].pl];
			bool done = false;
			for(size_t k = 0; k < g[ax].size() && !done; ++k) {
				auto& q = g[ax][k];
				bool a = std::count(q.begin(), q.end(), i), b = std::count(q.begin(), q.end(), j);
				if(a || b) {
					done = true;
					if(a && b) continue;
					int x = a ? j : i;
					q.push_back(x);
					told[x].push_back({ax, (int) k});
				}
			}
			if(!done) { g[ax].push_back({i, j}); for(int x : {i, j}) told[x].push_back({ax, (int) g[ax].size() - 1}); }
		}
		for(int a = 0; a < 3; ++a) {
			auto& cs = w.cm.get_colinear_edges(AX[a]);
			check(cs.size() == g[a].size(), "wrong number of groups on an axis");
			for(size_t k = 0; k < cs.size(); ++k) {
				vector<int> ids;
				for(auto* e : cs[k]->get_current_state().edges) ids.push_back(id.at(e));
				check(ids == g[a][k], "a group does not hold the expected edges");
				check(cs[k]->axis == AX[a] && !cs[k]->get_current_state().is_solved && !cs[k]->get_current_state().solution, "a group is on another axis or already solved");
			}
		}
		for(int x = 0; x < n; ++x) {
			vector<Conflict*> e;
			for(auto& [a, k] : told[x]) e.push_back(w.cm.get_colinear_edges(AX[a])[k].get());
			auto const& s = es[x]->get_current_state();
			check(s.conflicts == e, "an edge is not told about exactly its groups");
			check(s.to_mesh == s0[x].to_mesh && s.to_reverse == s0[x].to_reverse && s.conflict == s0[x].conflict && s.meshline_policy == s0[x].meshline_policy, "something else about an edge changed");
		}
	}
}
#endif

//============================================================================ M12
#ifdef P_M12
static void one() {
	if(h::coin(3)) {
		vector<Poly> l;
		int pl = h::ri(0, 2), n = h::sz(2, 5);
		for(int i = 0; i < n; ++i) l.push_back(rand_poly(pl, h::coin()));
		bool twice = h::coin(3);
		h::begin("board " + str(l) + (twice ? " twice" : ""));
		World::Reset reset;
		auto b = build(l, mats(), nullptr);
		vector<std::pair<Edge*, vector<Overlap>>> prev;
		for(int r = 0; r <= twice; ++r) {
			b->detect_edges_in_polygons(PL[pl]);
			std::set<Edge*> seen;
			vector<std::pair<Edge*, vector<Overlap>>> now;
			for(auto& c : b->get_conflicts_edge_in_polygons(PL[pl])) {
				check(seen.insert(c->edge).second, "an edge has two conflicts");
				check(std::count(c->edge->get_current_state().conflicts.begin(), c->edge->get_current_state().conflicts.end(), c.get()) == 1, "an edge is not linked to its conflict exactly once");
				auto const& ov = c->get_current_state().overlaps;
				for(size_t i = 0; i < ov.size(); ++i) {
					for(size_t j = 0; j < i; ++j)
						check(!(std::get<POLYGON>(ov[i]) == std::get<POLYGON>(ov[j]) && std::get<RANGE>(ov[i]) == std::get<RANGE>(ov[j]) && std::get<EDGE>(ov[i]) == std::get<EDGE>(ov[j])), "an overlap is registered twice");
					auto const& pc = std::get<POLYGON>(ov[i])->get_current_state().conflicts;
					check(std::count(pc.begin(), pc.end(), c.get()) == 1, "a polygon is not linked to a conflict it appears in exactly once");
				}
				now.push_back({c->edge, ov});
			}
			if(r) {
				check(now.size() == prev.size(), "detecting again created conflicts");
				for(size_t i = 0; i < now.size(); ++i) check(now[i].first == prev[i].first && now[i].second.size() == prev[i].second.size(), "detecting again changed the conflicts");
			}
			prev = now;
		}
		return;
	}
	int pl = h::ri(0, 2), ne = h::ri(1, 4), np = h::ri(1, 3), m = h::ri(1, 10);
	struct Req { int e, p; int a, b; int other; bool whole; };
	vector<Req> req;
	vector<double> c;
	for(int i = 0; i < ne; ++i) c.push_back(h::ri(0, 3));
	for(int i = 0; i < m; ++i) {
		int a = h::ri(0, 3), b = h::ri(0, 3);
		if(a == b) b = a + 1;
		req.push_back({h::ri(0, ne - 1), h::ri(0, np - 1), a, b, h::ri(-2, 1), h::coin(4)});
		if(i && h::coin(4)) { req.back() = req[h::rnd() % i]; if(h::coin()) std::swap(req.back().a, req.back().b); }
	}
	Desc d;
	d << "plane " << pln[pl] << " edges " << ne << " polygons " << np << ":";
	for(auto& r : req) d << " (edge " << r.e << " polygon " << r.p << (r.whole ? " whole" : "") << " span " << r.a << ".." << r.b << " facing " << (r.other < 0 ? -1 : r.other) << ")";
	h::begin(d.o.str());
	World w;
	vector<Edge*> es, fs;
	for(int i = 0; i < ne; ++i) es.push_back(w.edge(pl, 0, i, 8, i));
	for(int i = 0; i < 2; ++i) fs.push_back(w.edge(pl, 0, 9 + i, 8, 9 + i));
	vector<shared_ptr<Polygon>> ps;
	for(int i = 0; i < np; ++i) {
		vector<unique_ptr<Point const>> q;
		for(auto [x, y] : {std::pair{0., 0.}, {9., 0.}, {9., 9.}, {0., 9.}}) q.push_back(make_unique<Point const>(x, y));
		ps.push_back(make_shared<Polygon>(PL[pl], nullptr, "p", 1, Polygon::RangeZ{0, 1}, std::move(q), root()));
	}
	struct Ov { int p; double lo, hi; int f; bool operator==(Ov const&) const = default; };
	struct Cf { int e; vector<Ov> o; };
	vector<Cf> ref;
	vector<vector<int>> ptold(np), etold(ne);
	for(auto& r : req) {
		double y = r.e;
		optional<Edge const*> b;
		int f = r.other < 0 ? -1 : r.other;
		if(f >= 0) b = fs[f];
		Ov o{r.p, r.whole ? 0. : std::min(r.a, r.b), r.whole ? 8. : std::max(r.a, r.b), f};
		if(r.whole) w.cm.add_edge_in_polygon(es[r.e], ps[r.p].get(), b);
		else w.cm.add_edge_in_polygon(es[r.e], ps[r.p].get(), Range({(double) r.a, y}, {(double) r.b, y}), b);
		size_t k = 0;
		while(k < ref.size() && ref[k].e != r.e) ++k;
		if(k == ref.size()) { ref.push_back({r.e, {o}}); etold[r.e].push_back(k); ptold[r.p].push_back(k); }
		else {
			bool there = false, poly = false;
			// a span registered without a facing edge stands for the same span with any
			for(auto& x : ref[k].o) { poly = poly || x.p == o.p; there = there || x == o || (x.p == o.p && x.lo == o.lo && x.hi == o.hi && x.f < 0); }
			if(!there) { ref[k].o.push_back(o); if(!poly) ptold[r.p].push_back(k); }
		}
		auto& cs = w.cm.get_edge_in_polygons(PL[pl]);
		check(cs.size() == ref.size(), "wrong number of conflicts");
		for(auto q : PL) if(q != PL[pl]) check(w.cm.get_edge_in_polygons(q).empty(), "a conflict on another plane");
		for(size_t i = 0; i < cs.size(); ++i) {
			check(cs[i]->edge == es[ref[i].e] && cs[i]->plane == PL[pl], "a conflict is not about the expected edge and plane");
			auto const& ov = cs[i]->get_current_state().overlaps;
			check(ov.size() == ref[i].o.size(), "wrong number of overlaps of an edge");
			for(size_t j = 0; j < ov.size(); ++j) {
				auto& x = ref[i].o[j];
				auto const& rg = std::get<RANGE>(ov[j]);
				double lo = std::min(v(rg.p0().x), v(rg.p1().x)), hi = std::max(v(rg.p0().x), v(rg.p1().x));
				check(std::get<POLYGON>(ov[j]) == ps[x.p].get() && lo == x.lo && hi == x.hi && v(rg.p0().y) == ref[i].e, "an overlap's polygon or span is wrong");
				check(x.f < 0 ? !std::get<EDGE>(ov[j]).has_value() : std::get<EDGE>(ov[j]) == optional<Edge const*>(fs[x.f]), "an overlap's facing edge is wrong");
			}
			check(!cs[i]->get_current_state().is_solved && !cs[i]->get_current_state().solution, "a conflict is already solved");
		}
		for(int i = 0; i < ne; ++i) {
			vector<Conflict*> e;
			for(int k : etold[i]) e.push_back(cs[k].get());
			auto const& s = es[i]->get_current_state();
			check(s.conflicts == e && s.to_mesh && !s.to_reverse, "an edge is not linked to exactly its conflict");
		}
		for(int i = 0; i < np; ++i) {
			vector<Conflict*> e;
			for(int k : ptold[i]) e.push_back(cs[k].get());
			check(ps[i]->get_current_state().conflicts == e, "a polygon is not linked to exactly the conflicts it appears in, once each");
		}
	}
}
#endif

//============================================================================ M13
#ifdef P_M13
static void one() {
	vector<Poly> l;
	int pl = h::ri(0, 2), n = h::sz(1, 6);
	for(int i = 0; i < n; ++i) {
		l.push_back(rand_poly(h::coin(8) ? h::ri(0, 2) : pl, h::coin(), true));
		if(i && h::coin(3)) { // touching neighbours
			auto& p = l.back().p; auto& q = l[h::rnd() % i].p;
			double dx = q[0].first - p[2 % p.size()].first, dy = h::coin() ? q[0].second - p[0].second : 0;
			for(auto& [x, y] : p) { x += dx; y += dy; }
		}
	}
	int bg = h::ri(0, 4);
	vector<int> pre;
	h::begin(str(l) + " background " + std::to_string(bg));
	World::Reset reset;
	auto m = mats();
	auto b = build(l, m, bg < 4 ? m[bg] : nullptr);
	std::map<Edge*, std::pair<bool, bool>> before;
	auto const& ps = b->get_polygons(PL[pl]);
	for(auto& p : ps) for(auto& e : p->edges) {
		if(h::coin(8)) { auto s = e->get_current_state(); s.to_reverse = h::coin(); s.to_mesh = h::coin(); e->set_next_state(s); }
		before[e.get()] = {e->get_current_state().to_mesh, e->get_current_state().to_reverse};
	}
	b->adjust_edges_to_materials(PL[pl]);
	auto rank = [&](shared_ptr<Material> const& x) { for(int i = 0; i < 4; ++i) if(m[i] == x) return i; return 9; }; // lower is stronger
	for(auto& p : ps) for(auto& e : p->edges) {
		double ex0 = std::min(v(e->p0().x), v(e->p1().x)), ex1 = std::max(v(e->p0().x), v(e->p1().x)), ey0 = std::min(v(e->p0().y), v(e->p1().y)), ey1 = std::max(v(e->p0().y), v(e->p1().y));
		bool rev = false;
		if(e->normal != Normal::NONE) {
			bool found = false; size_t bp = 0; int br = 9;
			for(auto& q : ps) if(q != p && q->material) {
				if(std::max(v(q->z_placement.min), v(p->z_placement.min)) > std::min(v(q->z_placement.max), v(p->z_placement.max))) continue;
				double qx0 = 1e9, qx1 = -1e9, qy0 = 1e9, qy1 = -1e9;
				for(auto& t : q->points) { qx0 = std::min(qx0, v(t->x)); qx1 = std::max(qx1, v(t->x)); qy0 = std::min(qy0, v(t->y)); qy1 = std::max(qy1, v(t->y)); }
				bool in = false; // reaches strictly beyond the edge on its outer side
				switch(e->normal) {
				case Normal::XMIN: in = qx0 < ex0 && qx1 >= ex0 && qy0 <= ey1 && qy1 >= ey0; break;
				case Normal::XMAX: in = qx1 > ex0 && qx0 <= ex0 && qy0 <= ey1 && qy1 >= ey0; break;
				case Normal::YMIN: in = qy0 < ey0 && qy1 >= ey0 && qx0 <= ex1 && qx1 >= ex0; break;
				default: in = qy1 > ey0 && qy0 <= ey0 && qx0 <= ex1 && qx1 >= ex0; break;
				}
				if(!in) continue;
				int r = rank(q->material);
				if(!found || q->priority > bp || (q->priority == bp && r < br)) { found = true; bp = q->priority; br = r; }
			}
			if(!found && bg < 4) { found = true; br = bg; }
			rev = found && br < rank(p->material);
		}
		auto const& s = e->get_current_state();
		check(s.to_mesh == before[e.get()].first, "whether an edge is meshed changed");
		check(s.to_reverse == (rev || before[e.get()].second), rev ? "an edge facing stronger material is not flagged" : "an edge is flagged although the outside material is not stronger");
	}
	// other planes untouched
	for(auto q : PL) if(q != PL[pl]) for(auto* e : b->get_current_state().edges[q]) check(!e->get_current_state().to_reverse, "an edge of another plane was flagged");
}
#endif

//============================================================================ M14
#ifdef P_M14
static void one() {
	vector<Poly> l;
	int pl = h::ri(0, 2), n = h::sz(1, 4);
	for(int i = 0; i < n; ++i) l.push_back(rand_poly(h::coin(8) ? h::ri(0, 2) : pl, h::coin()));
	if(h::coin(6)) { Poly p = rand_poly(pl, true); p.p = {{1, 1}, {5, 1}, {3, 1}}; l.push_back(p); } // flat: edges without normal
	bool col = h::coin(), ang = h::coin(), eip = h::coin(4), rndflags = !h::coin(4), shuffle = h::coin(3);
	std::uint64_t sub = h::rnd();
	h::begin(str(l) + (col ? " grouped" : "") + (ang ? " angles" : "") + (eip ? " hidden" : "") + (shuffle ? " mixed" : "") + (rndflags || shuffle ? " flags " + std::to_string(sub) : ""));
	World::Reset reset;
	auto m = mats();
	auto b = build(l, m, nullptr);
	if(col) b->detect_colinear_edges(PL[pl]);
	if(eip) b->detect_edges_in_polygons(PL[pl]);
	if(ang) b->detect_diagonal_angles(PL[pl]);
	std::uint64_t keep = h::S;
	h::S = sub;
	if(rndflags) {
		for(auto* e : b->get_current_state().edges[PL[pl]]) { auto s = e->get_current_state(); s.to_mesh = !h::coin(4); s.to_reverse = h::coin(3); e->set_next_state(s); }
		for(auto& a : b->get_angles(PL[pl])) {
			auto s = a->get_current_state();
			s.to_mesh[H] = h::coin();
			s.to_mesh[V] = h::coin();
			a->set_next_state(s);
		}
	}
	if(shuffle) {		// conflicts of any kind on edges and angles, in any order
		vector<Conflict*> all = {nullptr};
		for(auto* e : b->get_current_state().edges[PL[pl]]) for(auto* c : e->get_current_state().conflicts) all.push_back(c);
		auto const mix = [&](auto const& o) {
			auto s = o->get_current_state();
			for(int k = h::ri(0, 3); k--;) s.conflicts.insert(s.conflicts.begin() + h::ri(0, (int) s.conflicts.size()), all[h::ri(0, (int) all.size() - 1)]);
			o->set_next_state(s);
		};
		for(auto* e : b->get_current_state().edges[PL[pl]]) if(h::coin(3)) mix(e);
		for(auto& x : b->get_angles(PL[pl])) if(h::coin()) mix(x);
	}
	h::S = keep;
	auto& mm = *b->line_policy_manager;
	auto p0 = pols(mm);
	using Row = std::tuple<int, int, int, double, bool, IMeshLineOrigin*>;
	std::multiset<Row> want, got;
	std::map<Edge*, std::pair<bool, bool>> fl;
	for(auto* e : b->get_current_state().edges[PL[pl]]) {
		auto const& s = e->get_current_state();
		fl[e] = {s.to_mesh, s.to_reverse};
		bool Hz = v(e->p0().y) == v(e->p1().y), Vt = v(e->p0().x) == v(e->p1().x);
		if(Hz == Vt || !s.to_mesh || !side(e->normal)) continue;
		if(std::any_of(s.conflicts.begin(), s.conflicts.end(), [](Conflict* c) { return c && dynamic_cast<ConflictColinearEdges*>(c); })) continue;
		int sd = side(e->normal);
		if(s.to_reverse) sd = 3 - sd;
		want.insert({Hz ? VA[pl] : HA[pl], (int) Policy::THIRDS, (int) (sd == 1 ? MN::MIN : MN::MAX), Hz ? v(e->p0().y) : v(e->p0().x), true, e});
	}
	for(auto& a : b->get_angles(PL[pl])) {
		auto const& s = a->get_current_state();
		if(std::any_of(s.conflicts.begin(), s.conflicts.end(), [](Conflict* c) { return c && dynamic_cast<ConflictColinearEdges*>(c); })) continue;
		want.insert({HA[pl], (int) Policy::HALFS, (int) MN::NONE, v(a->p.x), s.to_mesh[H], a.get()});
		want.insert({VA[pl], (int) Policy::HALFS, (int) MN::NONE, v(a->p.y), s.to_mesh[V], a.get()});
	}
	b->detect_individual_edges(PL[pl]);
	auto p1 = pols(mm);
	std::map<IMeshLineOrigin*, vector<MLP const*>> of;
	for(auto& p : p1) {
		bool old = false;
		for(auto& q : p0) old = old || q.ptr == p.ptr;
		if(old) continue;
		check(p.o.size() == 1, "a policy does not have exactly one origin");
		got.insert({p.axis == X ? 0 : p.axis == Y ? 1 : 2, (int) p.p, (int) p.n, p.c, p.en, p.o[0]});
		of[p.o[0]].push_back(p.ptr);
	}
	check(p1.size() == p0.size() + got.size(), "previous policies are gone");
	for(auto& r : want) check(got.count(r) == want.count(r), "an edge or angle to be meshed does not yield its policy");
	check(got.size() == want.size(), "a policy was made for an edge that should yield none");
	for(auto* e : b->get_current_state().edges[PL[pl]]) {
		auto const& s = e->get_current_state();
		check(std::pair(s.to_mesh, s.to_reverse) == fl[e], "an edge's flags changed");
		if(of.contains(e)) check(s.meshline_policy == of[e][0], "an edge does not refer to its policy");
	}
}
#endif

//============================================================================ M15
#ifdef P_M15
static void one() {
	int pl = h::ri(0, 2), n = h::sz(1, 7), other = h::ri(0, 2);
	bool onH = h::coin();
	Params prm;
	prm.consecutive_diagonal_minimal_angle = h::coin() ? 20 : h::coin() ? 90 : h::ri(1, 170);
	prm.diagonal_dmax = h::ri(1, 16) / 8.0;
	prm.dmax = h::ri(4, 24) / 8.0;
	vector<std::array<double, 6>> a;
	Desc d;
	d << "plane " << pln[pl] << (onH ? " along H" : " along V") << " min angle " << prm.consecutive_diagonal_minimal_angle << " dmax " << prm.diagonal_dmax << " of " << prm.dmax << ":";
	std::set<double> used;
	for(int i = 0; i < n + other; ++i) {
		double c = h::ri(-9, 9);
		while(used.contains(c)) c += 0.5;
		used.insert(c);
		double t0 = h::ri(0, 35) * 10, t1 = h::coin() ? t0 + h::ri(0, 18) * 10 : h::ri(0, 359);
		if(h::coin(4)) t1 = t0 + (h::coin() ? 1 : -1) * prm.consecutive_diagonal_minimal_angle;
		a.push_back({c, (double) h::ri(-3, 3), t0, t1, h::coin() * 1., h::coin() * 1.});
		d << " (" << c << "," << a.back()[1] << " dir " << t0 << " " << t1 << " was " << a.back()[4] << a.back()[5] << ")";
	}
	bool mgr = h::coin();
	int sharp = h::coin(3) ? h::ri(0, n - 1) : -1;      // the minimal angle is exactly that of this one
	if(sharp >= 0) d << " min angle that of " << sharp;
	int np = h::ri(0, 6);
	d << (mgr ? " registered" : "") << " intervals " << np;
	vector<double> pc;
	{ double x = h::ri(-12, -4); for(int i = 0; i < np; ++i) { pc.push_back(x); x += h::ri(1, 10) / 2.0; } }
	for(double x : pc) d << " " << x;
	h::begin(d.o.str());
	World w(prm);
	vector<shared_ptr<Angle>> as;
	Axis ax = AX[onH ? HA[pl] : VA[pl]];
	for(auto& q : a) {
		double r = std::numbers::pi / 180;
		Edge* e0 = w.edge(pl, 0, 0, std::cos(q[2] * r), std::sin(q[2] * r));
		Edge* e1 = w.edge(pl, 0, 0, std::cos(q[3] * r), std::sin(q[3] * r));
		as.push_back(make_shared<Angle>(onH ? Point(q[0], q[1]) : Point(q[1], q[0]), e0, e1, root()));
		auto s = as.back()->get_current_state();
		s.to_mesh[H] = q[4];
		s.to_mesh[V] = q[5];
		as.back()->set_next_state(s);
	}
	if(sharp >= 0) {
		auto g = w.gp.get_current_state();
		prm.consecutive_diagonal_minimal_angle = g.consecutive_diagonal_minimal_angle = v(as[sharp]->angle);
		w.gp.set_next_state(g);
	}
	vector<Angle*> in;
	for(int i = 0; i < n; ++i) in.push_back(as[i].get());
	auto co = [&](Angle* x) { return v(onH ? x->p.x : x->p.y); };
	auto sorted = in;
	std::sort(sorted.begin(), sorted.end(), [&](auto* x, auto* y) { return co(x) < co(y); });
	shared_ptr<ConflictDiagonalOrCircularZone> z;
	if(mgr) {
		w.cm.add_diagonal_or_circular_zone(ax, in, &w.gp);
		for(auto q : AX) check(w.cm.get_diagonal_or_circular_zones(q).size() == (q == ax), "not exactly one zone was registered on the axis");
		z = w.cm.get_diagonal_or_circular_zones(ax)[0];
		check(z->get_current_state().angles == sorted, "the zone does not hold its angles in order");
	} else z = make_shared<ConflictDiagonalOrCircularZone>(ax, sorted, &w.gp, root());
	auto bd = z->bounding();
	check(v(bd[0]) == co(sorted.front()) && v(bd[1]) == co(sorted.back()), "the zone does not extend from its first to its last angle");
	// intervals attached by the manager: those whose middle lies in the extent
	for(double x : pc) w.mm.add_meshline_policy({}, ax, Policy::HALFS, MN::NONE, x, true, w.mm.next_timepoint());
	w.mm.detect_intervals(ax);
	vector<Interval*> attached;
	auto const& its = w.mm.get_intervals(ax);
	if(mgr) w.mm.detect_intervals_per_diagonal_zones(ax);
	for(auto& i : its) {
		double mid = v(i->m);
		bool inside = co(sorted.front()) <= mid && mid <= co(sorted.back());
		if(mgr ? inside : h::coin()) attached.push_back(i.get());
	}
	if(!mgr) z->append(attached, w.mm.next_timepoint());
	{
		auto zi = z->get_current_state().intervals;
		check(zi == attached, "the zone is not attached to exactly the intervals whose middle lies in it");
		if(mgr) for(auto& i : its) {
			bool at = std::count(attached.begin(), attached.end(), i.get());
			check(i->get_current_state().conflicts == (at ? vector<Conflict*>{z.get()} : vector<Conflict*>{}), "an interval is not linked to exactly the zone it lies in");
		}
	}
	std::map<Interval*, double> d0;
	for(auto& i : its) d0[i.get()] = i->get_current_state().dmax;
	if(mgr) w.cm.auto_solve_all_diagonal_angles(ax); else z->solve_angles();
	auto ang = [](std::array<double, 6> const& q) { double x = std::fabs(q[2] - q[3]); x = std::fmod(x, 360); return x > 180 ? 360 - x : x; };
	for(size_t i = 0; i < as.size(); ++i) {
		auto const& s = as[i]->get_current_state();
		bool a0 = onH ? s.to_mesh[H] : s.to_mesh[V], a1 = onH ? s.to_mesh[V] : s.to_mesh[H];
		bool w0 = onH ? a[i][4] : a[i][5], w1 = onH ? a[i][5] : a[i][4];
		check(a1 == w1, "meshing along the other axis changed");
		if((int) i >= n) { check(a0 == w0, "an angle outside the zone changed"); continue; }
		if(as[i].get() == sorted.front() || as[i].get() == sorted.back()) check(a0, "the first or last angle is not meshed");
		else {
			double g = ang(a[i]);
			if(std::fabs(g - prm.consecutive_diagonal_minimal_angle) > 1e-6) check(a0 == (g > prm.consecutive_diagonal_minimal_angle), "an inner angle is not meshed exactly when sharp enough");
			else check(a0 == (v(as[i]->angle) >= prm.consecutive_diagonal_minimal_angle), "an inner angle of about the minimal angle is not meshed exactly when sharp enough");
		}
	}
	for(auto& i : its) check(i->get_current_state().dmax == d0[i.get()], "solving the angles changed an interval");
	if(mgr) w.cm.auto_solve_all_diagonal_zones(ax); else z->solve_intervals();
	for(auto& i : its) {
		auto const& s = i->get_current_state();
		bool at = std::count(attached.begin(), attached.end(), i.get());
		check(s.dmax == (at ? prm.diagonal_dmax : d0[i.get()]), at ? "an attached interval does not have the diagonal spacing" : "the spacing of an interval outside the zone changed");
	}
}
#endif

//============================================================================ M16
#ifdef P_M16
static void one() {
	struct Sp { int a, b; int face; }; // face: 0 no edge, 1 same facing, 2 opposite, 3 no normal
	if(h::coin(4)) {
		// through the board: an edge covered by rectangles of higher priority
		int pl = h::ri(0, 2);
		bool horiz = h::coin();
		int L = 12, n = h::sz(1, 6);
		vector<Poly> l;
		auto rect = [&](double a0, double b0, double a1, double b1, size_t prio) {
			Poly r; r.pl = pl;
			if(horiz) r.p = {{a0, b0}, {a1, b0}, {a1, b1}, {a0, b1}}; else r.p = {{b0, a0}, {b1, a0}, {b1, a1}, {b0, a1}};
			if(h::coin()) std::reverse(r.p.begin(), r.p.end());
			std::rotate(r.p.begin(), r.p.begin() + h::ri(0, 3), r.p.end());
			r.prio = prio; r.mat = h::ri(0, 3); r.z0 = 0; r.z1 = 1;
			return r;
		};
		l.push_back(rect(0, 0, L, 4, 1)); // the edge at 4, facing up
		struct Iv { int a, b, k; };
		vector<Iv> iv;
		for(int i = 0; i < n; ++i) {
			int a = h::ri(0, L - 1), b = h::ri(a + 1, L), k = h::ri(0, 2);
			iv.push_back({a, b, k});
			// 0: covers the edge from both sides; 1: opposite edge on it; 2: same edge on it
			if(k == 0) l.push_back(rect(a, 2, b, 6, 2)); else if(k == 1) l.push_back(rect(a, 4, b, 7, 2)); else l.push_back(rect(a, 1, b, 4, 2));
		}
		bool early = h::coin(3) && iv[0].k == 0;
		h::begin("board " + str(l) + (early ? " the first one solved before the others are found" : ""));
		World::Reset reset;
		auto b = build(l, mats(), nullptr);
		Edge* e = nullptr;
		for(auto& x : b->get_polygons(PL[pl])[0]->edges) {
			double c0 = v(horiz ? x->p0().y : x->p0().x), c1 = v(horiz ? x->p1().y : x->p1().x);
			if(c0 == 4 && c1 == 4) e = x.get();
		}
		if(early) {
			Point p0(horiz ? iv[0].a : 4, horiz ? 4 : iv[0].a), p1(horiz ? iv[0].b : 4, horiz ? 4 : iv[0].b);
			b->conflict_manager->add_edge_in_polygon(e, b->get_polygons(PL[pl])[1].get(), Range(p0, p1));
			b->auto_solve_all_edge_in_polygon();
		}
		b->detect_edges_in_polygons(PL[pl]);
		b->auto_solve_all_edge_in_polygon();
		bool fwd = v(horiz ? e->vec.x : e->vec.y) > 0;
		// spans in order along the edge
		auto key = [&](Iv const& x) { return fwd ? x.a : -x.b; };
		std::sort(iv.begin(), iv.end(), [&](Iv const& x, Iv const& y) { return key(x) < key(y); });
		bool covered = false, ambiguous = false;
		int pos = 0;
		for(size_t i = 0; i < iv.size(); ++i) for(size_t j = 0; j < i; ++j) if(key(iv[i]) == key(iv[j]) && (iv[i].k == 2) != (iv[j].k == 2)) ambiguous = true;
		if(ambiguous) return;
		for(auto& x : iv) {
			if(x.k == 2) break;
			int s = fwd ? x.a : L - x.b, f = fwd ? x.b : L - x.a;
			if(s > pos) break;
			pos = std::max(pos, f);
		}
		covered = pos >= L;
		check(e->get_current_state().to_mesh == !covered, covered ? "an edge whose whole length is covered is still meshed" : "an edge that is not covered was dropped");
		return;
	}
	int pl = h::ri(0, 2), dir = h::ri(0, 7), n = h::sz(1, 6), L = 8;
	int dx[8] = {1, 0, -1, 0, 1, -1, -1, 1}, dy[8] = {0, 1, 0, -1, 1, 1, -1, -1};
	double ox = h::ri(-3, 3), oy = h::ri(-3, 3);
	vector<Sp> l;
	bool tile = h::coin();
	int pos = 0;
	for(int i = 0; i < n; ++i) {
		Sp s;
		if(tile) { s.a = std::max(0, pos - h::ri(0, 2) + h::coin(12)); s.b = i + 1 == n && !h::coin(5) ? L : std::min(L, s.a + h::ri(1, 4)); pos = std::max(pos, s.b); }
		else { s.a = h::ri(0, L - 1); s.b = h::ri(s.a + 1, L); }
		if(s.a >= s.b) { s.a = 0; s.b = 1; }
		int k = h::ri(0, 9);
		s.face = k < 5 ? 0 : k < 7 ? 2 : k == 7 ? 3 : tile && !h::coin(3) ? 2 : 1;
		l.push_back(s);
	}
	for(size_t i = l.size(); i > 1; --i) std::swap(l[i - 1], l[h::rnd() % i]);
	for(size_t i = 0; i < l.size(); ++i) for(size_t j = 0; j < i; ++j) if(l[i].a == l[j].a && (l[i].face == 1) != (l[j].face == 1)) l[i].face = l[j].face;
	bool orient = h::coin();
	vector<bool> fl;
	Desc d;
	d << "edge from (" << ox << "," << oy << ") direction (" << dx[dir] << "," << dy[dir] << ") length " << L << " spans";
	for(auto& s : l) { fl.push_back(orient && h::coin()); d << " [" << (fl.back() ? s.b : s.a) << "," << (fl.back() ? s.a : s.b) << (s.face == 1 ? " same" : s.face == 2 ? " opposite" : s.face == 3 ? " no normal" : "") << "]"; }
	h::begin(d.o.str());
	World w;
	auto at = [&](int k) { return Point(ox + k * dx[dir], oy + k * dy[dir]); };
	Edge* e = w.edge(pl, ox, oy, ox + L * dx[dir], oy + L * dy[dir]);
	bool horiz = dy[dir] == 0, vert = dx[dir] == 0;
	Normal en = horiz ? (h::coin() ? Normal::YMIN : Normal::YMAX) : vert ? (h::coin() ? Normal::XMIN : Normal::XMAX) : Normal::NONE;
	e->normal = en;
	Edge* f[4] = {nullptr, w.edge(pl, 0, 0, 1, 0), w.edge(pl, 0, 0, 1, 0), w.edge(pl, 0, 0, 1, 0)};
	f[1]->normal = en;
	f[2]->normal = en == Normal::XMIN ? Normal::XMAX : en == Normal::XMAX ? Normal::XMIN : en == Normal::YMIN ? Normal::YMAX : en == Normal::YMAX ? Normal::YMIN : Normal::XMAX;
	f[3]->normal = Normal::NONE;
	if(en == Normal::NONE) for(auto& s : l) if(s.face == 3) s.face = 1; // a facing edge without normal then faces the same way
	for(size_t i = 0; i < l.size(); ++i) for(size_t j = 0; j < l.size(); ++j) if(l[i].a == l[j].a && (l[i].face == 1) != (l[j].face == 1)) return;
	auto other = [&](Sp const& s) { return s.face ? optional<Edge const*>(f[s.face]) : std::nullopt; };
	auto rg = [&](size_t i) { return fl[i] ? Range(at(l[i].b), at(l[i].a)) : Range(at(l[i].a), at(l[i].b)); };
	auto c = make_shared<ConflictEdgeInPolygon>(PL[pl], e, nullptr, rg(0), other(l[0]), root());
	size_t early = h::coin(4) ? h::rnd() % l.size() : 0; // solved once before so many of the spans are known
	for(size_t i = 1; i < l.size(); ++i) { if(i == early) c->auto_solve(w.mm); c->append(nullptr, rg(i), other(l[i])); }
	if(h::coin(4)) w.flags(e, h::coin(), h::coin());
	auto s0 = e->get_current_state();
	c->auto_solve(w.mm);
	auto o = l;
	std::stable_sort(o.begin(), o.end(), [](Sp const& x, Sp const& y) { return x.a < y.a; });
	int reach = 0;
	for(auto& s : o) { if(s.face == 1 || s.a > reach) break; reach = std::max(reach, s.b); }
	bool covered = reach >= L;
	auto const& se = e->get_current_state();
	auto const& sc = c->get_current_state();
	check(se.to_mesh == !covered, covered ? "an edge whose whole length is covered is still meshed" : "an edge that is not covered was dropped");
	check(se.to_reverse == s0.to_reverse && se.conflicts == s0.conflicts && se.meshline_policy == s0.meshline_policy, "something else about the edge changed");
	check(se.conflict == c.get(), "the edge does not refer back to the conflict");
	check(sc.is_solved && sc.solution == (IConflictSolution*) e, "the conflict is not marked solved with the edge as its solution");
	check(sc.overlaps.size() == l.size(), "overlaps were lost");
}
#endif

//============================================================================ M17
#ifdef P_M17
static void one() {
	int nf = h::ri(0, 6);
	vector<std::pair<int, double>> fx;
	int ax = h::ri(0, 2);
	for(int i = 0; i < nf; ++i) {
		double c = h::coordv(h::coin() ? 0 : h::modeq());
		if(i && h::coin(4)) c = fx[h::rnd() % i].second + (h::coin() ? 5e-9 : 0);
		fx.push_back({h::coin(3) ? h::ri(0, 2) : ax, c});
	}
	struct Pre { int a; Policy p; MN n; double c; };
	vector<Pre> pre;
	int np = h::ri(0, 4);
	for(int i = 0; i < np; ++i) {
		Policy p = h::coin() ? Policy::ONELINE : h::coin() ? Policy::HALFS : Policy::THIRDS;
		pre.push_back({h::coin(3) ? h::ri(0, 2) : ax, p, p == Policy::THIRDS ? MN::MIN : MN::NONE, !fx.empty() && h::coin() ? fx[h::rnd() % fx.size()].second : (double) h::ri(-3, 3)});
	}
	Desc d;
	d << "fixed";
	for(auto& [a, c] : fx) d << " " << "XYZ"[a] << "@" << c;
	d << " with";
	for(auto& p : pre) d << " " << "XYZ"[p.a] << (p.p == Policy::ONELINE ? " single" : p.p == Policy::HALFS ? " halfs" : " thirds") << "@" << p.c;
	h::begin(d.o.str());
	World::Reset reset;
	auto b = build({}, mats(), nullptr, {}, fx);
	auto& mm = *b->line_policy_manager;
	for(auto& p : pre) mm.add_meshline_policy({}, AX[p.a], p.p, p.n, p.c, true, mm.next_timepoint());
	auto p0 = pols(mm);
	auto* t0 = Caretaker::singleton().make_next_timepoint();
	Caretaker::singleton().pin_current_timepoint();
	b->add_fixed_meshline_policies();
	auto p1 = pols(mm);
	vector<PolRef> fresh;
	for(auto& p : p1) {
		bool old = false;
		for(auto& q : p0) if(q.ptr == p.ptr) { old = true; check(q.p == p.p && q.n == p.n && q.en == p.en && q.o == p.o, "another policy changed"); }
		if(!old) fresh.push_back(p);
	}
	check(p1.size() == p0.size() + fresh.size(), "policies are gone");
	vector<std::pair<int, double>> want;
	for(int a = 0; a < 3; ++a) for(auto& [fa, c] : fx) if(fa == a) {
		bool has = false;
		for(auto& p : pre) has = has || (p.a == a && p.p == Policy::ONELINE && std::fabs(p.c - c) < 1e-8);
		for(auto& [wa, wc] : want) has = has || (wa == a && std::fabs(wc - c) < 1e-8);
		if(!has) want.push_back({a, c});
	}
	check(fresh.size() == want.size(), "wrong number of fixed policies: " + std::to_string(fresh.size()) + " instead of " + std::to_string(want.size()));
	for(auto& [a, c] : want) {
		int k = 0;
		for(auto& p : fresh) if(p.axis == AX[a] && p.c == c) {
			++k;
			check(p.p == Policy::ONELINE && p.n == MN::NONE, "a fixed line is not a single-line policy");
			check(p.en, "a fixed line is not enabled");
			check(p.o.empty(), "a fixed line has an origin");
		}
		check(k == 1, "a requested fixed line did not yield exactly one policy on its axis");
	}
	// the policies take part in the history: what happens to them later is undone when going back before it
	auto& ct = Caretaker::singleton();
	auto* t1 = ct.get_current_timepoint();
	ct.pin_current_timepoint();
	for(auto& p : fresh) { auto* q = const_cast<MLP*>(p.ptr); check(q->get_init_timepoint() != nullptr, "a fixed line is not part of the history"); auto s = q->get_current_state(); s.is_enabled = false; q->set_next_state(s); }
	vector<shared_ptr<MLP>> hold;
	for(auto a : AX) for(auto& p : mm.get_meshline_policies(a)) hold.push_back(p);
	ct.go_without_remembering(t1);
	for(auto& p : fresh) check(p.ptr->get_current_state().is_enabled, "a fixed line does not follow the history");
	ct.go_without_remembering(t0);
	check(pols(mm).size() == p0.size(), "going back before the step does not remove the fixed lines");
	ct.go_without_remembering(t1);
	check(pols(mm).size() == p1.size(), "coming back after the step does not restore the fixed lines");
}
#endif

//============================================================================ M18
#ifdef P_M18
static void one() {
	vector<Poly> l;
	int pl = h::ri(0, 2), n = h::sz(1, 4);
	for(int i = 0; i < n; ++i) {
		l.push_back(rand_poly(h::coin(8) ? h::ri(0, 2) : pl, h::coin(4)));
		if(h::coin(3)) { // a slanted quadrilateral or an octagon-like corner
			auto& p = l.back().p;
			double x = h::ri(0, 8), y = h::ri(0, 8), a = h::ri(1, 4), b = h::ri(1, 4);
			if(h::coin()) p = {{x + a, y}, {x + a + b, y + a}, {x + b, y + a + b}, {x, y + b}};
			else p = {{x, y}, {x + a + 1, y}, {x + a + 1, y + b}, {x + 1, y + b + 1}, {x, y + b + 1}};
			if(h::coin()) std::reverse(p.begin(), p.end());
		}
	}
	bool off = h::coin(3);
	h::begin(str(l) + (off ? " some not to be meshed" : ""));
	World::Reset reset;
	auto b = build(l, mats(), nullptr);
	if(off) for(auto* e : b->get_current_state().edges[PL[pl]]) if(h::coin(3)) { auto s = e->get_current_state(); s.to_mesh = false; e->set_next_state(s); }
	auto* t0 = Caretaker::singleton().get_current_timepoint();
	b->detect_diagonal_angles(PL[pl]);
	vector<Angle*> as;
	for(auto& a : b->get_current_state().angles[PL[pl]]) as.push_back(a.get());
	std::map<Angle*, int> used;
	struct E { Edge* e; size_t poly; };
	vector<E> es;
	auto const& ps = b->get_polygons(PL[pl]);
	auto diag = [](Edge* e) { return v(e->p0().x) != v(e->p1().x) && v(e->p0().y) != v(e->p1().y); };
	size_t corners = 0;
	for(size_t i = 0; i < ps.size(); ++i) {
		size_t m = ps[i]->edges.size();
		for(size_t k = 0; k < m; ++k) {
			Edge *e = ps[i]->edges[k].get(), *f = ps[i]->edges[(k + 1) % m].get();
			es.push_back({e, i});
			size_t hits = 0;
			for(auto* a : as) if((a->e0 == e && a->e1 == f) || (a->e0 == f && a->e1 == e)) {
				if(m > 2 && a->p == e->p1()) { ++hits; ++used[a]; }
			}
			bool want = diag(e) || diag(f);
			corners += want;
			check(hits == (want ? 1 : 0), want ? "a corner with a diagonal edge has not exactly one angle" : "a corner without a diagonal edge has an angle");
		}
	}
	auto side = [](Edge* e, Point const& p) { return v(e->vec.x) * (v(p.y) - v(e->p0().y)) - v(e->vec.y) * (v(p.x) - v(e->p0().x)); };
	for(size_t i = 0; i < es.size(); ++i) for(size_t j = i + 1; j < es.size(); ++j) {
		if(es[i].poly == es[j].poly) continue;
		Edge *e = es[i].e, *f = es[j].e;
		double a = side(e, f->p0()), c = side(e, f->p1()), g = side(f, e->p0()), q = side(f, e->p1());
		bool proper = a * c < 0 && g * q < 0, apart = a * c > 0 || g * q > 0;
		size_t hits = 0;
		for(auto* x : as) if((x->e0 == e && x->e1 == f) || (x->e0 == f && x->e1 == e)) {
			++hits; ++used[x];
			check(std::fabs(side(e, x->p)) < 1e-6 && std::fabs(side(f, x->p)) < 1e-6, "the angle of a crossing is not at the crossing");
		}
		if(!diag(e) && !diag(f)) check(hits == 0, "two edges, none of them diagonal, have an angle");
		else if(proper) check(hits == 1, (Desc() << "a diagonal edge properly crossing an edge of another polygon has " << hits << " angles there instead of one: (" << v(e->p0().x) << "," << v(e->p0().y) << ")-(" << v(e->p1().x) << "," << v(e->p1().y) << ") with (" << v(f->p0().x) << "," << v(f->p0().y) << ")-(" << v(f->p1().x) << "," << v(f->p1().y) << ")").o.str());
		else if(apart) check(hits == 0, "edges that do not meet have an angle");
		else check(hits <= 1, "two edges have several angles");
	}
	for(auto* a : as) {
		check(used[a] == 1, "an angle is neither a corner nor a crossing of edges of the plane");
		check(a->plane == PL[pl], "an angle is on another plane");
		check(a->get_current_state().conflicts.empty() && !a->get_current_state().meshline_policy, "a new angle is not free");
	}
	for(auto p : PL) if(p != PL[pl]) check(b->get_current_state().angles[p].empty(), "another plane got angles");
	if(!as.empty()) {
		auto* t1 = Caretaker::singleton().get_current_timepoint();
		Caretaker::singleton().go_without_remembering(t0);
		check(t0 == t1 || b->get_current_state().angles[PL[pl]].empty(), "going back does not remove the angles");
		Caretaker::singleton().go_without_remembering(t1);
		vector<Angle*> again;
		for(auto& a : b->get_current_state().angles[PL[pl]]) again.push_back(a.get());
		check(again == as, "coming back does not restore the angles");
	}
}
#endif

//============================================================================ M19
#ifdef P_M19
static void one() {
	vector<Poly> l;
	int pl = h::ri(0, 2), n = h::sz(2, 4);
	for(int i = 0; i < n; ++i) {
		l.push_back(rand_poly(h::coin(10) ? h::ri(0, 2) : pl, true));
		if(h::coin(3)) { auto& p = l.back().p; double x = h::ri(0, 3), y = h::ri(0, 3), w = h::coin(4) ? h::ri(9, 60) : h::ri(4, 8), g = h::coin(6) ? h::ri(9, 60) : h::ri(4, 8); p = {{x, y}, {x + w, y}, {x + w, y + g}, {x, y + g}}; std::rotate(p.begin(), p.begin() + h::ri(0, 3), p.end()); if(h::coin()) std::reverse(p.begin(), p.end()); }
		else if(i && h::coin(4)) l.back().p = l[h::rnd() % i].p;
		else if(h::coin(4)) { // a comb
			auto& p = l.back().p; int x = h::ri(0, 3), y = h::ri(0, 3), g = h::ri(2, 5), m = h::coin(8) ? h::ri(6, 30) : h::ri(2, 5);
			p = {{x + 2. * m - 1, y}, {x, y}};
			for(int k = 0; k < m; ++k) { p.push_back({x + 2. * k, y + 1. * g}); p.push_back({x + 2. * k + 1, y + 1. * g}); if(k + 1 < m) { p.push_back({x + 2. * k + 1, y + 1}); p.push_back({x + 2. * k + 2, y + 1}); } }
			if(h::coin()) for(auto& [u, w] : p) std::swap(u, w);
			if(h::coin()) std::reverse(p.begin(), p.end());
		}

	}
	for(auto& p : l) if(h::coin(4)) for(auto& [x, y] : p.p) { x /= 2; y /= 2; }
	h::begin(str(l));
	World::Reset reset;
	auto b = build(l, mats(), nullptr);
	b->detect_edges_in_polygons(PL[pl]);
	auto const& ps = b->get_polygons(PL[pl]);
	std::map<Edge*, ConflictEdgeInPolygon*> cf;
	for(auto& c : b->get_conflicts_edge_in_polygons(PL[pl])) cf[c->edge] = c.get();
	// where a point (never at a corner) is with respect to a rectilinear polygon: 2 inside, 1 on its contour, 0 outside
	auto where = [](Polygon const& q, double x, double y) {
		int cross = 0;
		for(auto& e : q.edges) {
			double ax = v(e->p0().x), ay = v(e->p0().y), bx = v(e->p1().x), by = v(e->p1().y);
			if(ax == bx) {
				if(x == ax && y >= std::min(ay, by) && y <= std::max(ay, by)) return 1;
				if(ax > x && y >= std::min(ay, by) && y < std::max(ay, by)) ++cross;
			} else if(y == ay && x >= std::min(ax, bx) && x <= std::max(ax, bx)) return 1;
		}
		return cross % 2 ? 2 : 0;
	};
	for(auto& p : ps) for(auto& e : p->edges) {
		double x0 = v(e->p0().x), y0 = v(e->p0().y), x1 = v(e->p1().x), y1 = v(e->p1().y), len = std::fabs(x1 - x0) + std::fabs(y1 - y0);
		auto it = cf.find(e.get());
		for(auto& q : ps) {
			bool looked = q != p && q->priority >= p->priority && std::max(v(p->z_placement.min), v(q->z_placement.min)) <= std::min(v(p->z_placement.max), v(q->z_placement.max));
			if(!looked) {
				if(it != cf.end()) for(auto& o : it->second->get_current_state().overlaps) check(std::get<POLYGON>(o) != q.get(), "an edge is registered in a polygon of lower priority or at another height");
				continue;
			}
			for(int k = 0; k < len * 4; ++k) { // every half unit may hold a limit: quarters are inside a part
				double t = (k + 0.5) / (len * 4), x = x0 + (x1 - x0) * t, y = y0 + (y1 - y0) * t;
				int w = where(*q, x, y), hits = 0;
				if(it != cf.end()) for(auto& o : it->second->get_current_state().overlaps) if(std::get<POLYGON>(o) == q.get()) {
					auto const& r = std::get<RANGE>(o);
					double rx0 = std::min(v(r.p0().x), v(r.p1().x)), rx1 = std::max(v(r.p0().x), v(r.p1().x)), ry0 = std::min(v(r.p0().y), v(r.p1().y)), ry1 = std::max(v(r.p0().y), v(r.p1().y));
					if(x < rx0 || x > rx1 || y < ry0 || y > ry1) continue;
					++hits;
					auto f = std::get<EDGE>(o);
					if(w == 1 && f) {
						double fx0 = v(f.value()->p0().x), fx1 = v(f.value()->p1().x), fy0 = v(f.value()->p0().y), fy1 = v(f.value()->p1().y);
						check(x >= std::min(fx0, fx1) && x <= std::max(fx0, fx1) && y >= std::min(fy0, fy1) && y <= std::max(fy0, fy1), "a part along the contour is registered with an edge it does not lie on");
						check(std::any_of(q->edges.begin(), q->edges.end(), [&](auto& g) { return g.get() == f.value(); }), "a part is registered with an edge of another polygon");
					}
					check(!(w == 1 && !f), "a part along the contour is registered without the edge it lies on");
				}
				check((hits > 0) == (w > 0), w > 0 ? "a part of an edge lying in a polygon is not registered" : "a part of an edge lying outside a polygon is registered");
			}
		}
	}
	for(auto p : PL) if(p != PL[pl]) check(b->get_conflicts_edge_in_polygons(p).empty(), "another plane got conflicts");
}
#endif

//============================================================================ M20
#ifdef P_M20
static void one() {
	vector<Poly> l;
	int pl = h::ri(0, 2), n = h::sz(1, 4);
	double spread = h::coin() ? 1 : 4;
	for(int i = 0; i < n; ++i) {
		l.push_back(rand_poly(h::coin(8) ? h::ri(0, 2) : pl, h::coin(5)));
		if(h::coin()) { auto& p = l.back().p; double x = h::ri(0, 5), y = h::ri(0, 5), a = h::ri(1, 4), c = h::ri(1, 4); p = {{x, y}, {x + a, y}, {x + a + c, y + c}, {x, y + c + a}}; }
		for(auto& [x, y] : l.back().p) { x += spread * i; y -= spread * i * (h::S % 3); }
	}
	bool off = h::coin();
	std::uint64_t sub = h::rnd();
	h::begin(str(l) + (off ? " some not to be meshed " + std::to_string(sub) : ""));
	World::Reset reset;
	auto b = build(l, mats(), nullptr);
	b->detect_diagonal_angles(PL[pl]);
	std::uint64_t keep = h::S;
	h::S = sub;
	if(off) for(auto* e : b->get_current_state().edges[PL[pl]]) if(h::coin(3)) { auto s = e->get_current_state(); s.to_mesh = false; e->set_next_state(s); }
	h::S = keep;
	b->detect_diagonal_zones(PL[pl]);
	int k = PL[pl] == YZ ? 0 : PL[pl] == ZX ? 1 : 2;
	auto const& as = b->get_current_state().angles[PL[pl]];
	for(auto ax : AX) {
		auto const& zs = b->get_conflicts_diagonal_or_circular_zones(ax);
		int view = ax == AX[HA[k]] ? 0 : ax == AX[VA[k]] ? 1 : 2;
		if(view == 2) { check(zs.empty(), "an axis the plane does not show got zones"); continue; }
		auto at = [&](Point const& p) { return view ? v(p.y) : v(p.x); };
		vector<double> c;
		for(auto& a : as) c.push_back(at(a->p));
		std::sort(c.begin(), c.end());
		vector<vector<double>> runs;
		bool in = false;
		for(size_t i = 1; i < c.size(); ++i) {
			double m = (c[i - 1] + c[i]) / 2;
			bool on = false;
			for(auto* e : b->get_current_state().edges[PL[pl]]) {
				double x0 = v(e->p0().x), x1 = v(e->p1().x), y0 = v(e->p0().y), y1 = v(e->p1().y);
				if(x0 == x1 || y0 == y1 || !e->get_current_state().to_mesh) continue;
				if(std::min(at(e->p0()), at(e->p1())) <= m && m <= std::max(at(e->p0()), at(e->p1()))) on = true;
			}
			if(on && !in) runs.push_back({c[i - 1]});
			if(on) runs.back().push_back(c[i]);
			in = on;
		}
		check(zs.size() == runs.size(), "there are not as many zones as runs crossed by diagonal edges");
		for(size_t i = 0; i < runs.size(); ++i) {
			auto const& za = zs[i]->get_current_state().angles;
			vector<double> zc;
			for(auto* a : za) zc.push_back(at(a->p));
			check(std::set<Angle*>(za.begin(), za.end()).size() == za.size(), "a zone holds an angle twice");
			check(zc.size() == runs[i].size(), "a zone does not hold the angles of its run");
			for(size_t j = 0; j < zc.size(); ++j) check(std::fabs(zc[j] - runs[i][j]) < 1e-9, "a zone does not hold the angles of its run, in order");
			for(auto* a : za) check(std::any_of(as.begin(), as.end(), [&](auto& x) { return x.get() == a; }), "a zone holds an angle of another plane");
		}
	}
}
#endif

int main(int argc, char** argv) {
	h::init(argc, argv);
	while(h::more()) one();
	return h::done();
}
