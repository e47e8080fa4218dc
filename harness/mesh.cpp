// Executable oracles for the meshing layer (policies, intervals, final mesh).  Compiled with -DP_<id> for one property.
#include "domain/global.hpp"
#include "domain/board.hpp"
#include "domain/conflict_manager.hpp"
#include "domain/conflicts/conflict.hpp"
#include "domain/conflicts/conflict_too_close_meshline_policies.hpp"
#include "domain/conflicts/conflict_colinear_edges.hpp"
#include "domain/geometrics/coord.hpp"
#include "domain/geometrics/edge.hpp"
#include "domain/mesh/interval.hpp"
#include "domain/mesh/meshline.hpp"
#include "domain/mesh/meshline_policy.hpp"
#include "domain/meshline_policy_manager.hpp"
#include "utils/state_management.hpp"
#include "h.hpp"

using namespace domain;
using std::vector;
using std::shared_ptr;
using std::size_t;
using h::Desc;
using h::check;
using MLP = MeshlinePolicy;
using Policy = MLP::Policy;
using MN = MLP::Normal;

static double v(Coord const& c) { return c.value(); }
static Axis const AX[3] = {X, Y, Z};
static Policy const PO[3] = {Policy::ONELINE, Policy::HALFS, Policy::THIRDS};
static MN const NO[3] = {MN::NONE, MN::MIN, MN::MAX};
static bool near(double a, double b, double e = 1e-9) { return std::fabs(a - b) <= e * (1 + std::fabs(a) + std::fabs(b)); }

struct World {
	struct Reset { ~Reset() { Caretaker::singleton().reset(); } } reset; // last destroyed
	Caretaker& ct = Caretaker::singleton();
	GlobalParams gp;
	ConflictManager cm;
	MeshlinePolicyManager mm;
	explicit World(Params p) : gp(std::move(p), ct.get_history_root()), cm(ct.get_history_root()), mm(&gp, ct.get_history_root()) {
		cm.init(&mm);
		mm.init(&cm);
	}
	MLP* add(Axis a, Policy p, MN n, double c, bool en = true, Timepoint* t = nullptr) {
		return mm.add_meshline_policy({}, a, p, n, c, en, t ? t : mm.next_timepoint());
	}
};

// everything about a manager that an operation must leave alone
struct Snap {
	struct PS { Policy p; MN n; bool en; double d; vector<IMeshLineOrigin*> o; vector<Conflict*> c; Conflict const* sol; double coord; Axis axis;
		bool operator==(PS const&) const = default; };
	std::array<vector<MLP*>, 3> pol;
	std::array<vector<Interval*>, 3> itv;
	std::array<vector<Meshline*>, 3> ml;
	std::map<MLP*, PS> st;
	static PS ps(MLP const* x) {
		auto const& s = x->get_current_state();
		return {s.policy, s.normal, s.is_enabled, s.d, s.origins, s.conflicts, s.conflict, v(x->coord), x->axis};
	}
	explicit Snap(MeshlinePolicyManager const& m) {
		auto const& s = m.get_current_state();
		for(int i = 0; i < 3; ++i) {
			for(auto& x : s.line_policies[AX[i]]) { pol[i].push_back(x.get()); st.emplace(x.get(), ps(x.get())); }
			for(auto& x : s.intervals[AX[i]]) itv[i].push_back(x.get());
			for(auto& x : s.meshlines[AX[i]]) ml[i].push_back(x.get());
		}
	}
};

static Params rand_params() {
	Params p;
	static double const dm[] = {2.5, 1, 0.5, 4, 3, 0.75, 10};
	static double const sm[] = {2, 1.5, 1.25, 1.1, 2, 1.75, 3};
	p.dmax = dm[h::ri(0, 6)];
	p.smoothness = sm[h::ri(0, 6)];
	p.lmin = h::ri(1, 5);
	p.proximity_limit = h::ri(0, 8) / 4.0;
	p.diagonal_dmax = 0.25;
	p.diagonal_lmin = h::ri(1, 4);
	return p;
}

static std::string str(Params const& p) {
	return (Desc() << "dmax=" << p.dmax << " smoothness=" << p.smoothness << " lmin=" << p.lmin << " prox=" << p.proximity_limit).o.str();
}

struct Pol { int ax; Policy p; MN n; double c; bool en; };
static std::string str(Pol const& p) {
	static char const* const pn[] = {"ONELINE", "HALFS", "THIRDS"};
	static char const* const nn[] = {"-", "MIN", "MAX"};
	int a = p.p == Policy::ONELINE ? 0 : p.p == Policy::HALFS ? 1 : 2, b = p.n == MN::NONE ? 0 : p.n == MN::MIN ? 1 : 2;
	return (Desc() << "{" << "XYZ"[p.ax] << " " << pn[a] << " " << nn[b] << " @" << p.c << (p.en ? "" : " off") << "}").o.str();
}
static Pol rand_pol(int ax, double c, bool en) {
	Policy p = PO[h::ri(0, 2)];
	return {ax, p, p == Policy::THIRDS ? (h::coin() ? MN::MIN : MN::MAX) : MN::NONE, c, en};
}
static vector<Pol> rand_pols(int n, int off_one_in = 4, bool one_axis = false, bool distinct = false) {
	vector<Pol> r;
	int mode = h::ri(0, 3);
	std::set<double> used;
	int base_ax = h::ri(0, 2);
	for(int i = 0; i < n; ++i) {
		double c = h::coordv(h::coin(4) ? h::modeq() : mode);
		if(!distinct && !r.empty() && h::coin(8)) c = r[h::rnd() % r.size()].c;
		if(distinct) { int g = 0; while(used.contains(c) && ++g < 50) c = h::coordv(2) + h::coordv(3) / 100; used.insert(c); }
		r.push_back(rand_pol(one_axis || h::coin() ? base_ax : h::ri(0, 2), c, !h::coin(off_one_in)));
	}
	return r;
}
static std::string str(vector<Pol> const& l) { std::string s; for(auto& p : l) s += str(p); return s; }

//============================================================================ M01
#ifdef P_M01
struct Origin : IMeshLineOrigin {};
static void one() {
	Params prm = rand_params();
	auto l = rand_pols(h::sz(0, 5));
	Pol q = {h::ri(0, 2), PO[h::ri(0, 2)], NO[h::ri(0, 2)], h::coordv(h::modev()), !h::coin(3)};
	bool own_t = h::coin();
	int no = h::ri(0, 3);
	double dmax2 = h::coin(3) ? h::ri(1, 20) / 4.0 : prm.dmax;
	bool filled = h::coin(3);
	h::begin((Desc() << "policies " << str(l) << " then add " << str(q) << " origins " << no << " " << str(prm) << " new dmax " << dmax2 << (own_t ? " given time" : "") << (filled ? " after meshing" : "")).o.str());
	World w(prm);
	for(auto& p : l) w.add(AX[p.ax], p.p, p.n, p.c, p.en);
	if(filled) { Params a = prm; for(auto ax : AX) w.mm.detect_intervals(ax); }
	if(dmax2 != prm.dmax) { Params p2 = prm; p2.dmax = dmax2; w.gp.set_next_state(p2); }
	Origin o[3];
	vector<IMeshLineOrigin*> os;
	for(int i = 0; i < no; ++i) os.push_back(&o[i]);
	Snap a(w.mm);
	Timepoint* t = own_t ? w.mm.next_timepoint() : nullptr;
	MLP* r = w.mm.add_meshline_policy(os, AX[q.ax], q.p, q.n, q.c, q.en, t);
	Snap b(w.mm);
	bool ok = (q.p == Policy::THIRDS) == (q.n != MN::NONE);
	check(a.itv == b.itv, "intervals changed");
	check(a.ml == b.ml, "mesh lines changed");
	for(auto& [k, s] : a.st) check(b.st.contains(k) && b.st.at(k) == s, "another policy changed");
	for(int i = 0; i < 3; ++i) {
		if(ok && i == q.ax) {
			check(b.pol[i].size() == a.pol[i].size() + 1, "the axis' list does not have exactly one more policy");
			check(b.pol[i].back() == r && r, "the policy returned is not the last of its axis' list");
			check(std::equal(a.pol[i].begin(), a.pol[i].end(), b.pol[i].begin()), "previous policies of the axis changed");
		} else check(a.pol[i] == b.pol[i], "the policy list of an axis changed");
	}
	if(!ok) { check(!r, "a policy was returned although kind and side disagree"); return; }
	auto const& s = r->get_current_state();
	check(r->axis == AX[q.ax] && s.policy == q.p && s.normal == q.n, "axis, kind or side differ from the request");
	check(v(r->coord) == q.c, "coordinate differs from the request");
	check(s.is_enabled == q.en, "enabled flag differs from the request");
	check(s.origins == os, "origins differ from the request");
	check(s.d == dmax2 / 2, "initial spacing is not half the maximum spacing");
	check(s.conflicts.empty() && s.meshlines.empty() && !s.conflict, "new policy starts with conflicts or mesh lines");
	check(r->global_params == &w.gp, "policy does not refer to the global parameters");
}
#endif

//============================================================================ M04
#ifdef P_M04
static void one() {
	auto l = rand_pols(h::sz(0, 9), h::ri(2, 6));
	double lim = h::coin() ? h::ri(0, 12) / 4.0 : h::coin() ? 0 : h::coordv(h::modeq());
	if(h::coin(10)) lim = std::numeric_limits<double>::infinity();
	h::begin((Desc() << str(l) << " limit " << lim).o.str());
	World w(rand_params());
	vector<MLP*> in, en;
	for(auto& p : l) { in.push_back(w.add(AX[p.ax], p.p, p.n, p.c, p.en)); if(p.en) en.push_back(in.back()); }
	auto r = detect_closest_meshline_policies(in, lim);
	double best = std::numeric_limits<double>::infinity();
	for(size_t i = 0; i < en.size(); ++i)
		for(size_t j = 0; j < i; ++j) best = std::min(best, std::fabs(v(en[i]->coord) - v(en[j]->coord)));
	if(en.size() < 2) { check(!r, "a pair was found among fewer than two enabled policies"); return; }
	check(r.has_value() == (best <= lim), r ? "a pair was found although every pair is further apart than the limit" : "no pair was found although one is within the limit");
	if(!r) return;
	auto [a, b] = *r;
	check(a && b && a != b, "the pair is not two policies");
	check(std::count(en.begin(), en.end(), a) == 1 && std::count(en.begin(), en.end(), b) == 1, "the pair is not among the enabled policies");
	check(std::fabs(v(a->coord) - v(b->coord)) == best, "another pair is closer");
	double lo = std::min(v(a->coord), v(b->coord)), hi = std::max(v(a->coord), v(b->coord));
	for(auto* x : en) check(!(lo < v(x->coord) && v(x->coord) < hi), "the pair is not adjacent");
	check(v(a->coord) <= v(b->coord), "the pair is not in coordinate order");
}
#endif

//============================================================================ M05
#ifdef P_M05
static void one() {
	Params prm = rand_params();
	auto l = rand_pols(h::sz(2, 9), 6, h::coin());
	bool step = h::coin();
	int nreq = h::ri(1, 6);
	vector<std::pair<int, int>> req;
	for(int i = 0; i < nreq; ++i) { int a = h::ri(0, (int) l.size() - 1), b = h::ri(0, (int) l.size() - 1); if(a != b) req.push_back({a, b}); }
	Desc d;
	d << str(l) << " " << str(prm);
	if(step) d << " proximity step"; else for(auto& [a, b] : req) d << " (" << a << "," << b << ")";
	h::begin(d.o.str());
	World w(prm);
	vector<MLP*> m;
	for(auto& p : l) m.push_back(w.add(AX[p.ax], p.p, p.n, p.c, p.en));
	auto conflicts = [&](Axis ax) {
		vector<ConflictTooCloseMeshlinePolicies*> r;
		for(auto& c : w.cm.get_too_close_meshline_policies(ax)) r.push_back(c.get());
		return r;
	};
	if(!step) {
		for(auto& [i, j] : req) {
			MLP *a = m[i], *b = m[j];
			std::array<vector<ConflictTooCloseMeshlinePolicies*>, 3> c0;
			for(int k = 0; k < 3; ++k) c0[k] = conflicts(AX[k]);
			bool busy = false;
			for(auto& cs : c0) for(auto* c : cs) for(auto* p : c->meshline_policies) busy = busy || p == a || p == b;
			Snap s0(w.mm);
			auto* r = w.cm.add_too_close_meshline_policies(a, b);
			Snap s1(w.mm);
			bool ok = a->axis == b->axis && !busy;
			check(ok == (r != nullptr), ok ? "a legitimate conflict was refused" : "a conflict was registered although a policy is in one already or the axes differ");
			for(int k = 0; k < 3; ++k) {
				auto c1 = conflicts(AX[k]);
				if(ok && AX[k] == a->axis) {
					check(c1.size() == c0[k].size() + 1 && c1.back() == r && std::equal(c0[k].begin(), c0[k].end(), c1.begin()), "the axis' conflict list is not extended by exactly the conflict");
				} else check(c1 == c0[k], "a conflict list changed");
			}
			check(s0.pol == s1.pol && s0.itv == s1.itv && s0.ml == s1.ml, "manager lists changed");
			for(auto& [k, st] : s0.st) {
				auto e = st;
				if(ok && (k == a || k == b)) { e.en = false; e.c.push_back(r); }
				check(s1.st.at(k) == e, ok && (k == a || k == b) ? "policy is not disabled and linked to the conflict, or something else about it changed" : "another policy changed");
			}
			if(ok) {
				check(r->axis == a->axis && ((r->meshline_policies[0] == a && r->meshline_policies[1] == b) || (r->meshline_policies[0] == b && r->meshline_policies[1] == a)), "the conflict is not between the two policies");
				check(!r->get_current_state().is_solved && !r->get_current_state().solution, "new conflict is already solved");
			}
		}
	} else {
		int ax = l[0].ax;
		Snap s0(w.mm);
		w.mm.detect_and_solve_too_close_meshline_policies(AX[ax]);
		Snap s1(w.mm);
		for(int k = 0; k < 3; ++k) {
			if(k != ax) { check(s0.pol[k] == s1.pol[k] && conflicts(AX[k]).empty(), "another axis changed"); for(auto* p : s0.pol[k]) check(s0.st.at(p) == s1.st.at(p), "a policy of another axis changed"); }
			else check(s1.pol[k].size() >= s0.pol[k].size() && std::equal(s0.pol[k].begin(), s0.pol[k].end(), s1.pol[k].begin()), "policies were dropped or reordered");
		}
		vector<double> en;
		for(auto* p : s1.pol[ax]) if(s1.st.at(p).en) en.push_back(v(p->coord));
		std::sort(en.begin(), en.end());
		for(size_t i = 1; i < en.size(); ++i) check(en[i] - en[i - 1] > prm.proximity_limit, "two enabled policies are left within the proximity limit");
		for(auto* c : conflicts(AX[ax])) {
			auto* sol = c->get_current_state().solution;
			check(c->get_current_state().is_solved && sol, "a conflict of the proximity step is left unsolved");
			check(std::count(s1.pol[ax].begin(), s1.pol[ax].end(), sol) == 1, "the solution of a conflict is not a policy of the axis");
		}
	}
	// never two conflicts for a policy
	std::map<MLP*, int> seen;
	for(auto ax : AX) for(auto* c : conflicts(ax)) for(auto* p : c->meshline_policies) {
		check(p->axis == ax, "a conflict is listed on another axis than its policies");
		check(++seen[p] == 1, "a policy is in two too-close conflicts");
		check(std::count(p->get_current_state().conflicts.begin(), p->get_current_state().conflicts.end(), c) == 1, "a policy is not linked to its conflict");
		check(!p->get_current_state().is_enabled, "a policy of a conflict is still enabled");
	}
	for(auto ax : AX) for(auto& p : w.mm.get_meshline_policies(ax)) {
		check(p->get_current_state().conflicts.size() == (size_t) seen[p.get()], "a policy is linked to a conflict that does not concern it");
	}
}
#endif

//============================================================================ M06
#ifdef P_M06
static void one() {
	Params prm = rand_params();
	auto l = rand_pols(h::sz(0, 9), h::ri(3, 6), h::coin());
	int ax = h::ri(0, 2);
	if(!l.empty()) ax = l[0].ax;
	bool twice = h::coin(4);
	h::begin((Desc() << str(l) << " axis " << "XYZ"[ax] << " " << str(prm) << (twice ? " twice" : "")).o.str());
	World w(prm);
	for(auto& p : l) w.add(AX[p.ax], p.p, p.n, p.c, p.en);
	for(int round = 0; round <= twice; ++round) {
		Snap s0(w.mm);
		w.mm.detect_intervals(AX[ax]);
		Snap s1(w.mm);
		check(s0.pol == s1.pol && s0.ml == s1.ml, "policies or mesh lines lists changed");
		vector<MLP*> en;
		for(auto* p : s0.pol[ax]) if(s0.st.at(p).en) en.push_back(p);
		for(int k = 0; k < 3; ++k) if(k != ax) check(s0.itv[k] == s1.itv[k], "intervals of another axis changed");
		auto& i0 = s0.itv[ax];
		auto& i1 = s1.itv[ax];
		size_t n = en.size() ? en.size() - 1 : 0;
		check(i1.size() == i0.size() + n && std::equal(i0.begin(), i0.end(), i1.begin()), "the number of intervals added is not one less than the enabled policies");
		std::sort(en.begin(), en.end(), [](auto* a, auto* b) { return v(a->coord) < v(b->coord); });
		std::map<MLP*, double> bound;
		std::set<MLP*> met;
		MLP* last = nullptr;
		for(size_t i = 0; i < n; ++i) {
			Interval* it = i1[i0.size() + i];
			auto const& s = it->get_current_state();
			MLP *b = s.before.meshline_policy, *a = s.after.meshline_policy;
			check(a && b && a != b, "an interval is not between two policies");
			check(v(b->coord) == v(en[i]->coord) && v(a->coord) == v(en[i + 1]->coord), "an interval does not join two consecutive enabled policies");
			check(s0.st.contains(a) && s0.st.contains(b) && s0.st.at(a).en && s0.st.at(b).en && a->axis == AX[ax] && b->axis == AX[ax], "an interval is bounded by a disabled or foreign policy");
			if(last) check(last == b, "an interval does not start where the previous ends");
			last = a;
			check(met.insert(b).second, "a policy starts two intervals");
			double hh = std::fabs(v(a->coord) - v(b->coord)) / 2;
			check(near(v(it->h), hh) && near(v(it->m), (v(a->coord) + v(b->coord)) / 2), "half width or middle wrong");
			check(it->axis == AX[ax], "wrong axis");
			check(s.dmax == prm.dmax && s.before.lmin == prm.lmin && s.after.lmin == prm.lmin && s.before.smoothness == prm.smoothness && s.after.smoothness == prm.smoothness, "interval does not start with the global parameters");
			check(s.before.ls.empty() && s.after.ls.empty() && s.conflicts.empty(), "interval starts with lines or conflicts");
			for(auto* p : {a, b}) { if(!bound.contains(p)) bound[p] = hh; else bound[p] = std::min(bound[p], hh); }
		}
		for(auto& [p, st] : s0.st) {
			auto e = st;
			if(bound.contains(p)) e.d = std::min(e.d, bound[p]);
			auto g = s1.st.at(p);
			check(near(g.d, e.d), bound.contains(p) ? "a policy's spacing is not bounded by the half widths of its intervals exactly" : "the spacing of an uninvolved policy changed");
			g.d = e.d;
			check(g == e, "something else about a policy changed");
		}
	}
}
#endif

//============================================================================ M07
#ifdef P_M07
static void one() {
	double const T = 1e-8;
	bool given = h::coin();
	double d = h::coin(3) ? h::ru(0.01, 3) : h::ri(1, 24) / 8.0, sm = h::coin(6) ? 1 : 1 + h::ri(0, 16) / 8.0, dmax = h::coin(3) ? h::ru(0.05, 3) : h::ri(1, 24) / 8.0, s = h::coin(8) ? 0 : h::coin(8) ? -h::ru(0, 3) : h::coin(3) ? h::ri(1, 40) / 4.0 : h::ru(0, 20);
	if(!given) {
		h::begin((Desc() << "find_ls d=" << d << " smoothness=" << sm << " dmax=" << dmax << " s=" << s).o.str());
		auto ls = find_ls(d, sm, dmax, s);
		double e = 1e-12;
		if(s <= 0) { check(ls.empty(), "lines over an empty half interval"); return; }
		check(!ls.empty() && v(ls.back()) >= s, "the series stops before the end of the half interval");
		double pl = 0, pg = std::min(d, dmax);
		for(size_t i = 0; i < ls.size(); ++i) {
			double g = v(ls[i]) - pl;
			check(g > 0, "the series does not strictly increase");
			check(g <= dmax + e * (1 + v(ls[i])), "a gap is above the maximum spacing");
			check(g <= sm * pg + e * (1 + v(ls[i])), i ? "a gap is more than the smoothness factor times the previous one" : "the first line is beyond the smoothed initial spacing");
			if(i + 1 < ls.size()) check(v(ls[i]) < s, "the series does not stop at the first line reaching the end");
			pl = v(ls[i]); pg = g;
		}
	} else {
		// validity of a given series: built from gaps around the limits
		vector<Coord> ls;
		int n = h::sz(0, 7);
		double pl = 0, pg = d;
		std::string gs;
		int badat = h::ri(0, 3) ? -1 : h::ri(0, 6);
		for(int i = 0; i < n; ++i) {
			double lim = std::min(dmax, sm * pg);
			double g;
			switch(h::ri(0, 5)) {
			case 0: g = lim; break;
			case 1: g = lim * 0.5; break;
			case 2: g = lim + 0.5 * T; break;
			default: g = lim * h::ru(0.3, 1); break;
			}
			if(i == badat) switch(h::ri(0, 3)) { case 0: g = lim + 4 * T; break; case 1: g = sm * pg + 0.125; break; case 2: g = dmax + 0.125; break; default: g = lim * 1.5; }
			pl += g; pg = g;
			ls.push_back(pl);
			gs += " " + h::num(pl);
		}
		size_t lmin = h::ri(0, 6);
		h::begin((Desc() << "is_ls_valid {" << gs << " } d=" << d << " smoothness=" << sm << " dmax=" << dmax << " lmin=" << lmin).o.str());
		bool r = is_ls_valid_for_dmax_lmin_smoothness(ls, d, sm, dmax, lmin);
		bool ok = d <= dmax && ls.size() >= lmin && !ls.empty(), border = std::fabs(d - dmax) < 1e-12 && d != dmax;
		pl = 0; pg = d;
		for(auto& c : ls) {
			double g = v(c) - pl;
			for(double lim : {sm * pg, dmax}) {
				if(g > lim + T) ok = false;
				if(std::fabs(g - lim - T) < T / 8) border = true;
			}
			pl = v(c); pg = g;
		}
		if(border) return;
		check(r == ok, r ? "an invalid series was accepted" : "a valid series was rejected");
	}
}
#endif

//============================================================================ M08, M09, M10: intervals
#if defined(P_M08) || defined(P_M09) || defined(P_M10)
struct IW {
	World w;
	MLP *b, *a;
	std::unique_ptr<Interval> it;
	IW(Params prm, Pol pb, Pol pa) : w(prm) {
		b = w.add(X, pb.p, pb.n, pb.c, true);
		a = w.add(X, pa.p, pa.n, pa.c, true);
		it = std::make_unique<Interval>(b, a, X, &w.gp, w.mm.next_timepoint());
	}
};
static double off(MLP const* p, bool before, double d) {
	auto const& s = p->get_current_state();
	switch(s.policy) {
	case Policy::ONELINE: return 0;
	case Policy::HALFS: return d / 2;
	default: return (s.normal == MN::MAX) == before ? d * 2 / 3 : d / 3;
	}
}
static double off(MLP const* p, bool before) { return off(p, before, p->get_current_state().d); }
#endif

#ifdef P_M08
static void one() {
	Params prm = rand_params();
	prm.lmin = h::ri(1, 8);
	if(h::coin(4)) { prm.dmax = h::ru(0.2, 4); prm.smoothness = h::ru(1.05, 2); }
	if(h::coin(10)) prm.smoothness = 1;
	double c0 = h::coordv(h::modeq()), len = h::coin() ? h::ri(1, 60) / 4.0 : h::ru(0.2, 20);
	Pol pb = rand_pol(0, c0, true), pa = rand_pol(0, c0 + len, true);
	int lim = h::coin(3) ? h::ri(0, 40) : -1, twice = h::ri(1, 2);
	double d0 = h::coin(3) ? h::ru(0.05, 1) : 0;
	h::begin((Desc() << str(pb) << str(pa) << " " << str(prm) << " limit " << lim << " rounds " << twice << " d0 " << d0).o.str());
	alarm(10);
	IW w(prm, pb, pa);
	if(d0 > 0) for(auto* p : {w.a, w.b}) { auto s = p->get_current_state(); s.d = std::min(d0, s.d); p->set_next_state(s); }
	double const e = 1e-9;
	Interval& it = *w.it;
	size_t L = lim < 0 ? std::numeric_limits<size_t>::max() : lim;
	auto spacing = [&](bool before, Interval::Side const& side) {
		// the half interval's own functions
		auto st = it.get_current_state();
		Interval::Side s2 = side;
		it.update_ls(s2);
		double d_in = std::min(side.meshline_policy->get_current_state().d, st.dmax);
		auto [d, hit] = it.adjust_d_for_dmax_lmin(s2, L);
		check(d <= d_in && d >= 0, "tuning the initial spacing increased it");
		if(!hit) {
			// an untouched spacing keeps the series it was given, otherwise the series is regenerated
			auto ls = d == d_in ? s2.ls : find_ls(d, side.smoothness, st.dmax, v(it.h) - off(side.meshline_policy, before, d));
			check(is_ls_valid_for_dmax_lmin_smoothness(ls, d, side.smoothness, st.dmax, side.lmin), "the series of the tuned spacing is not valid");
			// judged by the limits themselves
			double pl = 0, pg = d;
			check(ls.size() >= side.lmin && !ls.empty(), "the tuned series is too short");
			for(auto& c : ls) { double g = v(c) - pl; check(g <= st.dmax + 2e-8 && g <= side.smoothness * pg + 2e-8, "the tuned series breaks a limit"); pl = v(c); pg = g; }
		}
		auto [sm, hit2] = it.adjust_smoothness_for_s(s2, L);
		check(sm <= side.smoothness, "tuning the smoothness increased it");
		check(sm >= 1, "tuning the smoothness brought it below 1");
		check(find_ls(side.meshline_policy->get_current_state().d, sm, st.dmax, v(it.h) - off(side.meshline_policy, before)).size() <= s2.ls.size(), "tuning the smoothness needs more lines than before");
	};
	spacing(true, it.get_current_state().before);
	spacing(false, it.get_current_state().after);
	for(int r = 0; r < twice; ++r) {
		auto s0 = it.get_current_state();
		double db = w.b->get_current_state().d, da = w.a->get_current_state().d;
		auto grow = [&](bool before, Interval::Side const& s) {
			auto ls = find_ls(s.meshline_policy->get_current_state().d, s.smoothness, s0.dmax, v(it.h) - off(s.meshline_policy, before));
			if(ls.empty()) return s0.dmax;
			double last = v(ls.back()) - (ls.size() > 1 ? v(ls[ls.size() - 2]) : 0);
			return s.smoothness * last;
		};
		double gb = grow(true, s0.before), ga = grow(false, s0.after);
		it.auto_solve_d();
		auto const& s1 = it.get_current_state();
		check(s1.dmax <= s0.dmax, "tuning increased the maximum spacing");
		check(s1.dmax <= gb + e && s1.dmax <= ga + e, "the maximum spacing exceeds the growth a side allows");
		check(w.b->get_current_state().d <= db && w.a->get_current_state().d <= da, "tuning increased a policy's spacing");
		for(bool bef : {true, false}) {
			auto const& s = bef ? s1.before : s1.after;
			check(is_ls_valid_for_dmax_lmin_smoothness(s.ls, s.meshline_policy->get_current_state().d, s.smoothness, s0.dmax, s.lmin), "a side's series is not valid after tuning");
			check(s.lmin == (bef ? s0.before : s0.after).lmin && s.smoothness == (bef ? s0.before : s0.after).smoothness, "tuning the spacing changed the line count or smoothness");
		}
		auto s2 = it.get_current_state();
		double db2 = w.b->get_current_state().d, da2 = w.a->get_current_state().d;
		auto nb = find_ls(db2, s2.before.smoothness, s2.dmax, v(it.h) - off(w.b, true)).size(), na = find_ls(da2, s2.after.smoothness, s2.dmax, v(it.h) - off(w.a, false)).size();
		it.auto_solve_smoothness();
		auto const& s3 = it.get_current_state();
		check(s3.dmax == s2.dmax && w.b->get_current_state().d == db2 && w.a->get_current_state().d == da2, "tuning the smoothness changed a spacing");
		check(s3.before.smoothness <= s2.before.smoothness && s3.before.smoothness >= 1 && s3.after.smoothness <= s2.after.smoothness && s3.after.smoothness >= 1, "tuning the smoothness increased it or brought it below 1");
		check(s3.before.ls.size() <= nb && s3.after.ls.size() <= na, "tuning the smoothness needs more lines");
	}
}
#endif

#ifdef P_M09
static void one() {
	Params prm = rand_params();
	double c0 = h::coordv(h::modeq()), len = h::coin() ? h::ri(1, 60) / 4.0 : h::ru(0.2, 20);
	Pol pb = rand_pol(0, c0, true), pa = rand_pol(0, c0 + len, true);
	int kind = h::ri(0, 2);
	int nb = h::ri(0, 5), na = h::ri(0, 5);
	double db = h::ri(1, 16) / 8.0, da = h::ri(1, 16) / 8.0;
	h::begin((Desc() << str(pb) << str(pa) << " " << str(prm) << " kind " << kind << " lines " << nb << " " << na << " d " << db << " " << da).o.str());
	alarm(10);
	IW w(prm, pb, pa);
	if(kind == 0) w.it->auto_solve_d();
	else if(kind == 1) { w.it->auto_solve_d(); w.it->auto_solve_smoothness(); }
	else {
		auto s = w.it->get_current_state();
		double x = 0;
		for(int i = 0; i < nb; ++i) s.before.ls.push_back(x += h::ri(1, 8) / 8.0);
		x = 0;
		for(int i = 0; i < na; ++i) s.after.ls.push_back(x += h::ri(1, 8) / 8.0);
		w.it->set_next_state(s);
		auto sb = w.b->get_current_state(); sb.d = db; w.b->set_next_state(sb);
		auto sa = w.a->get_current_state(); sa.d = da; w.a->set_next_state(sa);
	}
	auto r = w.it->mesh();
	auto const& s = w.it->get_current_state();
	vector<double> e;
	vector<MLP const*> ep;
	double b0 = v(w.b->coord) + off(w.b, true), a0 = v(w.a->coord) - off(w.a, false);
	if(pb.p != Policy::ONELINE) { e.push_back(b0); ep.push_back(w.b); }
	for(size_t i = 0; i + 1 < s.before.ls.size(); ++i) { e.push_back(b0 + v(s.before.ls[i])); ep.push_back(w.b); }
	e.push_back((pb.c + pa.c) / 2); ep.push_back(nullptr);
	for(size_t i = s.after.ls.size(); i-- > 1;) { e.push_back(a0 - v(s.after.ls[i - 1])); ep.push_back(w.a); }
	if(pa.p != Policy::ONELINE) { e.push_back(a0); ep.push_back(w.a); }
	check(r.size() == e.size(), "wrong number of lines: " + std::to_string(r.size()) + " instead of " + std::to_string(e.size()));
	for(size_t i = 0; i < e.size(); ++i) {
		check(r[i] != nullptr, "a line is missing");
		check(near(v(r[i]->coord), e[i]), "line " + std::to_string(i) + " at " + h::num(v(r[i]->coord)) + " instead of " + h::num(e[i]));
		check(r[i]->interval == w.it.get() && r[i]->policy == ep[i], "a line does not refer to its interval and policy");
	}
	check(near(w.it->get_current_state().before.d_init(), off(w.b, true)) && near(w.it->get_current_state().after.d_init(), off(w.a, false)), "a side's offset is wrong");
}
#endif

#ifdef P_M10
static void one() {
	Params prm = rand_params();
	int n = h::sz(0, 5);
	if(h::coin(40)) prm.dmax *= 0.03;
	vector<Pol> l;
	double x = h::coordv(h::modeq());
	int ax = h::ri(0, 2);
	for(int i = 0; i < n; ++i) { l.push_back(rand_pol(ax, x, !h::coin(6))); x += h::ri(2, 24) / 4.0; }
	for(size_t i = l.size(); i > 1; --i) std::swap(l[i - 1], l[h::rnd() % i]);
	int other = h::ri(0, 3), rounds = h::coin(4) ? 2 : 1;
	for(int i = 0; i < other; ++i) l.push_back(rand_pol((ax + 1 + h::ri(0, 1)) % 3, i * 3 + 0.5, !h::coin(6)));
	h::begin((Desc() << str(l) << " axis " << "XYZ"[ax] << " " << str(prm) << " rounds " << rounds).o.str());
	alarm(10);
	World w(prm);
	for(auto& p : l) w.add(AX[p.ax], p.p, p.n, p.c, p.en);
	for(auto a : AX) w.mm.detect_intervals(a);
	for(int r = 0; r < rounds; ++r) {
		Snap s0(w.mm);
		auto keep = w.mm.get_current_state().meshlines; // keep the old lines alive
		w.mm.mesh(AX[ax]);
		Snap s1(w.mm);
		check(s0.pol == s1.pol && s0.itv == s1.itv, "policies or intervals lists changed");
		for(int k = 0; k < 3; ++k) if(k != ax) {
			check(s0.ml[k] == s1.ml[k], "mesh lines of another axis changed");
			for(auto* p : s0.pol[k]) check(s0.st.at(p) == s1.st.at(p), "a policy of another axis changed");
		}
		auto& ml = s1.ml[ax];
		for(size_t i = 0; i < ml.size(); ++i) {
			check(ml[i] != nullptr, "a mesh line is missing");
			if(i) check(v(ml[i - 1]->coord) <= v(ml[i]->coord), "mesh lines are not in increasing order");
		}
		std::set<Meshline*> all(ml.begin(), ml.end()), old(s0.ml[ax].begin(), s0.ml[ax].end());
		check(std::set<Meshline*>(ml.begin(), ml.end()).size() == ml.size(), "a mesh line appears twice");
		for(auto* m : s0.ml[ax]) check(all.contains(m), "a mesh line already there is gone");
		std::map<Interval const*, vector<Meshline*>> by;
		vector<Meshline*> single;
		size_t known = 0, groups = 0;
		for(auto* m : ml) if(!old.contains(m)) { if(m->interval) by[m->interval].push_back(m); else single.push_back(m); }
		for(auto* it : s1.itv[ax]) {
			auto const& s = it->get_current_state();
			MLP *b = s.before.meshline_policy, *a = s.after.meshline_policy;
			auto g = by[it];
			++known;
			// the policies' spacing when the interval was meshed is one they had
			auto ds = [](MLP* p) { vector<double> r; for(auto [t, st] : p->get_available_states()) r.push_back(st.d); return r; };
			bool found = false;
			for(double db : ds(b)) for(double da : ds(a)) {
				vector<double> e;
				double b0 = v(b->coord) + off(b, true, db), a0 = v(a->coord) - off(a, false, da);
				if(b->get_current_state().policy != Policy::ONELINE) e.push_back(b0);
				for(size_t i = 0; i + 1 < s.before.ls.size(); ++i) e.push_back(b0 + v(s.before.ls[i]));
				e.push_back((v(b->coord) + v(a->coord)) / 2);
				for(size_t i = 0; i + 1 < s.after.ls.size(); ++i) e.push_back(a0 - v(s.after.ls[i]));
				if(a->get_current_state().policy != Policy::ONELINE) e.push_back(a0);
				std::sort(e.begin(), e.end());
				if(e.size() != g.size()) continue;
				bool ok = true;
				for(size_t i = 0; i < e.size(); ++i) ok = ok && near(e[i], v(g[i]->coord));
				if(ok) { found = true; break; }
			}
			check(found, "the mesh does not hold exactly the lines of an interval");
			check(!s.before.ls.empty() && !s.after.ls.empty() && is_ls_valid_for_dmax_lmin_smoothness(s.before.ls, s.before.ls.size() ? 1e300 : 0, 1e300, 1e300, 1), "an interval was not tuned");
		}
		groups = by.size();
		check(groups == known, "mesh lines of an unknown interval");
		vector<double> e;
		for(auto* p : s1.pol[ax]) if(s1.st.at(p).en && s1.st.at(p).p == Policy::ONELINE) e.push_back(v(p->coord));
		std::sort(e.begin(), e.end());
		check(single.size() == e.size(), "there is not exactly one line per enabled single-line policy");
		for(size_t i = 0; i < e.size(); ++i) check(v(single[i]->coord) == e[i], "a single-line policy's line is not at its coordinate");
		auto pl = w.mm.get_meshline_policies_meshlines(AX[ax]);
		vector<double> pe, pg;
		for(auto* p : s1.pol[ax]) if(s1.st.at(p).en) pe.push_back(v(p->coord));
		for(auto& m : pl) pg.push_back(v(m->coord));
		check(pe == pg, "the policy-line listing does not have one line per enabled policy");
		size_t cells = 1;
		for(int k = 0; k < 3; ++k) cells *= s1.ml[k].size();
		check(w.mm.get_mesh_cell_number() == cells, "the cell count is not the product of the line counts");
	}
}
#endif

int main(int argc, char** argv) {
	h::init(argc, argv);
	while(h::more()) one();
	return h::done();
}
