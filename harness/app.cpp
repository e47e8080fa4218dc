// Executable oracles for the application layer (steps, files, parsing, serialising, small helpers).  Compiled with -DP_<id> for one property.
#if defined P_A01 || defined P_S06 || defined P_A02
#define NEED_APP
#include "app/openemsh.hpp"
#include "app/steps.hpp"
#endif
#if defined P_A03 || defined P_A04 || defined P_A02
#include <pugixml.hpp>
#include "infra/parsers/parser_from_csx.hpp"
#include "infra/serializers/serializer_to_csx.hpp"
#endif
#include "domain/board.hpp"
#include "domain/conflict_manager.hpp"
#include "domain/conflicts/conflict_colinear_edges.hpp"
#include "domain/conflicts/conflict_diagonal_or_circular_zone.hpp"
#include "domain/conflicts/conflict_edge_in_polygon.hpp"
#include "domain/conflicts/conflict_too_close_meshline_policies.hpp"
#include "domain/geometrics/angle.hpp"
#include "domain/geometrics/edge.hpp"
#include "domain/geometrics/polygon.hpp"
#include "domain/global.hpp"
#include "domain/material.hpp"
#include "domain/mesh/interval.hpp"
#include "domain/mesh/meshline.hpp"
#include "domain/mesh/meshline_policy.hpp"
#include "domain/meshline_policy_manager.hpp"
#include "infra/utils/to_string.hpp"
#include "utils/signum.hpp"
#include "utils/state_management.hpp"
#include "utils/vector_utils.hpp"
#include <filesystem>
#include "h.hpp"

using namespace domain;
using std::vector;
using std::shared_ptr;
using std::unique_ptr;
using std::make_unique;
using std::make_shared;
using std::size_t;
using std::string;
using std::optional;
using h::Desc;
using h::check;
namespace fs = std::filesystem;

static double v(Coord const& c) { return c.value(); }
static Axis const AX[3] = {X, Y, Z};
static Plane const PL[3] = {YZ, ZX, XY};
static int const HA[3] = {1, 2, 0}, VA[3] = {2, 0, 1}; // horizontal and vertical axis of each plane; the remaining one is the plane's own index
static char const* const pln[3] = {"YZ", "ZX", "XY"};
[[maybe_unused]] static bool near(double a, double b, double e = 1e-9) { return std::fabs(a - b) <= e * (1 + std::fabs(a) + std::fabs(b)); }
struct Reset { ~Reset() { Caretaker::singleton().reset(); } };

//============================================================================ steps
#if defined P_A01 || defined P_S06
struct Poly { int pl; vector<std::pair<double, double>> p; size_t prio; int mat; double z0, z1; };
static string str(Poly const& p) {
	Desc d;
	d << "{" << pln[p.pl] << " prio " << p.prio << " mat " << p.mat << " z " << p.z0 << ".." << p.z1;
	for(auto& [x, y] : p.p) d << " (" << x << "," << y << ")";
	d << "}";
	return d.o.str();
}
static shared_ptr<Board> build(vector<Poly> const& l, vector<std::pair<int, double>> const& fixed) {
	vector<shared_ptr<Material>> m;
	for(auto t : {Material::Type::PORT, Material::Type::CONDUCTOR, Material::Type::DIELECTRIC, Material::Type::AIR}) m.push_back(make_shared<Material>(t, "m"));
	Board::Builder b;
	b.set_background_material(m[3]);
	for(auto& q : l) {
		vector<unique_ptr<Point const>> pts;
		for(auto& [x, y] : q.p) pts.push_back(make_unique<Point const>(x, y));
		b.add_polygon(PL[q.pl], m[q.mat], "p", q.prio, {q.z0, q.z1}, std::move(pts));
	}
	for(auto& [a, c] : fixed) b.add_fixed_meshline_policy(AX[a], c);
	Params p;
	p.dmax = 10; p.proximity_limit = 1; p.diagonal_dmax = 2.5;
	return b.build(std::move(p));
}
static string dump(Board const& b) {
	Desc d;
	for(int k = 0; k < 3; ++k) {
		d << "[" << pln[k];
		for(auto& p : b.get_polygons(PL[k])) for(auto& e : p->edges) { auto& s = e->get_current_state(); d << " " << (s.to_mesh ? "m" : "-") << (s.to_reverse ? "r" : "-") << s.conflicts.size(); }
		for(auto& a : b.get_angles(PL[k])) { auto& s = a->get_current_state(); d << " a" << v(a->p.x) << "," << v(a->p.y) << (s.to_mesh[H] ? "h" : "-") << (s.to_mesh[V] ? "v" : "-") << s.conflicts.size(); }
		for(auto& c : b.get_conflicts_edge_in_polygons(PL[k])) d << " eip" << c->get_current_state().overlaps.size() << c->get_current_state().is_solved;
		d << "] [" << "XYZ"[k];
		for(auto& c : b.get_conflicts_colinear_edges(AX[k])) d << " ce" << c->get_current_state().edges.size() << c->get_current_state().is_solved;
		for(auto& c : b.get_conflicts_diagonal_or_circular_zones(AX[k])) d << " zone" << c->get_current_state().angles.size() << "/" << c->get_current_state().intervals.size();
		for(auto& c : b.get_conflicts_too_close_meshline_policies(AX[k])) d << " tc" << c->get_current_state().is_solved;
		for(auto& p : b.get_meshline_policies(AX[k])) { auto& s = p->get_current_state(); d << " p" << (int) s.policy << (int) s.normal << "@" << v(p->coord) << (s.is_enabled ? "+" : "-") << s.meshlines.size() << ";" << v(s.d); }
		for(auto& i : b.get_intervals(AX[k])) { auto& s = i->get_current_state(); d << " i" << v(s.dmax) << ":" << s.before.lmin << "," << s.before.smoothness << "," << s.after.lmin << "," << s.after.smoothness; }
		d << " lines";
		for(auto& l : b.get_meshlines(AX[k])) d << " " << v(l->coord);
		d << "]";
	}
	return d.o.str();
}
static vector<Poly> gen() {
	vector<Poly> l;
	int n = h::coin(5) ? 0 : h::ri(1, 4), only = h::ri(0, 2);
	bool diag = h::coin();
	double zs = h::coin() ? 0 : 20;
	for(int i = 0; i < n; ++i) {
		Poly r;
		r.pl = h::coin(4) ? h::ri(0, 2) : only;
		double x0 = 20 * h::ri(0, 3), y0 = 20 * h::ri(0, 3), x1 = x0 + 20 * h::ri(1, 3), y1 = y0 + 20 * h::ri(1, 3);
		r.p = {{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}};
		if(diag && h::coin(3)) r.p.erase(r.p.begin() + h::ri(0, 3));
		if(h::coin()) std::reverse(r.p.begin(), r.p.end());
		r.prio = h::ri(0, 2); r.mat = h::ri(0, 3); r.z0 = 0; r.z1 = zs;
		l.push_back(r);
	}
	return l;
}
using app::Step;
static vector<Step> const ALL = {Step::ADJUST_EDGE_TO_MATERIAL, Step::DETECT_DIAG_ANGLES, Step::DETECT_DIAG_ZONES, Step::SOLVE_DIAG_ZONES_ANGLES, Step::DETECT_CONFLICT_EIP, Step::DETECT_CONFLICT_CE,
	Step::ADD_FIXED_MLP, Step::SOLVE_ALL_EIP, Step::SOLVE_ALL_CE, Step::DETECT_INDIVIDUAL_EDGES, Step::DETECT_AND_SOLVE_TCMLP, Step::DETECT_INTERVALS, Step::DETECT_INTERVALS_PER_DIAG_ZONES, Step::SOLVE_DIAG_ZONES_INTERVALS, Step::MESH};
static void apply(Board& b, int s) {
	switch(s) {
	case 0: b.adjust_edges_to_materials(); break;
	case 1: b.detect_diagonal_angles(); break;
	case 2: b.detect_diagonal_zones(); break;
	case 3: b.solve_diagonal_zones_angles(); break;
	case 4: b.detect_edges_in_polygons(); break;
	case 5: b.detect_colinear_edges(); break;
	case 6: b.add_fixed_meshline_policies(); break;
	case 7: b.auto_solve_all_edge_in_polygon(); break;
	case 8: b.auto_solve_all_colinear_edges(); break;
	case 9: b.detect_individual_edges(); break;
	case 10: b.detect_and_solve_too_close_meshline_policies(); break;
	case 11: b.detect_intervals(); break;
	case 12: b.detect_intervals_per_diagonal_zones(); break;
	case 13: b.solve_diagonal_zones_intervals(); break;
	default: b.mesh();
	}
}
static vector<int> marks() { // from the root to the current point in time
	auto& c = Caretaker::singleton();
	vector<int> r;
	for(auto* t : c.get_current_timepoint()->ancestors(true)) if(auto* a = dynamic_cast<app::Annotation const*>(c.get_annotation(t)))
		r.insert(r.begin(), (int) (std::find(ALL.begin(), ALL.end(), a->before_step) - ALL.begin()));
	return r;
}
#endif

#ifdef P_A01
static void one() {
	auto& c = Caretaker::singleton();
	if(h::evals % 8 == 0) { // the tables
		for(int i = 0; i < 15; ++i) {
			h::begin((Desc() << "step number " << i + 1).o.str());
			auto n = app::next(ALL[i]);
			check(i == 14 ? !n : n && *n == ALL[i + 1], "the step following a step is not the next one of the pipeline");
			check(app::that_and_after(ALL[i]) == std::set<Step>(ALL.begin() + i, ALL.end()), "the steps from a step on are not the rest of the pipeline");
			check(app::index(ALL[i]) == (size_t) i + 1 && app::index(std::nullopt) == 0 && app::index_max() == 15, "a step's number does not follow the order");
		}
	}
	auto l = gen();
	vector<std::pair<int, double>> fx;
	for(int i = h::ri(0, 2); i-- > 0;) fx.push_back({h::ri(0, 2), 10.0 + 20 * h::ri(0, 4)});
	std::set<Step> st;
	vector<int> ix;
	int kind = h::ri(0, 3);
	for(int i = 0; i < 15; ++i) if(kind == 0 || (kind == 1 && i == (int) (h::evals % 15)) || (kind >= 2 && h::coin() && (i < 11 || st.contains(ALL[10])))) { /* (intervals between policies that are not yet spread may not converge) */ st.insert(ALL[i]); ix.push_back(i); }
	Desc d;
	d << "steps";
	for(int i : ix) d << " " << i + 1;
	d << " on ";
	for(auto& p : l) d << str(p);
	for(auto& [a, x] : fx) d << " fixed " << "XYZ"[a] << "@" << x;
	h::begin(d.o.str());
	string want;
	{
		Reset reset;
		auto b = build(l, fx);
		for(int i : ix) apply(*b, i);
		want = dump(*b);
	}
	Reset reset;
	app::OpenEMSH o{app::OpenEMSH::Params()};
	o.board = build(l, fx);
	c.remember_current_timepoint();
	int how = kind == 0 ? h::ri(0, 3) : 0;
	auto* from = c.get_current_timepoint();
	if(how == 0) o.run(st);
	else if(how == 1) o.run_all_steps();
	else if(how == 2) o.run_from_step(ALL[0]);
	else {
		for(int i = 0; i < 15; ++i) { check(o.can_run_a_next_step(), "running step by step ends too early"); o.run_next_step(); auto s = o.get_current_step(); check(marks().size() == (size_t) i + 1, "running the next step does not run exactly one"); }
		check(!o.can_run_a_next_step(), "there is a step after the last one");
	}
	check(dump(*o.board) == want, "the outcome is not that of exactly these steps, once each, in the pipeline's order: " + dump(*o.board) + " instead of " + want);
	check(marks() == ix, "the marks of the steps in history are not those of exactly these steps in order");
	size_t runs = how == 3 ? 15 : ix.empty() ? 0 : 1;
	check((runs == 0 || c.can_undo(runs)) && !c.can_undo(runs + 1) && !c.can_redo(), "a run is not remembered as one entry of the history");
	// the mark precedes the step
	int skip = h::ri(0, 2);		// one by one, or over others
	if(how != 3) for(int k = (int) ix.size() - 1; k >= 0; --k) {
		if(skip && h::ri(0, 3) <= skip) continue;
		o.go_before(ALL[ix[k]]);
		check(marks() == vector<int>(ix.begin(), ix.begin() + k + 1), "going before a step does not reach its mark");
	}
	(void) from;
}
#endif

#ifdef P_S06
static void one() {
	auto& c = Caretaker::singleton();
	auto l = gen();
	vector<std::pair<int, double>> fx;
	for(int i = h::ri(0, 2); i-- > 0;) fx.push_back({h::ri(0, 2), 10.0 + 20 * h::ri(0, 4)});
	int n = h::ri(1, 3);
	vector<int> to;
	Desc d;
	for(auto& p : l) d << str(p);
	for(auto& [a, x] : fx) d << " fixed " << "XYZ"[a] << "@" << x;
	d << " back before";
	for(int i = 0; i < n; ++i) { to.push_back(h::ri(0, 14)); d << " " << to.back() + 1; }
	bool gc = h::coin();
	d << (gc ? " collecting" : "");
	h::begin(d.o.str());
	Reset reset;
	app::OpenEMSH o{app::OpenEMSH::Params()};
	o.board = build(l, fx);
	vector<string> before;
	vector<Timepoint*> end;
	for(int i = 0; i < 15; ++i) { before.push_back(dump(*o.board)); o.run({ALL[i]}); end.push_back(c.get_current_timepoint()); }
	string all = dump(*o.board);
	auto* last = c.get_current_timepoint();
	c.pin_current_timepoint();
	for(int k : to) {
		o.go_before(ALL[k]);
		check(dump(*o.board) == before[k], "going back before step " + std::to_string(k + 1) + " does not restore the design as it was: " + dump(*o.board) + " instead of " + before[k]);
		if(gc) c.garbage_collector();
		o.run_from_step(ALL[k]);
		check(dump(*o.board) == all, "going back before step " + std::to_string(k + 1) + " and running from it on does not give the same result: " + dump(*o.board) + " instead of " + all);
		if(h::coin()) {
			auto* here = c.get_current_timepoint();
			c.go_without_remembering(last);
			check(dump(*o.board) == all, "coming back to the first result does not restore it");
			c.go_without_remembering(here);
			check(dump(*o.board) == all, "coming back to the second result does not restore it");
		}
	}
}
#endif

//============================================================================ A02
#ifdef P_A02
static void one() {
	static bool ready = false;
	static fs::path const dir = fs::current_path() / "a02";
	if(!ready) {
		fs::create_directories(dir);
		for(auto n : {"grid.csx", "plain.csx", "other.csx"}) std::ofstream(dir / n) << "<ContinuousStructure CoordSystem=\"0\"><RectilinearGrid DeltaUnit=\"1\">" << (n[0] == 'g' ? "<XLines>1,2</XLines>" : "") << "</RectilinearGrid><Properties/></ContinuousStructure>";
		ready = true;
	}
	int in = h::ri(0, 3), out = h::ri(0, 4), fmt = h::ri(0, 2), parsed = h::ri(0, 2);
	bool force = h::coin(3);
	char const* ins[] = {"grid.csx", "plain.csx", "gone.csx", "moved.csx"};
	char const* outs[] = {"", "other.csx", "new.csx", "link.csx", "sub"};
	bool parse_first = parsed > 0 && in != 2;
	Desc d;
	d << "input " << ins[in] << (in == 3 ? " (removed after parsing)" : "") << " output " << (out == 0 ? "the input" : outs[out]) << " format " << fmt << (force ? " forced" : "") << (parse_first ? " parsed" : " not parsed");
	h::begin(d.o.str());
	Reset reset;
	fs::remove(dir / "link.csx");
	if(out == 3) fs::create_symlink(dir / "other.csx", dir / "link.csx");
	if(out == 4) fs::create_directories(dir / "sub");
	if(in == 3) fs::copy_file(dir / "grid.csx", dir / "moved.csx", fs::copy_options::overwrite_existing);
	app::OpenEMSH::Params p;
	p.input = dir / ins[in];
	p.output = out == 0 ? p.input : dir / outs[out];
	p.force = force;
	p.output_format = (app::OpenEMSH::Params::OutputFormat) fmt;
	p.override_from_cli = [](Params&) {};
	app::OpenEMSH o(p);
	if(parse_first) check((bool) o.parse(), "parsing fails");
	if(in == 3) fs::remove(dir / "moved.csx");
	if(h::coin(4)) { fmt = h::ri(0, 2); o.set_output_format((app::OpenEMSH::Params::OutputFormat) fmt); }
	if(h::coin(4)) { out = h::ri(0, 2); p.output = out == 0 ? p.input : dir / outs[out]; o.set_output(p.output); }
	bool exists = fs::exists(p.output);
	bool grid = parse_first && (in == 0 || in == 3);
	bool want = !force && fmt == 0 && (exists || (out == 0 && grid));
	check(o.is_about_overwriting() == want, want ? "an overwrite is not announced" : "an overwrite is announced where there is none");
}
#endif

//============================================================================ A03
#ifdef P_A03
struct Shape { int pl; vector<std::pair<double, double>> p; double cx = 0, cy = 0, r = -1; double z0, z1; size_t prio; string mat; bool used = false; };
static string at(char const* n, double x) { return (Desc() << " " << n << "=\"" << x << "\"").o.str(); }
static string pt(char const* tag, double const* p) { return string("<") + tag + at("X", p[0]) + at("Y", p[1]) + at("Z", p[2]) + "/>"; }
static bool same_loop(vector<std::pair<double, double>> a, vector<std::pair<double, double>> b) {
	if(a.size() != b.size()) return false;
	for(int rev = 0; rev < 2; ++rev) {
		for(size_t k = 0; k <= a.size(); ++k) {
			bool eq = true;
			for(size_t i = 0; eq && i < a.size(); ++i) eq = near(a[i].first, b[(i + k) % b.size()].first) && near(a[i].second, b[(i + k) % b.size()].second);
			if(eq) return true;
		}
		std::reverse(b.begin(), b.end());
	}
	return false;
}
static void one() {
	static fs::path const f = fs::current_path() / "a03.csx";
	bool with[3] = {!h::coin(4), !h::coin(4), !h::coin(4)};
	bool under = h::coin();
	vector<Shape> want;
	std::map<int, std::set<double>> lines;
	string x = under ? "<openEMS><FDTD/><ContinuousStructure CoordSystem=\"0\">" : "<ContinuousStructure CoordSystem=\"0\">";
	x += "<RectilinearGrid DeltaUnit=\"1\"/><BackgroundMaterial Epsilon=\"1\" Mue=\"1\" Kappa=\"0\" Sigma=\"0\"/><Properties>";
	int np = h::ri(1, 3);
	auto co = [] { return h::coordv(h::coin() ? h::modeq() : h::modev()); };
	for(int i = 0; i < np; ++i) {
		static char const* const props[] = {"Metal", "Material", "LumpedElement", "Excitation", "ProbeBox", "ConductingSheet", "DumpBox", "DiscMaterial"};
		int pk = h::ri(0, 7);
		bool port = pk >= 2 && pk <= 4, none = pk >= 6;
		string mat = "prop" + std::to_string(i);
		x += string("<") + props[pk] + " Name=\"" + mat + "\">" + (pk == 1 ? "<Property Epsilon=\"4\"/>" : "") + "<Primitives>";
		int k = h::ri(1, 3);
		for(int j = 0; j < k; ++j) {
			int kind = h::ri(0, 10);
			size_t prio = h::ri(0, 20);
			string pa = " Priority=\"" + std::to_string(prio) + "\"";
			bool moved = h::coin(10), empty_tr = h::coin(10);
			string tr = moved ? "<Transformation><Translate Argument=\"1,0,0\"/></Transformation>" : empty_tr ? "<Transformation/>" : "";
			size_t pr = port ? std::numeric_limits<size_t>::max() : prio;
			vector<Shape> s;
			vector<std::pair<int, double>> ln;
			auto box = [&](double const* a, double const* b) {
				for(int p = 0; p < 3; ++p) {
					int u = HA[p], w = VA[p];
					s.push_back({p, {{a[u], a[w]}, {a[u], b[w]}, {b[u], b[w]}, {b[u], a[w]}}, 0, 0, -1, std::min(a[p], b[p]), std::max(a[p], b[p]), pr, mat});
				}
			};
			double a[3] = {co(), co(), co()}, b[3] = {co(), co(), co()};
			double r = h::ri(1, 12) / 4.0;
			switch(kind) {
			case 0: case 1: { // Box
				if(h::coin(4)) { int q = h::ri(0, 2); b[q] = a[q]; }
				box(a, b);
				x += "<Box" + pa + ">" + pt("P1", a) + pt("P2", b) + tr + "</Box>";
				break;
			}
			case 2: { // MultiBox
				x += "<MultiBox" + pa + ">";
				int m = h::ri(1, 3);
				for(int q = 0; q < m; ++q) { double e[3] = {co(), co(), co()}, g[3] = {co(), co(), co()}; box(e, g); x += pt("StartP", e) + pt("EndP", g); }
				x += tr + "</MultiBox>";
				break;
			}
			case 3: case 4: case 5: { // LinPoly, Polygon
				int nd = h::coin(12) ? 3 : h::ri(0, 2);
				bool flat = kind == 5;
				double el = co(), len = flat || h::coin(6) ? 0 : h::ri(1, 9) / 2.0 * (h::coin(5) ? -1 : 1);
				int m = h::ri(3, 6);
				vector<std::pair<double, double>> p;
				string vs;
				double mn[2] = {1e9, 1e9}, mx[2] = {-1e9, -1e9};
				for(int q = 0; q < m; ++q) {
					double e = co(), g = co();
					p.push_back({e, g}); vs += "<Vertex" + at("X1", e) + at("X2", g) + "/>";
					mn[0] = std::min(mn[0], e); mx[0] = std::max(mx[0], e); mn[1] = std::min(mn[1], g); mx[1] = std::max(mx[1], g);
				}
				if(nd < 3) {
					s.push_back({nd, p, 0, 0, -1, std::min(el, el + len), std::max(el, el + len), pr, mat});
					if(len != 0) {
						double e[3], g[3];
						e[nd] = el; g[nd] = el + len;
						e[HA[nd]] = mn[0]; g[HA[nd]] = mx[0]; e[VA[nd]] = mn[1]; g[VA[nd]] = mx[1];
						auto main = s;
						s.clear();
						box(e, g);
						std::erase_if(s, [&](Shape const& y) { return y.pl == nd; });
						s.push_back(main[0]);
					}
					if(flat) ln.push_back({nd, el});
				}
				x += string(flat ? "<Polygon" : "<LinPoly") + pa + at("Elevation", el) + (flat ? "" : at("Length", len)) + " NormDir=\"" + std::to_string(nd) + "\">" + vs + tr + (flat ? "</Polygon>" : "</LinPoly>");
				break;
			}
			case 6: { // Sphere
				for(int p = 0; p < 3; ++p) s.push_back({p, {}, a[HA[p]], a[VA[p]], r, a[p] - r, a[p] + r, pr, mat});
				x += "<Sphere" + pa + at("Radius", r) + ">" + pt("Center", a) + tr + "</Sphere>";
				break;
			}
			case 7: case 8: { // Cylinder
				int ax = h::coin(12) ? 3 : h::ri(0, 2);
				if(ax < 3) {
					for(int q = 0; q < 3; ++q) if(q != ax) b[q] = a[q];
					if(a[ax] == b[ax]) b[ax] = a[ax] + 1;
					s.push_back({ax, {}, a[HA[ax]], a[VA[ax]], r, std::min(a[ax], b[ax]), std::max(a[ax], b[ax]), pr, mat});
					double e[3], g[3];
					for(int q = 0; q < 3; ++q) { e[q] = q == ax ? a[q] : a[q] - r; g[q] = q == ax ? b[q] : a[q] + r; }
					auto main = s;
					s.clear();
					box(e, g);
					std::erase_if(s, [&](Shape const& y) { return y.pl == ax; });
					s.push_back(main[0]);
				} else if((a[0] != b[0]) + (a[1] != b[1]) + (a[2] != b[2]) < 2) b[0] = a[0] + 1, b[1] = a[1] + 1;
				x += "<Cylinder" + pa + at("Radius", r) + ">" + pt("P1", a) + pt("P2", b) + tr + "</Cylinder>";
				break;
			}
			case 9: { // Point, Curve
				if(h::coin()) {
					for(int p = 0; p < 3; ++p) if(with[p]) { ln.push_back({HA[p], a[HA[p]]}); ln.push_back({VA[p], a[VA[p]]}); }
					x += "<Point" + pa + at("X", a[0]) + at("Y", a[1]) + at("Z", a[2]) + ">" + tr + "</Point>";
				} else {
					int m = h::ri(2, 5);
					vector<std::array<double, 3>> vs;
					x += "<Curve" + pa + ">";
					for(int q = 0; q < m; ++q) { vs.push_back({co(), co(), co()}); x += pt("Vertex", vs.back().data()); }
					x += tr + "</Curve>";
					for(int p = 0; p < 3; ++p) {
						Shape y{p, {}, 0, 0, -1, 1e300, -1e300, std::numeric_limits<size_t>::max(), mat};
						for(auto& w : vs) { y.z0 = std::min(y.z0, w[p]); y.z1 = std::max(y.z1, w[p]); }
						for(int q = 0; q < m; ++q) y.p.push_back({vs[q][HA[p]], vs[q][VA[p]]});
						for(int q = m - 2; q >= 1; --q) y.p.push_back({vs[q][HA[p]], vs[q][VA[p]]});
						s.push_back(y);
					}
				}
				break;
			}
			default: {
				static char const* const un[] = {"Polyhedron", "RotPoly", "SphericalShell", "CylindricalShell", "Wire", "Whatever"};
				string t = un[h::ri(0, 5)];
				x += "<" + t + pa + ">" + pt("P1", a) + pt("P2", b) + pt("Center", a) + "</" + t + ">";
			}
			}
			if(!none && !moved) {
				for(auto& y : s) if(with[y.pl]) want.push_back(y);
				for(auto& [q, c] : ln) lines[q].insert(c);
			}
		}
		x += string("</Primitives></") + props[pk] + ">";
	}
	x += under ? "</Properties></ContinuousStructure></openEMS>" : "</Properties></ContinuousStructure>";
	Desc d;
	d << (with[0] ? "" : "without YZ ") << (with[1] ? "" : "without ZX ") << (with[2] ? "" : "without XY ") << x;
	h::begin(d.o.str());
	{ std::ofstream o(f); o << x; }
	Reset reset;
	ParserFromCsx::Params p;
	p.with_yz = with[0]; p.with_zx = with[1]; p.with_xy = with[2];
	auto b = ParserFromCsx::run(f, p);
	check(b.has_value(), "a well-formed file is refused");
	for(int k = 0; k < 3; ++k) {
		for(auto& q : (*b)->get_polygons(PL[k])) {
			check(with[k], string("a shape on plane ") + pln[k] + ", which is not selected");
			vector<std::pair<double, double>> l;
			for(auto& e : q->points) l.push_back({v(e->x), v(e->y)});
			bool ok = false;
			for(auto& w : want) if(!w.used && w.pl == k && w.prio == q->priority && near(w.z0, v(q->z_placement.min)) && near(w.z1, v(q->z_placement.max)) && q->material && w.mat == q->material->name) {
				if(w.r < 0) ok = same_loop(w.p, l);
				else {
					ok = l.size() >= 12;
					for(size_t i = 0; ok && i < l.size(); ++i) {
						auto& a = l[i]; auto& c = l[(i + 1) % l.size()];
						ok = std::fabs(std::hypot(a.first - w.cx, a.second - w.cy) - w.r) < 1e-6 * (1 + w.r + std::fabs(w.cx) + std::fabs(w.cy)) && std::hypot(a.first - c.first, a.second - c.second) < 0.7 * w.r;
					}
				}
				if(ok) { w.used = true; break; }
			}
			Desc e;
			e << "a shape on plane " << pln[k] << " that no primitive explains: priority " << q->priority << " heights " << v(q->z_placement.min) << ".." << v(q->z_placement.max);
			for(size_t i = 0; i < l.size() && i < 6; ++i) e << " (" << l[i].first << "," << l[i].second << ")";
			if(!ok) check(false, e.o.str());
		}
	}
	for(auto& w : want) if(!w.used) {
		Desc e;
		e << "a primitive's shape is missing on plane " << pln[w.pl] << ": priority " << w.prio << " heights " << w.z0 << ".." << w.z1;
		for(size_t i = 0; i < w.p.size() && i < 6; ++i) e << " (" << w.p[i].first << "," << w.p[i].second << ")";
		if(w.r >= 0) e << " circle around (" << w.cx << "," << w.cy << ") radius " << w.r;
		check(false, e.o.str());
	}
	(*b)->add_fixed_meshline_policies();
	for(int k = 0; k < 3; ++k) {
		std::set<double> got;
		for(auto& q : (*b)->get_meshline_policies(AX[k])) got.insert(v(q->coord));
		for(double c : got) check(lines[k].contains(c), "a fixed line that no primitive asks for");
		for(double c : lines[k]) { bool has = false; for(double g : got) has = has || std::fabs(g - c) < 1e-8; check(has, "a fixed line asked for by a point or a flat polygon is missing"); }
	}
}
#endif

//============================================================================ A04
#ifdef P_A04
static string text(pugi::xml_node const& n) { std::ostringstream o; n.print(o, " ", pugi::format_raw); return o.str(); }
static void one() {
	static fs::path const in = fs::current_path() / "a04_in.csx", out2 = fs::current_path() / "a04_out.csx";
	bool under = h::coin(), had_grid = h::coin(), had_oemsh = h::coin(), inplace = h::coin(4);
	SerializerToCsx::Params p;
	p.with_meshlines = !h::coin(3); p.with_meshline_policies = h::coin();
	p.with_axis_x = !h::coin(4); p.with_axis_y = !h::coin(4); p.with_axis_z = !h::coin(4);
	p.with_oemsh_params = h::coin();
	string x;
	if(had_oemsh) x += "<OpenEMSH><GlobalParams lmin=\"77\" foo=\"1\"/><FixedMeshlines><XLines>1,2</XLines></FixedMeshlines></OpenEMSH>";
	x += under ? "<openEMS a=\"1\"><FDTD NumberOfTimesteps=\"9\"/><ContinuousStructure CoordSystem=\"0\">" : "<ContinuousStructure CoordSystem=\"0\">";
	if(had_grid) x += "<RectilinearGrid DeltaUnit=\"0.001\" CoordSystem=\"0\"><XLines>1,2,3</XLines><YLines/><ZLines>5</ZLines></RectilinearGrid>";
	x += "<Properties><Metal Name=\"m\"><Primitives><Box Priority=\"3\"><P1 X=\"1\" Y=\"2\" Z=\"3\"/><P2 X=\"1\" Y=\"2\" Z=\"3\"/></Box></Primitives></Metal></Properties>";
	x += under ? "</ContinuousStructure><Other>t</Other></openEMS>" : "</ContinuousStructure>";
	vector<double> ml[3], pl[3];
	auto co = [] {
		double c = h::coordv(h::modev());
		int k = h::ri(0, 9);
		if(k == 0) c *= 1e-7;
		else if(k == 1) c = c / 3;
		else if(k == 2) c *= 1e6;
		else if(k == 3) c = c * 1e-3 + 1e-9;
		return c;
	};
	Desc d;
	for(int a = 0; a < 3; ++a) {
		int n = h::ri(0, 5), m = h::ri(0, 4);
		for(int i = 0; i < n; ++i) ml[a].push_back(co());
		for(int i = 0; i < m; ++i) pl[a].push_back(co());
		std::sort(ml[a].begin(), ml[a].end());
		d << "XYZ"[a] << " lines";
		for(double c : ml[a]) d << " " << c;
		d << " policy lines";
		for(double c : pl[a]) d << " " << c;
		d << "; ";
	}
	d << (p.with_meshlines ? "" : "no lines ") << (p.with_meshline_policies ? "with policy lines " : "") << (p.with_axis_x ? "" : "no X ") << (p.with_axis_y ? "" : "no Y ") << (p.with_axis_z ? "" : "no Z ") << (p.with_oemsh_params ? "with parameters " : "") << (inplace ? "in place " : "") << x;
	h::begin(d.o.str());
	{ std::ofstream o(in); o << x; }
	fs::remove(out2);
	fs::path const out = inplace ? in : out2;
	pugi::xml_document before, after;
	check((bool) before.load_file(in.c_str()), "oracle: bad input");
	Reset reset;
	Params gp;
	gp.proximity_limit = h::ri(1, 9) / 8.0; gp.smoothness = 1 + h::ri(1, 8) / 8.0; gp.lmin = h::ri(1, 9); gp.dmax = h::ri(1, 50) / 4.0;
	Params const g0 = gp;
	Board::Builder bb;
	auto b = bb.build(std::move(gp));
	auto& mm = *b->line_policy_manager;
	for(int a = 0; a < 3; ++a) for(double c : pl[a]) check(mm.add_meshline_policy({}, AX[a], MeshlinePolicy::Policy::ONELINE, MeshlinePolicy::Normal::NONE, c, true, mm.next_timepoint()) != nullptr, "oracle: policy refused");
	{
		auto [t, s] = mm.make_next_state();
		for(int a = 0; a < 3; ++a) for(double c : ml[a]) s.meshlines[AX[a]].push_back(make_shared<Meshline>(c, (Interval const*) nullptr));
		mm.set_state(t, s);
	}
	vector<double> want[3];
	for(int a = 0; a < 3; ++a) {
		if(p.with_meshlines) for(double c : ml[a]) want[a].push_back(c);
		if(p.with_meshline_policies) for(auto& l : b->get_meshline_policies_meshlines(AX[a])) want[a].push_back(v(l->coord));
		if(p.with_meshline_policies) check(b->get_meshline_policies_meshlines(AX[a]).size() == pl[a].size(), "oracle: policy lines");
	}
	auto r = SerializerToCsx::run(*b, in, out, p);
	check(r.has_value(), "writing fails");
	check((bool) after.load_file(out.c_str()), "the written file is not readable");
	string top = under ? "/openEMS/ContinuousStructure" : "/ContinuousStructure";
	check(after.select_nodes((top + "/RectilinearGrid").c_str()).size() == 1, "there is not exactly one grid");
	auto grid = after.select_node((top + "/RectilinearGrid").c_str()).node();
	bool with[3] = {p.with_axis_x, p.with_axis_y, p.with_axis_z};
	char const* const names[3] = {"XLines", "YLines", "ZLines"};
	size_t kids = 0;
	for(auto k : grid.children()) { (void) k; ++kids; }
	check(kids == (size_t) with[0] + with[1] + with[2], "the grid does not hold one line list per selected axis");
	for(int a = 0; a < 3; ++a) if(with[a]) {
		check(!grid.child(names[a]).empty(), string("no line list for a selected axis: ") + names[a]);
		string t = grid.child(names[a]).child_value();
		vector<double> got;
		if(!t.empty()) {
			std::istringstream is(t);
			string e;
			while(std::getline(is, e, ',')) { check(!e.empty(), "an empty entry in a line list: " + t); char* q; got.push_back(std::strtod(e.c_str(), &q)); check(*q == 0, "an entry of a line list is not a number: " + e); }
			check(t.back() != ',', "a line list ends with a comma");
		}
		check(got.size() == want[a].size(), string("the line list does not hold exactly the selected lines: ") + names[a] + " " + t);
		for(size_t i = 0; i < got.size(); ++i) check(got[i] == want[a][i], string("a written line is not at its coordinate: ") + h::num(got[i]) + " instead of " + h::num(want[a][i]));
	}
	if(had_grid) check(string(grid.attribute("DeltaUnit").as_string()) == "0.001", "the grid's unit is lost");
	// parameters
	auto oe = after.child("OpenEMSH");
	check(oe.empty() == !p.with_oemsh_params, "the mesher parameters do not appear exactly when requested");
	if(p.with_oemsh_params) {
		auto g = oe.child("GlobalParams");
		check(g.attribute("ProximityLimit").as_double() == g0.proximity_limit && g.attribute("Smoothness").as_double() == g0.smoothness && g.attribute("dmax").as_double() == g0.dmax && g.attribute("lmin").as_uint() == g0.lmin, "the written mesher parameters are not those in use");
	}
	// everything else
	auto strip = [&](pugi::xml_document& q) {
		auto cs = q.select_node(top.c_str()).node();
		check(!cs.empty(), "the structure is lost");
		while(cs.remove_child("RectilinearGrid"));
		auto w = q.child("OpenEMSH");
		w.remove_child("GlobalParams");
		if(!p.with_oemsh_params || w.first_child().empty()) q.remove_child("OpenEMSH");
	};
	strip(before);
	strip(after);
	check(text(before) == text(after), "something else of the structure changed: " + text(after));
	// an output that cannot be written is reported
	if(h::coin(16)) check(!SerializerToCsx::run(*b, in, fs::current_path() / "no_such_directory" / "x.csx", p).has_value(), "a file that cannot be written is not reported");
}
#endif

//============================================================================ A05
#ifdef P_A05
static void one() {
	using T = Material::Type;
	T const by_rank[] = {T::AIR, T::DIELECTRIC, T::CONDUCTOR, T::PORT};
	int i = h::ri(0, 3), j = h::ri(0, 3);
	auto pv = [](double d) { int k = h::ri(0, 6); return k < 3 ? d : k == 3 ? std::nextafter(d, 1e9) : k == 4 ? std::nextafter(d, -1e9) : k == 5 ? h::coordv(h::modev()) : d + h::ri(-2, 6) / 2.0; };
	double e = pv(1), m = pv(1), k = pv(0);
	h::begin((Desc() << "ranks " << i << " " << j << " epsilon " << e << " mue " << m << " kappa " << k).o.str());
	Material a(by_rank[i], "a"), b(by_rank[j], "b");
	auto o = a <=> b;
	check(std::is_lt(o) == (i < j) && std::is_gt(o) == (i > j) && std::is_eq(o) == (i == j), "materials are not ranked port over conductor over dielectric over air");
	check((a < b) == (i < j) && (a > b) == (i > j) && (a <= b) == (i <= j) && (a >= b) == (i >= j), "comparisons do not agree with the ranking");
	T want = e == 1 && m == 1 && k == 0 ? T::AIR : e == 1 && m == 1 && k > 0 ? T::CONDUCTOR : T::DIELECTRIC;
	check(Material::deduce_type(e, m, k) == want, "the kind of material deduced from the parameters is wrong");
}
#endif

//============================================================================ A06
#ifdef P_A06
template<class E> static void names(char const* what, vector<std::pair<E, string>> const& l) {
	std::set<string> seen;
	for(auto& [e, n] : l) {
		h::begin(string(what) + " " + n);
		string g = to_string(e);
		check(g == n, string("a ") + what + " is shown as " + g + " instead of " + n);
		check(seen.insert(g).second, string("two different values of ") + what + " share the name " + g);
	}
}
static void one() {
	names<Axis>("axis", {{X, "X"}, {Y, "Y"}, {Z, "Z"}});
	names<Plane>("plane", {{YZ, "YZ"}, {ZX, "ZX"}, {XY, "XY"}});
	names<Normal>("normal", {{Normal::XMIN, "XMIN"}, {Normal::XMAX, "XMAX"}, {Normal::YMIN, "YMIN"}, {Normal::YMAX, "YMAX"}, {Normal::ZMIN, "ZMIN"}, {Normal::ZMAX, "ZMAX"}, {Normal::NONE, "NONE"}});
	names<Edge::Direction>("edge direction", {{Edge::Direction::XMIN, "XMIN"}, {Edge::Direction::XMAX, "XMAX"}, {Edge::Direction::YMIN, "YMIN"}, {Edge::Direction::YMAX, "YMAX"}, {Edge::Direction::NONE, "NONE"}});
	using MP = MeshlinePolicy;
	names<MP::Normal>("policy side", {{MP::Normal::MIN, "MIN"}, {MP::Normal::MAX, "MAX"}, {MP::Normal::NONE, "NONE"}});
	names<MP::Policy>("policy", {{MP::Policy::ONELINE, "ONELINE"}, {MP::Policy::HALFS, "HALFS"}, {MP::Policy::THIRDS, "THIRDS"}});
	names<Polygon::Rotation>("rotation", {{Polygon::Rotation::CW, "CW"}, {Polygon::Rotation::CCW, "CCW"}, {Polygon::Rotation::COLINEAR, "COLINEAR"}});
	names<Segment::Axis>("orientation", {{Segment::Axis::H, "H"}, {Segment::Axis::V, "V"}, {Segment::Axis::DIAGONAL, "DIAGONAL"}, {Segment::Axis::POINT, "POINT"}});
	names<Material::Type>("material kind", {{Material::Type::PORT, "PORT"}, {Material::Type::CONDUCTOR, "CONDUCTOR"}, {Material::Type::DIELECTRIC, "DIELECTRIC"}, {Material::Type::AIR, "AIR"}});
}
#endif

//============================================================================ A07
#ifdef P_A07
static void one() {
	int n = h::coin(8) ? h::ri(0, 40) : h::ri(0, 8), m = h::ri(1, 4);
	vector<int> l;
	for(int i = 0; i < n; ++i) l.push_back(h::ri(0, m));
	int k = h::ri(-1, m + 1), bits = h::ri(0, (1 << (m + 1)) - 1);
	double x = h::coin(5) ? 0.0 : h::coin(5) ? std::nextafter(0.0, h::coin() ? 1.0 : -1.0) : h::coordv(h::modev());
	Desc d;
	d << "list";
	for(int i : l) d << " " << i;
	d << " looked up " << k << " matching " << bits << " number " << x;
	h::begin(d.o.str());
	vector<unique_ptr<int>> us;
	vector<shared_ptr<int>> ss;
	for(int i : l) { us.push_back(make_unique<int>(i)); ss.push_back(make_shared<int>(i)); }
	if(n && h::coin(4)) { us[h::rnd() % n].reset(); ss[h::rnd() % n].reset(); }
	auto vu = create_view(us);
	auto vs = create_view(ss);
	check(vu.size() == us.size() && vs.size() == ss.size(), "a view does not list as many objects as there are owners");
	for(int i = 0; i < n; ++i) check(vu[i] == us[i].get() && vs[i] == ss[i].get(), "a view does not list the owned objects in order");
	auto lit = n == 0 ? from_init_list<int>({}) : n == 1 ? from_init_list<int>({l[0]}) : n == 2 ? from_init_list<int>({l[0], l[1]}) : from_init_list<int>({l[0], l[1], l[2]});
	check(lit.size() == (size_t) std::min(n, 3), "a list copied from a literal has another length");
	for(size_t i = 0; i < lit.size(); ++i) check(lit[i] && *lit[i] == l[i], "a list copied from a literal holds other elements");
	check(contains(l, k) == (std::count(l.begin(), l.end(), k) > 0), "membership is not exact");
	auto pr = [&](int i) { return (bits >> i & 1) != 0; };
	check(contains_that(l, pr) == (std::count_if(l.begin(), l.end(), pr) > 0), "membership by predicate is not exact");
	vector<vector<int>> want;
	for(int i = 0; i < n; ++i) if(pr(l[i])) { if(i == 0 || !pr(l[i - 1])) want.push_back({}); want.back().push_back(l[i]); }
	check(find_consecutive_matches(l, pr) == want, "the runs of matching elements are not those of the list");
	check(signum(x) == (x > 0 ? 1 : x < 0 ? -1 : 0) && signum(k) == (k > 0 ? 1 : k < 0 ? -1 : 0), "the sign of a number is wrong");
	check(signum(Coord(x)) == (x > 0 ? 1 : x < 0 ? -1 : 0), "the sign of a coordinate is wrong");
}
#endif

int main(int argc, char** argv) {
	h::init(argc, argv);
	while(h::more()) one();
	return h::done();
}
