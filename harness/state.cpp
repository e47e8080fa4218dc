// Executable oracles for the history layer.  Compiled with -DP_<id> for one property.
#include "utils/state_management.hpp"
#include "utils/tree_node.hpp"
#include "h.hpp"

using std::vector;
using std::shared_ptr;
using std::make_shared;
using std::size_t;
using std::string;
using h::Desc;
using h::check;
using TN = TreeNode;

#ifdef P_S05
static void one() {
	int n = h::ri(1, h::coin(6) ? 40 : 10);
	vector<int> par{-1};
	Desc d;
	d << "parents";
	bool chain = h::coin(4);
	for(int i = 1; i < n; ++i) { par.push_back(chain && !h::coin(6) ? i - 1 : h::ri(0, i - 1)); d << " " << par.back(); }
	h::begin(d.o.str());
	TN root;
	vector<TN*> t{&root};
	for(int i = 1; i < n; ++i) t.push_back(&t[par[i]]->add_child());
	auto anc = [&](int i, bool self) { vector<TN*> r; if(self) r.push_back(t[i]); while(par[i] >= 0) { i = par[i]; r.push_back(t[i]); } return r; };
	for(int k = 0; k < 6; ++k) {
		int a = h::rnd() % n, b = h::coin(8) ? a : (int) (h::rnd() % n);
		if(k == 0) d << " ;";
		d << " (" << a << "," << b << ")";
		std::strncpy(h::cur, d.o.str().c_str(), sizeof h::cur - 1);
		auto as = anc(a, true), bs = anc(b, true), ax = anc(a, false), bx = anc(b, false);
		check(t[a]->parent() == (par[a] < 0 ? nullptr : t[par[a]]), "the parent of a node is not the node it was added to");
		check(t[a]->ancestors(true) == as && t[a]->ancestors(false) == ax && t[a]->ancestors() == ax, "ancestors are not the chain of parents, nearest first");
		check(t[a]->root() == &root, "the root is not the last of the chain");
		check(t[a]->is_root() == (par[a] < 0), "is_root");
		bool desc = std::find(ax.begin(), ax.end(), t[b]) != ax.end();
		check(t[a]->is_descendant_of(*t[b]) == desc, "the descendant test does not agree with the chain of parents");
		check(t[b]->is_ancestor_of(*t[a]) == desc, "the ancestor test is not the mirror image of the descendant test");
		check(!t[a]->is_descendant_of(*t[a]) && !t[a]->is_ancestor_of(*t[a]), "a node is its own descendant");
		auto nearest = [](vector<TN*> const& x, vector<TN*> const& y) { for(auto* i : x) if(std::find(y.begin(), y.end(), i) != y.end()) return i; return (TN*) nullptr; };
		auto* w = nearest(as, bs);
		check(t[a]->common_ancestor(*t[b], true) == w && t[a]->common_ancestor(*t[b]) == w && common_ancestor(*t[a], *t[b]) == w, "the common ancestor is not the nearest node on both chains");
		check(t[b]->common_ancestor(*t[a], true) == w && common_ancestor(*t[b], *t[a], true) == w, "the common ancestor depends on which node is asked");
		auto* s = nearest(ax, bx);
		check(t[a]->common_ancestor(*t[b], false) == s && t[b]->common_ancestor(*t[a], false) == s && common_ancestor(*t[a], *t[b], false) == s, "the strict common ancestor is not the nearest node on both strict chains");
	}
}
#endif

#if defined P_S01 || defined P_S02 || defined P_S03
struct OC final : public Originator<int const> { OC(Timepoint* t, int v, Caretaker& c) : Originator<int const>(t, v, c) {} };
struct OM final : public Originator<int> { OM(Timepoint* t, int v, Caretaker& c) : Originator<int>(t, v, c) {} };
struct Ann final : public IAnnotation { int v; explicit Ann(int v) : v(v) {} };

struct Obj { // reference model of one object
	shared_ptr<OC> c;
	shared_ptr<OM> m;
	bool cared = false;
	int init;
	vector<std::pair<int, int>> rec; // node, value; in recording order
	int shown;                       // node presented
	template<class F> auto with(F f) const { return c ? f(*c) : f(*m); }
};

struct Tree { vector<int> par; vector<Timepoint*> ptr; vector<bool> alive; };

static void one() {
	Caretaker ct;
	ct.set_auto_gc(false);
	Tree T;
	T.par = {-1}; T.ptr = {ct.get_history_root()}; T.alive = {true};
	int cur = 0, clock = 100;
	vector<int> pins, hist{0};
	std::map<int, int> ann;
	vector<Obj> obs;
	Desc d;
	d << "history:";
	auto note = [&] { std::strncpy(h::cur, d.o.str().c_str(), sizeof h::cur - 1); };
	auto above = [&](int a, int t) { for(; t >= 0; t = T.par[t]) if(t == a) return true; return false; };
	auto index = [&](Timepoint* p) { for(size_t i = 0; i < T.ptr.size(); ++i) if(T.alive[i] && T.ptr[i] == p) return (int) i; return -1; };
	auto grow = [&](Timepoint* p) { check(p && index(p) < 0, "the next point in time is not a new one"); T.par.push_back(cur); T.ptr.push_back(p); T.alive.push_back(true); cur = (int) T.ptr.size() - 1;
		check(p->parent() == T.ptr[T.par.back()], "the next point in time is not a child of the current one"); };
	auto some = [&] { int k; do k = (int) (h::rnd() % T.ptr.size()); while(!T.alive[k]); return k; };
	auto at = [&](Obj const& o, int t) { int r = o.init; for(auto& [k, v] : o.rec) if(above(k, t)) r = k; return r; };
	auto val = [&](Obj const& o, int k) { for(auto& [n, v] : o.rec) if(n == k) return v; return -1; };
	auto verify = [&](Obj const& o, char const* what) {
		o.with([&](auto& x) { check(x.get_current_timepoint() == T.ptr[o.shown] && x.get_current_state() == val(o, o.shown), what); });
	};
	auto verify_all = [&](Obj const& o) {
		o.with([&](auto& x) {
			auto l = x.get_available_states();
			check(l.size() == o.rec.size(), "the number of recorded states is wrong");
			for(size_t i = 0; i < l.size(); ++i) check(l[i].first == T.ptr[o.rec[i].first] && l[i].second == o.rec[i].second, "a recorded state changed or is out of order");
			check(x.get_init_timepoint() == T.ptr[o.init], "the initial point in time changed");
		});
	};
	int steps = h::ri(3, h::coin(5) ? 60 : 18);
	bool lazy = h::coin(); // half of the cases only look at the end, so that moves accumulate
	h::begin("", false);
	for(int s = 0; s < steps; ++s) {
		int k = h::ri(0, 15);
		if(obs.empty()) k = 0;
		if(k == 0) {
			int t = h::coin(3) ? cur : some();
			Obj o; o.init = t; o.shown = t; o.cared = !h::coin(6);
			int v = ++clock; o.rec = {{t, v}};
			d << " new" << obs.size() << (o.cared ? "" : "(free)") << "@" << t; note();
			if(h::coin()) { o.c = make_shared<OC>(T.ptr[t], v, ct); if(o.cared) ct.take_care_of(o.c); }
			else { o.m = make_shared<OM>(T.ptr[t], v, ct); if(o.cared) ct.take_care_of(o.m); }
			obs.push_back(o);
		} else if(k <= 4) { // record
			auto& o = obs[h::rnd() % obs.size()];
			int v = ++clock;
			if(k <= 2) {
				d << " rec" << &o - &obs[0]; note();
				switch(h::ri(0, 3)) {
				case 0: o.with([&](auto& x) { x.set_next_state(v); }); grow(ct.get_current_timepoint()); break;
				case 1: o.with([&](auto& x) { x.set_given_or_next_state(v); }); grow(ct.get_current_timepoint()); break;
				case 2: o.with([&](auto& x) { auto [t, st] = x.make_next_state(); check(st == val(o, o.shown), "the copy of the state to change is not the presented one"); grow(t); check(ct.get_current_timepoint() == t, "the next state's time is not current"); x.set_state(t, v); }); break;
				default: o.with([&](auto& x) { auto* t = x.next_timepoint(); grow(t); x.set_given_or_next_state(v, t); });
				}
				o.rec.push_back({cur, v}); o.shown = cur;
			} else {
				int t = h::coin(3) ? o.rec[h::rnd() % o.rec.size()].first : some();
				if(!T.alive[t]) continue;
				d << " rec" << &o - &obs[0] << "@" << t; note();
				o.with([&](auto& x) { x.set_state(T.ptr[t], v); });
				bool has = false;
				for(auto& [n, w] : o.rec) if(n == t) { has = true; if(o.m) w = v; }
				if(!has) { o.rec.push_back({t, v}); o.shown = t; }
			}
			if(!lazy) { verify(o, "a state just recorded is not the presented one"); verify_all(o); }
		} else if(k <= 6) {
			d << " next"; note();
			grow(ct.make_next_timepoint());
		} else if(k <= 9) {
			int t = some();
			d << " go" << t; note();
			check(ct.go_without_remembering(T.ptr[t]) && ct.get_current_timepoint() == T.ptr[t], "going to a point in time fails");
			cur = t;
			for(auto& o : obs) if(o.cared) o.shown = at(o, t);
			if(!lazy) for(auto& o : obs) verify(o, "after moving, an object does not present its latest state on the path");
		} else if(k == 10) {
			d << " again"; note();
			ct.go_without_remembering(T.ptr[cur]);
			for(auto& o : obs) if(o.cared) o.shown = at(o, cur);
		} else if(k == 11) {
			Timepoint other;
			check(!ct.go_without_remembering(nullptr) && !ct.go_without_remembering(&other) && ct.get_current_timepoint() == T.ptr[cur], "going outside of the history is not refused");
		} else if(k == 12) {
			d << " pin"; note(); ct.pin_current_timepoint(); if(std::find(pins.begin(), pins.end(), cur) == pins.end()) pins.push_back(cur);
			if(h::coin(4) && !pins.empty()) { int p = pins[h::rnd() % pins.size()]; d << " unpin" << p; note(); ct.unpin(T.ptr[p]); std::erase(pins, p); }
		} else if(k == 13) {
			d << " remember"; note(); ct.remember_current_timepoint(); if(hist.back() != cur) hist.push_back(cur);
		} else if(k == 14) {
			d << " annotate"; note(); int v = ++clock; ct.annotate_current_timepoint(std::make_unique<Ann>(v)); ann.emplace(cur, v);
		} else {
			if(h::coin(3) && !obs.empty()) { int i = h::rnd() % obs.size(); d << " drop" << i; note(); obs.erase(obs.begin() + i); }
			d << " gc"; note();
			if(h::coin()) ct.garbage_collector();
			else { ct.set_auto_gc(true); int p = pins.empty() || h::coin() ? -1 : pins[h::rnd() % pins.size()]; ct.unpin(p < 0 ? nullptr : T.ptr[p]); if(p >= 0) { std::erase(pins, p); d << " unpin" << p; note(); } ct.set_auto_gc(false); }
			vector<bool> keep(T.ptr.size(), false);
			auto mark = [&](int t) { for(; t >= 0; t = T.par[t]) keep[t] = true; };
			for(int p : pins) mark(p);
			for(int p : hist) mark(p);
			mark(cur);
			auto left = ct.get_history_root()->cluster(true);
			std::set<Timepoint*> ls(left.begin(), left.end());
			size_t kept = 0;
			for(size_t i = 0; i < keep.size(); ++i) if(keep[i]) { ++kept; check(ls.contains(T.ptr[i]), "a point in time that is still reachable was removed"); }
			check(left.size() == kept, "a point in time that nothing reaches was kept");
			for(auto& [t, v] : ann) if(keep[t]) { auto* a = dynamic_cast<Ann*>(ct.get_annotation(T.ptr[t])); check(a && a->v == v, "an annotation of a kept point in time is gone"); }
			for(size_t i = 0; i < keep.size(); ++i) if(T.alive[i] && !keep[i] && ann.contains(i)) { check(!ct.get_annotation(T.ptr[i]), "an annotation of a removed point in time is left"); }
			std::erase_if(ann, [&](auto const& x) { return !keep[x.first]; });
			bool zombie = false;
			for(auto& o : obs) {
				if(o.cared) std::erase_if(o.rec, [&](auto const& r) { return !keep[r.first] && r.first != o.init && r.first != o.shown; });
				verify_all(o);
				verify(o, "collecting changed the state an object presents");
				for(auto& r : o.rec) zombie = zombie || !keep[r.first];
			}
			for(size_t i = 0; i < keep.size(); ++i) T.alive[i] = keep[i];
			if(zombie) break; // an object refers to a time that is gone: its further use is not defined
		}
		if(!lazy) for(auto& o : obs) verify(o, "an object does not present the state it should");
	}
	for(auto& o : obs) { verify(o, "an object does not present the state it should"); verify_all(o); }
	for(auto& [t, v] : ann) if(T.alive[t]) { auto* a = dynamic_cast<Ann*>(ct.get_annotation(T.ptr[t])); check(a && a->v == v, "an annotation is gone"); }
	// there and back
	bool ok = true;
	for(auto& o : obs) for(auto& r : o.rec) ok = ok && T.alive[r.first];
	if(ok) for(int i = 0; i < 3; ++i) {
		int back = cur, t = some();
		d << " go" << back; note(); ct.go_without_remembering(T.ptr[back]);
		vector<int> seen;
		for(auto& o : obs) { if(o.cared) o.shown = at(o, back); verify(o, "after moving, an object does not present its latest state on the path"); seen.push_back(o.with([](auto& x) { return (int) x.get_current_state(); })); }
		d << " go" << t << " go" << back; note();
		ct.go_without_remembering(T.ptr[t]);
		if(h::coin()) for(auto& o : obs) { int k = o.cared ? at(o, t) : o.shown; o.with([&](auto& x) { check(x.get_current_state() == val(o, k), "after moving, an object does not present its latest state on the path"); }); }
		ct.go_without_remembering(T.ptr[back]);
		for(size_t j = 0; j < obs.size(); ++j) obs[j].with([&](auto& x) { check(x.get_current_state() == seen[j], "moving away and back does not restore what was seen"); });
		cur = back;
	}
	h::begin(d.o.str());
}
#endif

#ifdef P_S04
static void one() {
	Caretaker ct;
	ct.set_auto_gc(false);
	vector<Timepoint*> hist{ct.get_history_root()};
	Timepoint* cur = hist[0];
	int pos = -1; // browsing position counted from the end, -1: not browsing
	vector<Timepoint*> nodes{cur};
	Desc d;
	d << "history:";
	auto note = [&] { std::strncpy(h::cur, d.o.str().c_str(), sizeof h::cur - 1); };
	int steps = h::ri(3, h::coin(5) ? 60 : 20);
	h::begin("", false);
	auto remembered = [&] { // another time than the one browsed: forgets what was undone
		if(hist[hist.size() - 1 - std::max(pos, 0)] == cur) return;
		if(pos >= 0) { hist.resize(hist.size() - pos); pos = -1; }
		hist.push_back(cur);
	};
	for(int s = 0; s < steps; ++s) {
		int n = (int) hist.size();
		int behind = pos >= 0 ? n - 1 - pos : hist.back() == cur ? n - 1 : n;
		int ahead = pos >= 0 ? pos : 0;
		for(int k = 0; k <= n + 2; ++k) {
			d << ""; 
			check(ct.can_undo(k) == (k > 0 && k <= behind), "undo is possible for another number of steps than were remembered behind: " + std::to_string(k) + " of " + std::to_string(behind));
			check(ct.can_redo(k) == (k > 0 && k <= ahead), "redo is possible for another number of steps than were undone ahead: " + std::to_string(k) + " of " + std::to_string(ahead));
		}
		check(ct.can_undo() == (behind >= 1) && ct.can_redo() == (ahead >= 1), "the default is not one step");
		check(ct.get_current_timepoint() == cur, "the current point in time is wrong");
		switch(h::ri(0, 8)) {
		case 0: case 1: {
			d << " new"; note();
			auto* t = ct.make_next_timepoint();
			check(t->parent() == cur, "the new point in time is not a child of the current one");
			if(pos >= 0) { hist.resize(n - pos); pos = -1; }
			cur = t; nodes.push_back(t);
			if(h::coin()) { d << " remember"; note(); ct.remember_current_timepoint(); remembered(); }
			break;
		}
		case 2: d << " remember"; note(); ct.remember_current_timepoint(); remembered(); break;
		case 3: {
			auto* t = nodes[h::rnd() % nodes.size()];
			bool r = h::coin();
			d << (r ? " go+remember#" : " go#") << t->id - nodes[0]->id; note();
			check(r ? ct.go_and_remember(t) : ct.go_without_remembering(t), "going is refused");
			cur = t;
			if(r) remembered();
			break;
		}
		case 4: case 5: case 6: {
			int k = h::coin() ? 1 : h::ri(0, n + 1);
			d << " undo" << k; note();
			if(k == 1 && h::coin()) ct.undo(); else ct.undo(k);
			if(k > 0 && k <= behind) {
				bool exact = hist[n - 1 - std::max(pos, 0)] == cur; // only remembered steps are undone
				int np = pos >= 0 ? pos + k : hist.back() == cur ? k : k - 1;
				auto* from = cur;
				cur = hist[n - 1 - np];
				check(ct.get_current_timepoint() == cur, "undo does not reach the point in time that many remembered steps behind");
				int was = pos;
				pos = np > 0 ? np : -1;
				if(exact && h::coin(3)) {
					d << " redo" << k; note();
					ct.redo(k);
					check(ct.get_current_timepoint() == from, "undoing and redoing as many steps does not return to the same point in time");
					cur = from; pos = was;
				}
			} else check(ct.get_current_timepoint() == cur, "an impossible undo changes the point in time");
			break;
		}
		default: {
			int k = h::coin() ? 1 : h::ri(0, n + 1);
			d << " redo" << k; note();
			if(k == 1 && h::coin()) ct.redo(); else ct.redo(k);
			if(k > 0 && k <= ahead) { pos -= k; cur = hist[n - 1 - pos]; if(pos == 0) pos = -1; check(ct.get_current_timepoint() == cur, "redo does not reach the point in time that many steps ahead"); }
			else check(ct.get_current_timepoint() == cur, "an impossible redo changes the point in time");
		}
		}
		note();
	}
	h::begin(d.o.str());
}
#endif

int main(int argc, char** argv) {
	h::init(argc, argv);
	while(h::more()) one();
	return h::done();
}
