From 9c6e2a60800c45c4b3c0995a675ac3fb078863eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:47 +0000
Subject: [PATCH 01/15] fix: no closest pair of policies among fewer than two
 enabled ones

With an infinite proximity limit the uninitialised pair was returned.
---
 src/domain/meshline_policy_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/domain/meshline_policy_manager.cpp b/src/domain/meshline_policy_manager.cpp
index d97b8b9..287d3e7 100644
--- a/src/domain/meshline_policy_manager.cpp
+++ b/src/domain/meshline_policy_manager.cpp
@@ -96,7 +96,7 @@ optional<array<MeshlinePolicy*, 2>> detect_closest_meshline_policies(
 		}
 	}
 
-	if(smallest_space <= proximity_limit)
+	if(dimension.size() >= 2 && smallest_space <= proximity_limit)
 		return closest;
 	else
 		return nullopt;
-- 
2.43.0


From 11dc9b590fcced7f1d2c070e1763fdbba8fc67d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:50 +0000
Subject: [PATCH 02/15] fix: merge and overlap ranges of falling diagonals keep
 their slope

---
 src/domain/geometrics/segment.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/domain/geometrics/segment.cpp b/src/domain/geometrics/segment.cpp
index 534e0d2..518819f 100644
--- a/src/domain/geometrics/segment.cpp
+++ b/src/domain/geometrics/segment.cpp
@@ -24,6 +24,16 @@ static bool are_parallel(Segment const& a, Segment const& b) noexcept {
 		|| (a_vec.y / a_vec.x == b_vec.y / b_vec.x);
 }
 
+/// Range going from xmin to xmax, following the slope of a segment.
+///*****************************************************************************
+static Range diagonal_of_bounding(Segment const& a, Coord const xmin, Coord const xmax, Coord const ymin, Coord const ymax) {
+	bool const is_falling = (a.p0().x < a.p1().x && a.p0().y > a.p1().y)
+	                     || (a.p0().x > a.p1().x && a.p0().y < a.p1().y);
+	return is_falling
+		? Range(Point(xmin, ymax), Point(xmax, ymin))
+		: Range(Point(xmin, ymin), Point(xmax, ymax));
+}
+
 //******************************************************************************
 Segment::Segment(Axis const axis) noexcept
 : axis(axis)
@@ -163,7 +173,7 @@ optional<Range> merge(Segment const& a, Segment const& b) {
 		else if(b_bnd[YMAX] >= a_bnd[YMIN] && b_bnd[YMAX] <= a_bnd[YMAX])
 			ymax = a_bnd[YMAX];
 
-		return Range(Point(xmin, ymin), Point(xmax, ymax));
+		return diagonal_of_bounding(a, xmin, xmax, ymin, ymax);
 	}
 	return nullopt;
 }
@@ -210,7 +220,7 @@ optional<Range> overlap(Segment const& a, Segment const& b) {
 		else if(b_bnd[YMAX] >= a_bnd[YMIN] && b_bnd[YMAX] <= a_bnd[YMAX])
 			ymax = b_bnd[YMAX];
 
-		return Range(Point(xmin, ymin), Point(xmax, ymax));
+		return diagonal_of_bounding(a, xmin, xmax, ymin, ymax);
 	}
 	return nullopt;
 }
-- 
2.43.0


From b3e99f62b11ff34c12d38ced8f0ceb67efe19d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:24 +0000
Subject: [PATCH 03/15] fix: a same-facing overlap never seeds the covered part
 of an edge

---
 src/domain/conflicts/conflict_edge_in_polygon.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/domain/conflicts/conflict_edge_in_polygon.cpp b/src/domain/conflicts/conflict_edge_in_polygon.cpp
index 7ddfa0f..292728f 100644
--- a/src/domain/conflicts/conflict_edge_in_polygon.cpp
+++ b/src/domain/conflicts/conflict_edge_in_polygon.cpp
@@ -81,13 +81,15 @@ void ConflictEdgeInPolygon::auto_solve(MeshlinePolicyManager& /*line_policy_mana
 	auto [t, state] = make_next_state();
 
 	sort_overlaps_by_p0_by_vector_orientation(state.overlaps, edge->vec);
-	Range merged_range(get<RANGE>(state.overlaps.front()));
+	optional<Range> merged_range;
 
 	for(Overlap const& overlap : state.overlaps) {
 		if(!get<EDGE>(overlap).has_value()
 		|| get<EDGE>(overlap).value()->normal != edge->normal) {
-			if(optional<Range> r = merge(get<RANGE>(overlap), merged_range); r)
-				merged_range = r.value();
+			if(!merged_range)
+				merged_range.emplace(get<RANGE>(overlap));
+			else if(optional<Range> r = merge(get<RANGE>(overlap), merged_range.value()); r)
+				merged_range.emplace(r.value());
 			else
 				break;
 		} else {
@@ -96,7 +98,7 @@ void ConflictEdgeInPolygon::auto_solve(MeshlinePolicyManager& /*line_policy_mana
 	}
 
 	auto state_e = edge->get_current_state();
-	state_e.to_mesh = !(merged_range == *edge);
+	state_e.to_mesh = !(merged_range && merged_range.value() == *edge);
 	state_e.conflict = this;
 	state.solution = edge;
 	state.is_solved = true;
-- 
2.43.0


From b91d22d3050f813f5e6169b6bd3064dcb77449b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:09 +0000
Subject: [PATCH 04/15] fix: overlaps of an edge are read along the edge
 whatever way they are oriented

---
 src/domain/conflicts/conflict_edge_in_polygon.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/domain/conflicts/conflict_edge_in_polygon.cpp b/src/domain/conflicts/conflict_edge_in_polygon.cpp
index 292728f..496e428 100644
--- a/src/domain/conflicts/conflict_edge_in_polygon.cpp
+++ b/src/domain/conflicts/conflict_edge_in_polygon.cpp
@@ -61,6 +61,14 @@ void sort_overlaps_by_p0_by_vector_orientation(vector<Overlap>& overlaps, Point
 		});
 }
 
+//******************************************************************************
+static Range orient_by_vector(Range const& range, Point const& vector) noexcept {
+	Point const range_vec(range.p1() - range.p0());
+	return range_vec.x * vector.x + range_vec.y * vector.y < Coord(0)
+		? Range(range.p1(), range.p0())
+		: range;
+}
+
 //******************************************************************************
 ConflictEdgeInPolygon::ConflictEdgeInPolygon(Plane plane, Edge* a, Polygon const* polygon, Range const range, optional<Edge const*> b, Timepoint* t)
 : Originator(t, { .overlaps = {{ polygon, range, b }} })
@@ -80,6 +88,8 @@ void ConflictEdgeInPolygon::append(Polygon const* polygon, Range const range, op
 void ConflictEdgeInPolygon::auto_solve(MeshlinePolicyManager& /*line_policy_manager*/) {
 	auto [t, state] = make_next_state();
 
+	for(Overlap& overlap : state.overlaps)
+		get<RANGE>(overlap) = orient_by_vector(get<RANGE>(overlap), edge->vec);
 	sort_overlaps_by_p0_by_vector_orientation(state.overlaps, edge->vec);
 	optional<Range> merged_range;
 
-- 
2.43.0


From 597e5010a36047a49b156ea2f2baee527f407fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:55 +0000
Subject: [PATCH 05/15] fix: fixed meshline policies take part in the history

---
 src/domain/board.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/domain/board.cpp b/src/domain/board.cpp
index b018913..19ec22c 100644
--- a/src/domain/board.cpp
+++ b/src/domain/board.cpp
@@ -94,6 +94,7 @@ void Board::Builder::add_fixed_meshline_policy(Axis const axis, Coord const coor
 					MeshlinePolicy::Policy::ONELINE,
 					MeshlinePolicy::Normal::NONE,
 					coord,
+					true,
 					t);
 	});
 }
@@ -611,9 +612,8 @@ void Board::add_fixed_meshline_policies(Axis axis) {
 		fixed_meshline_policy_creators[axis].size(),
 		"["s + to_string(axis) + "] Adding fixed Meshline Policies ");
 
-	auto* t = next_timepoint();
 	for(auto const& create_meshline_policy : fixed_meshline_policy_creators[axis]) {
-		create_meshline_policy(this, t);
+		create_meshline_policy(this, next_timepoint());
 		bar.tick(++i);
 	}
 	bar.complete();
-- 
2.43.0


From 48c58167cbf65976f6281f13e334f727af745d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:38 +0000
Subject: [PATCH 06/15] fix: side views of a cylinder span its whole diameter

---
 src/infra/parsers/parser_from_csx.cpp | 36 +++++++++++++--------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index 8099fb2..d2099ca 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -482,45 +482,45 @@ void ParserFromCsx::Pimpl::parse_primitive_cylinder(pugi::xml_node const& node,
 		if(params.with_zx)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(ZX, material, name, priority,
-				{ p1.y, p2.y },
-				{ p1.z - radius/2, p1.x },
-				{ p2.z + radius/2, p2.x });
+				{ p1.y - radius, p1.y + radius },
+				{ p1.z - radius, p1.x },
+				{ p2.z + radius, p2.x });
 		if(params.with_xy)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(XY, material, name, priority,
-				{ p1.z, p2.z },
-				{ p1.x, p1.y - radius/2 },
-				{ p2.x, p2.y + radius/2 });
+				{ p1.z - radius, p1.z + radius },
+				{ p1.x, p1.y - radius },
+				{ p2.x, p2.y + radius });
 	} else if(p1.z == p2.z && p1.x == p2.x) {
 		if(params.with_zx)
 			board.add_polygon(ZX, material, name, priority, { p1.y, p2.y }, circle_to_points({ p1.z, p1.x }, radius));
 		if(params.with_xy)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(XY, material, name, priority,
-				{ p1.z, p2.z },
-				{ p1.x - radius/2, p1.y },
-				{ p2.x + radius/2, p2.y });
+				{ p1.z - radius, p1.z + radius },
+				{ p1.x - radius, p1.y },
+				{ p2.x + radius, p2.y });
 		if(params.with_yz)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(YZ, material, name, priority,
-				{ p1.x, p2.x },
-				{ p1.y, p1.z - radius/2 },
-				{ p2.y, p2.z + radius/2 });
+				{ p1.x - radius, p1.x + radius },
+				{ p1.y, p1.z - radius },
+				{ p2.y, p2.z + radius });
 	} else if(p1.x == p2.x && p1.y == p2.y) {
 		if(params.with_xy)
 			board.add_polygon(XY, material, name, priority, { p1.z, p2.z }, circle_to_points({ p1.x, p1.y }, radius));
 		if(params.with_yz)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(YZ, material, name, priority,
-				{ p1.x, p2.x },
-				{ p1.y - radius/2, p1.z },
-				{ p2.y + radius/2, p2.z });
+				{ p1.x - radius, p1.x + radius },
+				{ p1.y - radius, p1.z },
+				{ p2.y + radius, p2.z });
 		if(params.with_zx)
 			// TODO Z placement here is the bounding box
 			board.add_polygon_from_box(ZX, material, name, priority,
-				{ p1.y, p2.y },
-				{ p1.z, p1.x - radius/2 },
-				{ p2.z, p2.x + radius/2 });
+				{ p1.y - radius, p1.y + radius },
+				{ p1.z, p1.x - radius },
+				{ p2.z, p2.x + radius });
 	} else {
 		warn_unsupported_primitive(format("{} (with diagonal axis)", node.name()), name);
 	}
-- 
2.43.0


From 211ef04a4252d9a690b48b51a9c8ccdc7208bbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:38 +0000
Subject: [PATCH 07/15] fix: a curve's heights reach its highest vertex

---
 src/infra/parsers/parser_from_csx.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index d2099ca..c9d8904 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -568,7 +568,7 @@ void ParserFromCsx::Pimpl::parse_primitive_curve(pugi::xml_node const& node, sha
 		// TODO Z placement here is the bounding box
 		Polygon::RangeZ z_placement {
 			ranges::min(vertices, [&](Point3D const& a, Point3D const& b) { return a.x < b.x; }).x,
-			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.x > b.x; }).x
+			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.x < b.x; }).x
 		};
 		vector<unique_ptr<Point const>> points;
 		for(auto const& vertex : vertices)
@@ -586,7 +586,7 @@ void ParserFromCsx::Pimpl::parse_primitive_curve(pugi::xml_node const& node, sha
 		// TODO Z placement here is the bounding box
 		Polygon::RangeZ z_placement {
 			ranges::min(vertices, [&](Point3D const& a, Point3D const& b) { return a.y < b.y; }).y,
-			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.y > b.y; }).y
+			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.y < b.y; }).y
 		};
 		vector<unique_ptr<Point const>> points;
 		for(auto const& vertex : vertices)
@@ -604,7 +604,7 @@ void ParserFromCsx::Pimpl::parse_primitive_curve(pugi::xml_node const& node, sha
 		// TODO Z placement here is the bounding box
 		Polygon::RangeZ z_placement {
 			ranges::min(vertices, [&](Point3D const& a, Point3D const& b) { return a.z < b.z; }).z,
-			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.z > b.z; }).z
+			ranges::max(vertices, [&](Point3D const& a, Point3D const& b) { return a.z < b.z; }).z
 		};
 		vector<unique_ptr<Point const>> points;
 		for(auto const& vertex : vertices)
-- 
2.43.0


From a2539adf6a0ee54ab8e00e142ed52180a73516b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:51 +0000
Subject: [PATCH 08/15] fix: polygons of a deselected plane are not added

---
 src/infra/parsers/parser_from_csx.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/infra/parsers/parser_from_csx.cpp b/src/infra/parsers/parser_from_csx.cpp
index c9d8904..5dfaff0 100644
--- a/src/infra/parsers/parser_from_csx.cpp
+++ b/src/infra/parsers/parser_from_csx.cpp
@@ -101,6 +101,7 @@ public:
 	void parse_primitive_curve(pugi::xml_node const& node, shared_ptr<Material> const& material, std::string name);
 
 private:
+	bool is_plane_selected(Plane plane) const;
 	void warn_unsupported_property(string const& property_type, string const& property_name);
 	void warn_unsupported_primitive(string const& primitive_type, string const& primitive_name);
 };
@@ -110,6 +111,16 @@ ParserFromCsx::Pimpl::Pimpl(ParserFromCsx::Params const& params)
 : params(params)
 {}
 
+//******************************************************************************
+bool ParserFromCsx::Pimpl::is_plane_selected(Plane plane) const {
+	switch(plane) {
+	case YZ: return params.with_yz;
+	case ZX: return params.with_zx;
+	case XY: return params.with_xy;
+	default: ::unreachable();
+	}
+}
+
 //******************************************************************************
 void ParserFromCsx::Pimpl::warn_unsupported_property(string const& primitive_type, string const& primitive_name) {
 	warning_unsupported_properties_types.emplace(primitive_type);
@@ -356,7 +367,8 @@ void ParserFromCsx::Pimpl::parse_primitive_linpoly(pugi::xml_node const& node, s
 
 	Bounding2D bounding(detect_bounding(points));
 
-	board.add_polygon(plane.value(), material, name, priority, { elevation, elevation + length }, std::move(points));
+	if(is_plane_selected(plane.value()))
+		board.add_polygon(plane.value(), material, name, priority, { elevation, elevation + length }, std::move(points));
 	if(length == 0) {
 //		board.add_fixed_meshline_policy(normal.value(), elevation);
 //		switch(plane.value()) {
@@ -437,7 +449,8 @@ void ParserFromCsx::Pimpl::parse_primitive_polygon(pugi::xml_node const& node, s
 
 	Bounding2D bounding(detect_bounding(points));
 
-	board.add_polygon(plane.value(), material, name, priority, { elevation, elevation }, std::move(points));
+	if(is_plane_selected(plane.value()))
+		board.add_polygon(plane.value(), material, name, priority, { elevation, elevation }, std::move(points));
 	board.add_fixed_meshline_policy(normal.value(), elevation);
 }
 
-- 
2.43.0


From b9da5742617fb7abfa826a1669840741a300b693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:08 +0000
Subject: [PATCH 09/15] fix: written meshlines keep their full precision

---
 src/infra/serializers/serializer_to_csx.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/infra/serializers/serializer_to_csx.cpp b/src/infra/serializers/serializer_to_csx.cpp
index aee005f..1a9c7bc 100644
--- a/src/infra/serializers/serializer_to_csx.cpp
+++ b/src/infra/serializers/serializer_to_csx.cpp
@@ -4,6 +4,8 @@
 /// @author Thomas Lepoix <thomas.lepoix@protonmail.ch>
 ///*****************************************************************************
 
+#include <format>
+
 #include <pugixml.hpp>
 
 #include "domain/mesh/meshline.hpp"
@@ -96,10 +98,10 @@ void SerializerToCsx::visit(Board& board) {
 		string out;
 		if(params.with_meshlines)
 			for(auto const& meshline : board.get_meshlines(axis))
-				out += to_string(meshline->coord.value()) + ",";
+				out += format("{},", meshline->coord.value());
 		if(params.with_meshline_policies)
 			for(auto const& meshline : board.get_meshline_policies_meshlines(axis))
-				out += to_string(meshline->coord.value()) + ",";
+				out += format("{},", meshline->coord.value());
 
 		if(!out.empty())
 			out.pop_back();
-- 
2.43.0


From 838cd48ac1d3ea376db409726cbcf536a1039d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:34 +0000
Subject: [PATCH 10/15] fix: a failure to write the output is reported

---
 src/infra/serializers/serializer_to_csx.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infra/serializers/serializer_to_csx.cpp b/src/infra/serializers/serializer_to_csx.cpp
index 1a9c7bc..1efb541 100644
--- a/src/infra/serializers/serializer_to_csx.cpp
+++ b/src/infra/serializers/serializer_to_csx.cpp
@@ -129,5 +129,6 @@ void SerializerToCsx::visit(Board& board) {
 		doc.remove_child("OpenEMSH");
 	}
 
-	doc.save_file(output.native().c_str(), "  ");
+	if(!doc.save_file(output.native().c_str(), "  "))
+		error = format("Unable to write \"{}\"", output.string());
 }
-- 
2.43.0


From 1e2078cf1975be9b91f0262ce1483444443d9a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:34 +0000
Subject: [PATCH 11/15] fix: a step without effect keeps its own mark in
 history

---
 src/app/openemsh.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/app/openemsh.cpp b/src/app/openemsh.cpp
index eedcea8..611b73e 100644
--- a/src/app/openemsh.cpp
+++ b/src/app/openemsh.cpp
@@ -160,8 +160,17 @@ expected<void, string> OpenEMSH::write() const {
 void OpenEMSH::run(std::set<Step> const& steps) const {
 	auto const handle = [&]<InvocableR<void> F>(Step step, F const& func) {
 		if(steps.contains(step)) {
-			Caretaker::singleton().annotate_current_timepoint(make_unique<Annotation>(step));
+			auto& c = Caretaker::singleton();
+			// Do not share a timepoint between the marks of several steps.
+			if(auto const* a = c.get_annotation(c.get_current_timepoint())
+			; a && static_cast<Annotation const*>(a)->before_step != step)
+				c.make_next_timepoint();
+			auto const* const t = c.get_current_timepoint();
+			c.annotate_current_timepoint(make_unique<Annotation>(step));
 			func();
+			// The step had nothing to do.
+			if(c.get_current_timepoint() == t)
+				c.make_next_timepoint();
 		}
 	};
 
-- 
2.43.0


From 420b64d9cf04cb478fa514232391413d53e325d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:48 +0000
Subject: [PATCH 12/15] fix: boards, angles and diagonal zones follow the
 history

---
 src/domain/board.cpp            | 10 +++++++---
 src/domain/conflict_manager.cpp |  1 +
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/domain/board.cpp b/src/domain/board.cpp
index 19ec22c..4968278 100644
--- a/src/domain/board.cpp
+++ b/src/domain/board.cpp
@@ -63,12 +63,14 @@ void sort_points_by_vector_orientation(vector<Point>& points, Point const& vecto
 
 //******************************************************************************
 shared_ptr<Board> Board::Builder::build(Params&& params) {
-	return make_shared<Board>(
+	auto board = make_shared<Board>(
 		std::move(polygons),
 		std::move(fixed_meshline_policy_creators),
 		std::move(material),
 		std::move(params),
 		Caretaker::singleton().get_history_root());
+	Caretaker::singleton().take_care_of(board);
+	return board;
 }
 
 //******************************************************************************
@@ -268,7 +270,8 @@ void Board::detect_diagonal_angles(Plane plane) {
 			if(polygon->edges[p]->axis == Segment::Axis::DIAGONAL
 			|| polygon->edges[i]->axis == Segment::Axis::DIAGONAL) {
 				++found;
-				state.angles[plane].emplace_back(make_shared<Angle>(*(polygon->points[p]), polygon->edges[p].get(), polygon->edges[i].get(), t));
+				auto const& angle = state.angles[plane].emplace_back(make_shared<Angle>(*(polygon->points[p]), polygon->edges[p].get(), polygon->edges[i].get(), t));
+				get_caretaker().take_care_of(angle);
 			}
 			p = i;
 		}
@@ -297,7 +300,8 @@ void Board::detect_diagonal_angles(Plane plane) {
 					if(rel == relation::SegmentSegment::CROSSING) {
 						if(optional<Point> p = intersection(*edge_a, *edge_b)) {
 							++found;
-							state.angles[plane].emplace_back(make_shared<Angle>(p.value(), edge_a.get(), edge_b.get(), t));
+							auto const& angle = state.angles[plane].emplace_back(make_shared<Angle>(p.value(), edge_a.get(), edge_b.get(), t));
+							get_caretaker().take_care_of(angle);
 						}
 					}
 				}
diff --git a/src/domain/conflict_manager.cpp b/src/domain/conflict_manager.cpp
index 3750d24..a6610bf 100644
--- a/src/domain/conflict_manager.cpp
+++ b/src/domain/conflict_manager.cpp
@@ -231,6 +231,7 @@ void ConflictManager::add_diagonal_or_circular_zone(Axis axis, vector<Angle*> co
 
 	auto const& conflict = state.all_diagonal_or_circular_zone[axis].emplace_back(
 		make_shared<ConflictDiagonalOrCircularZone>(axis, sorted_angles, global_params, t));
+	get_caretaker().take_care_of(conflict);
 
 	set_state(t, state);
 }
-- 
2.43.0


From 604629e336a248183562bcfddcc3aa7037cb89bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:05 +0000
Subject: [PATCH 13/15] fix: a reset forgets the marks of the steps

---
 src/utils/state_management.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/state_management.cpp b/src/utils/state_management.cpp
index 42208e4..4000534 100644
--- a/src/utils/state_management.cpp
+++ b/src/utils/state_management.cpp
@@ -33,6 +33,7 @@ void Caretaker::reset() noexcept {
 	user_history.erase(next(begin(user_history)), end(user_history));
 	user_history_browser.reset();
 	originators.clear();
+	annotations.clear();
 	garbage_collector();
 }
 
-- 
2.43.0


From 6f34e6de16eff471d62d4314eda604e10d5f1eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:45 +0000
Subject: [PATCH 14/15] fix: remembering another point in time while browsing
 the history forgets what was undone

---
 src/utils/state_management.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utils/state_management.cpp b/src/utils/state_management.cpp
index 4000534..1d10b04 100644
--- a/src/utils/state_management.cpp
+++ b/src/utils/state_management.cpp
@@ -206,8 +206,14 @@ void Caretaker::pin_current_timepoint() noexcept {
 
 //******************************************************************************
 void Caretaker::remember_current_timepoint() noexcept {
-	if(user_history.back() != current_timepoint)
+	auto const* last = user_history_browser.has_value()
+		? **user_history_browser
+		: user_history.back();
+
+	if(last != current_timepoint) {
+		stop_browsing_user_history();
 		user_history.emplace_back(current_timepoint);
+	}
 }
 
 //******************************************************************************
-- 
2.43.0


From f1c878784b42386b7ddf575f82baacaa29c58db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:13:48 +0000
Subject: [PATCH 15/15] fix: crossings of a diagonal edge with an orthogonal
 one get no diagonal angle

---
 src/domain/board.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/domain/board.cpp b/src/domain/board.cpp
index 4968278..41c4b43 100644
--- a/src/domain/board.cpp
+++ b/src/domain/board.cpp
@@ -293,7 +293,10 @@ void Board::detect_diagonal_angles(Plane plane) {
 					&& edge_b->axis != Segment::Axis::DIAGONAL)
 						continue;
 
-					if(!does_overlap_strict(bounding(*edge_a), bounding(*edge_b)))
+					// An orthogonal edge's bounding has no area, so it shares none with a diagonal edge's one even when they cross.
+					if(auto const a = bounding(*edge_a), b = bounding(*edge_b)
+					; a[XMAX] <= b[XMIN] || b[XMAX] <= a[XMIN]
+					|| a[YMAX] <= b[YMIN] || b[YMAX] <= a[YMIN])
 						continue;
 
 					relation::SegmentSegment rel = edge_a->relation_to(*edge_b);
-- 
2.43.0

