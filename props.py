"""What each property's check is made of."""
GEO = ["domain/geometrics/" + x for x in "angle bounding coord edge normal point polygon range relation segment space".split()]
UTIL = ["utils/state_management", "utils/tree_node", "utils/entity"]
TUS = GEO + ["domain/material"] + UTIL

CONF = ["domain/conflicts/" + x for x in "conflict conflict_colinear_edges conflict_edge_in_polygon conflict_diagonal_or_circular_zone conflict_too_close_meshline_policies".split()]
MESH = ["domain/mesh/" + x for x in "interval meshline meshline_policy".split()] + ["domain/meshline_policy_manager", "domain/conflict_manager"]
TUS_MESH = TUS + CONF + MESH + ["utils/progress", "infra/utils/to_string"]
TUS_BOARD = TUS_MESH + ["domain/board"]
TUS_STATE = UTIL
TUS_APP = TUS_BOARD + ["app/openemsh", "infra/parsers/parser_from_csx", "infra/parsers/csxcad_layer/point_3d"] + ["infra/serializers/serializer_to_" + x for x in "csx plantuml prettyprint".split()] + ["utils/logger"]
LIBS_APP = ["-lpugixml"]

FULL = "every obligation of every function under contract is discharged for all inputs; doubles as reals"


def geo(level="proof", **k):
    return {"level": level, "contracts": ["geometrics"], "tus": GEO, "native": TUS, "harness": "geo", **k}


def hand(h, native, level="exploration", contracts=(), tus=(), **k):
    return {"level": level, "contracts": list(contracts), "tus": list(tus), "native": native, "harness": h, **k}


PROPS = {
    "G01": geo(), "G02": geo(), "G03": geo(), "G04": geo(), "G05": geo(), "G06": geo(), "G07": geo(), "G08": geo(), "G09": geo(),
    "G10": geo("exploration"), "G11": geo(),
}

ALL_TUS = list(dict.fromkeys(TUS_APP))
CONTRACTS = ["geometrics", "tables", "mesh", "series", "intervals", "zones", "groups", "materials", "fixed", "individual", "toclose", "meshing", "listing"]
PROVED = set("M01 M02 M03 M04 M05 M06 M07 M08 M09 M10 M11 M12 M13 M14 M15 M16 M17 S01 S02 S03 S04 S05 A01 A02 A05 A06".split())

for i in "M01 M04 M05 M06 M07 M08 M09 M10".split(): PROPS[i] = hand("mesh", TUS_MESH)
for i in "M02 M03 M11 M12 M13 M14 M15 M16 M17 M18 M19 M20".split(): PROPS[i] = hand("board", TUS_BOARD)
for i in "S01 S02 S03 S04 S05".split(): PROPS[i] = hand("state", TUS_STATE)
for i in "S06 A01 A02 A03 A04".split(): PROPS[i] = hand("app", TUS_APP, libs=LIBS_APP)
for i in "A05 A06 A07".split(): PROPS[i] = hand("app", TUS_BOARD)
for i in "M01 M02 M03 M04 M05 M06 M07 M08 M09 M10 M11 M12 M13 M14 M15 M16 M17 M18 M19 M20".split(): PROPS[i].update(contracts=CONTRACTS, tus=TUS_BOARD)
for i in "S01 S02 S03 S04 S05".split(): PROPS[i].update(contracts=["state"], tus=TUS_BOARD)
for i in "A01 A02 A05 A06 A07".split(): PROPS[i].update(contracts=["geometrics", "tables", "app"], tus=ALL_TUS)
for i in PROVED: PROPS[i]["level"] = "proof"

ASSUME = {
    "A01": ["each part of a step (domain::Board, ConflictManager, MeshlinePolicyManager) is seen here as a call; what the history answers is any function of the calls made before; marks are searched as S03 states"],
    "A02": ["std::filesystem::exists is an arbitrary function of the path; two paths are the same when their texts are"],
    "M04": ["the policies given are distinct objects"], "M06": ["the policies of one axis are distinct objects"],
    "M05": ["the policies of one axis are distinct objects; in the fix-point loop the closest pair, the registration and the solving are seen through their contracts (M04, M05, M03) restated over arbitrary later states; termination is not proved"],
    "M08": ["d > 0, smoothness >= 1, maximum spacing > 0; termination is not proved"],
    "M10": ["an interval's tuning and lines are seen through what M08 and M09 prove of Interval's functions, restated: its lines are a function of the interval, and tuning changes intervals and policies only"], "M11": ["the two edges are different objects"],
    "M13": ["boundings and heights are ordered, every polygon of a plane has a material, the surrounding material is a function of plane, span and polygon during one step"],
    "M16": ["a covering span has the axis kind of its ends; merge, orientation and kind are opaque functions here (decided by G08, G05)"],
    "S01": ["the history tree is well formed (S05)"], "S03": ["the history tree is well formed (S05); objects are seen by the caretaker through their interface only"],
    "S04": ["the history tree is well formed (S05)"], "S05": ["every node's parent was made before it"],
}
for i, a in ASSUME.items(): PROPS[i]["assumptions"] = a

NOTES = {
    "proof": "All-input proof: every obligation generated from the current sources for every function under contract is discharged on the unchanged tree. Trusted: the exporter and symbolic semantics (engine/), the standard-library contracts (engine/lib.py), z3/cvc5; doubles as reals; the assumptions listed in the evidence. A violation is a concrete failing run of the compiled code, a definitively satisfiable obligation, or an obligation that is no longer discharged after the function's sources changed (no-failing-input-found).",
    "exploration": "Bounded: the contracts of the helper functions are discharged for all inputs, the remaining function named in DESIGN.md is checked by executing the compiled current code against an independent oracle on seeded structured inputs; no claim beyond the inputs run.",
}
NA = {}
