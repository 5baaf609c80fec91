"""Every verification task, and which tasks decide which property (a property's cone:
the methods it is about, plus the methods whose contracts they rely on)."""
from . import specs_graph as sg
from . import specs_degree, specs_proj, specs_bulk, specs_tree, specs_snap, specs_conv, specs_text, specs_motif, specs_snaptext
from .theory_graph import CFGS

INTERVAL, IMPULSE = ("IntervalGraph", "IntervalDiGraph"), ("ImpulseGraph", "ImpulseDiGraph")
UPDATES = ("add_edge", "add_node", "remove_edge", "remove_node", "add_nodes_from", "add_edges_from", "__init__")
MEMBER = ("has_node", "__contains__", "nodes", "number_of_nodes", "__len__", "has_edge")


def all_tasks():
    out = []
    for c in CFGS.values():
        out += sg.edges_tasks(c) + sg.edges_tasks(c, True)
        for f in sg.MORE:
            out += list(f(c))
    for t in out:
        t.props = props_of(t)
    rest = specs_tree.tree_tasks() + specs_snap.snap_tasks()
    for t in rest:
        # what the conversions to and from snapshots rely on
        if t.method == "inOrder" or t.cls == "SnapshotGraph" and (t.method == "insert" and t.id.endswith((" start+end", " time")) or
                                                                  t.method == "get" and "sbunch" not in t.id and "range=--" in t.id):
            t.props = set(t.props) | {"C21"}
    return out + rest + specs_conv.conv_tasks() + specs_text.text_tasks() + specs_motif.motif_tasks() + specs_snaptext.snaptext_tasks()


def props_of(t):
    c, m, id = t.cls, t.method, t.id
    ps = set()
    fitted = "model=fitted" in id
    withdata = "data=all" in id or "data=key" in id
    if m == "edges":
        if fitted:
            ps.add("C20")
        elif withdata:
            ps.add("C10")
        else:
            ps.add({"IntervalGraph": "C03", "IntervalDiGraph": "C04"}.get(c, "C07"))
    if m in UPDATES:
        ps.add("C05" if c in INTERVAL else "C08")
    if m in MEMBER and not withdata:
        ps.add("C06" if c in INTERVAL else "C09")
    if m == "nodes" and withdata or m in ("add_edge", "add_node", "add_edges_from", "add_nodes_from"):
        ps.add("C10")
    if c in INTERVAL and m in ("add_edge", "__init__"):
        ps |= {"C01", "C02", "C19"}
    if c == "IntervalGraph" and m in ("add_edge", "__init__"):
        ps.add("C21")
    if m.startswith("unique_"):
        ps.add("C19")
    if m == "edges" and c in INTERVAL and not fitted and "(u=none,v=none" in id:
        ps.add("C01")
    if m == "interval":
        ps |= {"C02", "C14"}
    if m in ("degree", "in_degree", "out_degree"):
        ps.add("C12" if "timeline," in id else "C11")
    # what the degrees are counted from
    if not withdata and not fitted:
        if m == "edges" and ("(u=node,v=none" in id or "(u=none,v=node" in id):
            ps.add("C11")
            if c in IMPULSE:
                ps.add("C12")
        if m in ("nodes", "number_of_nodes"):
            ps.add("C11")
    if m in ("to_subgraph", "to_networkx_graph"):
        ps.add("C13")
        if m == "to_subgraph" and "window=be" in id and "default" not in id:
            ps |= {"C14", "C21"}
    if c == "ImpulseDiGraph" and (m == "edges" and "(u=node,v=node,window=--" in id and "C07" in ps or m in ("to_subgraph", "to_networkx_graph") and "window=--,flags=----" in id):
        ps.add("C23")
    if m == "to_snapshots":
        ps.add("C14")
    if m == "from_networkx_graph" or m in ("add_edge", "__init__") and c in ("IntervalGraph", "ImpulseGraph"):
        ps.add("C18")
    return ps


WEIGHT = {"to_snapshot_graph": 99, "remove_edge": 5, "remove_node": 4, "edges": 1, "from_networkx_graph": 9, "add_edges_from": 6, "add_nodes_from": 6, "to_snapshots": 5,
          "degree": 3, "in_degree": 2, "out_degree": 2}


def weight(t):
    w = WEIGHT.get(t.method, 0) * 10
    if "window=be" in t.id:
        w += 3
    elif "window=--" not in t.id:
        w += 1
    return w + (2 if t.cls == "ImpulseGraph" else 0)


def cone(prop):
    return sorted((t for t in all_tasks() if prop in t.props), key=lambda t: -weight(t))
