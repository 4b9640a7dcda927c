"""Shared by all checks: loading, contracts, obligations, reporting."""
import json, os, re, sys, time, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import dump as _dump
from terms import *
import engine as E
from engine import (Engine, Program, Facts, St, Ev, assume, fork, CELL, Unsupported, getpath, ref)

VERIF = _dump.VERIF
EVID = os.environ.get("SA_EVID", os.path.join(VERIF, "evidence"))

_progs = {}


def prog(config="default"):
    if config not in _progs:
        _progs[config] = Program(_dump.dump(config))
    return _progs[config]


def last(path):
    return path.split("::")[-1]


def owner(body):
    """module or trait path of a body without the crate"""
    return body["path"]


# ---------------------------------------------------------------- contracts
def _mst(name_args):
    def h(eng, st, body, vals, fid, span):
        g = eng.deep(st, vals[0])
        ex = eng.deep(st, vals[1]) if len(vals) > 1 else SEQ0
        t = T("call", "MST", g, ex)
        st = st.copy()
        st.ev = st.ev + (Ev("call", "MST", (g, ex), t, st.facts, span, body=body["id"]),)
        return [(st, t)]
    return h


def _vm(kind):
    def h(eng, st, body, vals, fid, span):
        m = vals[0]
        if kind == "dim":
            return [(st, dim(eng.load(st, m)))]
        if kind == "get":
            return [(st, idx2(eng.load(st, m), vals[1], vals[2]))]
        st = st.copy()
        eng.store(st, m, upd2(eng.load(st, m), vals[1], vals[2], vals[3]))
        return [(st, UNIT)]
    return h


API = {
    # name -> canonical name (public functions whose own contract is a property of its own)
    "evaluate_path", "evaluate_circle", "is_metric", "from_dim", "one_tree", "one_tree_lower_bound", "parse_from_xml",
    "do_conditions_hold", "directed_edge_weight", "is_fully_connected", "is_multi_edge", "is_undirected",
    "christofides", "christofides_generic", "approx_min_cost_matching", "single_nearest_neighbour", "n_nearest_neighbour",
    "nearest_neighbour", "next_permutation", "split_up_b_ary_number_into_n_chunks", "get_next_value", "threaded_solver",
    "is_hamiltonian_cycle", "naive_solver", "first_improved_solver", "second_improved_solver", "third_improved_solver",
    "fourth_improved_solver", "fifth_improved_solver", "sixth_improved_solver", "static_mpi_solver", "dynamic_mpi_solver",
    "nearest_neighbour_mpi", "mpi_improve_matching", "bootstrap_mpi_matching_calc", "panic_on_invaid_mode",
    "from_points", "par_from_points", "run",
}
MSTS = {"prim", "prim_with_excluded_node_multi_threaded", "prim_with_excluded_node_single_threaded", "prim_with_excluded_node_priority_queue"}


def contract(body, inline=()):
    nm = last(body["path"])
    if nm in inline:
        return None
    if body.get("self_ty", "") and "VecMatrix" in body["self_ty"] and (body.get("trait_item") or "").startswith("walky::datastructures::AdjacencyMatrix::") \
            and nm in ("dim", "get", "set"):
        return _vm(nm)
    if nm in MSTS and "mst" in body["path"]:
        return _mst(nm)
    if nm == "from" and "Matrix" in (body.get("self_ty") or "") and "Graph" in body["path"]:
        return "graph_to_matrix"
    if nm in API and body["kind"] != "closure" and "{closure" not in body["dpath"]:
        mode = [a for a in body["args"] if re.match(r"^\d+$", a)]
        return nm + ("::<%s>" % mode[0] if mode else "")
    return None


def engine(config="default", inline=(), own=None, handler=None, extra=None):
    """engine with the contract policy; `own` bodies are never treated as contracts"""
    def opaque(b):
        if extra:
            x = extra(b)
            if x is not None:
                return x
        if own is not None and b["id"] in own:
            return None
        return contract(b, inline)
    e = Engine(prog(config), opaque)
    e.rec_handler = handler
    return e


def bodies(config, name, kind=None):
    """bodies of the functions with this last path segment"""
    return [b for b in prog(config).bodies.values() if last(b["path"]) == name and "{closure" not in b["dpath"]]


def locals_of(body):
    return [(t, n) for t, n in body["locals"][1:1 + body["arg_count"]]]


# ---------------------------------------------------------------- obligations
OPAQUE_OPS = {"sorted", "dedup", "unk", "loopval", "kx", "nobound", "old", "casev"}


def hazy(*ts):
    """does a term contain something the analysis did not understand?"""
    for t in ts:
        for x in subterms(t):
            if x.op in OPAQUE_OPS:
                return True
    return False


class Check:
    def __init__(self, pid, title, technique):
        self.pid = pid
        self.title = title
        self.technique = technique
        self.t0 = time.time()
        self.obs = []
        self.functions = set()
        self.floors = []
        self.notes = []
        self.engines = []
        self.tier = os.environ.get("VERIF_TIER", "quick")
        for i, a in enumerate(sys.argv):
            if a == "--tier" and i + 1 < len(sys.argv):
                self.tier = sys.argv[i + 1]

    def ob(self, status, rule, where, detail="", key=None):
        """status: ok | viol | undecided"""
        self.obs.append(dict(status=status, rule=rule, where=where, detail=detail, key=key or rule))
        return status == "ok"

    def require(self, cond, rule, where, detail, terms=(), key=None):
        if cond:
            return self.ob("ok", rule, where, "", key)
        if any(hazy(t) for t in terms if isinstance(t, Term)):
            return self.ob("undecided", rule, where, detail, key)
        return self.ob("viol", rule, where, detail, key)

    def floor(self, rule, n, where, got):
        if got < n:
            self.ob("viol", "coverage:" + rule, where, "expected at least %d instances of the construct, found %d" % (n, got))

    def done(self, quiet=False):
        known = load_known(self.pid)
        out = []
        seen = {}
        nviol = 0
        for o in self.obs:
            if o["status"] != "viol":
                continue
            ident = "%s|%s" % (o["where"], o["key"])
            if ident in known:
                seen.setdefault(("known", ident), o)
                o["status"] = "known"
            else:
                seen.setdefault(("viol", ident), o)
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        for (k, ident), o in seen.items():
            if k == "known":
                print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, o["where"], o["detail"][:300].replace("\n", " ")))
            else:
                nviol += 1
                h = hashlib.sha1(ident.encode()).hexdigest()[:10]
                p = os.path.join(rdir, "%s-%s.txt" % (self.pid, h))
                with open(p, "w") as f:
                    f.write("property: %s\nrule: %s\nconstruct: %s\nidentity: %s\n\n%s\n" % (self.pid, o["rule"], o["where"], ident, o["detail"]))
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
                print("  rule %s at %s: %s" % (o["rule"], o["where"], o["detail"][:600]))
        und = [o for o in self.obs if o["status"] == "undecided"]
        for o in und[:20]:
            print("UNDECIDED property=%s rule %s at %s: %s" % (self.pid, o["rule"], o["where"], o["detail"][:200]))
        okn = sum(1 for o in self.obs if o["status"] == "ok")
        unm = {}
        for e in self.engines:
            self.functions |= e.analysed
            for k, v in e.unmodelled.items():
                unm[k] = unm.get(k, 0) + v
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": self.technique,
                "functions_analysed": sorted(self.functions),
                "obligations": len(self.obs), "discharged": okn, "undecided": len(und),
                "violations": nviol, "known_findings": sum(1 for k in seen if k[0] == "known"),
                "rules": sorted({o["rule"] for o in self.obs}),
                "samples": [dict(rule=o["rule"], where=o["where"]) for o in self.obs if o["status"] == "ok"][:40],
                "undecided_obligations": [dict(rule=o["rule"], where=o["where"], detail=o["detail"][:300]) for o in und][:40],
                "unmodelled_callees": unm,
                "loops_summarised": sum(e.loops_done for e in self.engines),
                "basic_blocks_interpreted": sum(e.steps for e in self.engines),
                "checker_cmd": "python3 /verif/sa/check.py %s" % self.pid,
                "trusted_base": "rustc nightly MIR construction, mirdump exporter, engine.py/terms.py/models.py",
                "notes": self.notes,
            },
            "wall_s": round(time.time() - self.t0, 2),
        }
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d obligations, %d discharged, %d undecided, %d violations, %d known; %d functions; %.1fs" % (
            self.pid, len(self.obs), okn, len(und), nviol, ev["coverage"]["known_findings"], len(self.functions), ev["wall_s"]))
        return 1 if nviol else 0


def load_known(pid):
    r = set()
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) construct=(.*?)\s*$", l)
            if m and m.group(1) == pid:
                r.add(m.group(2))
    return r
