"""The command line: what clap is told (the derived bodies of cli.rs), read as names, options, defaults and fields."""
import re
from lib import *
from rules_data import analyse

NAMES = {
    "ExactAlgorithm": {"v%d" % i: "V%d" % i for i in range(7)},
    "ApproxAlgorithm": {"nearest-neighbour": "NearestNeighbour", "christofides": "Christofides"},
    "LowerBoundAlgorithm": {"one-tree": "OneTree", "mst": "MST", "mst-queue": "MSTQueue"},
    "Parallelism": {"single-threaded": "SingleThreaded", "multi-threaded": "MultiThreaded", "mpi": "MPI"},
}
FIRST = {"Parallelism": "SingleThreaded"}
COMMANDS = {"exact": ("Exact", ["algorithm", "input_file"], ["parallelism"]),
            "approx": ("Approx", ["algorithm", "input_file"], ["parallelism", "lower_bound"]),
            "lower-bound": ("LowerBound", ["algorithm", "input_file"], ["parallelism"])}
OPTION = {"parallelism": ("p", "parallelism"), "lower_bound": ("l", "lower-bound")}
# methods of clap's builders that do not change what a documented command line means
CMD_OK = {"about", "long_about", "author", "version", "long_version", "propagate_version", "group", "subcommand_required", "arg_required_else_help", "next_help_heading",
          "display_order", "infer_subcommands", "infer_long_args", "help_template", "after_help", "before_help", "after_long_help", "before_long_help", "color", "styles",
          "term_width", "max_term_width", "help_expected", "disable_help_subcommand", "disable_version_flag", "disable_help_flag", "flatten_help", "hide", "bin_name",
          "display_name", "dont_delimit_trailing_values", "args_override_self", "hide_possible_values", "next_line_help", "override_usage", "override_help",
          "subcommand_value_name", "subcommand_help_heading", "groups", "disable_colored_help"}
ARG_OK = {"value_name", "value_names", "help", "long_help", "action", "value_parser", "required", "help_heading", "display_order", "hide", "hide_possible_values",
          "hide_default_value", "hide_short_help", "hide_long_help", "next_line_help", "value_hint", "ignore_case", "id"}
NAMING = {"alias", "visible_alias", "aliases", "visible_aliases", "short_alias", "visible_short_alias"}
REFUSES = {"conflicts_with", "conflicts_with_all", "requires", "requires_all", "requires_if", "requires_ifs", "exclusive", "required_if_eq", "required_if_eq_any",
           "required_unless_present", "required_unless_present_all", "required_unless_present_any"}
DEFAULTS = {"default_value_if", "default_value_ifs", "env", "default_value_os"}


class Odd(Exception):
    pass


def chain(t, kind):
    """[(method, args)] of clap::KIND::new(..).m(..).n(..), outermost last"""
    out = []
    while t.op == "unk" and str(t.a[0]).startswith("clap::"):
        m = re.match(r"clap::(?:builder::)?%s::(\w+)$" % kind, str(t.a[0]))
        if not m:
            break
        if m.group(1) == "new":
            out.append(("new", t.a[1:]))
            return None, out[::-1]
        out.append((m.group(1), t.a[2:]))
        t = t.a[1]
    return t, out[::-1]


def string(t):
    while t.op in ("deref", "ref", "vroot") and len(t.a) == 1 and isinstance(t.a[0], Term):
        t = t.a[0]
    return t.a[0] if t.op == "str" else None


def char(t):
    return chr(t.a[0]) if t.op == "int" else None


def strings(t):
    if t.op == "agg" and t.a[0] == "array":
        return [string(x) or char(x) for x in t.a[2:]]
    s = string(t) or char(t)
    return [s]


def names_of(t):
    """the names a PossibleValue matches"""
    rest, ms = chain(t, "PossibleValue")
    if rest is not None or not ms:
        raise Odd("possible value %s" % pp(t)[:80])
    out = []
    for m, a in ms:
        if m == "new":
            out.append(string(a[0]))
        elif m in ("alias", "aliases"):
            out += strings(a[0])
        elif m not in ("help", "hide"):
            raise Odd("PossibleValue::%s" % m)
    if None in out:
        raise Odd("a name that is not constant")
    return out


def by_path(config, tail):
    return [b for b in prog(config).bodies.values() if re.search(r"<(\w+::)*%s$" % re.escape(tail), b["path"])]


def adt(config, name):
    c = [a for k, a in prog(config).adts.items() if k.startswith("walky::") and last(k) == name]
    return c[0] if len(c) == 1 else None


def values(ck, config, ty):
    """which name is parsed to which variant"""
    where = "cli::" + ty
    a = adt(config, ty)
    if a is None:
        ck.ob("viol", "anchor", where, "the public type is gone")
        return None
    want = {n: v for n, v in NAMES[ty].items() if v in [x["name"] for x in a["variants"]] or v != "MPI"}
    if by_path(config, "%s as clap::ValueEnum>::from_str" % ty):
        ck.ob("undecided", "name", where, "parsed by hand-written code")
        return None
    tp, vv = by_path(config, "%s as clap::ValueEnum>::to_possible_value" % ty), by_path(config, "%s as clap::ValueEnum>::value_variants" % ty)
    if len(tp) != 1 or len(vv) != 1:
        ck.ob("undecided", "name", where, "no clap::ValueEnum")
        return None
    ps, vs = analyse(ck, config, tp[0], "name"), analyse(ck, config, vv[0], "name")
    if ps is None or vs is None:
        return None
    n = len(a["variants"])
    try:
        if len(vs) != 1:
            raise Odd("%d lists of variants" % len(vs))
        order = []
        t = vs[0].ret
        while t.op in ("ref", "vroot", "const", "deref") and isinstance(t.a[0], Term):
            t = t.a[0]
        if t.op == "bytes":
            order = [ord(c) for c in t.a[1]]
        elif t.op == "agg" and t.a[0] == "array":
            order = [x.a[1] for x in t.a[2:] if x.op == "agg"]
        if len(order) < 1 or any(x >= n for x in order):
            raise Odd("the list of variants is %s" % pp(vs[0].ret)[:80])
        accepted = {}
        for k in range(n):
            sat = [p for p in ps if all((f.a[0].a[1] != k if f.op == "not" else f.a[1] == k) for f in p.facts
                                        if (f.a[0] if f.op == "not" else f).op == "isvar")]
            if len(sat) != 1:
                raise Odd("%d paths for %s" % (len(sat), a["variants"][k]["name"]))
            r = sat[0].ret
            if r.op != "agg":
                raise Odd("for %s %s" % (a["variants"][k]["name"], pp(r)[:60]))
            accepted[k] = names_of(r.a[2]) if r.a[1] == 1 else []
    except Odd as e:
        ck.ob("undecided", "name", where, str(e))
        return None
    meaning = {}
    for k in order:
        for x in accepted[k]:
            meaning.setdefault(x, a["variants"][k]["name"])
    for x, v in sorted(want.items()):
        got = meaning.get(x)
        ck.require(got == v, "name", "%s.%s" % (where, v), "`%s` means %s" % (x, got or "nothing: it is refused"), key="name:" + x)
    return dict(meaning=meaning, main={a["variants"][k]["name"]: accepted[k][0] for k in range(n) if accepted[k]})


def default_of(ck, config, t):
    """the text of a default value"""
    s = string(t)
    if s is not None:
        return s
    while t.op in ("deref", "ref", "vroot") and isinstance(t.a[0], Term):
        t = t.a[0]
    if t.op == "unk" and re.search(r"OnceLock::get_or_init$", str(t.a[0])):
        c = t.a[-1]
        b = prog(config).bodies.get(c.a[0].split(":", 1)[1]) if c.op == "agg" and str(c.a[0]).startswith("closure:") else None
        if b is None:
            raise Odd("default value of %s" % pp(c)[:60])
        ps = analyse(ck, config, b, "default")
        if ps is None or len(ps) != 1:
            raise Odd("default value of %s" % nice(b))
        t = ps[0].ret
        while t.op in ("deref", "ref", "vroot", "tostr", "own") and isinstance(t.a[0], Term):
            t = t.a[0]
    s = string(t)
    if s is not None:
        return s
    if t.op == "unk" and str(t.a[0]).endswith("PossibleValue::get_name"):
        x = t.a[1]
        while x.op in ("deref", "ref", "vroot") and isinstance(x.a[0], Term):
            x = x.a[0]
        return names_of(x)[0]
    raise Odd("default value %s" % pp(t)[:80])


def always(t):
    """the action of a value takes a value"""
    return t is TRUE or (t.op == "unk" and str(t.a[0]).endswith("ArgAction::takes_values") and t.a[1].op == "bytes" and t.a[1].a[1] == "\0")


def argument(ck, config, t):
    rest, ms = chain(t, "Arg")
    if rest is not None or not ms or ms[0][0] != "new":
        raise Odd("argument %s" % pp(t)[:80])
    r = dict(id=string(ms[0][1][0]), short=[], long=[], default=None, required=False, index=None, odd=[], refuses=[], defaults=[])
    for m, a in ms[1:]:
        if m in ("short", "short_alias", "visible_short_alias"):
            c = char(a[0])
            if c is None:
                r["odd"].append("Arg::%s(%s)" % (m, pp(a[0])[:40]))
            elif m == "short":
                r["short"] = [c] + r["short"][1:]
            else:
                r["short"].append(c)
        elif m == "long":
            r["long"] = strings(a[0]) + r["long"][1:]
        elif m in ("alias", "visible_alias", "aliases", "visible_aliases"):
            r["long"] += strings(a[0])
        elif m in ("short_aliases", "visible_short_aliases"):
            r["short"] += strings(a[0])
        elif m == "default_value":
            r["default"] = default_of(ck, config, a[0])
        elif m == "required":
            r["required"] = True if always(a[0]) else False if a[0] is FALSE else None
        elif m == "index":
            r["index"] = a[0].a[0] if a[0].op == "int" else -1
        elif m in REFUSES:
            r["refuses"].append((m, strings(a[0]) if a else []))
        elif m in DEFAULTS:
            r["defaults"].append(m)
        elif m == "action":
            if not (a[0].op == "agg" and a[0].a[1] == 0):
                r["odd"].append("action %s" % pp(a[0])[:40])
        elif m == "value_parser":
            if not (a[0].op == "unk" and "_infer_ValueParser_for::new" in pp(a[0])):
                r["odd"].append("value_parser %s" % pp(a[0])[:40])
        elif m not in ARG_OK:
            r["odd"].append("Arg::%s" % m)
    return r


def command(ck, config, t):
    rest, ms = chain(t, "Command")
    if rest is not None and rest.op != "sym":
        raise Odd("command %s" % pp(rest)[:80])
    r = dict(names=[], args=[], subs=[], odd=[])
    for m, a in ms:
        if m in ("new", "name"):
            s = string(a[0])
            r["names"] = [s] + r["names"][1:]
        elif m in ("alias", "visible_alias", "aliases", "visible_aliases"):
            r["names"] += strings(a[0])
        elif m == "arg":
            r["args"].append(argument(ck, config, a[0]))
        elif m == "subcommand":
            r["subs"].append(command(ck, config, a[0]))
        elif m == "group":
            g, gs = chain(a[0], "ArgGroup")
            for x, y in gs:
                if x == "multiple" and y[0] is TRUE or x in ("new", "args", "arg", "id") or x == "required":
                    continue
                r["odd"].append("ArgGroup::%s(%s)" % (x, ", ".join(pp(z)[:30] for z in y)))
        elif m not in CMD_OK:
            r["odd"].append("Command::%s" % m)
    return r


def about(f, s):
    """truth of a fact if the name of the subcommand is s; None: about something else"""
    if f.op == "not":
        v = about(f.a[0], s)
        return None if v is None else not v
    if f.op == "eqv":
        k = [string(x) for x in f.a]
        x = [y for y in f.a if string(y) is None]
        if len(x) == 1 and any(k) and "remove_subcommand" in pp(x[0]):
            return [y for y in k if y is not None][0] == s
    return None


def id_of(t):
    """(id of the argument a field is taken from, whether it has to be there)"""
    need = False
    if t.op == "fld" and t.a[0].op == "dc" and t.a[0].a[1] == 1:
        t, need = t.a[0].a[0], True
    if t.op == "unk" and str(t.a[0]).endswith("ArgMatches::remove_one"):
        return string(t.a[2]), need
    return None, need


def fields(config, t, a, k):
    """name of the field -> value; fields that are structs of their own are opened"""
    out = {}
    for (n, *_), x in zip(a["variants"][k]["fields"], t.a[2:]):
        if x.op == "agg" and x.a[0] != "array" and id_of(x)[0] is None:
            b = adt(config, last(str(x.a[0])))
            if b is not None and not b["enum"]:
                out.update(fields(config, x, b, 0))
                continue
        out[n] = x
    return out


def commands(ck, config, vals):
    fm, au = by_path(config, "Commands as clap::FromArgMatches>::from_arg_matches_mut"), by_path(config, "Cli as clap::CommandFactory>::command")
    top = by_path(config, "Cli as clap::FromArgMatches>::from_arg_matches_mut")
    a = adt(config, "Commands")
    if len(fm) != 1 or len(au) != 1 or a is None or len(top) != 1:
        return ck.ob("undecided", "command", "cli::Commands", "the command line is not read by derived code")
    ps, ts, cs = analyse(ck, config, fm[0], "command"), analyse(ck, config, top[0], "command"), analyse(ck, config, au[0], "command")
    if ps is None or cs is None or ts is None:
        return
    try:
        if len(cs) != 1:
            raise Odd("%d commands" % len(cs))
        tree = command(ck, config, cs[0].ret)
    except Odd as e:
        return ck.ob("undecided", "command", "cli::Commands", str(e))
    if tree["odd"]:
        ck.ob("undecided", "command", "cli::Cli", ", ".join(tree["odd"])[:200])
    for x in tree["args"]:
        if x["required"] or x["required"] is None:
            ck.require(x["required"] is None, "refused", "cli::Cli", "every command line has to have the new argument %s" % x["id"], terms=[T("unk", "x")] if x["required"] is None else [])
    # Cli is just the command
    bodies = {pp(p.ret.a[2]) for p in ps if p.ret.op == "agg" and p.ret.a[1] == 0}
    bad = [p for p in ts if p.ret.op == "agg" and p.ret.a[1] == 0 and not any(pp(y) in bodies for y in p.ret.a[2].a[2:])]
    if bad or not any(p.ret.op == "agg" and p.ret.a[1] == 0 for p in ts):
        ck.ob("undecided", "command", "cli::Cli", "the command is not read as it is")
    else:
        ck.ob("ok", "command", "cli::Cli")
    for name, (variant, pos, opts) in COMMANDS.items():
        where = "cli::Commands::" + variant
        k = [i for i, v in enumerate(a["variants"]) if v["name"] == variant]
        if len(k) != 1:
            ck.ob("viol", "anchor", where, "the command is gone")
            continue
        subs = [c for c in tree["subs"] if name in c["names"]]
        if len(subs) != 1:
            if any(None in c["names"] for c in tree["subs"]):
                ck.ob("undecided", "command", where, "names that are not constant")
            else:
                ck.ob("viol", "command", where, "`%s` names %d commands" % (name, len(subs)), key="command:" + name)
            continue
        c = subs[0]
        known = c["names"][0]          # clap reports the main name
        oks, errs, odd = [], [], []
        for p in ps:
            vs = [about(f, known) for f in p.facts]
            if False in vs:
                continue
            if p.ret.op != "agg":
                odd.append(p)
            elif p.ret.a[1] == 0:
                oks.append(p)
            elif all(v is True or (f.a[0] if f.op == "not" else f).op == "isvar" and "remove_one" not in pp(f) for v, f in zip(vs, p.facts)):
                errs.append(p)
        if odd or (not oks and not errs):
            ck.ob("undecided", "command", where, "%d paths for `%s` not understood" % (len(odd), known))
            continue
        if not ck.require(bool(oks) and not [p for p in errs if True in [about(f, known) for f in p.facts]], "command", where, "`%s` is refused" % name, key="command:" + name):
            continue
        got = set()
        for p in oks:
            r = p.ret.a[2]
            got.add(a["variants"][r.a[1]]["name"] if r.op == "agg" else None)
        if None in got:
            ck.ob("undecided", "command", where, "the command read is %s" % pp(oks[0].ret)[:80])
            continue
        if not ck.require(got == {variant}, "command", where, "`%s` is read as %s" % (name, ", ".join(sorted(got))), key="variant:" + name):
            continue
        if c["odd"]:
            ck.ob("undecided", "command", where, ", ".join(c["odd"])[:200])
            continue
        ck.ob("ok", "command", where)
        byid = {x["id"]: x for x in c["args"]}
        places = sorted(range(len(c["args"])), key=lambda i: (c["args"][i]["index"] or i + 1000))
        posis = [c["args"][i] for i in places if not c["args"][i]["short"] and not c["args"][i]["long"]]
        for p in oks:
            fs = fields(config, p.ret.a[2], a, k[0])
            for f in pos + opts:
                w = "%s.%s" % (where, f)
                if f not in fs:
                    ck.ob("undecided", "field", w, "no such field")
                    continue
                i, need = id_of(fs[f])
                x = byid.get(i)
                if x is None:
                    if i is not None:
                        ck.ob("viol", "field", w, "read from the argument %s, which the command does not have" % i)
                    else:
                        ck.ob("undecided", "field", w, "is %s" % pp(fs[f])[:80])
                    continue
                if x["odd"] or x["index"] == -1 or None in x["short"] + x["long"] or x["required"] is None:
                    ck.ob("undecided", "argument", w, ", ".join(x["odd"])[:120])
                    continue
                field(ck, config, w, f, x, need, posis, pos, c, byid, vals, fs)
            extra = [x for x in c["args"] if x["required"] and x["default"] is None and x["id"] not in [id_of(fs[f])[0] for f in pos + opts if f in fs]]
            ck.require(not extra, "refused", where, "every command line has to have the new argument %s" % (extra[0]["id"] if extra else ""))


def field(ck, config, w, f, x, need, posis, pos, c, byid, vals, fs):
    mine = {id_of(fs[g])[0] for g in fs}
    for m, ids in x["refuses"]:
        if m in ("requires", "requires_all") and all(byid.get(i, {}).get("required") for i in ids):
            continue
        if m.startswith("conflicts") and not [i for i in ids if i in mine and i in byid]:
            continue
        ck.ob("viol", "refused", w, "%s(%s): command lines that are documented are refused" % (m, ", ".join(str(i) for i in ids)), key="refused:" + m)
    for m in x["defaults"]:
        ck.ob("viol", "default", w, "the default depends on something else (%s)" % m, key="default:" + m)
    if f in pos:
        i = [y["id"] for y in posis].index(x["id"]) if x in posis else None
        n = pos.index(f)
        ck.require(i == n, "argument", w, "is %s, it has to be argument number %d" % ("an option" if i is None else "argument number %d" % (i + 1), n + 1), key="place")
        return
    short, long = OPTION[f]
    others = [y for y in c["args"] if y is not x]
    ck.require(short in x["short"] and not any(short in y["short"] for y in others), "argument", w,
               "-%s is %s" % (short, "ambiguous" if short in x["short"] else "not this option"), key="short")
    ck.require(long in x["long"] and not any(long in y["long"] for y in others), "argument", w,
               "--%s is %s" % (long, "ambiguous" if long in x["long"] else "not this option"), key="long")
    ck.require(not x["required"] or x["default"] is not None, "refused", w, "a command line without --%s is refused" % long, key="required")
    if f == "lower_bound":
        ck.require(x["default"] is None, "default", w, "a lower bound is computed (%s) without being asked for" % x["default"], key="default")
        return
    v = vals.get("Parallelism")
    if v is None:
        return ck.ob("undecided", "default", w, "names of the modes not known")
    got = v["meaning"].get(x["default"]) if x["default"] is not None else None
    ck.require(got == FIRST["Parallelism"], "default", w, "without --%s the mode is %s" % (long, got or ("missing" if x["default"] is None else "the unknown %s" % x["default"])), key="default")


def command_line(ck, config):
    vals = {ty: values(ck, config, ty) for ty in NAMES}
    commands(ck, config, vals)
