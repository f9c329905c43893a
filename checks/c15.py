"""C15: metadata tables are read as written and malformed ones are refused.

All files obtained from valid base files by one edit (deletion, duplication, move, swap of lines, every replacement of a
line from a catalogue, every change of an attribute value or name), by all pairs of a class of edits, and by replacing
every window of lines by every sequence of lines of a small alphabet, are read by parse_metadata_file. A reference reader
written here states what each file says, or which departures it contains and on which lines."""
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc

# ---------------------------------------------------------------- reference reader
TYPES = ("scheme", "ddt", "host", "module")
PHASES = ("register", "init", "initial", "initialize", "run", "timestep_init", "timestep_initial", "timestep_initialize", "timestep_final",
          "timestep_finalize", "final", "finalize")
INTRINSIC = ("integer", "real", "logical", "character", "complex", "double precision")
ID = r"[A-Za-z][A-Za-z0-9_]*"
BOOL = {"t": True, "true": True, ".true.": True, "f": False, "false": False, ".false.": False}
BOOLS = ("state_variable", "protected", "allocatable", "polymorphic", "top_at_one", "optional", "target", "advected", "constituent")
OTHER = ("standard_name", "long_name", "units", "dimensions", "type", "kind", "intent", "diagnostic_name", "diagnostic_name_fixed",
         "default_value", "persistence", "active", "molar_mass")
ANY = object()          # value or outcome not prescribed


def value_of(attr, text):
    """-> expected value, None (invalid) or ANY"""
    if attr in BOOLS:
        return BOOL.get(text.lower())
    if attr == "standard_name":
        return text if re.fullmatch(r"[a-z][a-z0-9_]*", text) else (ANY if re.fullmatch("(?i)[a-z][a-z0-9_]*", text) else None)
    if attr == "units":
        if not text:
            return None
        return text if re.fullmatch(r"1|count|index|none|flag|K|Pa|m s-1|kg kg-1|m", text) else ANY
    if attr == "dimensions":
        m = re.fullmatch(r"\((.*)\)", text)
        if not m:
            return None
        if not m.group(1).strip():
            return []
        out = []
        for d in m.group(1).split(","):
            d = d.strip()
            if not re.fullmatch(r"(%s|\d+)(:(%s|\d+))?" % (ID, ID), d):
                return None if re.search(r"[0-9][a-z]|^$|[?$ ]|:.*:.*:", d) else ANY
            out.append(d if ":" in d else "ccpp_constant_one:" + d)
        return out
    if attr == "intent":
        return text if text in ("in", "out", "inout") else ANY if text.lower() in ("in", "out", "inout") else None
    if attr == "persistence":
        return text if text in ("timestep", "run") else None
    if attr == "molar_mass":
        try:
            return float(text) if float(text) > 0 else None if float(text) < 0 else ANY
        except ValueError:
            return None
    if attr in ("long_name", "active", "kind") and text:
        return text
    return ANY


def default_of(attr, props):
    if attr in BOOLS:
        return False
    if attr == "long_name":
        return ANY if props["standard_name"] is ANY else props["standard_name"][0].upper() + props["standard_name"][1:].replace("_", " ")
    if attr == "kind":
        return ANY if props["type"] is ANY else "kind_phys" if props["type"] in ("real", "complex", "double precision") else ""
    return {"diagnostic_name": ANY, "diagnostic_name_fixed": "", "default_value": "", "persistence": "timestep", "active": ".true.",
            "molar_mass": 0.0, "intent": None}[attr]


class Ref:
    def __init__(self, lines, known, path):
        self.dep, self.free, self.tables = [], False, []
        self.known, self.path = list(known), path
        self.tab = self.sec = self.var = None
        self.n = 0
        text, start = "", None
        for i, ln in enumerate(lines):
            start = i + 1 if start is None else start
            ln = ln.rstrip()
            if ln.endswith("\\"):
                text += ln[:-1]
                continue
            self.line(start, text + ln)
            text, start = "", None
        if start is not None:
            self.line(start, text)
        self.n = len(lines) + 1
        self.close_table()

    def bad(self, kind, lines):
        self.dep.append((kind, set(lines)))

    def line(self, n, s):
        self.n = n
        t = s.strip()
        if not t or t[0] in "#;":
            return
        head = re.match(r"(?i)\[\s*(ccpp-table-properties|ccpp-arg-table)\s*\]", t)
        if head:
            rest = t[head.end():].strip()
            if rest and rest[0] in "#;":
                self.free = True
            elif rest:
                # (read as a property when it holds an '=': the error is then at the first line that makes no sense)
                self.bad("text after header", range(n, n + 100) if "=" in rest else [n])
            if head.group(1).lower() == "ccpp-table-properties":
                self.close_table()
                self.tab = {"start": n, "name": [], "type": [], "dependencies": [], "relative_path": [], "sections": []}
            elif self.tab is None:
                self.bad("section outside a table", [n])
            else:
                self.close_section()
                self.sec = {"start": n, "name": [], "type": [], "module": [], "process": [], "vars": []}
            return
        if re.fullmatch(r"\[\s*(%s)\s*(\(.*\))?\s*\]" % ID, t):
            if s[0] in " \t":
                self.free = True
            if self.sec is None:
                self.bad("variable outside a section", [n])
                return
            self.close_var()
            if self.styp == "ddt" and self.sec["name"]:
                self.known.append(self.sec["name"][-1][0])
            self.var = {"start": n, "name": t[1:-1].strip(), "attrs": [], "bad": False}
            return
        if self.tab is None:
            self.bad("text outside a table", [n])
            return
        for item in s.split("|"):
            if "=" not in item:
                self.bad("not a property", [n])
                if self.var:
                    self.var["bad"] = True
                continue
            key, val = [x.strip() for x in item.split("=", 1)]
            key = key.lower()
            if self.var is not None:
                if key not in BOOLS + OTHER:
                    if key == "local_name":
                        self.free = True
                    self.bad("unknown attribute", [n])
                    self.var["bad"] = True
                else:
                    self.var["attrs"].append((key, val, n))
            else:
                where = self.sec if self.sec is not None else self.tab
                if key not in where or key in ("start", "sections", "vars"):
                    self.bad("unknown property", [n])
                else:
                    where[key].append((val, n))

    def one(self, where, key, block):
        """The single value of a property of a table or section."""
        vals = where[key]
        if len({v for v, _ in vals}) > 1:
            self.bad("conflicting " + key, [x for _, x in vals])
        elif len(vals) > 1:
            self.free = True
        if not vals:
            return None
        if key == "name" and vals[-1][0] and not re.fullmatch(ID, vals[-1][0]):
            self.free = True            # a name such as <name> is accepted (and used by the repository's tests)
        elif not vals[-1][0]:
            if key in ("name", "type"):
                self.bad("empty " + key, block)
            else:
                self.free = True
        return vals[-1][0]

    def close_var(self):
        v, self.var = self.var, None
        if v is None:
            return
        block = list(range(v["start"], self.n + 1))
        props, broken = {}, v["bad"]
        for key in {k for k, _, _ in v["attrs"]}:
            vals = [(x, n) for k, x, n in v["attrs"] if k == key]
            if len({x for x, _ in vals}) > 1:
                self.bad("conflicting attribute " + key, [n for _, n in vals])
                broken = True
            elif len(vals) > 1:
                self.free = True
            for text, n in vals:
                val = value_of(key, text)
                if key == "type":
                    if text.lower() in INTRINSIC:
                        val = text if text in INTRINSIC else ANY
                    elif text in self.known:
                        val = text
                    else:
                        val = None
                if val is None:
                    self.bad("bad value of " + key, [n])
                    broken = True
                elif val is ANY and key in ("standard_name", "units", "dimensions", "type", "intent"):
                    self.free = True
                props[key] = val
        typ = props.get("type")
        ddt = typ in self.known and typ not in INTRINSIC
        for key in ("standard_name", "dimensions", "type") + (() if ddt else ("units",)) + \
                (("intent",) if self.styp == "scheme" else ()):
            if key not in {k for k, _, _ in v["attrs"]}:
                if key == "units" and typ is None and "type" not in props:
                    pass
                self.bad("missing attribute " + key, block)
                broken = True
        if not broken and props.get("protected") is True and props.get("intent") in ("out", "inout"):
            self.bad("protected with intent", block)
            broken = True
        m = re.fullmatch(r"(%s)\s*\((.*)\)" % ID, v["name"])
        if m:
            idx = [x.strip() for x in m.group(2).split(",")]
            if any(not re.fullmatch(ID + r"|:|\d+", x) for x in idx):
                self.free = True
            if idx.count(":") != len(props.get("dimensions") or ()):
                self.bad("rank of reference", block)
                broken = True
            name = "%s(%s)" % (m.group(1), ", ".join(idx))
        else:
            name = v["name"]
        if broken:
            return
        if typ == "character" and "kind" in props and not str(props["kind"]).startswith("len="):
            self.free = True
        dv = [x for k, x, _ in v["attrs"] if k == "default_value"]
        dg = [x for k, x, _ in v["attrs"] if k == "diagnostic_name"]
        if dv and (typ, props.get("kind"), dv[-1]) != ("real", "8", "0.0_8") or dg and dg[-1] != "CLD" or "diagnostic_name_fixed" in props:
            self.free = True
        if "kind" in props and ddt:
            self.free = True
        want = {"local_name": name}
        for key in BOOLS + OTHER:
            want[key] = props[key] if key in props else ANY if ddt and key in ("units", "kind") else default_of(key, props)
        for w, _ in self.sec["vars"]:
            if w["standard_name"] == want["standard_name"]:
                self.bad("duplicate standard name", list(range(1, self.n + 1)))
            elif w["local_name"].lower() == want["local_name"].lower():
                self.bad("duplicate local name", list(range(1, self.n + 1)))
        self.sec["vars"].append((want, v["start"]))

    @property
    def styp(self):
        return self.sec["type"][-1][0] if self.sec["type"] else None

    def close_section(self):
        self.close_var()
        s, self.sec = self.sec, None
        if s is None:
            return
        self.sec = s                                        # styp
        block = list(range(s["start"], self.n + 1))
        name, typ = self.one(s, "name", block), self.one(s, "type", block)
        mod, proc = self.one(s, "module", block), self.one(s, "process", block)
        tname = self.tab["name"][-1][0] if self.tab["name"] else None
        ttyp = self.tab["type"][-1][0] if self.tab["type"] else None
        if name is None:
            self.bad("section without name", block)
        if typ is None:
            self.bad("section without type", block)
        elif typ and typ not in TYPES + ("local",):
            self.bad("section type", [x for _, x in s["type"]])
        elif typ and ttyp and typ != ttyp:
            self.bad("section type mismatch", block)
        if mod == "None":
            self.bad("no module", [x for _, x in s["module"]])
        if proc is not None and typ != "scheme":
            self.bad("process", block)
        if name and tname and re.fullmatch(ID, name) and re.fullmatch(ID, tname):
            base = name
            if typ == "scheme":
                for p in sorted(PHASES, key=len, reverse=True):
                    if name.lower().endswith("_" + p):
                        base = name[:-len(p) - 1]
                        break
                else:
                    self.free = True
            if base != tname:
                if base.lower() == tname.lower():
                    self.free = True
                self.bad("section of another table", block)
        titles = [x["name"] for x in self.tab["sections"]]
        if name in titles and ttyp == "scheme":
            self.free = True        # decided when the sections of all files are put together
        elif ttyp in ("ddt", "host", "module") and titles:
            self.bad("second section", block)
        self.tab["sections"].append({"name": name, "type": typ, "module": mod or os.path.basename(self.path)[:-5],
                                     "process": proc or ANY, "vars": [w for w, _ in s["vars"]]})
        if typ == "ddt" and name:
            self.known.append(name)
        self.sec = None

    def close_table(self):
        self.close_section()
        t, self.tab = self.tab, None
        if t is None:
            return
        block = list(range(t["start"], self.n + 1))
        name, typ, rel = self.one(t, "name", block), self.one(t, "type", block), self.one(t, "relative_path", block)
        if name is None:
            self.bad("table without name", block)
        if typ is None:
            self.bad("table without type", block)
        elif typ and typ not in TYPES:
            self.bad("table type", [x for _, x in t["type"]])
        if not t["sections"]:
            self.free = True
        if name and name in [x["name"] for x in self.tables]:
            self.bad("duplicate table", block)
        deps, none = [], False
        for val, n in t["dependencies"]:
            if val.lower() == "none":
                if deps:
                    self.bad("dependencies", [n])
                none = True
            else:
                new = [x.strip() for x in val.split(",") if x.strip()]
                if new and none:
                    self.bad("dependencies", [n])
                elif none or not new:
                    self.free = True
                deps += new
        root = os.path.join(os.path.dirname(self.path), rel or "")
        self.tables.append({"name": name, "type": typ, "dependencies": [os.path.abspath(os.path.join(root, d)) for d in deps],
                            "sections": t["sections"]})
        if typ == "ddt" and name:
            self.known.append(name)


# ---------------------------------------------------------------- the framework
_F = {}


def framework(path, lines):
    if not _F:
        from metadata_table import parse_metadata_file
        from parse_tools import CCPPError, ParseSyntaxError, ParseInternalError
        from framework_env import CCPPFrameworkEnv
        _F.update(p=parse_metadata_file, err=(CCPPError, ParseSyntaxError, ParseInternalError),
                  env=CCPPFrameworkEnv(None, ndict={"host_files": "", "scheme_files": "", "suites": ""}))
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    try:
        tabs = _F["p"](path, [], _F["env"])
    except _F["err"] as exc:
        return "refused", str(exc)
    except Exception as exc:     # pylint: disable=broad-except
        return "crash", "%s: %s" % (type(exc).__name__, exc)
    out = []
    for t in tabs:
        secs = []
        for s in t.sections():
            vs = [{k: v.get_prop_value(k) for k in ("local_name",) + BOOLS + OTHER} for v in s.variable_list()]
            secs.append({"name": s.title, "type": s.header_type, "module": s.module, "process": s.process_type, "vars": vs})
        out.append({"name": t.table_name, "type": t.table_type, "dependencies": list(t.dependencies), "sections": secs})
    return "read", out


def differ(want, got, where=""):
    if want is ANY:
        return None
    if isinstance(want, dict):
        for k in want:
            d = differ(want[k], got.get(k), where + "/" + k)
            if d:
                return d
        return None
    if isinstance(want, list) and isinstance(got, list):
        if len(want) != len(got):
            return "%s: %d instead of %d" % (where, len(got), len(want))
        for i, (a, b) in enumerate(zip(want, got)):
            d = differ(a, b, "%s/%d" % (where, i))
            if d:
                return d
        return None
    if want != got or isinstance(want, bool) != isinstance(got, bool):
        return "%s: %r instead of %r" % (where, got, want)
    return None


def judge(path, lines):
    """-> (outcome, problem)"""
    r = Ref(lines, [], path)
    kind, val = framework(path, lines)
    if kind == "crash":
        return "crash", "crashes with %s (%s)" % (val, r.dep[0][0] if r.dep else "valid file")
    if kind == "refused":
        named = {int(x) for x in re.findall(re.escape(path) + r":(\d+)", val)}
        if not r.dep:
            return "free" if r.free else "refused", None if r.free else "a valid file is refused: " + val.replace(path, "F")
        if len(r.dep) == 1 and not r.free:
            if not named & r.dep[0][1]:
                return "refused", "%s on line %s, but the error names %s: %s" % (
                    r.dep[0][0], sorted(r.dep[0][1])[:3], sorted(named) or "no line", val.replace(path, "F"))
        elif not named:
            return "refused", "%s: the error names no line: %s" % (r.dep[0][0], val.replace(path, "F"))
        return "refused", None
    if r.dep and not r.free:
        return "read", "%s (line %s) accepted" % (r.dep[0][0], sorted(r.dep[0][1])[:2])
    if r.dep:
        return "free", None
    if r.free:
        return "free", None
    return "read", differ(r.tables, val)


# ---------------------------------------------------------------- inputs
SCHEME = """# a scheme
[ccpp-table-properties]
  name = foo
  type = scheme
  dependencies = a.F90, b.F90
  relative_path = sub

[ccpp-arg-table]
  name = foo_run
  type = scheme
[ ncol ]
  standard_name = horizontal_loop_extent
  long_name = the loop extent
  units = count
  dimensions = ()
  type = integer
  intent = in
[ temp ]
  standard_name = air_temperature
  units = K
  dimensions = (horizontal_loop_extent, vertical_layer_dimension)
  type = real | kind = kind_phys
  intent = inout
  optional = True
; comment
[ccpp-arg-table]
  name = foo_init
  type = scheme
  process = micro
[ errmsg ]
  standard_name = ccpp_error_message
  units = none
  dimensions = ()
  type = character
  kind = len=512
  intent = out
""".splitlines()
HOST = """[ccpp-table-properties]
  name = vmr_type
  type = ddt
[ccpp-arg-table]
  name = vmr_type
  type = ddt
[ vmr ]
  standard_name = volume_mixing_ratio
  units = kg kg-1
  dimensions = (horizontal_dimension)
  type = real
[ccpp-table-properties]
  name = data_mod
  type = module
  dependencies = none
[ccpp-arg-table]
  name = data_mod
  type = module
[ v ]
  standard_name = volume_mixing_ratio_ddt
  dimensions = ()
  type = vmr_type
[ q(:,:,index_of_water) ]
  standard_name = water_vapor
  units = kg kg-1
  dimensions = (horizontal_dimension, vertical_layer_dimension)
  type = real
  protected = True
  active = (flag_for_water)
[ccpp-table-properties]
  name = main
  type = host
[ccpp-arg-table]
  name = main
  type = host
  module = main_mod
[ dt ]
  standard_name = time_step
  units = m
  dimensions = ()
  type = double precision
  persistence = run
""".splitlines()
CONST = """[ccpp-table-properties]
  name = bar
  type = scheme
[ccpp-arg-table]
  name = bar_timestep_init
  type = scheme
[ cld ]
  standard_name = cloud_water
  long_name = cloud = water \\
    content
  units = kg kg-1
  dimensions = (1:horizontal_dimension, 0:vertical_layer_dimension)
  type = real
  kind = 8
  intent = out
  advected = .true.
  molar_mass = 18.02
  constituent = F
  default_value = 0.0_8
  diagnostic_name = CLD
[ok]
  standard_name = cloud_flag | units = flag | dimensions = () | type = logical | intent = in | top_at_one = t
[ccpp-arg-table]
  name = bar_finalize
  type = scheme
""".splitlines()
BASES = {"scheme": SCHEME, "host": HOST, "const": CONST}
LINES = ["", "   ", "# comment", "; comment", "text", "  key = value", "=", "  name = other", "  name = other_run", "  name =", "  name = foo bar", "  name = 2foo", "  type = scheme",
         "  type = ddt", "  type = module", "  type = host", "  type = local", "  type = table", "  type =", "  module = mm", "  module = None",
         "  process = other", "  dependencies = c.F90", "  dependencies = None", "  dependencies =", "  relative_path = p/q",
         "[ccpp-table-properties]", "[ccpp-arg-table]", "[ CCPP-ARG-TABLE ]", "[ccpp-arg-table] x", "[ccpp-table-properties] x",
         "[ccpp-arg-tables]", "[ x ]", "  [ x ]", "[ x", "x ]", "[ x ] y", "[]", "[ x y ]", "[ 2x ]", "[ x(:) ]", "[ x(a) ]", "[ ncol ]", "[ temp(:,:) ]",
         "  standard_name = air_temperature", "  units = m", "  units = 1 | type = real", "  intent = in", "  intent = in | intent = out", "  optional = F",
         "| units = K", "  units = K |", "  standard_name = horizontal_loop_extent", "subroutine foo()", "!ccpp", "  allocatable = T | target = True"]
VALS = {"standard_name": ["x_y", "x y", "2x", "x-y", "", "air_temperature", "water_vapor"], "long_name": ["a b", "a = b", "a | b", "a, (b)"],
        "units": ["K", "", "m s-1", "1"], "dimensions": ["()", "(n)", "( n , m )", "(1:n)", "", "n", "(n", "n)", "(2x)", "(a:b:c:d)", "(n,,m)", "(n m)"],
        "type": ["real", "integer", "complex", "logical", "", "reel", "vmr_type", "no_type", "real8"], "kind": ["kind_phys", "8", "len=*"],
        "intent": ["in", "out", "inout", "", "inn", "inout in", "none"], "persistence": ["run", "timestep", "always", ""],
        "molar_mass": ["1.0", "28", "-1.0", "x", ""], "active": ["(a == b)", ".false."],
        **{b: ["True", "true", ".true.", "T", "False", ".false.", "f", "yes", "1", "", "truth"] for b in BOOLS},
        "name": ["foo", "foo_run", "foo_init", "bar_run", "foo_runs", "", "vmr_type", "data_mod", "main", "x"],
        "dependencies": ["x.F90", "none", "None", "x.F90,y.F90,", "/abs/x.F90"], "relative_path": ["..", "a/b"], "module": ["m", "None"], "process": ["p"]}
KEYS = ["units", "type", "name", "foo", "", "UNITS", "Standard_Name", "long_name", "intent", "kind", "optional", "standard_nam", "local_name",
        "protected", "dimensions", "module"]


def single(base):
    """All files one edit away from the base, with a label."""
    n = len(base)
    for i in range(n):
        yield "delete %d" % i, base[:i] + base[i + 1:]
        for j in range(n + 1):
            yield "copy %d to %d" % (i, j), base[:j] + [base[i]] + base[j:]
            if j not in (i, i + 1):
                rest = base[:i] + base[i + 1:]
                k = j if j < i else j - 1
                yield "move %d to %d" % (i, j), rest[:k] + [base[i]] + rest[k:]
        for j in range(i + 1, n):
            t = list(base)
            t[i], t[j] = t[j], t[i]
            yield "swap %d %d" % (i, j), t
        for ln in LINES:
            yield "line %d = %r" % (i, ln), base[:i] + [ln] + base[i + 1:]
            yield "insert %d %r" % (i, ln), base[:i] + [ln] + base[i:]
        if i == n - 1:
            for ln in LINES:
                yield "append %r" % ln, base + [ln]
        for new in edits(base[i]):
            yield "edit %d -> %r" % (i, new), base[:i] + [new] + base[i + 1:]


def edits(ln):
    """Changes within a line."""
    m = re.fullmatch(r"(\s*)(\w+) = ([^|]*)(\|.*)?", ln)
    if m:
        sp, key, val, rest = m.group(1), m.group(2), m.group(3), m.group(4) or ""
        rest = " " + rest if rest else ""
        for v in VALS.get(key, []):
            yield "%s%s = %s%s" % (sp, key, v, rest)
        for k in KEYS:
            yield "%s%s = %s%s" % (sp, k, val, rest)
        yield "%s%s %s" % (sp, key, val)
        yield "%s%s: %s" % (sp, key, val)
        yield "%s=%s" % (key.upper(), val)
        yield "%s%s == %s" % (sp, key, val)
        yield ln + " # comment"
        yield ln + " |"
        for k, vs in VALS.items():
            if k in BOOLS + OTHER and k != key:
                for v in vs[:3]:
                    yield "%s | %s = %s" % (ln, k, v)
    elif ln.startswith("["):
        yield ln[1:]
        yield ln[:-1]
        yield " " + ln
        yield ln.upper()
        yield ln.replace("[", "[  ")
        yield ln + " "
        yield ln + " # comment"
        yield ln.replace("]", "", 1) + "]]"
    yield "# " + ln
    yield ln + "\\"


SMALL = """[ccpp-table-properties]
  name = foo
  type = scheme
[ccpp-arg-table]
  name = foo_run
  type = scheme
[ a ]
  standard_name = s_a
  units = K
  dimensions = ()
  type = real
  intent = in
""".splitlines()
ALPHA = ["[ccpp-table-properties]", "[ccpp-arg-table]", "  name = foo", "  name = foo_run", "  name = foo_init", "  type = scheme", "  type = host", "[ b ]",
         "  standard_name = s_a", "  standard_name = s_b", "  units = K", "  dimensions = () | type = real", "  intent = in", "", "text"]
BLOCK = ["  standard_name = s_b", "  units = K", "  dimensions = ()", "  type = real", "  intent = in"]


def windows(size, width):
    for i in range(len(SMALL) + 1):
        for w in range(width + 1):
            if i + w <= len(SMALL):
                for k in range(1, size + 1):
                    for t in itertools.product(ALPHA, repeat=k):
                        yield "window %d+%d %s" % (i, w, " / ".join(x.strip() for x in t)), SMALL[:i] + list(t) + SMALL[i + w:]


def blocks():
    """Every file SMALL + a second variable with a subset of the attribute lines in every order of three, and every table made of
    any sequence of whole blocks."""
    for k in range(len(BLOCK) + 1):
        for t in itertools.permutations(BLOCK, k):
            yield "block " + " / ".join(x.strip() for x in t), SMALL + ["[ b ]"] + list(t)
    tab = lambda n, ty="scheme": ["[ccpp-table-properties]", "  name = " + n, "  type = " + ty]
    sec = lambda n, ty="scheme": ["[ccpp-arg-table]", "  name = " + n, "  type = " + ty]
    var = lambda n, s: ["[ %s ]" % n, "  standard_name = " + s, "  units = K", "  dimensions = () | type = real | intent = in"]
    parts = {"Tfoo": tab("foo"), "Tbar": tab("bar"), "Thost": tab("host", "host"), "Tddt": tab("dt", "ddt"), "Sfoo_run": sec("foo_run"),
             "Sfoo_init": sec("foo_init"), "Sbar_run": sec("bar_run"), "Shost": sec("host", "host"), "Sddt": sec("dt", "ddt"), "Va": var("a", "s_a"),
             "Vb": var("b", "s_b"), "Vdt": ["[ d ]", "  standard_name = s_d", "  dimensions = () | type = dt | intent = in"]}
    for k in range(1, 6):
        for t in itertools.product(parts, repeat=k):
            if t[0][0] != "T" and k > 3 or k > 1 and t[1][0] == "T" and k > 4:
                continue
            yield "parts " + " ".join(t), [x for p in t for x in parts[p]]


# ---------------------------------------------------------------- several files
def texts(tables, f90):
    """A .meta file with the given tables [(kind, table, [sections])] and its Fortran file."""
    meta, fort = [], []
    for kind, tab, secs in tables:
        meta += ["[ccpp-table-properties]", "  name = " + tab, "  type = " + kind]
        for s in secs:
            meta += ["[ccpp-arg-table]", "  name = " + s, "  type = " + kind]
            if kind == "scheme":
                meta += ["[ errmsg ]", "  standard_name = ccpp_error_message", "  units = none | dimensions = () | type = character | kind = len=512",
                         "  intent = out"]
                fort.append((kind, s))
            else:
                meta += ["[ v_%s ]" % tab, "  standard_name = sn_" + tab, "  units = K | dimensions = () | type = real | kind = kind_phys"]
                fort.append((kind, s))
    mod = os.path.basename(f90)[:-4]
    types = [n for k, n in fort if k == "ddt"]
    spec, body, done = [], [], set()
    for k, n in fort:
        if (k, n) in done:
            continue
        done.add((k, n))
        if k == "ddt":
            spec += ["  !> \\section arg_table_%s Argument Table" % n, "  !! \\htmlinclude %s.html" % n, "  type, public :: " + n,
                     "    real(kind_phys) :: v_" + n, "  end type " + n]
        elif k == "module":
            spec += ["  !> \\section arg_table_%s Argument Table" % n, "  !! \\htmlinclude %s.html" % n, "  real(kind_phys) :: v_" + n]
        else:
            body += ["  !> \\section arg_table_%s Argument Table" % n, "  !! \\htmlinclude %s.html" % n, "  subroutine %s(errmsg)" % n,
                     "    character(len=512), intent(out) :: errmsg", "    errmsg = ''", "  end subroutine " + n]
    with open(f90, "w") as f:
        f.write("\n".join(["module " + mod, "  use ccpp_kinds, only: kind_phys", "  implicit none"] + spec + ["contains"] * bool(body) + body
                          + ["end module " + mod]) + "\n")
    with open(f90[:-4] + ".meta", "w") as f:
        f.write("\n".join(meta) + "\n")


def assembly(job):
    """Tables of two files are put together: repeated tables and sections are refused."""
    kind, files = job
    d = mc.newdir("c15a")
    try:
        paths = []
        where = {}
        dup = []
        for i, tables in enumerate(files):
            f = os.path.join(d, ("m%d" % i) + ".F90")
            texts(tables, f)
            paths.append(f[:-4] + ".meta")
            for n, ln in enumerate(open(paths[-1])):
                if ln.startswith("  name = "):
                    nm = (ln.split("=")[1].strip(), last)
                    if nm in where:
                        dup.append((nm[0], where[nm], (paths[-1], n)))
                    else:
                        where[nm] = (paths[-1], n)
                elif ln.startswith("["):
                    last = ln.strip()

        def go():
            import logging
            import ccpp_capgen
            from parse_tools import CCPPError, ParseSyntaxError
            from framework_env import CCPPFrameworkEnv
            log = logging.getLogger("c15")
            log.addHandler(logging.NullHandler())
            log.propagate = False
            env = CCPPFrameworkEnv(log, ndict={"host_files": ",".join(paths), "scheme_files": ",".join(paths), "suites": ""})
            try:
                if kind == "scheme":
                    headers, tabs = ccpp_capgen.parse_scheme_files(paths, env)
                    return "read", sorted(h.title for h in headers), sorted(tabs)
                host = ccpp_capgen.parse_host_model_files(paths, "hname", env)
                return "read", sorted(v.get_prop_value("standard_name") for v in host.variable_list(std_vars=True, loop_vars=False, consts=False)), []
            except (CCPPError, ParseSyntaxError) as exc:
                return "refused", str(exc), None
            except Exception as exc:     # pylint: disable=broad-except
                return "crash", "%s: %s" % (type(exc).__name__, exc), None
        got = mc.forked(go)
        label = " + ".join(";".join("%s %s(%s)" % (k[0], t, ",".join(s)) for k, t, s in tabs) for tabs in files)
        bad = None
        if got[0] == "crash":
            bad = "crashes with " + got[1]
        elif dup and got[0] != "refused":
            bad = "repeated %s accepted" % dup[0][0]
        elif dup:
            for n, (f1, l1), (f2, l2) in dup:
                if n in got[1] and re.search(re.escape(f1) + ":\\d+", got[1]) and re.search(re.escape(f2) + ":\\d+", got[1]):
                    break
            else:
                bad = "the error does not name the repeated item and both places: " + got[1].replace(d, "")
        elif got[0] == "refused":
            bad = "refused: " + got[1].replace(d, "")
        elif kind == "scheme":
            secs = sorted(s for tabs in files for _, _, ss in tabs for s in ss)
            if got[1] != secs or got[2] != sorted(t for tabs in files for _, t, _ in tabs):
                bad = "read %s, %s" % (got[1], got[2])
        else:
            want = sorted("sn_" + t for tabs in files for k, t, _ in tabs if k == "module")
            if [x for x in got[1] if x.startswith("sn_")] != want:
                bad = "read %s" % got[1]
        return "assembly " + kind + ": " + label, got[0], bad
    finally:
        mc.rmdir(d)


def assemblies(deep):
    opts = []
    for t in ("foo", "bar"):
        for k in range(1, 4 if deep else 3):
            for secs in itertools.product(["run", "init", "final"][:3 if deep else 2], repeat=k):
                opts.append(("scheme", t, [t + "_" + s for s in secs]))
    for n in (1, 2):
        for tabs in itertools.product(opts, repeat=n):
            for split in range(1, n + 1):
                files = [list(tabs[:split])] + ([list(tabs[split:])] if split < n else [])
                if len(files[0]) == 2 and tabs[0][1] == tabs[1][1]:
                    continue                    # the reader refuses it (parse_metadata_file part)
                yield "scheme", files
    hopts = [(k, t, [t]) for k in ("ddt", "module") for t in ("m0", "m1", "dd")]
    hopts = [o for o in hopts if (o[0] == "ddt") == (o[1] == "dd")]
    for n in (1, 2, 3):
        for tabs in itertools.product(hopts, repeat=n):
            for split in range(1, n + 1):
                files = [list(tabs[:split])] + ([list(tabs[split:])] if split < n else [])
                if any(len({t for _, t, _ in f}) < len(f) for f in files) or any(
                        k == "module" and t != "m%d" % i for i, f in enumerate(files) for k, t, _ in f):
                    continue
                yield "host", files


def run(job):
    kind, items = job
    d = mc.newdir("c15")
    path = os.path.join(d, "stem.meta")
    bad, out, n, tr, per = [], {}, 0, 0, {}
    try:
        for label, lines in items:
            n += 1
            tr += len(lines)
            o, b = judge(path, lines)
            out[o] = out.get(o, 0) + 1
            if b:
                k = re.sub(r"\d+", "N", b)[:60]
                per[k] = per.get(k, 0) + 1
                if per[k] <= 3:
                    bad.append((label, lines, b))
        return kind, n, tr, bad, out
    finally:
        mc.rmdir(d)


def space(deep):
    for name, base in BASES.items():
        for label, t in single(base):
            yield "single", (name + " " + label, t)
    for label, t in blocks():
        yield "blocks", (label, t)
    for label, t in windows(4 if deep else 3, 2 if deep else 1):
        yield "windows", (label, t)
    # pairs of edits of the small file
    seen = {}
    for label, t in single(SMALL):
        if not label.startswith(("edit", "line", "insert", "append")) or deep and label.startswith("edit"):
            seen.setdefault(tuple(t), label)
    for t, label in seen.items():
        for label2, t2 in single(list(t)):
            if label2.startswith(("delete", "swap", "copy") + (("edit",) if deep else ())):
                if deep or label2.startswith("delete") or hash_of(label + label2) % 4 == 0:
                    yield "pairs", (label + " + " + label2, t2)


def hash_of(s):
    return sum(ord(c) * (i + 1) for i, c in enumerate(s))


def main():
    ck = mc.Check("C15", "model_checking")
    deep = not ck.quick
    jobs, cur = [], {}
    for kind, item in space(deep):
        cur.setdefault(kind, []).append(item)
        if len(cur[kind]) == 1500:
            jobs.append((kind, cur.pop(kind)))
    jobs += list(cur.items())
    n = tr = 0
    for kind, k, t, bad, out in mc.pmap(run, jobs):
        n += k
        tr += t
        for o, c in out.items():
            ck.outcome(kind + " " + o, c)
        for label, lines, b in bad:
            ck.violation("%s: %s" % (re.sub(r"\d+", "N", b)[:70], label), b, {"lines": lines})
    for label, o, b in mc.pmap(assembly, list(assemblies(deep))):
        n += 1
        ck.outcome("assembly " + o)
        if b:
            ck.violation(label, b)
    for s in ("scheme delete 3", "host swap 4 9", "window 6+1 [ b ] / units = K", "parts Tfoo Sfoo_run Va Sfoo_init"):
        ck.sample(s)
    ck.finish(states=n, transitions=tr, traces_validated_against_impl=n, exhaustive=True)


main()
