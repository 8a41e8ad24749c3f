"""C01: histories of configuration operations under storage faults, interruptions and interleavings."""
import copy
import logging
import os
import sys
from ast import literal_eval

from .. import faults, sched, world
from ..core import Property, SimCrash, Violation, short
from ..faults import CrashAt

TYPES = {"int": int, "float": float, "str": str, "bool": bool, "list": list, "tuple": tuple}
KEYS = ["A", "B", "LR", "NAME", "SUB", "NET", "extra", "K2"]
WORDS = ["icp", "foo/bar", "with space", "", "a: b", "# no comment", "two\nlines", "caf\u00e9 \u2603", "it's", "-", "~/x", "100%", "[", "yes", "null", "2020-01-02", " x ", "end\t", "\nline"]


def C():
    from gradslam.config import CfgNode

    return CfgNode


# -- values as plans hold them ------------------------------------------------


def draw_leaf(rng, kind=None):
    kind = kind or rng.choice(list(TYPES))
    v = {"int": lambda: rng.choice([0, 1, -7, 2**40, rng.randrange(1000)]),
         "float": lambda: rng.choice([0.0, 1.0, -2.5, 1e-5, 1e16, 3.25e300, round(rng.random(), 3)]),
         "str": lambda: rng.choice(WORDS), "bool": lambda: rng.random() < 0.5}
    if kind in v:
        return [kind, v[kind]()]
    return [kind, [rng.choice([v["int"], v["float"], v["str"], v["bool"]])() for _ in range(rng.randint(0, 3))]]


def leaf(x):
    return TYPES[x[0]](copy.deepcopy(x[1]))


def draw_tree(rng, depth=0):
    out = {}
    for k in rng.sample(KEYS, rng.randint(1, 4)):
        if depth < 2 and (k in ("SUB", "NET") or rng.random() < 0.1):
            out[k] = {"tree": draw_tree(rng, depth + 1), "new": rng.random() < 0.25}
        else:
            out[k] = draw_leaf(rng)
    return out


def plain(tree):
    """A nested dict of real values."""
    return {k: (plain(v["tree"]) if isinstance(v, dict) else leaf(v)) for k, v in tree.items()}


def node_of(tree, new=False):
    """A CfgNode as a user builds one with per-node flags."""
    n = C()(new_allowed=new)
    for k, v in tree.items():
        setattr(n, k, node_of(v["tree"], v["new"]) if isinstance(v, dict) else leaf(v))
    return n


# -- the model ------------------------------------------------------------------


class Refused(Exception):
    pass


class Unclear(Exception):
    """Reaches a node frozen below a mutable configuration: not specified."""


class M(object):
    def __init__(self, new=False):
        self.kids, self.new, self.frozen, self.dep, self.ren = {}, new, False, set(), {}

    @staticmethod
    def of(tree, new=False):
        m = M(new)
        for k, v in tree.items():
            m.kids[k] = M.of(v["tree"], v["new"]) if isinstance(v, dict) else leaf(v)
        return m

    @staticmethod
    def of_plain(d):
        m = M()
        for k, v in d.items():
            m.kids[k] = M.of_plain(v) if isinstance(v, dict) else v
        return m

    def freeze(self, on):
        self.frozen = on
        for v in self.kids.values():
            if isinstance(v, M):
                v.freeze(on)

    def plain(self):
        return {k: (v.plain() if isinstance(v, M) else v) for k, v in self.kids.items()}


def coerce(new, old):
    if isinstance(new, M) or isinstance(old, M):
        if isinstance(new, M) and isinstance(old, M):
            return new
        raise Refused("type")
    if type(new) is type(old):
        return new
    if {type(new), type(old)} == {list, tuple}:
        return type(old)(new)
    raise Refused("type of %r for %r" % (new, old))


def decode(v):
    if not isinstance(v, str):
        return v
    try:
        return literal_eval(v)
    except (ValueError, SyntaxError):
        return v


def merge(a, b, root, path=(), lenient=False):
    """Merges nested dict a into model b in place."""
    bad = None
    if b.frozen:
        raise Unclear()
    for k, v in a.items():
        full = ".".join(path + (k,))
        v = decode(copy.deepcopy(v))
        if isinstance(v, dict):
            v = M.of_plain(v)
        try:
            if k in b.kids:
                v = coerce(v, b.kids[k])
                if isinstance(v, M):
                    merge(a[k], b.kids[k], root, path + (k,), lenient)
                else:
                    b.kids[k] = v
            elif b.new:
                b.kids[k] = v
            elif full in root.dep:
                continue
            else:
                raise Refused("key " + full)
        except Refused as e:
            bad = e
            if not lenient:
                raise
    if bad and not lenient:
        raise bad


def merge_list(pairs, m, lenient=False):
    for full, v in pairs:
        try:
            if full in m.dep:
                continue
            if full in m.ren:
                raise Refused("renamed")
            d, ks = m, full.split(".")
            for k in ks[:-1]:
                if not isinstance(d, M) or k not in d.kids:
                    raise Refused("key")
                d = d.kids[k]
            if not isinstance(d, M) or ks[-1] not in d.kids:
                raise Refused("key")
            if d.frozen:
                raise Unclear()
            d.kids[ks[-1]] = coerce(decode(v), d.kids[ks[-1]])
        except Refused:
            if not lenient:
                raise


# -- reading the real thing --------------------------------------------------------


def real(cfg):
    return {k: (real(v) if isinstance(v, C()) else v) for k, v in cfg.items()}


def tag(v):
    """Comparable with exact types."""
    if isinstance(v, dict):
        return {k: tag(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [tag(x) for x in v]
    return [type(v).__name__, repr(v)]


def flags(x):
    if isinstance(x, M):
        return [x.frozen, x.new, {k: flags(v) for k, v in x.kids.items() if isinstance(v, M)}]
    return [x.is_frozen(), x.is_new_allowed(), {k: flags(v) for k, v in x.items() if isinstance(v, C())}]


def between(got, old, new, path=""):
    """None, or the first key whose value is neither the old nor the new one."""
    for k in set(old) - set(got):
        return path + k + " is gone"
    for k, v in got.items():
        o, n = old.get(k), new.get(k)
        if isinstance(v, dict) and (isinstance(o, dict) or isinstance(n, dict)):
            d = between(v, o if isinstance(o, dict) else {}, n if isinstance(n, dict) else {}, path + k + ".")
            if d:
                return d
        elif not any(k in s and tag(s[k]) == tag(v) for s in (old, new)):
            return "%s%s is %r (was %r, asked %r)" % (path, k, v, o, n)
    return None


def resync(m, got):
    for k, v in got.items():
        if isinstance(v, dict):
            if not isinstance(m.kids.get(k), M):
                m.kids[k] = M()
            resync(m.kids[k], v)
        else:
            m.kids[k] = v


def paths_of(m, nodes=False, pre=()):
    for k, v in m.kids.items():
        if isinstance(v, M):
            if nodes:
                yield pre + (k,)
            for p in paths_of(v, nodes, pre + (k,)):
                yield p
        elif not nodes:
            yield pre + (k,)


def at(m, path):
    for k in path:
        m = m.kids[k]
    return m


def at_real(c, path):
    for k in path:
        c = getattr(c, k)
    return c


class Configuration(Property):
    """C01: a configuration changes only as asked: frozen stays frozen, copies stay apart, loads are exact or refused."""

    id = "C01"
    quick_runs = 25000
    thorough_runs = 2500000
    rule = ("one run = a history of 4-14 assignments, merges (from trees, lists, YAML and Python files on the simulated disk), freezes, clones and "
            "dump/reload round trips on a family of configurations, with storage faults, damaged files, crashes before a random gradslam line and "
            "threads; after every operation every configuration must equal its reference model (after a refused or interrupted merge each value "
            "must be the old or the asked one); non-trivial = a fault, refusal, clone or freeze took part; distinct by history and faults")
    real = ["gradslam.config.CfgNode", "PyYAML", "importlib source loader"]
    stubs = ["disk reads below the scratch directory (storage seam)", "thread scheduling"]
    expected_probes = ("refused-merge", "frozen-refusal", "clone", "file-yaml", "file-py", "load-failed", "interrupted", "roundtrip", "threads",
                       "benign-fault", "damaged-file")
    assumptions = ["item assignment (cfg['x'] = ...) and in-place changes of list values bypass freezing by design and are not used on frozen configurations",
                   "a merge that is refused half-way may leave some of the asked values in place (as in yacs)",
                   "strings that read as Python literals are interpreted, so round trips use strings that do not"]

    def generate(self, rng, tier):
        n = rng.randint(4, 14 if tier == "quick" else 30)
        ops = []
        for _ in range(n):
            kind = rng.choice(["set", "set", "setnode", "merge", "merge", "list", "file", "file", "file", "freeze", "defrost", "clone", "roundtrip",
                               "deprecate", "rename", "append", "threads"])
            op = {"op": kind, "i": rng.randrange(8), "u": [round(rng.random(), 6) for _ in range(8)], "leaf": draw_leaf(rng),
                  "seed": rng.randrange(1 << 30)}
            if kind in ("merge", "list", "file", "set") and rng.random() < 0.2:
                op["crash"] = round(rng.random(), 6)
            if kind == "file":
                op["ext"] = rng.choice(["yaml", "yml", "", "py"])
                op["damage"] = rng.choice([None, None, None, None, "ext", "invalid", "null", "root", "empty", "missing"])
                op["faults"] = [[round(rng.random(), 6), rng.choice(["EIO", "EMFILE", "ENOENT", "EACCES", "EINTR", "short", "short", "ENOMEM"])]
                                for _ in range(rng.choice([0, 0, 1, 1, 2]))]
            ops.append(op)
        return {"tree": draw_tree(rng), "new": rng.random() < 0.2, "ops": ops, "sched": sched.draw(rng)}

    # -- helpers ------------------------------------------------------------------

    def overrides(self, op, m, valid=0.75):
        """A nested dict to merge into model m: mostly valid, sometimes not."""
        from ..tools import rng_of

        rng = rng_of("ov", op["seed"])
        out = {}
        leaves = list(paths_of(m))
        for _ in range(rng.randint(1, 3)):
            if leaves and rng.random() < 0.9:
                p = rng.choice(leaves)
                old = at(m, p)
                kind = type(old).__name__ if rng.random() < valid else rng.choice(list(TYPES))
                if kind in ("list", "tuple") and rng.random() < 0.4:
                    kind = "list" if kind == "tuple" else "tuple"
                v = leaf(draw_leaf(rng, kind))
            else:
                nodes = [()] + list(paths_of(m, nodes=True))
                p = rng.choice(nodes) + (rng.choice(KEYS),)
                v = leaf(draw_leaf(rng)) if rng.random() < 0.7 else {"x": leaf(draw_leaf(rng))}
            d = out
            for k in p[:-1]:
                if not isinstance(d.get(k), dict):
                    d[k] = {}
                d = d[k]
            d[p[-1]] = v
        return out

    def verify(self, run, fam, where):
        for i, (c, m) in enumerate(fam):
            run.stats["checks"] += 1
            got, want = real(c), m.plain()
            if tag(got) != tag(want):
                raise Violation("configuration-differs", "%s: configuration %d is %s, expected %s" % (where, i, short(got), short(want)))
            if flags(c) != flags(m):
                raise Violation("flags-differ", "%s: configuration %d: %s, expected %s" % (where, i, flags(c), flags(m)))
            for k in KEYS:
                if c.key_is_deprecated(k) != (k in m.dep) or c.key_is_renamed(k) != (k in m.ren):
                    raise Violation("registration-differs", "%s: configuration %d, key %s" % (where, i, k))

    def attempt(self, run, op, c, m, call, model_call, lenient_call, where, may_fail=None):
        """Runs one mutating operation against the model. call(cfg), model_call(model), lenient_call(model)."""
        want = copy.deepcopy(m)
        refused = None
        try:
            if not m.frozen:
                model_call(want)
        except Refused as e:
            refused = str(e)
        except Unclear:
            return
        if m.frozen:
            # nothing may change, whatever the outcome
            refused, want = "frozen", copy.deepcopy(m)
        most = copy.deepcopy(m)
        try:
            if not m.frozen:
                lenient_call(most)
        except Unclear:
            return
        crashed = failed = None
        try:
            if op.get("crash") is not None:
                twin = copy.deepcopy(c)
                with CrashAt(None) as ct:
                    try:
                        call(twin)
                    except Exception:
                        pass
                with CrashAt(min(int(op["crash"] * ct.n), max(ct.n - 1, 0))):
                    call(c)
            else:
                call(c)
        except SimCrash:
            crashed = True
            run.fault("crash")
            run.probe("interrupted")
        except (Violation,):
            raise
        except Exception as e:
            failed = e
        if failed is None and not crashed:
            run.check(refused is None, "accepted-invalid", lambda: "%s: accepted, expected a refusal (%s)" % (where, refused))
            m.__dict__.update(want.__dict__)
            return
        may_fail = may_fail and may_fail()
        if failed is not None:
            if refused is None and not may_fail:
                raise Violation("refused-valid", "%s: %s: %s" % (where, type(failed).__name__, short(failed)))
            if may_fail and refused is None:
                run.probe("load-failed")
                return  # the model is unchanged: verify() compares
            run.probe("frozen-refusal" if refused == "frozen" else "refused-merge")
            run.nontrivial = True
            ok = (KeyError, ValueError, AssertionError, AttributeError, TypeError)
            run.check(isinstance(failed, ok) or may_fail or bool(op.get("damage")), "wrong-refusal", lambda: "%s: %s: %s" % (where, type(failed).__name__, short(failed)))
            if refused == "frozen":
                return
        got = real(c)
        d = between(got, m.plain(), most.plain())
        run.check(d is None, "torn-merge", lambda: "%s: %s" % (where, d))
        resync(m, got)

    # -- execution --------------------------------------------------------------

    def execute(self, plan, run):
        quiet = logging.root.manager.disable
        logging.disable(logging.CRITICAL)
        dwb = sys.dont_write_bytecode
        sys.dont_write_bytecode = True
        try:
            with world.Scratch() as base, faults.Storage(base, 1) as disk:
                self.history(plan, run, base, disk)
        finally:
            sys.dont_write_bytecode = dwb
            logging.disable(quiet)

    def history(self, plan, run, base, disk):
        Cfg = C()
        fam = [(node_of(plan["tree"], plan["new"]), M.of(plan["tree"], plan["new"]))]
        run.shape(plan["tree"], plan["new"])
        self.verify(run, fam, "start")
        for n, op in enumerate(plan["ops"]):
            i = op["i"] % len(fam)
            c, m = fam[i]
            kind = op["op"]
            where = "operation %d (%s)" % (n, kind)
            run.shape(kind, i, op.get("ext"), op.get("damage"), op.get("faults"), op.get("crash"))
            u = op["u"]
            nodes = [()] + list(paths_of(m, nodes=True))
            p = nodes[int(u[0] * len(nodes))]
            leaves = list(paths_of(m))
            if kind == "set":
                bad = u[1] < 0.1
                if u[2] < 0.7 and leaves:
                    q = leaves[int(u[3] * len(leaves))]
                else:
                    q = p + (KEYS[int(u[3] * len(KEYS))],)
                    if isinstance(at(m, p).kids.get(q[-1]), M):
                        continue
                v = {1, 2} if bad else leaf(op["leaf"])
                host = at(m, q[:-1])

                def model_set(x, q=q, v=v, bad=bad):
                    if bad:
                        raise Refused("type")
                    at(x, q[:-1]).kids[q[-1]] = copy.deepcopy(v)

                def call(x, q=q, v=v):
                    setattr(at_real(x, q[:-1]), q[-1], v)

                if host.frozen and not m.frozen:
                    # a frozen node of a mutable configuration
                    try:
                        call(c)
                    except AttributeError:
                        run.probe("frozen-refusal")
                        run.nontrivial = True
                    else:
                        raise Violation("accepted-invalid", where + ": assignment to a frozen node")
                elif m.frozen and not host.frozen:
                    # a node defrosted on its own below a frozen configuration
                    continue
                else:
                    self.attempt(run, op, c, m, call, model_set, lambda x: None if bad else model_set(x), where)
            elif kind == "setnode":
                if at(m, p).frozen:
                    continue
                t = {"tree": {"x": op["leaf"], "SUB": {"tree": {"y": op["leaf"]}, "new": u[2] < 0.5}}, "new": u[1] < 0.5}
                name = "extra"
                if name in at(m, p).kids and not isinstance(at(m, p).kids[name], M):
                    continue
                setattr(at_real(c, p), name, node_of(t["tree"], t["new"]))
                at(m, p).kids[name] = M.of(t["tree"], t["new"])
            elif kind == "merge":
                if m.frozen and any(not at(m, q).frozen for q in nodes):
                    continue
                src = self.overrides(op, m)
                other = Cfg(copy.deepcopy(src))
                self.attempt(run, op, c, m, lambda x: x.merge_from_other_cfg(other), lambda x: merge(src, x, x), lambda x: merge(src, x, x, lenient=True), where)
                run.check(tag(real(other)) == tag(src), "source-modified", where + ": the merged-in configuration changed")
                # the merged-in tree stays the caller's own
                self.scribble(other)
            elif kind == "list":
                if m.frozen and any(not at(m, q).frozen for q in nodes):
                    continue
                src = self.overrides(op, m)
                pairs = [(".".join(q), v) for q, v in self.flat(src)]
                if u[1] < 0.3:
                    pairs = [(k, repr(v) if not isinstance(v, str) else v) for k, v in pairs]
                # a path through a leaf, or to a whole node, is not a key
                if any(isinstance(self.peek(m, k), M) or self.through_leaf(m, k) for k, _ in pairs):
                    continue
                lst = [x for kv in pairs for x in kv]
                odd = u[2] < 0.1
                if odd:
                    lst = lst + ["A"]

                def model_list(x, odd=odd):
                    if odd:
                        raise Refused("odd")
                    merge_list(pairs, x)

                self.attempt(run, op, c, m, lambda x: x.merge_from_list(copy.deepcopy(lst)), model_list,
                             lambda x: None if odd else merge_list(pairs, x, True), where)
            elif kind == "file":
                if m.frozen and any(not at(m, q).frozen for q in nodes):
                    continue
                self.from_file(run, op, c, m, base, disk, n, where)
            elif kind in ("freeze", "defrost"):
                q = p if u[1] < 0.3 else ()
                getattr(at_real(c, q), kind)()
                at(m, q).freeze(kind == "freeze")
                run.nontrivial = True
            elif kind == "clone":
                if len(fam) < 6:
                    k = c.clone()
                    fam.append((k, copy.deepcopy(m)))
                    run.probe("clone")
                    run.nontrivial = True
            elif kind == "append":
                ls = [q for q in leaves if isinstance(at(m, q), list)]
                if ls and not m.frozen:
                    q = ls[int(u[1] * len(ls))]
                    at_real(c, q).append(7)
                    at(m, q).append(7)
            elif kind in ("deprecate", "rename"):
                k = KEYS[int(u[1] * len(KEYS))]
                reg = m.dep if kind == "deprecate" else m.ren
                try:
                    if kind == "deprecate":
                        c.register_deprecated_key(k)
                    else:
                        c.register_renamed_key(k, "NEW." + k, "note" if u[2] < 0.5 else None)
                except AssertionError:
                    run.check(k in reg, "refused-valid", where)
                else:
                    run.check(k not in reg, "accepted-invalid", where + ": key registered twice")
                    if kind == "deprecate":
                        reg.add(k)
                    else:
                        reg[k] = 1
            elif kind == "roundtrip":
                self.printed(run, c, m.plain(), where)
                if self.literal_strings(m.plain()):
                    continue
                text = c.dump()
                back = real(Cfg.load_cfg(text))
                run.check(tag(self.listed(back)) == tag(self.listed(real(c))), "roundtrip-differs", lambda: "%s: %s became %s" % (where, short(real(c)), short(back)))
                k = c.clone()
                k.defrost()
                if not self.tuples_inside(m.plain()):
                    k.merge_from_other_cfg(Cfg.load_cfg(text))
                    run.check(tag(real(k)) == tag(real(c)), "roundtrip-differs", lambda: "%s: %s became %s" % (where, short(real(c)), short(real(k))))
                run.probe("roundtrip")
            elif kind == "threads":
                self.threads(run, plan, op, c, m, where)
            run.event(n, kind, [len(x[1].kids) for x in fam], m.frozen)
            self.verify(run, fam, where)
        run.state([sorted(map(".".join, paths_of(m))) for _, m in fam], [m.frozen for _, m in fam])

    def printed(self, run, c, plain, where):
        """A printed configuration shows every setting."""
        text, rep = str(c), repr(c)

        def each(d):
            for k, v in d.items():
                if isinstance(v, dict):
                    run.check("%s:" % k in text and str(k) in rep, "not-printed", lambda: "%s: %r does not appear in %s" % (where, k, short(text)))
                    each(v)
                elif "\n" not in str(v):
                    run.check("%s: %s" % (k, v) in text and repr(v) in rep, "not-printed", lambda: "%s: %s = %r does not appear in %s" % (where, k, v, short(text)))

        each(plain)

    def from_file(self, run, op, c, m, base, disk, n, where):
        Cfg = C()
        ext, damage = op["ext"], op["damage"]
        src = self.overrides(op, m)
        if ext != "py":
            src = self.listed(src)
        # files are rewritten under the names of earlier ones
        path = os.path.join(base, "cfg%d%s" % (op["seed"] % 2, "." + ext if ext else ""))
        text = "cfg = %r\n" % (src,) if ext == "py" else Cfg(src).dump()
        if damage == "ext":
            path += ".txt"
        elif damage == "invalid":
            text = "cfg = {'A': \n" if ext == "py" else "A: [1, 2\nB: }\n"
        elif damage == "null":
            text = "cfg = {'A': None}\n" if ext == "py" else "A:\n"
        elif damage == "root":
            text = "other = {}\n" if ext == "py" else "- 1\n- 2\n"
        elif damage == "empty":
            text, src = ("cfg = {}\n" if ext == "py" else "\n"), {}
        if damage != "missing":
            if os.path.exists(path):
                run.probe("file-rewritten")
            with open(path, "w") as f:
                f.write(text)
            os.utime(path, (1e9 + 60 * n, 1e9 + 60 * n))  # a minute of simulated time between operations
        elif os.path.exists(path):
            os.remove(path)
        if damage:
            run.fault("file-" + damage)
            run.probe("damaged-file")
        run.probe("file-py" if ext == "py" else "file-yaml")
        broken = damage not in (None, "empty")

        def model_load(x):
            if broken:
                raise Refused("damaged")
            merge(src, x, x)

        # where the operations are: one fault-free load through a throw-away configuration
        disk.quiet()
        disk.arm([])
        try:
            Cfg(new_allowed=True).merge_from_file(path)
        except Exception:
            pass
        ops, _ = disk.quiet()
        plan = [[int(x * ops), k, 5] for x, k in op["faults"]] if ops else []
        fired = {}

        def load(x):
            disk.quiet()
            disk.arm(plan)
            try:
                x.merge_from_file(path)
            finally:
                for k, v in disk.quiet()[1].items():
                    fired[k] = fired.get(k, 0) + v

        before = copy.deepcopy(m)
        self.attempt(run, op, c, m, load, model_load, lambda x: None if broken else merge(src, x, x, lenient=True), where, 
                     may_fail=lambda: any(k not in ("EINTR", "short") for k in fired))
        for k, v in fired.items():
            run.fault("disk-" + k, v)
            if k in ("EINTR", "short"):
                run.probe("benign-fault")
        if broken:
            run.check(tag(real(c)) == tag(before.plain()), "damaged-file-applied", where)

    def threads(self, run, plan, op, c, m, where):
        """Two threads override their own clones of one shared configuration."""
        srcs = [self.overrides({"seed": op["seed"] + k}, m, 1.0) for k in (1, 2)]
        want = []
        for s in srcs:
            x = copy.deepcopy(m)
            x.freeze(False)
            try:
                merge(s, x, x)
                want.append(x.plain())
            except (Refused, Unclear):
                return

        def body(s):
            def go():
                k = c.clone()
                k.defrost()
                k.merge_from_other_cfg(C()(copy.deepcopy(s)))
                k.freeze()
                return real(k)

            return go

        run.probe("threads")
        res = sched.Scheduler(plan["sched"], run).go([body(s) for s in srcs])
        for (status, val), w in zip(res, want):
            if status == "error":
                raise val
            run.check(tag(val) == tag(w), "threads-interfere", lambda: "%s: %s, expected %s" % (where, short(val), short(w)))

    # -- small helpers on nested dicts ------------------------------------------

    def scribble(self, node):
        for k, v in list(node.items()):
            if isinstance(v, dict):
                self.scribble(v)
            elif isinstance(v, list):
                v.append("scribbled")
            else:
                node[k] = "scribbled"

    def flat(self, d, pre=()):
        for k, v in d.items():
            if isinstance(v, dict):
                for x in self.flat(v, pre + (k,)):
                    yield x
            else:
                yield pre + (k,), v

    def peek(self, m, full):
        for k in full.split("."):
            if not isinstance(m, M) or k not in m.kids:
                return None
            m = m.kids[k]
        return m

    def through_leaf(self, m, full):
        for k in full.split("."):
            if not isinstance(m, M):
                return True
            if k not in m.kids:
                return False
            m = m.kids[k]
        return False

    def listed(self, v):
        if isinstance(v, dict):
            return {k: self.listed(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [self.listed(x) for x in v]
        return v

    def literal_strings(self, v):
        if isinstance(v, dict):
            return any(self.literal_strings(x) for x in v.values())
        return isinstance(v, str) and decode(v) is not v and decode(v) != v

    def tuples_inside(self, v):
        if isinstance(v, dict):
            return any(self.tuples_inside(x) for x in v.values())
        return isinstance(v, (list, tuple)) and any(isinstance(x, tuple) for x in v)


PROPERTIES = [Configuration()]
