"""Seeded generation of cases.  A case is drawn from random.Random(f"{seed}/{profile}/{index}")."""
import importlib
import random

MS = 1_000_000

INTS = ["n0", "n1", "n2"]
BOOLS = ["b0", "b1", "b2", "b3"]
TEXTS = ["t0", "t1"]
LISTS = ["l0", "l1", "l2"]
HOST_EVENTS = [["click", "change"]] * 5 + [["click", "change", "keyDown"]] * 2 + [["click", "selection_changed"], ["on_open", "open"], ["click", "button_on_", "change"]]
WORDS = ["", "a", "b", "cc", "x y", "<&>", "ä"]

DEFAULTS = dict(
    kinds=dict(func=4, **{"class": 5}),
    ncomp=(1, 5),
    depth=4,
    p_if=0.16, p_for=0.2, p_text=0.14, p_comp=0.24, p_virt=0.1, p_slot=0.25,
    p_key_const=0.15, p_key_for=0.65, p_root_virt=0.1, p_root_comp=0.15, p_root_if=0.15,
    attrs=(0, 3), p_handler=0.25,
    handlers=dict(clos=4, late=3, mut=2, dflt=3, kwd=1, part=2, kpart=1, inc=4, linc=3, emit=3, meth=3, objm=2, cobj=1, fwd=2),
    ops=(4, 22),
    opw=dict(set=10, ins=4, **{"del": 4}, move=4, rev=1, swap=3, repl=2, recopy=2, perm=3, clear=1, iset=5,
             nins=2, ndel=1, loc=5, ev=7, emit=2, stale=1, step=14, stall=1, gc=2, render=1, quiesce=3, irrel=1, roprops=0, prov=0),
    faults=0.0, fault_sites=["render", "ctor", "create", "initattr", "hook", "slot", "handler"],
    guis=1, sync=0.15, backend=dict(mem=3, dict=1),
    sync_events=0.3, hooks=0.35, track=0.0, text=True, nroots=(1, 2), slow=0.5, p_fb=0.6, p_slot_opt=0.25, max_size=500, eqsib=0.0, provide=0.3, p_alt=0.06,
    computed=0.25, watch=0.15,
    falsy_keys=0.3, p_filter=0.12, release=0, p_nm=0.3, noise=0.12,
)


def pick(rng, w):
    ks = list(w)
    tot = sum(w[k] for k in ks)
    x = rng.random() * tot
    for k in ks:
        x -= w[k]
        if x < 0:
            return k
    return ks[-1]


def used_keys(comps, roots):
    """Store keys and components that the program reaches from its roots."""
    res = {"S": set(), "L": set(), "C": set()}
    todo = list(roots)
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if x.get("n") == "comp" and x["c"] not in res["C"]:
                res["C"].add(x["c"])
                todo.append(comps[x["c"]]["root"])
            todo.extend(x.values())
        elif isinstance(x, list):
            if len(x) == 2 and x[0] == "s" and isinstance(x[1], str):
                res["L" if x[1][0] == "l" else "S"].add(x[1])
            todo.extend(x)
    return res


class TooBig(Exception):
    pass


def static_size(comps, root, most):
    """Upper bound of the tree's size when every condition holds (loops: 3 items, nested: 2)."""
    n = [0]

    def count():
        n[0] += 1
        if n[0] > most:
            raise TooBig()

    def walk(x, slots, depth):
        k = x["n"]
        if k == "if":
            for c, body in x["br"]:
                for y in body:
                    walk(y, slots, depth)
        elif k == "alt":
            walk(x["t"], slots, depth)
            walk(x["e"], slots, depth)
        elif k == "for":
            for _ in range(2 if x["over"][0] == "vi" else 3):
                walk(x["b"], slots, depth)
        elif k == "slot":
            content = slots.get(x["name"])
            if content is not None:
                content()
            for y in x.get("fb") or ():
                walk(y, slots, depth)
        else:
            count()
            for y in x.get("ch") or ():
                walk(y, slots, depth)
            if k == "comp":
                def filler(its):
                    def go():
                        for y in its:
                            walk(y, slots, depth + 1)

                    return go

                s2 = {name: filler(its) for name, its in (x.get("slots") or {}).items()}
                walk(comps[x["c"]]["root"], s2, depth + 1)

    try:
        walk(root, {}, 0)
    except (TooBig, RecursionError):
        return most + 1
    return n[0]


class Gen:
    def __init__(self, rng, P):
        self.rng = rng
        self.P = P
        self.hid = 0
        self.kid = 0
        self.vid = 0
        self.item_id = 0
        self.provided = []
        self.used_heal = 0

    # ---- data
    def item(self, nested=True):
        r = self.rng
        self.item_id += 1
        i = self.item_id - 1
        if self.likekeys:
            # keys that merely resemble each other
            i = (i // 4, str(i // 4), "k%d" % (i // 4), "K%d " % (i // 4))[i % 4]
        elif self.strkeys:
            i = "" if (i == 0 and r.random() < self.P["falsy_keys"]) else "k%d" % i
        elif i == 0 and r.random() > self.P["falsy_keys"]:
            i = 100
        t = "e" if r.random() < self.P["eqsib"] else r.choice(["a", "b", "c", "a", ""])
        it = {"id": i, "t": t, "f": r.random() < 0.5, "n": []}
        if nested:
            it["n"] = [self.item(False) for _ in range(r.choice([0, 0, 1, 2, 3]))]
        return it

    def items(self, lo=0, hi=5):
        return [self.item() for _ in range(self.rng.randint(lo, hi))]

    def case(self):
        r, P = self.rng, self.P
        self.evs = ["e0", r.choice(["e1", "e1", "selection_changed", "on_e"])]
        keys = r.random()
        self.strkeys = keys < 0.4
        self.likekeys = 0.4 <= keys < 0.55 and not P.get("tool")
        store = {}
        for k in INTS:
            store[k] = r.randint(0, 3)
        for k in BOOLS:
            store[k] = r.random() < 0.5
        for k in TEXTS:
            store[k] = r.choice(WORDS)
        for k in LISTS:
            store[k] = self.items()
        store["zz"] = 0
        for attempt in range(8):
            for k in [k for k in store if k[0] == "h"]:
                del store[k]
            roots = self.program(store)
            self.used = used_keys(self.comps, roots)
            if max(static_size(self.comps, x, P["max_size"]) for x in roots) > P["max_size"]:
                continue
            if len(self.used["S"]) + len(self.used["L"]) >= 2 and len(self.used["C"]) * 2 >= self.n:
                break
        for cd in self.comps:
            cd.pop("pnames"), cd.pop("emits"), cd.pop("slots")
        watch = self.watches(roots, store)
        prog = {"comps": self.comps, "roots": roots, "store": store, "events": [*self.evs, "zz"], "computed": self.global_computed}
        if watch:
            prog["watch"] = watch
        cfg = self.cfg()
        if watch and "sync" in (cfg.get("modes") or [cfg["mode"]]):
            # observ's limitation: the callback of a watch that is older than a computed runs (and
            # updates the UI) before that computed is told that it is out of date
            read = repr([x["e"] for c in [prog, *self.comps] for x in c["computed"].values()])
            if any(f"['s', {k!r}]" in read for k in watch):
                del prog["watch"]
        case = {"cfg": cfg, "prog": prog, "ops": self.ops(cfg)}
        return case

    def watches(self, roots, store):
        """Copies of state that the application keeps up to date with observ's `watch`."""
        r = self.rng
        if self.P["faults"] or r.random() > self.P["watch"]:
            return []
        keys = r.sample(INTS + BOOLS + TEXTS, r.randint(1, 3))

        def replace(x):
            if isinstance(x, dict):
                for y in x.values():
                    replace(y)
            elif isinstance(x, list):
                if len(x) == 2 and x[0] == "s" and x[1] in keys and r.random() < 0.5:
                    x[1] = "w" + x[1]
                for y in x:
                    replace(y)

        replace(self.comps)
        replace(roots)
        for k in keys:
            store["w" + k] = store[k]
        return keys

    def program(self, store):
        r, P = self.rng, self.P
        n = r.randint(*P["ncomp"])
        self.n = n
        self.comps = []
        for i in range(n):
            kind = pick(r, P["kinds"])
            cd = {"kind": kind, "root": None, "state": {}, "provide": [], "hooks": {}}
            if kind != "func":
                cd["state"] = {"k0": r.randint(0, 4), "kb": r.random() < 0.5}
                if r.random() < P["provide"]:
                    cd["provide"] = r.sample(["q0", "q1"], r.randint(1, 2))
                if r.random() < P["hooks"]:
                    h = cd["hooks"]
                    if r.random() < 0.6:
                        h["mounted"] = [r.choice([["setl", "k0", 4], ["setl", "kb", True], ["sets", "hm%d" % i, 1]])]
                        store["hm%d" % i] = 0
                    if r.random() < 0.4:
                        h["updated"] = [r.choice([["setl", "k0", 3], ["sets", "hu%d" % i, 1]])]
                        store["hu%d" % i] = 0
                    if r.random() < 0.4:
                        h["before_unmount"] = [["sets", "hb%d" % i, 1]]
                        store["hb%d" % i] = 0
            if kind == "cgx":
                cd["style"] = r.randint(0, 9999)
                cd["noise"] = P["noise"]
                cd["names"] = {}
                for name in ("g0", "g1", "g2"):
                    if r.random() < P["p_nm"]:
                        cd["names"][name] = {
                            "prop": r.random() < 0.6, "attr": r.choice([None, "class", "odd"]), "glob": r.random() < 0.5,
                        }
                        if r.random() < 0.4:
                            cd["state"][name] = r.choice(["st", 0, None, ""])
            cd["computed"] = {}
            if kind != "func":
                for name in ("c0", "c1"):
                    if r.random() < P["computed"]:
                        cd["computed"][name] = {"e": None, "when": r.choice(["ctor", "use"])}
            cd["slots"] = [s for s in ("default", "s1", "s2") if r.random() < 0.4]
            self.comps.append(cd)
        self.hookkeys = [k for k in store if k[0] == "h"]
        # which props each component may receive
        for i, cd in enumerate(self.comps):
            cd["pnames"] = [p for p in ("p0", "p1", "p2") if r.random() < 0.6] + (["items"] if r.random() < 0.4 else [])
            cd["pnames"] += [n for n, x in (cd.get("names") or {}).items() if x["prop"]]
            for c in cd["computed"].values():
                c["e"] = self.computed_expr(cd)
            cd["emits"] = [e for e in self.evs if cd["kind"] != "func" and r.random() < 0.5]
        self.global_computed = {}
        for name in ("z0", "z1"):
            if r.random() < P["computed"]:
                self.global_computed[name] = {"e": self.computed_expr(None), "when": r.choice(["ctor", "use"])}
        for i in reversed(range(n)):
            self.gen_comp(i)
        roots = [self.root_desc(0)]
        for _ in range(r.randint(*P["nroots"]) - 1):
            roots.append(self.root_desc(r.randrange(n)))
        return roots

    def computed_expr(self, cd):
        r = self.rng

        def one():
            o = ["s", "s", "l"]
            if cd is not None:
                o += ["st", "st", "st"] + ["p"] * bool([p for p in cd["pnames"] if p in ("p0", "p1", "p2")])
            o = r.choice(o)
            if o == "s":
                return ["s", r.choice(INTS + BOOLS + TEXTS)]
            if o == "l":
                return ["len", ["s", r.choice(LISTS)]]
            if o == "st":
                return ["st", r.choice(["k0", "kb"])]
            return ["p", r.choice([p for p in cd["pnames"] if p in ("p0", "p1", "p2")])]

        e = one()
        x = r.random()
        if x < 0.3:
            return ["not", e]
        if x < 0.5:
            return ["eq", e, r.randint(0, 3)]
        if x < 0.8:
            return ["cat", e, one()]
        return e

    def used_key(self, kinds, names):
        """A store key, most of the time one that the program reads."""
        u = [k for k in names if k in self.used[kinds]]
        return self.rng.choice(u) if u and self.rng.random() < 0.9 else self.rng.choice(names)

    def root_desc(self, c):
        a = {}
        for p in self.comps[c]["pnames"]:
            if p != "items" and self.rng.random() < 0.5:
                a[p] = ["c", self.rng.randint(0, 5)]
        return {"n": "comp", "c": c, "a": a, "on": {}, "k": None, "slots": None}

    def cfg(self):
        r, P = self.rng, self.P
        mode = "sync" if r.random() < P["sync"] else "default"
        cost = r.choice([
            [0],
            [100_000],
            [20 * MS],                                   # every unit is slow: one unit per turn
            [r.randint(1, 8) * MS],
            [r.choice([0, 1, 5, 14, 15, 16, 40]) * MS for _ in range(r.randint(2, 6))],
            [r.randint(0, 16 * MS) for _ in range(r.randint(3, 9))],
        ])
        cfg = {"mode": mode, "cost": cost, "backend": pick(r, P["backend"]), "guis": P["guis"]}
        if r.random() < P["sync_events"]:
            cfg["sync_events"] = 1
        if r.random() < 0.4:
            cfg["how_mode"] = r.randint(1, 3)
        if r.random() < P["track"]:
            cfg["track"] = 1
        if P["release"]:
            cfg["release"] = 1
            cfg["backend"] = "mem"
        if P["faults"] and r.random() < 0.25:
            cfg["faults0"] = [[r.choice(["render", "ctor", "create", "hook", "slot", "initattr"]), r.randint(0, 6), r.choice([1, 1, 2])]]
        if P["faults"]:
            cfg["heal"] = r.choice(["state", "state", "render"])
        if P["guis"] > 1 and r.random() < 0.3:
            cfg["late_start"] = 1
        if P["guis"] > 1:
            if r.random() < 0.3:
                cfg["modes"] = [r.choice(["sync", "loop"]) for _ in range(P["guis"])]
            if r.random() < 0.3:
                cfg["shared_renderer"] = 1
        return cfg

    # ---- expressions
    def scalar(self, sc):
        """-> (expr, prefix) ; prefix marks where the value comes from."""
        r = self.rng
        opts = ["s", "s", "s"]
        if sc["props"]:
            opts += ["p", "p"]
        if sc["cls"]:
            opts += ["st", "st"]
            if self.P["provide"]:
                opts += ["inj"]
        if sc["vars"]:
            opts += ["vi", "vi", "vi"]
        if sc["names"]:
            opts += ["nm"] * 3
        if self.comps[sc["i"]]["computed"] and sc["cls"]:
            opts += ["cmp"] * 2
        if self.global_computed:
            opts += ["zmp"]
        o = r.choice(opts)
        if o == "nm":
            return ["nm", r.choice(sc["names"])], "g"
        if o == "cmp":
            return ["cmp", r.choice(sorted(self.comps[sc["i"]]["computed"]))], "a"
        if o == "zmp":
            return ["cmp", r.choice(sorted(self.global_computed))], "a"
        if o == "s":
            if self.hookkeys and r.random() < 0.3:
                return ["s", r.choice(self.hookkeys)], "a"
            return ["s", r.choice(INTS + BOOLS + TEXTS)], "a"
        if o == "p":
            p = r.choice(sc["props"])
            return (["len", ["p", p]] if p == "items" else ["p", p]), "p"
        if o == "st":
            return ["st", r.choice(["k0", "kb"])], "a"
        if o == "inj":
            return ["inj", r.choice(["q0", "q1"])], "j"
        return ["vi", r.choice(sc["vars"]), r.choice(["t", "f", "id"])], "a"

    def cond(self, sc):
        r = self.rng
        x = r.random()
        c = [n for n, x_ in list(self.global_computed.items()) + (list(self.comps[sc["i"]]["computed"].items()) if sc["cls"] else []) if x_["e"][0] in ("not", "eq")]
        if c and r.random() < 0.3:
            return ["cmp", r.choice(sorted(c))]
        if x < 0.5:
            e = ["s", r.choice(BOOLS)]
        elif x < 0.65 and sc["cls"]:
            e = ["st", "kb"]
        elif x < 0.8 and sc["vars"]:
            e = ["vi", r.choice(sc["vars"]), "f"]
        elif x < 0.9:
            e = ["eq", ["s", r.choice(INTS)], r.randint(0, 2)]
        else:
            e = ["s", r.choice(TEXTS)]
        return ["not", e] if r.random() < 0.25 else e

    def attr_map(self, sc):
        r = self.rng
        a = {}
        for _ in range(r.randint(*self.P["attrs"])):
            e, pre = self.scalar(sc)
            if r.random() < 0.15:
                e2, pre2 = self.scalar(sc)
                e = ["cat", e, e2]
                pre = pre if pre != "a" else pre2
            name = {"a": r.choice(["a0", "a1", "v", "v", "online"]), "p": r.choice(["p0", "p1"]), "j": "j0", "g": r.choice(["g0", "g1"])}[pre]
            x = r.random()
            if x < 0.15:
                e = ["opt", self.cond(sc), e]
            elif x < 0.2:
                e = ["c", r.choice([None, 0, "", False, "s"])]
            elif x < 0.27:
                e = ["nul", self.cond(sc), e]
            a[name] = e
        return a

    def handler(self, sc, depth=0):
        r = self.rng
        w = dict(self.P["handlers"])
        if not sc["cls"]:
            for k in ("linc", "meth", "emit"):
                w.pop(k, None)
        if not sc["vars"] and not sc["it"]:
            for k in ("late", "mut", "objm"):
                w.pop(k, None)
        if depth:
            w.pop("fwd", None)
        if not w:
            return None
        k = pick(r, w)
        self.hid += 1
        hid = self.hid

        def val():
            if sc["vars"] and r.random() < 0.4:
                return ["v", r.choice(sc["vars"])]
            return self.scalar(sc)[0]

        def it():
            c = [["v", v] for v in sc["vars"]] + ([["p", "it"]] if sc["it"] else [])
            return r.choice(c)

        if k in ("clos", "dflt", "kwd", "part", "kpart", "cobj"):
            return [k, hid, val()]
        if k in ("late", "mut", "objm"):
            return [k, hid, it()]
        if k == "inc":
            return [k, hid, r.choice(INTS)]
        if k == "linc":
            return [k, hid, "k0"]
        if k == "emit":
            return [k, hid, r.choice(self.evs), val()]
        if k == "meth":
            return [k, hid, r.choice(["m0", "m1"])]
        if k == "fwd":
            return [k, hid, self.handler(sc, depth + 1)]

    def on_map(self, sc, events):
        r = self.rng
        on = {}
        for ev in events:
            if r.random() < self.P["p_handler"]:
                h = self.handler(sc)
                if h is None:
                    continue
                x = r.random()
                if x < 0.15:
                    h2 = self.handler(sc)
                    if h2 is not None:
                        h = ["hif", self.cond(sc), h, h2]
                elif x < 0.3:
                    h = ["hopt", self.cond(sc), h]
                on[ev] = h
        return on

    # ---- nodes
    def gen_comp(self, i):
        r, P = self.rng, self.P
        cd = self.comps[i]
        sc = dict(i=i, cls=cd["kind"] != "func", props=[p for p in cd["pnames"] if p[0] != "g"], names=sorted(cd.get("names") or ()), vars=[], it=False, slots=list(cd["slots"]), inslot=False, inroot=True, budget=[r.randint(4, 14)])
        x = r.random()
        if x < P["p_root_virt"]:
            cd["root"] = {"n": "virt", "t": "template", "k": None, "ch": self.children(sc, P["depth"] - 1)}
        elif x < P["p_root_virt"] + P["p_root_comp"] and i + 1 < self.n:
            cd["root"] = self.comp(sc, None)
        else:
            cd["root"] = self.host(sc, P["depth"] - 1, None)
            if r.random() < P["p_root_if"]:
                # root type swaps: a node whose type depends on state
                alt = self.host(sc, 1, None) if r.random() < 0.5 or i + 1 >= self.n else self.comp(sc, None)
                cd["root"] = {"n": "alt", "c": self.cond(sc), "t": cd["root"], "e": alt}

    def key_const(self, sc):
        self.kid += 1
        return ["c", "k%d" % self.kid]

    def children(self, sc, depth):
        r, P = self.rng, self.P
        out = []
        if depth <= 0:
            return out
        n = r.choice([0, 1, 1, 2, 2, 3, 4])
        sc = dict(sc, rawfor=[False], slotsleft=list(sc["slots"]))
        for _ in range(n):
            if sc["budget"][0] <= 0:
                break
            out.append(self.one(sc, depth))
        return out

    def one(self, sc, depth, allow_flow=True):
        r, P = self.rng, self.P
        sc["budget"][0] -= 1
        if sc.get("slotsleft") and r.random() < P["p_slot"]:
            name = sc["slotsleft"].pop(r.randrange(len(sc["slotsleft"])))
            fb = self.children(dict(sc, slots=[]), 1) if r.random() < P["p_fb"] else None
            return {"n": "slot", "name": name, "fb": fb}
        if r.random() < P["p_alt"] and depth > 1:
            a = self.one(dict(sc, slotsleft=[]), depth - 1, False)
            if a["n"] in ("host", "comp", "virt"):
                return self.alternate(sc, a, depth - 1)
            return a
        x = r.random()
        acc = P["p_if"]
        if allow_flow and x < acc:
            br = [[self.cond(sc), [self.one(sc, depth - 1, False)]]]
            while r.random() < 0.35:
                br.append([self.cond(sc), [self.one(sc, depth - 1, False)]])
            if r.random() < 0.5:
                br.append([None, [self.one(sc, depth - 1, False)]])
            return {"n": "if", "br": br}
        acc += P["p_for"]
        if allow_flow and x < acc:
            return self.loop(sc, depth)
        acc += P["p_text"] if self.P["text"] else 0
        if self.P["text"] and x < acc:
            e, _ = self.scalar(sc)
            return {"n": "text", "e": r.choice([e, ["c", r.choice(WORDS)], ["cat", ["c", "t"], e]])}
        acc += P["p_comp"]
        if x < acc and sc["i"] + 1 < self.n:
            k = self.key_const(sc) if r.random() < P["p_key_const"] else None
            return self.comp(sc, k)
        acc += P["p_virt"]
        if x < acc:
            k = self.key_const(sc) if r.random() < P["p_key_const"] else None
            return {"n": "virt", "t": "template", "k": k, "ch": self.children(sc, depth - 1)}
        k = self.key_const(sc) if r.random() < P["p_key_const"] else None
        return self.host(sc, depth - 1, k)

    def alternate(self, sc, a, depth, cond=None):
        """One of two nodes, mostly of different types and with the same key."""
        r = self.rng
        k = a["k"] if r.random() < 0.75 else self.key_const(sc)
        x = r.random()
        if x < 0.25 and sc["i"] + 1 < self.n:
            b = self.comp(sc, k)
        elif x < 0.35:
            b = {"n": "virt", "t": "template", "k": k, "ch": self.children(sc, min(depth, 2))}
        else:
            b = self.host(sc, min(depth, 2), k)
        return {"n": "alt", "c": cond or self.cond(sc), "t": a, "e": b}

    def loop(self, sc, depth):
        r, P = self.rng, self.P
        self.vid += 1
        v = "x%d" % self.vid
        overs = [["s", l] for l in LISTS]
        if "items" in sc["props"]:
            overs += [["p", "items"]] * 3
        if sc["vars"]:
            overs += [["vi", sc["vars"][-1], "n"]] * 4
        over = r.choice(overs)
        sc2 = dict(sc, vars=sc["vars"] + [v])
        k = None
        if r.random() < P["p_key_for"]:
            if not sc["rawfor"][0] and r.random() < 0.6:
                sc["rawfor"][0] = True
                k = ["vi", v, "id"]
            else:
                self.kid += 1
                k = ["cat", ["c", "f%d" % self.kid], ["vi", v, "id"]]
        x = r.random()
        if x < 0.35 and sc["i"] + 1 < self.n:
            b = self.comp(sc2, k, v)
        elif x < 0.5:
            b = {"n": "virt", "t": "template", "k": k, "ch": self.children(sc2, min(depth - 1, 2))}
        else:
            b = self.host(sc2, min(depth - 1, 2), k)
        if r.random() < P["p_alt"] * 2:
            for j in range(r.choice([1, 1, 2])):
                c = r.choice([["vi", v, "f"], ["eq", ["vi", v, "t"], "abcd"[j]], ["eq", ["vi", v, "t"], "dcba"[j]], None])
                alt = self.alternate(sc2, b, min(depth - 1, 2), c)
                if alt["e"]["k"] == k:
                    b = dict(alt, k=k)
        it = {"n": "for", "over": over, "v": v, "b": b}
        if r.random() < P["p_filter"]:
            it["if"] = ["not", ["vi", v, "f"]] if r.random() < 0.6 else self.cond(sc2)
        return it

    def host(self, sc, depth, k):
        r = self.rng
        t = r.choice(["s0", "s1", "s2"] if sc["inslot"] else ["x", "y", "z"])
        if self.P["eqsib"] and r.random() < 0.6:
            t = "x"
        return {"n": "host", "t": t, "a": self.attr_map(sc), "on": self.on_map(sc, r.choice(HOST_EVENTS)), "k": k, "ch": self.children(sc, depth)}

    def comp(self, sc, k, itemvar=None):
        r, P = self.rng, self.P
        c = self.choose_comp(sc)
        cd = self.comps[c]
        a = {}
        for p in cd["pnames"]:
            if r.random() < 0.85:
                if p == "items":
                    overs = [["s", l] for l in LISTS]
                    if "items" in sc["props"]:
                        overs += [["p", "items"]] * 3
                    if sc["vars"]:
                        overs += [["vi", sc["vars"][-1], "n"]] * 3
                    a[p] = r.choice(overs)
                else:
                    e = self.scalar(sc)[0]
                    x = r.random()
                    if x < 0.2:
                        e = ["opt", self.cond(sc), e]
                    elif x < 0.25:
                        e = ["nul", self.cond(sc), e]
                    a[p] = e
        slots = None
        if cd["slots"] and r.random() < 0.8 and not sc["inslot"]:
            slots = {}
            for s in cd["slots"]:
                if r.random() < 0.7:
                    ssc = dict(self.slot_scope(sc, c, s), inslot=True, slots=list(sc["slots"]) if r.random() < 0.3 and not sc["inslot"] else [], budget=[4])
                    slots[s] = self.children(ssc, 2) or [self.host(ssc, 0, None)]
        node = {"n": "comp", "c": c, "a": a, "on": self.on_map(sc, cd["emits"]), "k": k, "slots": slots}
        if slots:
            if r.random() < P["p_slot_opt"]:
                node["sc"] = self.cond(sc)
            if r.random() < P["p_slot_opt"]:
                node["so"] = {r.choice(list(slots)): self.cond(sc)}
        return node

    def choose_comp(self, sc):
        return self.rng.randint(sc["i"] + 1, self.n - 1)

    def slot_scope(self, sc, c, name):
        return sc

    # ---- operations
    def ops(self, cfg):
        r, P = self.rng, self.P
        out = []
        w = dict(P["opw"])
        if cfg["mode"] == "sync":
            w["step"] = 0
        n = r.randint(*P["ops"])
        for _ in range(n):
            out.append(self.one_op(pick(r, w), r))
            if P["faults"] and r.random() < P["faults"]:
                out.append(["fault", r.choice(P["fault_sites"]), r.randint(0, 5), r.choice([1, 1, 1, 2, 3])] + ([None, r.randint(0, 3)] if P["guis"] > 1 else []))
            if P["faults"] and r.random() < P["faults"] * 0.6:
                out.append(["heal", r.choice(["state", "render", "auto"])])
        return out

    def one_op(self, k, r):
        if k == "set":
            key = self.used_key("S", INTS + BOOLS + TEXTS)
            if key[0] == "b" and r.random() < 0.8:
                return ["tog", key]
            return ["set", key, r.randint(0, 3) if key[0] == "n" else (r.random() < 0.5 if key[0] == "b" else r.choice(WORDS))]
        if k == "ins":
            return ["ins", self.used_key("L", LISTS), r.randint(0, 6), self.item()]
        if k == "del":
            return ["del", self.used_key("L", LISTS), r.randint(0, 6)]
        if k in ("move", "swap"):
            return [k, self.used_key("L", LISTS), r.randint(0, 6), r.randint(0, 6)]
        if k in ("rev", "clear"):
            return [k, self.used_key("L", LISTS)]
        if k == "repl":
            return ["repl", self.used_key("L", LISTS), self.items(0, 4)]
        if k == "perm":
            return ["perm", self.used_key("L", LISTS), r.randint(0, 999)]
        if k in ("iset", "recopy"):
            f = r.choice(["t", "f"])
            return [k, self.used_key("L", LISTS), r.randint(0, 6), f, r.random() < 0.5 if f == "f" else r.choice(["a", "b", "c", "d"])]
        if k == "nins":
            return ["nins", self.used_key("L", LISTS), r.randint(0, 6), r.randint(0, 4), self.item(False)]
        if k == "ndel":
            return ["ndel", self.used_key("L", LISTS), r.randint(0, 6), r.randint(0, 4)]
        if k == "loc":
            key = r.choice(["k0", "kb"])
            return ["loc", r.randint(0, 20), key, r.randint(0, 4) if key == "k0" else r.random() < 0.5]
        if k == "stadd":
            return ["stadd", r.randint(0, 20), r.choice(["g0", "g1", "g2"]), r.choice(["a", 0, None, "b"])]
        if k == "gset":
            return ["gset", r.randint(0, 20), r.choice(["g0", "g1", "g2"]), r.choice(["G1", "G2", 0, None])]
        if k == "stdel":
            return ["stdel", r.randint(0, 20), r.choice(["g0", "g1", "g2"])]
        if k in ("ev", "stale", "roprops"):
            return [k, r.randint(0, 40)]
        if k == "emit":
            return ["emit", r.randint(0, 20), r.choice(self.evs), r.randint(0, 9)]
        if k == "step":
            return ["step", r.choice([1, 1, 1, 2, 3, 5, 9])]
        if k == "stall":
            return ["stall", r.choice([1, 10, 100, 10_000]) * MS]
        if k == "gc":
            return ["gc"]
        if k == "render":
            return ["render", r.randint(0, 3), r.randint(0, 3)]
        if k == "quiesce":
            return ["quiesce"]
        if k == "prov":
            return ["prov", r.randint(0, 20), r.choice(["same", "p%d" % r.randint(0, 99), "p%d" % r.randint(0, 99), None, 0])]
        if k == "irrel":
            return ["irrel", r.randint(1, 9)]
        if k == "drop":
            return ["drop", r.randint(0, 3)]
        raise AssertionError(k)


def make_case(seed, profile, index, P):
    rng = random.Random(f"{seed}/{profile}/{index}")
    if P.get("driver", "core") in ("importer", "lines", "cli", "whole", "extend"):
        mod = importlib.import_module("sim." + P["driver"])
        return mod.Gen(rng, P).case()
    if P.get("tool"):
        from . import palette

        return palette.ToolGen(rng, dict(DEFAULTS, **P)).case()
    return Gen(rng, dict(DEFAULTS, **P)).case()
