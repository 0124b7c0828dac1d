"""Program model: the facts of both crates, CFG utilities, resolution."""
import json, os, re
from collections import defaultdict


def strip_generics(p):
    """`a::B::<T>::c` / `a::B<T>` -> `a::B::c` / `a::B` (keeps `<X as Y>`)."""
    out, depth, i = [], 0, 0
    while i < len(p):
        c = p[i]
        if p.startswith("::<", i) and depth == 0:
            depth, i = 1, i + 3
            continue
        if c == "<" and (depth > 0 or (i > 0 and (p[i - 1].isalnum() or p[i - 1] == "_"))):
            depth += 1
        elif c == ">" and depth > 0 and p[i - 1] != "-":
            depth -= 1
            i += 1
            continue
        if depth == 0:
            out.append(c)
        i += 1
    return "".join(out)


def adt_of(ty):
    """Head ADT path of a type string, refs and Box removed."""
    t = ty.strip()
    while True:
        m = re.match(r"^(&('\w+ )?(mut )?|\*const |\*mut )", t)
        if m:
            t = t[m.end():].strip()
            continue
        break
    if t.startswith("dyn ") or t.startswith("(") or t.startswith("["):
        return t
    i = t.find("<")
    return t if i < 0 else t[:i]


def split_args(s):
    out, d, cur = [], 0, ""
    for i, c in enumerate(s):
        if c in "<([{":
            d += 1
        elif c in ")]}" or (c == ">" and s[i - 1] != "-"):
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def ty_args(ty):
    i = ty.find("<")
    if i < 0 or not ty.endswith(">"):
        return []
    return [a for a in split_args(ty[i + 1:-1]) if not a.startswith("'")]


def subst_ty(ty, sub):
    if not sub:
        return ty
    return re.sub(r"(?<![\w:'])([A-Za-z_]\w*)(?!\w|::)", lambda m: sub.get(m.group(1), m.group(1)), ty)


class Body:
    def __init__(self, item, b, prog, promoted=None):
        self.item = item
        self.prog = prog
        self.crate = item["crate"]
        self.path = item["path"] if promoted is None else "%s#p%d" % (item["path"], promoted)
        self.argc = b["argc"]
        self.locals = b["locals"]
        self.blocks = b["blocks"]
        self._succ = None
        self._loops = None

    def succ(self, bb):
        if self._succ is None:
            self._succ = [self._mk(x) for x in self.blocks]
        return self._succ[bb]

    @staticmethod
    def _mk(b):
        t = b["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            r = [x[1] for x in t[2]] + [t[3]]
            return list(dict.fromkeys(r))
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] >= 0 else []
        if k == "assert":
            return [t[5]]
        return []

    def preds(self):
        p = defaultdict(list)
        for i in range(len(self.blocks)):
            for s in self.succ(i):
                p[s].append(i)
        return p

    def reachable(self):
        seen, st = {0}, [0]
        while st:
            b = st.pop()
            for s in self.succ(b):
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen

    def rpo(self):
        seen, out = set(), []

        def go(r):
            st = [(r, iter(self.succ(r)))]
            seen.add(r)
            while st:
                n, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.succ(s))))
                        break
                else:
                    out.append(n)
                    st.pop()
        go(0)
        return out[::-1]

    def dominators(self):
        if hasattr(self, "_dom"):
            return self._dom
        order = self.rpo()
        num = {b: i for i, b in enumerate(order)}
        preds = self.preds()
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in preds[b] if p in idom]
                if not ps:
                    continue
                n = ps[0]
                for p in ps[1:]:
                    a, c = p, n
                    while a != c:
                        while num[a] > num[c]:
                            a = idom[a]
                        while num[c] > num[a]:
                            c = idom[c]
                    n = a
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        self._dom = idom
        return idom

    def dominates(self, a, b):
        idom = self.dominators()
        while True:
            if a == b:
                return True
            if b == 0 or b not in idom:
                return False
            b = idom[b]

    def loops(self):
        """header -> set of blocks (natural loops)"""
        if self._loops is not None:
            return self._loops
        loops = {}
        preds = self.preds()
        reach = self.reachable()
        for b in reach:
            for s in self.succ(b):
                if self.dominates(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in preds[x] if p in reach)
        self._loops = loops
        return loops

    def file(self):
        return self.item["span"][0]

    def line(self, bb):
        sp = self.blocks[bb]["sp"]
        return "%s:%d" % (sp[0], sp[1])


class Program:
    def __init__(self, facts_dir):
        self.items = {}
        self.bodies = {}
        self.adts = {}
        self.impls = []
        self.consts = {}
        self.crates = []
        for fn in sorted(os.listdir(facts_dir)):
            if not fn.endswith(".json"):
                continue
            raw = open(os.path.join(facts_dir, fn)).read()
            cr = fn[:-5]
            raw = re.sub(r"(?<![\w:])(core|alloc)::", "std::", raw)
            raw = re.sub(r"(?<![\w:])crate::", cr + "::", raw)
            d = json.loads(raw)
            self.crates.append(cr)
            for it in d["items"]:
                it["crate"] = cr
                key = it["path"]
                if key in self.items:       # identical printed paths
                    key = key + "'" + it["id"][-6:]
                it["key"] = key
                self.items[key] = it
                b = Body(it, it["body"], self)
                b.key = key
                self.bodies[key] = b
                for i, pb in enumerate(it["promoted"]):
                    q = Body(it, pb, self, i)
                    q.key = key + "#p%d" % i
                    self.bodies[q.key] = q
                if "value" in it:
                    self.consts[key] = it["value"]
            for a in d["adts"]:
                a["crate"] = cr
                self.adts[a["path"]] = a
            for im in d["impls"]:
                im["crate"] = cr
                self.impls.append(im)
        self.by_id = {it["id"]: it for it in self.items.values()}
        self.impl_index = defaultdict(list)
        for im in self.impls:
            self.impl_index[(im["trait"], adt_of(im["self"]))].append(im)

    LOCAL = ("sevenz_rust", "lzma_rust")

    def fns(self, crate=None):
        for k, it in self.items.items():
            if it["kind"] in ("fn", "closure") and (crate is None or it["crate"] == crate):
                yield k, it

    def method_impl(self, trait, self_ty, name):
        """Body key of the impl of trait::name for a self type string."""
        h = adt_of(self_ty)
        for im in self.impl_index.get((trait, h), []):
            for n, p in im["items"]:
                if n == name:
                    k = p
                    if k in self.bodies:
                        return k, im
        return None, None

    def find_impl_methods(self, trait, name, crate=None):
        """All (key, item) implementing trait::name in the local crates."""
        out = []
        for k, it in self.items.items():
            if it["kind"] == "fn" and it.get("trait") == trait and it.get("name") == name:
                if crate is None or it["crate"] == crate:
                    out.append((k, it))
        return out

    # ---- call graph (direct calls and closure ownership) ----------------
    def call_sites(self, body):
        """[(bb, callee dict)] of a body"""
        out = []
        for i, bb in enumerate(body.blocks):
            t = bb["t"] if isinstance(bb, dict) else bb.term
            if t and t[0] == "call" and isinstance(t[1], dict):
                out.append((i, t[1]))
        return out

    def callers(self):
        if getattr(self, "_callers", None) is None:
            cs = defaultdict(set)
            for k, b in self.bodies.items():
                if "#" in k:
                    continue
                for _, c in self.call_sites(b):
                    for i in (c.get("rid"), c.get("id")):
                        it = self.by_id.get(i)
                        if it:
                            cs[it["key"]].add(k)
                if "::{closure" in k:
                    p = k.rsplit("::{closure", 1)[0]
                    if p in self.bodies:
                        cs[k].add(p)
            self._callers = cs
        return self._callers

    def entry_points(self, key):
        """public functions from which `key` can be reached (itself included when public)"""
        cs, seen, out, st = self.callers(), set(), set(), [key]
        while st:
            k = st.pop()
            if k in seen:
                continue
            seen.add(k)
            it = self.items.get(k)
            if it and it["kind"] == "fn" and str(it.get("pub")).lower() == "true":
                out.add(k)
            else:
                st.extend(cs.get(k, ()))
                if not cs.get(k):
                    out.add(k)
        return out
