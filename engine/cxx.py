"""Loads the JSON that exporter.cpp dumped from /repo's current source: types, records, enums, functions."""
import json, os


class Ty:
    __slots__ = ("k", "n", "a", "e", "s", "rv", "const", "num")

    def __repr__(self):
        return self.s

    def strip(self):
        return self.e if self.k == "r" else self


INTS = {"int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "short", "unsigned short",
        "char", "unsigned char", "signed char", "char8_t", "char16_t", "char32_t", "wchar_t", "std::nullptr_t", "nullptr_t", "__int128"}
UNSIGNED = {"unsigned int": 32, "unsigned long": 64, "unsigned long long": 64, "unsigned short": 16, "unsigned char": 8}


class Program:
    def __init__(self, files):
        self.fns = {}        # mangled -> fn dict (with 'tu')
        self.byq = {}        # qualified name -> [mangled]
        self.records = {}    # canonical type string -> record dict
        self.enums = {}
        self.vars = {}
        self.tys = {}        # canonical string -> Ty
        self.tus = []
        self.over = {}       # overridden mangled -> [mangled overriders]
        for f in files:
            self.load(f)

    def load(self, path):
        d = json.load(open(path))
        tu = len(self.tus)
        raw = d["types"]
        table = [None] * len(raw)
        self.tus.append(table)

        def get(i):
            if table[i] is not None:
                return table[i]
            r = raw[i]
            t = Ty()
            t.k = r["k"]; t.n = r.get("n"); t.a = None; t.e = None; t.rv = r.get("rv"); t.const = r.get("c", 0); t.num = None
            if t.k in ("p", "r"):
                t.e = get(r["e"])
                t.s = t.e.s + ("*" if t.k == "p" else "&")
            elif t.k == "arr":
                t.e = get(r["e"]); t.num = r["n"]
                t.s = f"{t.e.s}[{t.num}]"
            elif t.k == "rec":
                if "a" in r:
                    t.a = self._args(r["a"], get)
                    t.s = t.n + "<" + ",".join(map(str, t.a)) + ">"
                else:
                    t.s = t.n
                if "@" in t.s or "lambda" in t.s:
                    t.s = f"{tu}:{t.s}"
            elif t.k in ("b", "e"):
                t.s = t.n
            elif t.k == "mp":
                t.e = get(r["e"]); t.s = "mp"
            else:
                t.s = r.get("s", "?")
            key = t.s
            if key in self.tys:
                t = self.tys[key]
            else:
                self.tys[key] = t
            table[i] = t
            return t
        for i in range(len(raw)):
            get(i)
        for n, r in d["records"].items():
            key = r.get("tmpl", n)
            if "a" in r:
                key = key + "<" + ",".join(map(str, self._args(r["a"], get))) + ">"
            if "lambda" in key or "@" in key:
                key = f"{tu}:{key}"
            if key not in self.records:
                r["tu"] = tu
                self.records[key] = r
        for n, e in d["enums"].items():
            self.enums.setdefault(n, e)
        for n, v in d["vars"].items():
            v["tu"] = tu
            if n not in self.vars or ("init" in v and "init" not in self.vars[n]):
                self.vars[n] = v
        for k, f in d["functions"].items():
            mk = self.fkey(tu, k)
            if mk in self.fns:
                continue
            f["tu"] = tu
            f["key"] = mk
            self.fns[mk] = f
            self.byq.setdefault(f["q"], []).append(mk)
            for o in f.get("ov", []):
                self.over.setdefault(o, []).append(mk)

    def _args(self, a, get):
        out = []
        for x in a:
            if isinstance(x, int):
                out.append(get(x))
            elif "i" in x:
                out.append(x["i"])
            elif "pack" in x:
                out.extend(self._args(x["pack"], get))
            else:
                out.append("?")
        return out

    @staticmethod
    def fkey(tu, k):
        return f"{tu}:{k}" if k[0] in "LN" else k

    def ty(self, tu, i):
        return self.tus[tu][i]

    def record(self, ty):
        return self.records.get(ty.s if isinstance(ty, Ty) else ty)

    def fields(self, ty):
        """flattened (decl class, field name, Ty), bases first"""
        r = self.record(ty)
        if r is None:
            return []
        if "_flat" in r:
            return r["_flat"]
        out = []
        tu = r["tu"]
        for b in r["bases"]:
            out += self.fields(self.ty(tu, b))
        nm = ty.s if isinstance(ty, Ty) else ty
        for f in r["fields"]:
            out.append((nm, f["n"], self.ty(tu, f["t"])))
        r["_flat"] = out
        return out

    def bases(self, ty):
        r = self.record(ty)
        if r is None:
            return []
        out = []
        for b in r["bases"]:
            bt = self.ty(r["tu"], b)
            out.append(bt)
            out += self.bases(bt)
        return out

    def find(self, q, ptypes=None, const=None):
        """functions by qualified name and (optionally) parameter type strings"""
        out = []
        for k in self.byq.get(q, []):
            f = self.fns[k]
            ps = [self.ty(f["tu"], p["t"]).strip().s for p in f["params"]]
            if ptypes is not None and ps != list(ptypes):
                continue
            if const is not None and bool(f.get("const")) != const:
                continue
            out.append(f)
        return out
