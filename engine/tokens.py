"""Finite token universe (derived from the type table of ress' RefToken)."""

BASE_TEXTS = ["async", "of", "from", "as", "get", "set", "target", "static", "eval",
              "arguments", "await", "constructor", "prototype", "extends", "__proto__"]


class Tokens:
    def __init__(self, prog, extra=()):
        self.prog = prog
        self.tid = None
        for k, t in enumerate(prog.types):
            if t["k"] == "adt" and t["name"].endswith("ress::refs::RefToken"):
                self.tid = k
                break
        if self.tid is None:
            raise KeyError("RefToken type not found")
        self.texts = list(BASE_TEXTS) + [x for x in extra if x not in BASE_TEXTS]
        self.classes = []  # (variant, payload variant, text, name)
        self.by_variant = {}
        t = prog.types[self.tid]
        for vi, v in enumerate(t["vars"]):
            if v["name"] == "Ident":
                for x in self.texts:
                    self._add(vi, None, x, "id:" + x)
                self._add(vi, None, None, "id")
            elif not v["fields"]:
                self._add(vi, None, None, v["name"])
            else:
                ft = prog.types[v["fields"][0][1]]
                if ft["k"] == "bool":
                    self._add(vi, 0, "false", "false")
                    self._add(vi, 1, "true", "true")
                elif ft["k"] == "adt" and ft["kind"] == "enum":
                    for pi, p in enumerate(ft["vars"]):
                        nm = p["name"]
                        if v["name"] == "Keyword":
                            nm2, text = "kw:" + nm.lower(), nm.lower()
                        elif v["name"] == "Punct":
                            nm2, text = "p:" + nm, "\0punct"
                        else:
                            nm2, text = v["name"] + ":" + nm, "\0lit"
                        self._add(vi, pi, text, nm2)
                else:
                    self._add(vi, None, "\0lit", v["name"])
        self.n = len(self.classes)
        self.ALL = (1 << (2 * self.n)) - 1
        self.NL = 0
        for c in range(self.n):
            self.NL |= 1 << (2 * c + 1)
        self.vmask = {}
        self.pmask = {}
        comment = None
        for c, (vi, pi, text, name) in enumerate(self.classes):
            m = 3 << (2 * c)
            self.vmask[vi] = self.vmask.get(vi, 0) | m
            if pi is not None:
                self.pmask[(vi, pi)] = self.pmask.get((vi, pi), 0) | m
        for vi, v in enumerate(t["vars"]):
            if v["name"] == "Comment":
                comment = vi
            if v["name"] == "Ident":
                self.ident_v = vi
        self.VIS = self.ALL & ~self.vmask[comment]
        self.names = [c[3] for c in self.classes]

    def _add(self, *a):
        self.classes.append(a)

    def text_mask(self, s):
        """classes whose source text is exactly s; None if s needs a new class"""
        m = 0
        for c, (vi, pi, text, name) in enumerate(self.classes):
            if text == s:
                m |= 3 << (2 * c)
        if m == 0 and s and (s[0].isalpha() or s[0] in "_$") and s.isidentifier():
            return None
        return m

    def masknames(self, mask):
        """canonical list of atoms name / name! (with newline before) / name~ (no newline)"""
        out = []
        for c in range(self.n):
            b = (mask >> (2 * c)) & 3
            if b == 3:
                out.append(self.names[c])
            elif b == 1:
                out.append(self.names[c] + "~")
            elif b == 2:
                out.append(self.names[c] + "!")
        return out

    def short(self, mask):
        mask &= self.VIS
        if mask == self.VIS:
            return "*"
        a = self.masknames(mask)
        b = self.masknames(self.VIS & ~mask)
        if mask == self.VIS & self.NL:
            return "*!"
        if mask == self.VIS & ~self.NL:
            return "*~"
        if len(b) < len(a):
            return "^{" + " ".join(b) + "}"
        return "{" + " ".join(a) + "}"
