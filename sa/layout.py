"""Where the fields of a type live, from the compiler's debug information."""
import re
class Layout:
    def __init__(self, text):
        self.md = {}
        self.byname = {}
        for m in re.finditer(r'^(![0-9]+) = (?:distinct )?!(DICompositeType|DIDerivedType|DIBasicType|DISubrange)\((.*)\)$|^(![0-9]+) = (?:distinct )?!\{(.*)\}$', text, re.M):
            if m.group(1):
                self.md[m.group(1)] = (m.group(2), m.group(3))
                if m.group(2) == "DICompositeType":
                    n = re.search(r'name: "((?:[^"\\]|\\.)*)"', m.group(3))
                    if n: self.byname.setdefault(n.group(1), m.group(1))
            else: self.md[m.group(4)] = ("list", m.group(5))
    def attr(self, body, k):
        m = re.search(r'\b%s: (!\d+|\d+|"(?:[^"\\]|\\.)*"|\w+)' % k, body)
        return m.group(1).strip('"') if m else None
    def members(self, ref):
        kind, body = self.md[ref]
        els = self.attr(body, "elements")
        if not els or els not in self.md: return []
        out = []
        for e in re.findall(r"!\d+", self.md[els][1]):
            k, b = self.md.get(e, (None, ""))
            if k == "DIDerivedType" and "DW_TAG_member" in b:
                out.append((self.attr(b, "name"), int(self.attr(b, "offset") or 0) // 8, self.tsize(e) or self.tsize(self.attr(b, "baseType")), self.attr(b, "baseType")))
        return out
    def type_name(self, ref):
        k, b = self.md.get(ref, (None, ""))
        return self.attr(b, "name") or ""
    def find(self, name):
        r = self.byname.get(name)
        if r is None: raise KeyError("no type named " + name)
        return r
    def fields(self, name):
        """field name -> (offset, size, type name)"""
        return {n: (o, s, self.type_name(t)) for n, o, s, t in self.members(self.find(name))}
    def size(self, name):
        return int(self.attr(self.md[self.find(name)][1], "size")) // 8
    def flat(self, ref, off=0, path=""):
        """All scalar leaves: path -> (offset, size, type name)"""
        out = {}
        k, b = self.md.get(ref, (None, ""))
        if k == "DICompositeType" and "DW_TAG_array_type" in b:
            els = self.attr(b, "elements"); n = None
            for e in re.findall(r"!\d+", self.md[els][1]):
                kk, bb = self.md[e]
                if kk == "DISubrange": n = int(self.attr(bb, "count") or 0)
            t = self.attr(b, "baseType"); es = self.tsize(t)
            for i in range(n or 0): out.update(self.flat(t, off + i * es, "%s[%d]" % (path, i)))
            return out
        if k == "DICompositeType" and "DW_TAG_structure_type" in b:
            ms = self.members(ref)
            for n, o, s, t in ms: out.update(self.flat(t, off + o, path + "." + n if path else n))
            return out
        if k: out[path] = (off, self.tsize(ref), self.type_name(ref))
        return out
    def tsize(self, ref):
        k, b = self.md.get(ref, (None, ""))
        s = self.attr(b, "size")
        if s: return int(s) // 8
        if "DW_TAG_typedef" in b and self.attr(b, "baseType"): return self.tsize(self.attr(b, "baseType"))
        return 0
