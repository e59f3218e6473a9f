#!/usr/bin/env python3
"""Generates random serialisable classes (C++) together with an independent enumeration of their members.

usage: gen_types.py SEED COUNT PREFIX [--bases] > header
Each class has: each(f) calling f(name, member) for declared members in order, kept(f) for undeclared members,
defaultsOk(), fillKept(). The macro ZOO_TYPES_<PREFIX> lists the classes.
"""
import random, sys

SCALARS = ["bool", "int8_t", "uint8_t", "int16_t", "uint16_t", "int32_t", "uint32_t", "int64_t", "uint64_t",
           "float", "double", "std::string", "char", "LongLong"]
INT = {"int8_t": (8, True), "uint8_t": (8, False), "int16_t": (16, True), "uint16_t": (16, False), "int32_t": (32, True),
       "uint32_t": (32, False), "int64_t": (64, True), "uint64_t": (64, False), "char": (8, True), "LongLong": (64, True)}

def literal(r, t):
    """A random initial value, preferring ones that resemble fill patterns"""
    if t == "bool":
        return r.choice(["true", "false"])
    if t in INT:
        bits, signed = INT[t]
        pat = r.choice([0, 1, -1, 13, -13, 0x0d0d0d0d0d0d0d0d, 0xf3f3f3f3f3f3f3f3, 0x0df30df30df30df3, r.getrandbits(64), 0x0d, 0xf3, 0x0d000000, 0x0d00])
        v = pat & ((1 << bits) - 1)
        if signed and v >> (bits - 1):
            v -= 1 << bits
        if v == -(1 << 63):
            return "INT64_MIN"
        if not signed and bits == 64:
            return "uint64_t(%dull)" % v
        if bits == 64:
            return "int64_t(%dll)" % v
        return "%s(%d)" % (t, v)
    if t in ("float", "double"):
        return r.choice(["0.5", "-1.25", "0", "1e10", "-0.125", "3"])
    if t == "std::string":
        return r.choice(['"a"', '"\\r\\r\\r\\r\\r\\r\\r\\r\\r\\r\\r\\r\\r\\r\\r\\r\\r"', '"some longer text that does not fit inside"', '"x\\"y"'])
    return None

class Gen:
    def __init__(self, seed, prefix, bases):
        self.r = random.Random(seed)
        self.prefix = prefix
        self.bases = bases
        self.types = []  # (name, array depth needed, minimum binary size)

    def type(self, depth, arrays):
        """returns (text, array nesting used, smallest binary size)"""
        r = self.r
        k = r.random()
        if depth <= 0 or k < 0.45:
            t = r.choice(SCALARS)
            return t, 0, 1
        if k < 0.58 and self.types:
            cand = [x for x in self.types if x[1] <= arrays]
            if cand:
                n, a, m = r.choice(cand[-6:])
                return n, a, m
        if k < 0.72 and arrays > 0:
            t, a, m = self.type(depth - 1, arrays - 1)
            if t == "bool":
                t = "std::string"
            if t == "char":
                t = "int8_t"
            return "std::vector<%s>" % t, a + 1, 1
        if k < 0.80 and arrays > 0:
            t, a, m = self.type(depth - 1, arrays - 1)
            if t == "char":
                t = "uint8_t"
            n = r.choice([1, 2, 3, 5])
            return "std::array<%s, %d>" % (t, n), a + 1, 1
        if k < 0.88:
            t, a, m = self.type(depth - 1, arrays)
            return "std::map<std::string, %s>" % t, a, 1
        t, a, m = self.type(0 if r.random() < 0.5 else depth - 1, arrays)
        if t.startswith(("Bomba::Optional", "std::unique_ptr", "std::shared_ptr")):
            t, a = "std::string", 0
        w = r.choice(["Bomba::Optional<%s>", "Bomba::Optional<%s>", "std::unique_ptr<%s>", "std::shared_ptr<%s>"])
        if "unique_ptr" in t and "Optional" in w:
            w = "std::unique_ptr<%s>"
        if "Optional" in w and any(t == x[0] and not x[3] for x in self.copyable()):
            w = "std::unique_ptr<%s>"
        return w % t, a, 1

    def copyable(self):
        return [(n, a, m, n not in self.uncopyable) for n, a, m in self.types]

    uncopyable = set()
    type_names = None

    def names(self, n):
        r = self.r
        pool = ["a", "ab", "abc", "b", "value", "values", "Value", "x", "x1", "x2", "x10", "id", "result", "n\u00e1zev", "with space",
                "_", "0", "12", "true", "null", "very_long_name_of_a_member_that_goes_on_and_on", "dotted.name", "slash/name", "q\\\"uote", "back\\\\slash"]
        r.shuffle(pool)
        return pool[:n]

    def struct(self, index):
        r = self.r
        name = self.type_names[index] if self.type_names else "%s%d" % (self.prefix, index)
        count = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 10])
        keys = self.names(count)
        decl, each, checks, kept, filled = [], [], [], [], []
        arrays = 0
        uncopy = False
        ki = 0
        for i, key in enumerate(keys):
            while r.random() < 0.3:  # Undeclared neighbours
                if self.bases and r.random() < 0.12:  # Strictly aligned
                    h = "hidden%d" % ki
                    ki += 1
                    size = r.choice([4, 8, 16, 24])
                    decl.append("\talignas(%d) std::array<float, %d> %s = {};" % (r.choice([16, 32, 64]), size, h))
                    checks.append("(%s == std::array<float, %d>{})" % (h, size))
                    kept.append(h)
                    filled.append("%s.fill(-1.5);" % h)
                    continue
                t = r.choice(["int", "char", "double", "std::string", "bool", "int64_t"])
                h = "hidden%d" % ki
                ki += 1
                v = {"int": "%d" % r.randint(-99, 99), "char": "'h'", "double": "2.5", "std::string": '"hidden"', "bool": "true", "int64_t": "0x0d0d0d0d0d0d0d0d"}[t]
                if r.random() < 0.25 and t != "std::string":
                    decl.append("\t%s %s;" % (t, h))
                else:
                    decl.append("\t%s %s = %s;" % (t, h, v))
                    checks.append("%s == %s(%s)" % (h, t, v))
                kept.append(h)
                filled.append({"int": "%s = 1234567;", "char": "%s = 'Q';", "double": "%s = -7.75;", "std::string": '%s = "kept contents of an undeclared member";', "bool": "%s = true;", "int64_t": "%s = -98765432109876;"}[t] % h)
            t, a, _ = self.type(2, 2)
            arrays = max(arrays, a)
            if "unique_ptr" in t or any(("<%s>" % u in t or " %s>" % u in t or t == u or "<%s," % u in t) for u in self.uncopyable):
                uncopy = True
            m = "m%d" % i
            if self.bases and r.random() < 0.04:
                decl.append("\talignas(%d)" % r.choice([16, 32]))
            lit = literal(r, t) if r.random() < 0.7 else None
            if lit is not None:
                decl.append("\t%s %s = key<\"%s\"> = %s;" % (t, m, key, lit))
                checks.append("%s == %s(%s)" % (m, t, lit))
            elif t.startswith("Bomba::Optional<") and t[len("Bomba::Optional<"):-1] in SCALARS and r.random() < 0.5:
                inner = t[len("Bomba::Optional<"):-1]
                lit = literal(r, inner)
                decl.append("\t%s %s = key<\"%s\"> = %s;" % (t, m, key, ("std::string(%s)" % lit) if inner == "std::string" else lit))
                checks.append("%s.has_value() && *%s == %s(%s)" % (m, m, inner, lit))
            else:
                decl.append("\t%s %s = key<\"%s\">;" % (t, m, key))
                checks.append("isBlank(%s)" % m)
            each.append("\t\tf(std::string_view(\"%s\"), %s);" % (key, m))
        if uncopy:
            self.uncopyable = self.uncopyable | {name}
        bases = "Bomba::Serialisable<%s>" % name
        if self.bases:
            k = r.random()
            if k < 0.25:
                bases += ", OtherBase"
            elif k < 0.4:
                bases += ", OtherVirtualBase"
            elif k < 0.55:
                bases = "OtherBase, " + bases
            elif k < 0.65:
                bases = "OtherVirtualBase, " + bases
        aligned = "alignas(%d) " % r.choice([16, 64]) if self.bases and r.random() < 0.1 else ""
        out = ["struct %s%s : %s {" % (aligned, name, bases)] + decl
        for c in ("", " const"):
            out += ["\ttemplate <typename F> void each(F&& f)%s {" % c] + each + ["\t}"]
        out += ["\ttemplate <typename F> void kept(F&& f) const {"] + ["\t\tf(%s);" % k for k in kept] + (["\t\t(void)f;"] if not kept else []) + ["\t}"]
        out += ["\tvoid fillKept() {"] + ["\t\t" + f for f in filled] + ["\t}"]
        out += ["\tconst char* wrongDefault() const {"] + ["\t\tif (!(%s)) return %s;" % (c, '"' + c.replace("\\", "\\\\").replace('"', '\\"') + '"') for c in checks] + ["\t\treturn nullptr;", "\t}"]
        out += ["\tstatic constexpr const char* typeName = \"%s\";" % name, "};", ""]
        self.types.append((name, arrays, 1))
        return "\n".join(out)

def main():
    seed, count, prefix = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    g = Gen(seed, prefix, "--bases" in sys.argv)
    print("// Generated from seed %d" % seed)
    for i in range(count):
        print(g.struct(i))
    print("#define ZOO_TYPES_%s(X) %s" % (prefix, " ".join("X(%s)" % t[0] for t in g.types)))

if __name__ == "__main__":
    main()
