#!/usr/bin/env python3
"""Generates random remotely callable classes (C++), with a description of every procedure for the checks.

usage: gen_api.py SEED OBJECTS > header
For every procedure a descriptor struct: Object, Ret, Args (tuple without the parent), id, name, index, arg(i) (name), omits(i), parent, get(object).
"""
import random, sys
import gen_types

OBJECT_NAMES = ["do", "d", "doit", "get_message", "get", "set", "set_message", "Sum", "sum", "s", "m1", "m10", "m", "_", "x9", "result", "id", "method", "call_me", "length", "name", "a-b", "v2",
    "a_procedure_of_a_name_that_fits_into_no_short_string", "long_" * 30 + "name"]
ARG_NAMES = ["a", "ab", "abc", "b", "value", "val", "value2", "Value", "x", "y", "x1", "x10", "id", "result", "method", "jsonrpc", "params", "_", "very_long_name_of_an_argument_of_a_procedure", "name", "self"]

def main():
    seed, objects = int(sys.argv[1]), int(sys.argv[2])
    r = random.Random(seed)
    g = gen_types.Gen(seed + 77, "A", False)
    type_names = ["Gadget", "Gadgets", "GadgetList", "Gad", "SubGadget", "gadget", "_gadget", "GadgetListGadget"]  # Parts of each other
    g.r.shuffle(type_names)
    g.type_names = type_names
    print("// Generated from seed %d" % seed)
    print("#ifdef API_TYPES")
    for i in range(4):
        print(g.struct(i))
    print("#define ZOO_TYPES_G(X) %s" % " ".join("X(%s)" % t[0] for t in g.types))
    print("#else")
    copyable = [t for t in g.types if t[0] not in g.uncopyable] + [("ZScalars", 0, 1), ("ZContainers", 2, 1)]
    SC = ["bool", "bool", "int8_t", "uint8_t", "int16_t", "uint16_t", "int32_t", "int32_t", "uint32_t", "int64_t", "uint64_t", "float", "double", "std::string", "std::string", "std::string"]

    def type(depth=2, arrays=2, simple=False):
        k = r.random()
        if simple or depth <= 0 or k < 0.55:
            return r.choice(SC)
        if k < 0.68:
            cand = [t for t in copyable if t[1] <= arrays]
            return r.choice(cand)[0]
        if k < 0.8 and arrays > 0:
            t = type(depth - 1, arrays - 1)
            return "std::vector<%s>" % ("std::string" if t == "bool" else t)
        if k < 0.86 and arrays > 0:
            t = type(depth - 1, arrays - 1)
            return "std::array<%s, %d>" % ("int32_t" if t == "bool" else t, r.choice([1, 2, 4]))
        if k < 0.93:
            return "std::map<std::string, %s>" % type(depth - 1, arrays)
        t = type(0 if r.random() < 0.6 else depth - 1, arrays)
        if t.startswith("Bomba::Optional"):
            return t
        return "Bomba::Optional<%s>" % t

    procedures = []
    for o in range(objects):
        cls = "Api%d" % o
        names = OBJECT_NAMES[:]
        r.shuffle(names)
        count = r.choice([1, 2, 3, 4, 5, 7])
        simple_object = r.random() < 0.4
        out = ["struct %s : Bomba::RpcObject<%s> {" % (cls, cls)]
        if r.random() < 0.5:
            out.append("\tstd::string before = \"before\";")
        descr = []
        for m in range(count):
            nargs = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 8, 12])
            anames = ARG_NAMES[:]
            r.shuffle(anames)
            parent = r.random() < 0.35
            ret = "void" if r.random() < (0.6 if simple_object else 0.3) else type(2, 2, simple_object)
            args = []
            for a in range(nargs):
                t = type(2, 2, simple_object)
                omit = t == "bool" and r.random() < 0.6
                args.append((t, anames[a], omit))
            pid = len(procedures)
            d = "P%d" % pid
            params = (["%s* self" % cls] if parent else []) + ["%s p%d = Bomba::name(\"%s\")%s" % (t, i, n, " | Bomba::SerialisationFlags::OMIT_FALSE" if om else "") for i, (t, n, om) in enumerate(args)]
            call = "Rpc::invoked<%s%s>(%d, %s%s)" % (ret, "", pid, "self" if parent else "nullptr", "".join(", p%d" % i for i in range(nargs)))
            # Declared or deduced type of the result
            arrow = (" -> %s" % ret) if r.random() < 0.5 else ""
            out.append("\tBomba::RpcMember<[] (%s)%s { return %s; }> m%d = child<\"%s\">;" % (", ".join(params), arrow, call, m, names[m]))
            if r.random() < 0.2:
                out.append("\tint64_t between%d = %d;" % (m, r.randint(0, 99)))
            descr.append("struct %s { using Object = %s; using Ret = %s; using Args = std::tuple<%s>; static constexpr int id = %d, index = %d; static constexpr bool parent = %s; "
                         "static constexpr const char* name = \"%s\"; static const char* arg(size_t i) { static const char* n[] = {%s}; return n[i]; } "
                         "static bool omits(size_t i) { static bool n[] = {%s}; return n[i]; } static auto& get(%s& o) { return o.m%d; } };" % (
                             d, cls, ret, ", ".join(t for t, _, _ in args), pid, m, "true" if parent else "false", names[m],
                             ", ".join(['"%s"' % n for _, n, _ in args] + ["nullptr"]), ", ".join(["true" if om else "false" for _, _, om in args] + ["false"]), cls, m))
            procedures.append(d)
        out += ["};"] + descr + ["#define PROCEDURES_%s(X) %s" % (cls, " ".join("X(P%d)" % p for p in range(len(procedures) - count, len(procedures)))), ""]
        print("\n".join(out))
    print("#define API_OBJECTS(X) %s" % " ".join("X(Api%d, PROCEDURES_Api%d)" % (o, o) for o in range(objects)))
    print("#define API_PROCEDURES(X) %s" % " ".join("X(%s)" % p for p in procedures))
    print("#endif")

main()
