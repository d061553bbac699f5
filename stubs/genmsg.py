"""Generates plain C++ structs with rosidl's layout from .msg text (msgs.txt and /repo's own .msg files)."""
import glob, os, re

PRIM = {"bool": "bool", "byte": "unsigned char", "char": "unsigned char", "float32": "float", "float64": "double", "int8": "int8_t", "uint8": "uint8_t",
        "int16": "int16_t", "uint16": "uint16_t", "int32": "int32_t", "uint32": "uint32_t", "int64": "int64_t", "uint64": "uint64_t", "string": "std::string"}


def snake(n):
    n = re.sub(r"(.)([A-Z][a-z]+)", r"\1_\2", n)
    return re.sub(r"([a-z0-9])([A-Z])", r"\1_\2", n).lower()


def parse(pkg, text):
    fields, consts = [], []
    for line in text.splitlines():
        line = line.split("#")[0].strip()
        if not line:
            continue
        m = re.match(r"^(\S+)\s+([A-Za-z0-9_]+)\s*=\s*(.+)$", line)
        if m:
            consts.append(m.groups())
            continue
        m = re.match(r"^(\S+)\s+(\S+)(?:\s+(.+))?$", line)
        fields.append(m.groups())
    return fields, consts


def generate(repo, here, out):
    defs = {}
    pkg = name = None
    for line in open(os.path.join(here, "msgs.txt")):
        if line.startswith("#"):
            continue
        if line.startswith("== "):
            key = line[3:].strip()
            defs[key] = ""
        else:
            defs[key] += line
    for f in glob.glob(os.path.join(repo, "**", "msg", "*.msg"), recursive=True):
        p = os.path.basename(os.path.dirname(os.path.dirname(f)))
        defs[p + "/" + os.path.basename(f)[:-4]] = open(f).read()
    services = [(k.split("/")[0], k.split("/")[2], defs.pop(k)) for k in list(defs) if "/srv/" in k]
    items = [(k.split("/")[0], "msg", k.split("/")[1], t) for k, t in defs.items()]
    for p, n, t in services:
        a, b = re.split(r"^---$", t, flags=re.M)
        items += [(p, "srv", n + "_Request", a), (p, "srv", n + "_Response", b)]
        d = os.path.join(out, p, "srv")
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, snake(n) + ".hpp"), "w").write(
            "#pragma once\n" + "".join("#include <%s/srv/detail/%s__struct.hpp>\n" % (p, snake(n + x)) for x in ("_Request", "_Response")) +
            "namespace %s { namespace srv { struct %s { using Request = %s_Request; using Response = %s_Response; }; } }\n" % (p, n, n, n))
    for pkg, sub, name, text in items:
        fields, consts = parse(pkg, text)
        inc, cpp = set(), []
        for t, n, d in fields:
            m = re.match(r"^([A-Za-z0-9_/]+?)(<=\d+)?(\[(<=)?(\d*)\])?$", t)
            base, arr, bounded, size = m.group(1), m.group(3), m.group(4), m.group(5)
            if base in PRIM:
                c = PRIM[base]
            else:
                b = base.split("/")
                p, q = (b[0], b[-1]) if len(b) > 1 else (pkg, b[0])
                if p + "/" + q not in defs and q == "Header":
                    p = "std_msgs"
                inc.add("%s/msg/detail/%s__struct.hpp" % (p, snake(q)))
                c = "::%s::msg::%s" % (p, q)
            if arr:
                c = "std::vector<%s>" % c if (not size or bounded) else "std::array<%s, %s>" % (c, size)
            cpp.append((c, n, d))
        os.makedirs(os.path.join(out, pkg, sub, "detail"), exist_ok=True)
        h = ["#pragma once", "#include <array>", "#include <cstdint>", "#include <memory>", "#include <string>", "#include <vector>"]
        h += ["#include <rosidl_build.hpp>"] + ['#include <%s>' % i for i in sorted(inc)]
        h += ["namespace %s { namespace %s {" % (pkg, sub), "template <class Alloc> struct %s_ {" % name]
        h += ["  using Type = %s_<Alloc>; using SharedPtr = std::shared_ptr<Type>; using ConstSharedPtr = std::shared_ptr<const Type>; using UniquePtr = std::unique_ptr<Type>;" % name]
        for c, n, d in cpp:
            h.append("  %s %s%s;" % (c, n, "{%s}" % d if d else "{}"))
        for t, n, v in consts:
            v = v.strip()
            if t == "string":
                h.append("  static inline const std::string %s = %s;" % (n, '"%s"' % v.strip("\"'")))
            else:
                h.append("  static constexpr %s %s = %s;" % (PRIM[t], n, v))
        eq = " and ".join("%s == o.%s" % (n, n) for _, n, _ in cpp) or "true"
        h.append("  bool operator==(const Type & o) const { return %s; }" % eq)
        h.append("  bool operator!=(const Type & o) const { return not (*this == o); }")
        h += ["};", "using %s = %s_<std::allocator<void>>;" % (name, name)]
        # builder chain
        h.append("namespace builder {")
        for i in range(len(cpp) - 1, -1, -1):
            c, n, _ = cpp[i]
            last = i == len(cpp) - 1
            ret = "::%s::%s::%s" % (pkg, sub, name) if last else "Init_%s_%s" % (name, cpp[i + 1][1])
            h.append("struct Init_%s_%s { ::%s::%s::%s m; %s %s(%s v) { m.%s = std::move(v); return %s; } };" % (
                name, n, pkg, sub, name, ret, n, c, n, "std::move(m)" if last else "%s{std::move(m)}" % ret))
        h.append("}")
        h.append("}")
        first = "builder::Init_%s_%s" % (name, cpp[0][1]) if cpp else name
        h.append("template <typename T> auto build(); template <> inline auto build<::%s::%s::%s>() { return %s::%s{}; }" % (pkg, sub, name, sub, first))
        h.append("}")
        open(os.path.join(out, pkg, sub, "detail", snake(name) + "__struct.hpp"), "w").write("\n".join(h) + "\n")
        if sub == "msg":
            open(os.path.join(out, pkg, "msg", snake(name) + ".hpp"), "w").write("#pragma once\n#include <%s/msg/detail/%s__struct.hpp>\n" % (pkg, snake(name)))
    open(os.path.join(out, "rosidl_build.hpp"), "w").write("#pragma once\n#include <utility>\n")


if __name__ == "__main__":
    import sys
    generate(sys.argv[1], os.path.dirname(os.path.abspath(__file__)), sys.argv[2])
