"""Short names of library functions: without return type, template arguments and parameter list."""
import functools

STRING = ("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >")


@functools.lru_cache(maxsize=None)
def split(d):
    """(short name, parameter text, first template argument list) of a demangled name"""
    for s in STRING:
        d = d.replace(s, "string")
    d = d.replace("std::__cxx11::", "std::").replace("[abi:cxx11]", "")
    d = d.replace("operator()", "operator{call}")
    out, depth, i, n = [], 0, 0, len(d)
    targs, params, cur = None, None, []
    while i < n:
        if d.startswith("operator", i) and depth == 0 and (i == 0 or not (d[i - 1].isalnum() or d[i - 1] == "_")):
            j = i + 8
            k = j
            for op in ("<<", ">>", "->", "<=", ">=", "<", ">"):
                if d.startswith(op, j):
                    k = j + len(op)
                    break
            out.append(d[i:k])
            i = k
            continue
        c = d[i]
        if c == "<":
            depth += 1
            if depth == 1:
                cur = []
                i += 1
                continue
        elif c == ">" and depth and d[i - 1] != "-":
            depth -= 1
            if depth == 0:
                if targs is None or True:
                    last = "".join(cur)
                    if targs is None:
                        targs = last
                i += 1
                continue
        if depth:
            cur.append(c)
        elif c == "(" :
            if d.startswith("(anonymous namespace)", i):
                out.append("(anonymous namespace)")
                i += len("(anonymous namespace)")
                continue
            params = d[i:]
            break
        else:
            out.append(c)
        i += 1
    name = "".join(out)
    # a return type is followed by a blank
    k = name.rfind(" ")
    if k >= 0 and not name[k:].startswith(" operator") and "operator " not in name:
        name = name[k + 1:]
    elif "operator " in name:
        k = name.find("operator ")
        h = name[:k].rstrip()
        b = h.rfind(" ")
        name = name[b + 1:] if b >= 0 else name
    return name, params or "", targs or ""
