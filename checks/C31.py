from vf.driver import Check, H
from vf.stdc import *
A = r"(char( const)?\*|__gnu_cxx::__normal_iterator<char( const)?\*, .*>)"
@c(r"^(void|bool|char( const)?\*) std::(sort|stable_sort|find_if|push_heap|pop_heap|is_sorted|shuffle|partial_sort|nth_element|make_heap|sort_heap)<char", "std algorithms (on the range and function object given)")
def algorithm(ex, st, a, ins, f):
    d = demangle(f.name); n = re.match(r"\S+(?: const\*)? std::(\w+)<", d).group(1)
    if not (isinstance(a[0], Ptr) and isinstance(a[1], Ptr)): raise Unsupported("range of " + n)
    fo = a[2] if len(a) > 2 else None
    if fo is None or re.search(r"std::(less|__less)", d): idv = -1
    elif isinstance(fo, Ptr): idv = ex.load(st, fo, 4, "i")      # by reference
    else: idv = fo
    ex.require(st, OR(eq(a[0].o, a[1].o), ule(a[0].o, a[1].o)) if a[0].b == a[1].b else False, "safety", "a valid range", ins)
    res = None
    if n == "find_if":
        r = ex.sym("found", 64); ex.assume(st, AND(ule(a[0].o, r), ule(r, a[1].o))); res = Ptr(a[0].b, r)
    elif n == "is_sorted": res = ex.sym("sorted", 1)
    st.ghost["alg"] = st.ghost.get("alg", ()) + ((n, a[0], a[1], idv, res),)
    if n not in ("find_if", "is_sorted") and isinstance(a[0], Ptr) and not ex.discover: pass
    return res
def last(st):
    l = st.ghost.get("alg", ())
    return l[0] if len(l) == 1 else None
@x("verif_called")
def called(ex, st, a, ins, f):
    l = last(st)
    if l is None or l[0] not in cstring(ex, st, a[0]).split("|"): return False
    n, p, q, i, r = l
    if p.b != a[1].b or q.b != a[2].b: return False
    cs = [eq(p.o, a[1].o), eq(q.o, a[2].o)]
    if isc(i) and i == -1 or isc(a[3]) and sgn(a[3], 32) == -1: cs.append(isc(i) and i == -1 and isc(a[3]) and sgn(a[3], 32) == -1)
    else: cs.append(eq(i, a[3], 32))
    return AND(*cs)
@x("verif_result_ptr")
def rptr(ex, st, a, ins, f): return last(st)[4]
@x("verif_result_bool")
def rbool(ex, st, a, ins, f): return last(st)[4]
N = ("TypeInt", "TypeDouble", "TypeString", "TypeKeeps", "TypeHash", "ReversedSpan", "ReversedStd", "Sort", "SortPlain", "StableSort", "StableSortPlain", "FindIf", "PushHeap", "PopHeap", "IsSorted", "Shuffle", "Builder", "BuilderChain", "Resize")
CHECK = Check("C31", ["C31.cc"], [], [H(n) for n in N],
    trusted=["the std algorithms do what [alg.sorting] and [alg.find] say on the range and function object they are given", "std::string::resize"],
    assumptions=["VectorBuilder is verified with the bodies of std::vector for up to 4 elements (bounded in the number of elements)"])
