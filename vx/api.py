"""The public functions of the library that are put under contract, and the wrappers through which the tools enter them.

A wrapper reads its operands from plain arrays of doubles, applies exactly one library operation (or a small client
expression) and writes the 8 components (s, e1, e2, e3, e23, e31, e12, e123) of the result; grades the result type does not
have are written as 0.  Nothing of the library is restated here.
"""
COMP = ["s", "e1", "e2", "e3", "e23", "e31", "e12", "e123"]
T = {"d": ("double", (0,)), "S": ("Scalar", (0,)), "V": ("Vector", (1, 2, 3)), "B": ("BiVector", (4, 5, 6)),
     "T": ("TriVector", (7,)), "P": ("Spinor", (0, 4, 5, 6)), "I": ("ImSpin", (1, 2, 3, 7)), "C": ("ComPlex", (0, 7)),
     "D": ("DirPlex", (1, 2, 3, 4, 5, 6)), "M": ("MultiVector", (0, 1, 2, 3, 4, 5, 6, 7))}
ARRAYS = "12345678"
for _k in range(1, 9):
    T[str(_k)] = (f"std::array<double,{_k}>", tuple(range(_k)))
TYPES = "SVBTPICDM"
TID = {k: i for i, k in enumerate("dSVBTPICDM")}
ADD_PAIRS = ("BS BV BP BD BM CS CT CD CM DV DB DC DM IV IT IP IM MS MV MB MT MP MI MC MD SB ST SP SC SM PS PB PI PM TS TV TI TC "
             "TM VB VT VI VD VM SS VV BB TT PP II CC DD MM").split()
GRADES = {"S": {0}, "V": {1}, "B": {2}, "T": {3}, "P": {0, 2}, "I": {1, 3}, "C": {0, 3}, "D": {1, 2}, "M": {0, 1, 2, 3}}


def union_type(a, b):
    g = GRADES[a] | GRADES[b]
    for t, s in GRADES.items():
        if s == g:
            return t
    return "M"


class W:
    """a wrapper: name, operand types, C++ expression over a0, a1, ..., kind of result"""

    def __init__(self, name, params, expr, ret="mv", stmt=None, extra="", pre=""):
        self.name, self.params, self.expr, self.ret = name, params, expr, ret
        self.stmt = stmt
        self.extra = extra          # further C parameters, e.g. "size_t n"
        self.pre = pre


PRELUDE = r'''
#include <Engabra>
#include <complex>
#include <cstddef>
#include <string>
#include <iostream>
#include <type_traits>
using namespace engabra::g3;
namespace vx {
template <class T> T ld(double const* p);
template <> inline double ld<double>(double const* p) { return p[0]; }
template <> inline Scalar ld<Scalar>(double const* p) { Scalar r; r.theData[0] = p[0]; return r; }
template <> inline Vector ld<Vector>(double const* p) { Vector r; r.theData[0] = p[0]; r.theData[1] = p[1]; r.theData[2] = p[2]; return r; }
template <> inline BiVector ld<BiVector>(double const* p) { BiVector r; r.theData[0] = p[0]; r.theData[1] = p[1]; r.theData[2] = p[2]; return r; }
template <> inline TriVector ld<TriVector>(double const* p) { TriVector r; r.theData[0] = p[0]; return r; }
template <> inline Spinor ld<Spinor>(double const* p) { Spinor r; r.theSca.theData[0] = p[0]; r.theBiv.theData[0] = p[1]; r.theBiv.theData[1] = p[2]; r.theBiv.theData[2] = p[3]; return r; }
template <> inline ImSpin ld<ImSpin>(double const* p) { ImSpin r; r.theVec.theData[0] = p[0]; r.theVec.theData[1] = p[1]; r.theVec.theData[2] = p[2]; r.theTri.theData[0] = p[3]; return r; }
template <> inline ComPlex ld<ComPlex>(double const* p) { ComPlex r; r.theSca.theData[0] = p[0]; r.theTri.theData[0] = p[1]; return r; }
template <> inline DirPlex ld<DirPlex>(double const* p) { DirPlex r; r.theVec.theData[0] = p[0]; r.theVec.theData[1] = p[1]; r.theVec.theData[2] = p[2]; r.theBiv.theData[0] = p[3]; r.theBiv.theData[1] = p[4]; r.theBiv.theData[2] = p[5]; return r; }
template <> inline MultiVector ld<MultiVector>(double const* p) { MultiVector r; r.theSca.theData[0] = p[0]; r.theVec.theData[0] = p[1]; r.theVec.theData[1] = p[2]; r.theVec.theData[2] = p[3]; r.theBiv.theData[0] = p[4]; r.theBiv.theData[1] = p[5]; r.theBiv.theData[2] = p[6]; r.theTri.theData[0] = p[7]; return r; }
#define VX_ARR(n) template <> inline std::array<double, n> ld<std::array<double, n>>(double const* p) { std::array<double, n> r; for (int i = 0; i < n; ++i) r[i] = p[i]; return r; }
VX_ARR(1) VX_ARR(2) VX_ARR(3) VX_ARR(4) VX_ARR(5) VX_ARR(6) VX_ARR(7) VX_ARR(8)
inline void z(double* o, int a, int b) { for (int i = a; i < b; ++i) o[i] = 0.; }
inline void v3(double* o, std::array<double, 3> const& d) { o[0] = d[0]; o[1] = d[1]; o[2] = d[2]; }
inline void st(double* o, double const& x) { o[0] = x; z(o, 1, 8); }
inline void st(double* o, Scalar const& x) { o[0] = x.theData[0]; z(o, 1, 8); }
inline void st(double* o, Vector const& x) { o[0] = 0.; v3(o + 1, x.theData); z(o, 4, 8); }
inline void st(double* o, BiVector const& x) { z(o, 0, 4); v3(o + 4, x.theData); o[7] = 0.; }
inline void st(double* o, TriVector const& x) { z(o, 0, 7); o[7] = x.theData[0]; }
inline void st(double* o, Spinor const& x) { o[0] = x.theSca.theData[0]; z(o, 1, 4); v3(o + 4, x.theBiv.theData); o[7] = 0.; }
inline void st(double* o, ImSpin const& x) { o[0] = 0.; v3(o + 1, x.theVec.theData); z(o, 4, 7); o[7] = x.theTri.theData[0]; }
inline void st(double* o, ComPlex const& x) { o[0] = x.theSca.theData[0]; z(o, 1, 7); o[7] = x.theTri.theData[0]; }
inline void st(double* o, DirPlex const& x) { o[0] = 0.; v3(o + 1, x.theVec.theData); v3(o + 4, x.theBiv.theData); o[7] = 0.; }
inline void st(double* o, MultiVector const& x) { o[0] = x.theSca.theData[0]; v3(o + 1, x.theVec.theData); v3(o + 4, x.theBiv.theData); o[7] = x.theTri.theData[0]; }
inline void st(double* o, std::complex<double> const& x) { o[0] = x.real(); z(o, 1, 7); o[7] = x.imag(); }
template <class T> struct Tid { static constexpr int v = -1; };
#define VX_TID(T, n) template <> struct Tid<T> { static constexpr int v = n; };
VX_TID(double, 0) VX_TID(Scalar, 1) VX_TID(Vector, 2) VX_TID(BiVector, 3) VX_TID(TriVector, 4) VX_TID(Spinor, 5)
VX_TID(ImSpin, 6) VX_TID(ComPlex, 7) VX_TID(DirPlex, 8) VX_TID(MultiVector, 9)
}
'''


def emit(w):
    """one line of C++ for the wrapper"""
    if getattr(w, "text", None):
        return w.text
    ps = [f"double const* p{i}" for i in range(len(w.params))]
    if w.extra:
        ps.append(w.extra)
    lds = "".join(f"{T[t][0]} const a{i}(vx::ld<{T[t][0]}>(p{i})); " for i, t in enumerate(w.params))
    if w.ret == "bool":
        return f'extern "C" bool {w.name}({", ".join(ps)}) {{ {lds}{w.pre}return {w.expr}; }}'
    if w.ret == "int":
        return f'extern "C" int {w.name}({", ".join(ps) or "void"}) {{ {lds}{w.pre}return {w.expr}; }}'
    ps.append("double* o")
    if w.ret == "md":
        return (f'extern "C" void {w.name}({", ".join(ps)}) {{ {lds}{w.pre}auto const r = ({w.expr}); vx::st(o, r.first); '
                f'vx::st(o + 8, r.second); }}')
    if w.ret == "raw":
        return f'extern "C" void {w.name}({", ".join(ps)}) {{ {lds}{w.pre}{w.expr}; }}'
    return f'extern "C" void {w.name}({", ".join(ps)}) {{ {lds}{w.pre}auto const r = ({w.expr}); vx::st(o, r); }}'


def tid(w):
    """wrapper returning the type of the result"""
    import re
    e = re.sub(r"\ba(\d)\b", lambda m: f"std::declval<{T[w.params[int(m.group(1))]][0]} const &>()", w.expr)
    if w.ret == "md":
        e = f"({e}).second"
    return W("t_" + w.name, "", f"vx::Tid<std::decay_t<decltype({e})>>::v", "int")
