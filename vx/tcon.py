"""Type classification (P23): every classifier on every library type, on types outside the library, and on all types at once."""
import re, subprocess
from . import api, dag, harness
from .api import T, W

EXTRA = r'''
#include <vector>
#include <list>
#include <optional>
#include <memory>
namespace vxt {
struct Empty {};
struct Opaque;
struct Like1 { std::array<double, 1> theData; double operator[](std::size_t const & n) const { return theData[n]; } };
struct Like3 { std::array<double, 3> theData; double operator[](std::size_t const & n) const { return theData[n]; } };
struct LikeP { Scalar theSca; BiVector theBiv; };
struct LikeM { Scalar theSca; Vector theVec; BiVector theBiv; TriVector theTri; };
struct Child : Vector {};
template <class A> struct ChildOf : A {};
template <class A> struct From { From(A const &); };
template <class A> struct To { operator A() const; };
enum E1 { e1a }; enum class E2 { a };
union U { double a; int b; };
struct Scalar {}; struct Vector {}; struct BiVector {}; struct TriVector {}; struct Spinor {}; struct ImSpin {}; struct ComPlex {};
struct DirPlex {}; struct MultiVector {};
template <class A, class = void> struct hasValid : std::false_type {};
template <class A> struct hasValid<A, std::void_t<decltype(isValid(std::declval<A const &>()))>> : std::true_type {};
template <class A, class = void> struct hasNear : std::false_type {};
template <class A> struct hasNear<A, std::void_t<decltype(nearlyEquals(std::declval<A const &>(), std::declval<A const &>(), 1.))>> : std::true_type {};
template <class A, class = void> struct hasMagSq : std::false_type {};
template <class A> struct hasMagSq<A, std::void_t<decltype(magSq(std::declval<A const &>()))>> : std::true_type {};
template <class A, class = void> struct hasInverse : std::false_type {};
template <class A> struct hasInverse<A, std::void_t<decltype(inverse(std::declval<A const &>()))>> : std::true_type {};
template <class A, class = void> struct hasInverseT : std::false_type {};
template <class A> struct hasInverseT<A, std::void_t<decltype(inverse<A>(std::declval<A const &>()))>> : std::true_type {};
template <class A, class = void> struct hasNeg : std::false_type {};
template <class A> struct hasNeg<A, std::void_t<decltype(-std::declval<A const &>())>> : std::true_type {};
template <class A, class = void> struct hasFixed : std::false_type {};
template <class A> struct hasFixed<A, std::void_t<decltype(io::fixed(std::declval<A const &>(), std::size_t(1), std::size_t(1)))>> : std::true_type {};
template <class A, class = void> struct hasEnote : std::false_type {};
template <class A> struct hasEnote<A, std::void_t<decltype(io::enote(std::declval<A const &>(), std::size_t(1)))>> : std::true_type {};
template <class A, class = void> struct hasIn : std::false_type {};
template <class A> struct hasIn<A, std::void_t<decltype(std::declval<std::istream &>() >> std::declval<A &>())>> : std::true_type {};
template <class A, class = void> struct hasOut : std::false_type {};
template <class A> struct hasOut<A, std::void_t<decltype(std::declval<std::ostream &>() << std::declval<A const &>())>> : std::true_type {};
}
'''
FOREIGN = ["double", "float", "long double", "int", "bool", "char", "unsigned long", "void", "std::nullptr_t", "std::string", "std::complex<double>",
           "std::complex<float>", "std::array<double, 1>", "std::array<double, 2>", "std::array<double, 3>", "std::array<double, 4>",
           "std::array<double, 6>", "std::array<double, 8>", "std::array<float, 3>", "std::vector<double>", "std::pair<double, g3::Vector>",
           "std::pair<g3::Scalar, g3::BiVector>", "std::optional<g3::Spinor>", "std::shared_ptr<g3::MultiVector>", "std::vector<g3::Vector>",
           "std::array<g3::Vector, 3>", "g3::Vector *", "g3::MultiVector const *", "g3::Scalar[2]", "g3::BiVector()", "g3::TriVector (*)(int)",
           "double g3::Scalar::*", "vxt::Empty", "vxt::Opaque", "vxt::Like1", "vxt::Like3", "vxt::LikeP", "vxt::LikeM", "vxt::Child", "vxt::E1", "vxt::E2",
           "vxt::U"] + ["vxt::" + T[t][0] for t in api.TYPES]
FOREIGN += [f"g3::{T[t][0]} {q}" for t in api.TYPES for q in ("const", "volatile", "&", "const &", "&&", "*")] + [f"vxt::ChildOf<g3::{T[t][0]}>" for t in api.TYPES]
FOREIGN += [f"vxt::From<g3::{T[t][0]}>" for t in api.TYPES] + [f"vxt::To<g3::{T[t][0]}>" for t in api.TYPES]
OUTSIDE = ["vxt::Empty", "vxt::Like1", "vxt::Like3", "vxt::LikeP", "vxt::LikeM", "std::complex<double>", "vxt::Vector", "vxt::MultiVector"]
HAS = {"hasValid": ("isValid", "dSVBTPICDM"), "hasNear": ("nearlyEquals", "dSVBTPICDM"), "hasMagSq": ("magSq", "dSVBTPICDM"),
       "hasInverse": ("inverse", "SVBT"), "hasInverseT": ("inverse<Type>", "SVBTCM"), "hasNeg": ("unary minus", "SVBTPICDM"),
       "hasFixed": ("io::fixed", "dSVBTPIM"), "hasEnote": ("io::enote", "dSVBTPIM"), "hasIn": ("operator>>", "SVBTPICDM"),
       "hasOut": ("operator<<", "SVBTPICDM")}


def tests():
    """(name, C++ constant expression, required value, description)"""
    out = []
    classes = ["blade"] + [T[t][0] for t in api.TYPES]
    for c in classes:
        for t in api.TYPES:
            n = T[t][0]
            want = (t in "SVBT") if c == "blade" else c == n
            out.append((f"is_{c}_{n}", f"is::{c}<g3::{n}>::value", want, f"is::{c}<{n}>"))
        for k, f in enumerate(FOREIGN):
            out.append((f"is_{c}_x{k}", f"is::{c}<{f}>::value", False, f"is::{c}<{f}>"))
    for h, (f, ts) in HAS.items():
        for t in ts:
            out.append((f"{h}_{t}", f"vxt::{h}<{T[t][0] if t == 'd' else 'g3::' + T[t][0]}>::value", True, f"{f} for {T[t][0]}"))
        for k, o in enumerate(OUTSIDE):
            if h == "hasOut" and o == "std::complex<double>" or h == "hasIn" and o == "std::complex<double>" or h == "hasNeg" and o == "std::complex<double>":
                continue
            out.append((f"{h}_x{k}", f"vxt::{h}<{o}>::value", False, f"{f} for {o}"))
    return out


def wrappers():
    return [W(n, "", f"({e}) ? 1 : 0", "int") for n, e, _, _ in tests()]



def ast(h):
    """what the declarations of namespace is say about types outside the library: {class: (specialised for, partial?, plain false primary?)}"""
    import os
    src = os.path.join(h.dir, "ast.cpp")
    open(src, "w").write("#include <Engabra>\n")
    r = subprocess.run([harness.CLANG, "-std=c++17", "-w", f"-I{harness.REPO}/include", "-fsyntax-only", "-Xclang", "-ast-dump", "-Xclang",
                        "-ast-dump-filter=engabra::g3::is", "-fno-color-diagnostics", src], capture_output=True, text=True)
    out = {}
    cur = None
    lines = r.stdout.split("\n")
    i = 0
    while i < len(lines):
        ln = lines[i]
        m = re.match(r"(?:[| ]*[|`]-)?(\w+Decl) 0x", ln)
        if m:
            k = m.group(1)
            if k == "ClassTemplateDecl":
                cur = ln.split()[-1]
                out.setdefault(cur, {"spec": {}, "partial": False, "plain": None})
            elif k == "CXXRecordDecl" and "definition" in ln and cur and out[cur]["plain"] is None and "implicit" not in ln:
                j = i + 1
                base = None
                odd = False
                ind = len(re.match(r"[| `]*-?", ln).group())
                while j < len(lines):
                    q = re.match(r"[| `]*-?", lines[j]).group()
                    if len(q) <= ind and lines[j].strip():
                        break
                    b = re.search(r"public '([^']*)'(?::'([^']*)')?", lines[j])
                    if len(q) == ind + 2:
                        if b:
                            base = b.group(2) or b.group(1)
                        elif not re.search(r"DefinitionData|FullComment|CXXRecordDecl .*implicit", lines[j]):
                            odd = True
                    j += 1
                same = re.match(r"(?:std::)?is_same<(?:type-parameter-0-0|\w+), (?:engabra::)?g3::(\w+)>$", base or "")
                out[cur]["plain"] = (base == "std::integral_constant<bool, false>" or bool(same) and same.group(1) == cur) and not odd
            elif k == "ClassTemplatePartialSpecializationDecl":
                n = re.search(r"(?:struct|class) (\w+)", ln)
                out.setdefault(n.group(1), {"spec": {}, "partial": False, "plain": None})["partial"] = True
            elif k == "ClassTemplateSpecializationDecl" and "explicit_specialization" in ln:
                n = re.search(r"(?:struct|class) (\w+)", ln).group(1)
                j = i + 1
                arg = val = None
                while j < len(lines) and (arg is None or val is None) and j < i + 40:
                    a = re.search(r"TemplateArgument type '([^']*)'(?::'([^']*)')?", lines[j])
                    if a and arg is None:
                        arg = a.group(2) or a.group(1)
                    b = re.search(r"public '[^']*'(?::'([^']*)')?", lines[j])
                    if b and val is None:
                        val = b.group(1)
                    j += 1
                out.setdefault(n, {"spec": {}, "partial": False, "plain": None})["spec"][arg] = val
        i += 1
    return out
