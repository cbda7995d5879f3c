# generates harness/C19_gen<k>.h: invocations of the iteration and trait macros with every number of arguments
import random, os
random.seed(19)
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness")
def V(n): return ", ".join("v[%d]" % i for i in range(n))
o = ["// generated by tools/gen19.py"]
for n in range(1, 41):
    o.append("static void each%d(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, %s) }; l.check(c, \"FOR_EACH\", %d, v, r, sizeof r / sizeof *r, all(%d)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(%s))) == %d, \"narg\", %d); " % (n, V(n), n, n, V(n), n, n))
    if n % 2 == 0:
        o.append(" { Log l; long r[] = { FOR_EACH_EVEN(F1, %s) }; l.check(c, \"FOR_EACH_EVEN\", %d, v, r, sizeof r / sizeof *r, sel(%d, 1)); }" % (V(n), n, n))
        o.append(" { Log l; long r[] = { FOR_EACH_2ARGS(F2, %s) }; l.check2(c, \"FOR_EACH_2ARGS\", %d, v, r, sizeof r / sizeof *r, -1); }" % (V(n), n))
        o.append(" { Log l; long r[] = { FOR_EACH_3ARGS_1STAT(F3, v[40], %s) }; l.check2(c, \"FOR_EACH_3ARGS_1STAT\", %d, v, r, sizeof r / sizeof *r, v[40]); }" % (V(n), n))
    else:
        o.append(" { Log l; long r[] = { FOR_EACH_ODD(F1, %s) }; l.check(c, \"FOR_EACH_ODD\", %d, v, r, sizeof r / sizeof *r, sel(%d, 0)); }" % (V(n), n, n))
    o.append("}")
o.append("static void (*const eaches[])(vh::Case&, const long*) = { %s };" % ", ".join("each%d" % n for n in range(1, 41)))
# compile-time sequences
def seq(s, e, i):
    r = []; x = s
    while True:
        r.append(x)
        if x == e: return r
        x += i
o.append("static void sequences(vh::Case& c) {")
for _ in range(40):
    inc = random.choice([1, 1, 2, 3, 5, -1, -1, -2, -3]); n = random.randint(0, 12); s = random.randint(-20, 20); e = s + n * inc
    ty = random.choice(["int", "long", "short"])
    if s >= 0 and e >= 0 and inc > 0: ty = random.choice(["int", "unsigned", "size_t"])
    o.append(" { typedef make_custom_integer_sequence_t<%s, %d, %d%s> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<%s, %s>>::value), \"sequence\", \"%d..%d step %d\"); c.ev(\"sequences\"); }" % (ty, s, e, ", %d" % inc if inc != 1 or random.random() < .5 else "", ty, ", ".join(map(str, seq(s, e, inc))), s, e, inc))
o.append("}\nstatic void loops(vh::Case& c, const long* v) {")
for _ in range(40):
    k = random.randint(0, 4)
    if k == 0:
        n = random.randint(0, 30); exp = list(range(n)); call = "constexprFor<Visit, %d>(l, v)" % n
    elif k == 1:
        a = random.randint(0, 20); n = random.randint(0, 20); st = random.randint(1, 6); exp = list(range(a, a + n, st)); call = "constexprFor<Visit, %d, %d, %d>(l, v)" % (a, a + n, st)
    elif k == 2:
        a = random.randint(0, 20); n = random.randint(0, 20); exp = list(range(a, a + n)); call = "constexprFor<Visit, %d, %d>(l, v)" % (a, a + n)
    elif k == 3:
        b = random.randint(0, 20); n = random.randint(0, 15); exp = list(range(b + n, b, -1)); call = "constexprFor<Visit, %d, %d, size_t(-1)>(l, v)" % (b + n, b)
    else:
        a = random.randint(0, 20); n = random.randint(0, 20); st = random.randint(1, 6); exp = list(range(a, a + n, st)); call = "ConstexprFor<%d, %d, %d>::exec<Visit>(l, v)" % (a, a + n, st)
    o.append(" { Log l; %s; l.loop(c, \"%s\", v, {%s}); }" % (call, call, ", ".join(map(str, exp))))
o.append("}\nstatic void selects(vh::Case& c) {")
for _ in range(60):
    n = random.randint(1, 8); ms = [random.choice([0, 0, random.randint(0, 255)]) for _ in range(n)]; bit = random.randint(0, 7)
    first = next((i for i in range(n) if ms[i] >> bit & 1), n - 1)
    o.append(" { typedef ClassSelector<Var<%d>, Fits, %s>::SelectedClass S; VH_CHECK(c, S::id == %d, \"select\", S::id); c.ev(\"selections\"); }" % (bit, ", ".join("Cand<%d, %d>" % (i, m) for i, m in enumerate(ms)), first))
o.append("}\nstatic void signatures(vh::Case& c) {")
tys = ["int", "double", "const std::string&", "std::vector<int>*", "Rec&", "const Rec*", "Rec", "bool", "void*", "Rec&&", "const long", "std::pair<int, int>"]
def dec(t): return "long" if t == "const long" else t
for _ in range(70):
    n = random.randint(0, 8); args = [random.choice(tys) for _ in range(n)]; ret = random.choice(["void"] + [t for t in tys if t != "const long"]); k = random.randint(0, 7); A = ", ".join(args); D = [dec(a) for a in args]
    if k == 0: F, exp = "%s(%s)" % (ret, A), D
    elif k == 1: F, exp = "%s(*)(%s)" % (ret, A), D
    elif k == 2: F, exp = "%s(Rec::*)(%s)" % (ret, A), ["Rec&"] + D
    elif k == 3: F, exp = "%s(Rec::*)(%s) const" % (ret, A), ["const Rec&"] + D
    elif k == 4:
        if ret in ("void",) or "&" in ret: ret = "double"
        F, exp = "%s Rec::*" % ret, ["Rec&"]
    else:
        i = random.randint(0, 10**9); o.append(" struct Fn%d { %s operator()(%s)%s; };" % (i, ret, A, random.choice(["", " const"]))); F, exp = "Fn%d" % i + random.choice(["", "&", "&&"] if k < 7 else [""]), D
    o.append(" sig<%s, %s%s>(c);" % (F, ret, "".join(", " + e for e in exp)))
o.append("}")
open(H + "/C19_gen0.h", "w").write("\n".join(o) + "\n")

# classes with 1..20 attributes and the three kinds of traits made by the three families of macros, for classes and templates
T = ["int", "double", "float", "long", "short", "unsigned", "unsigned char", "long long"]
PARTS = [[(20, 0)], [(20, 1)], [(12, 0), (7, 1), (3, 0), (1, 1), (2, 0)], [(12, 1), (7, 0), (4, 0), (4, 1), (3, 1), (2, 1), (1, 0)]]
for part in range(4):
    o = ["// generated by tools/gen19.py", "namespace c19 {"]; macs = []; run = []
    for n, tmpl in PARTS[part]:
        if 1:
            cls = "%s%d" % ("T" if tmpl else "S", n); full = "c19::" + cls + ("<A, B>" if tmpl else ""); inst = cls + ("<float, long>" if tmpl else "")
            ty = [random.choice(["A", "B"] if tmpl else T) for _ in range(n)]
            o.append("%sstruct %s { %s double spare = 7;\n %s\n double at(int i) const { switch (i) { %s default: return spare; } }\n void put(int i, double d) { switch (i) { %s default: spare = d; } } };" % (
                "template<class A, class B> " if tmpl else "", cls, " ".join("%s m%d;" % (ty[i], i) for i in range(n)),
                " ".join("%s g%d() const { return m%d; } void s%d(const %s& x) { m%d = x; }" % (ty[i], i, i, i, ty[i], i) for i in range(n)),
                " ".join("case %d: return double(m%d);" % (i, i) for i in range(n)), " ".join("case %d: m%d = (%s)(d); break;" % (i, i, ty[i]) for i in range(n))))
            for kind, suf in enumerate(["", "_IO", "_ARITHMETIC"]):
                k = random.randint(max(1, n - 2), n) if 1 < n < 19 and random.random() < .3 else n
                perm = random.sample(range(n), k) if kind else list(range(n)); fam = (n + kind + tmpl) % 3
                if n >= 19: perm = random.sample(range(n), n)
                k = len(perm)
                head = "%s, " % full if not tmpl else "(%s), (class A, class B), " % full
                ta = "TEMPLATE_" if tmpl else ""
                direct = [1] * k
                if fam == 0:
                    names = ["m%d" % p for p in perm]; macs.append("MAKE_ATTRIBUTE_%sTRAIT%s(%s%s);" % (ta, suf, head, ", ".join(names)))
                elif fam == 1:
                    names = ["%s %d" % (random.choice(["a", "name", "x, y", "(", ""]), i) for i in range(k)]; macs.append("MAKE_NAMED_ATTRIBUTE_%sTRAIT%s(%s%s);" % (ta, suf, head, ", ".join('"%s", m%d' % (names[i], perm[i]) for i in range(k))))
                else:
                    names = ["c%d" % (i * 7 % 20) for i in range(k)]; ar = []
                    for i in range(k):
                        ref = full; p = perm[i]; a = "(&%s::m%d)" % (ref, p)
                        if random.random() < .3: a = "(std::make_pair(&%s::g%d, &%s::s%d))" % (ref, p, ref, p); direct[i] = 0
                        ar.append('"%s", %s' % (names[i], a))
                    macs.append("MAKE_CUSTOM_%sTRAIT%s(%s%s);" % (ta, suf, head, ", ".join(ar)))
                tr = ["DefaultTraits", "DefaultIOTraits", "DefaultArithmeticTraits"][kind]
                run.append(" { const int p[] = {%s}; const bool d[] = {%s}; const char* const nm[] = {%s}; All<%s, c19::%s>::run(c, \"%s %s\", p, d, nm, %d); }" % (", ".join(map(str, perm)), ", ".join(map(str, direct)), ", ".join('"%s"' % x for x in names), tr, inst, tr, inst, n))
    o.append("}")
    o += macs
    o.append("static void classes%d(vh::Case& c) { switch (c.index %% %d) {" % (part, len(run)))
    o += [" case %d:%s break;" % (i, r) for i, r in enumerate(run)]
    o.append("} }")
    open(H + "/C19_gen%d.h" % (part + 1), "w").write("\n".join(o) + "\n")
