// ---------------------------------------------------------------- models of library functions and the harness API
static std::string uniqueName(const std::string& n) {
    int k = nameCount[n]++;
    return k ? n + "#" + std::to_string(k) : n;
}
static int myViolations = 0;
static void candidate(const std::string& kind, const std::string& msg, const Model& m) {
    __sync_fetch_and_add(&ST->violations, 1);
    report("candidate", kind, msg, m);
    if (++myViolations >= 3 || ST->violations > 40) throw PathEnd();
}
static void doAssert(Expr* c, const std::string& msg) {
    __sync_fetch_and_add(&ST->asserts, 1);
    if (isTrue(c)) { __sync_fetch_and_add(&ST->assertsConcrete, 1); return; }
    if (isFalse(c)) { candidate("assert", msg, PS.model); return; }
    __sync_fetch_and_add(&ST->assertsSymbolic, 1);
    Model m;
    forceSolver = true;
    Res r = query(mkNot(c), &m);
    forceSolver = false;
    if (r == R_UNSAT) return;
    if (r == R_SAT) {
        candidate("assert", msg, m);
        if (query(c, &m) == R_UNSAT) throw PathEnd();
        pcAdd(c);
        PS.model = m;
        return;
    }
    __sync_fetch_and_add(&ST->assertsUndecided, 1);
    report("undecided", "assert", msg, PS.model);
}
static void doClose(const Val& a, const Val& b, double tol, const std::string& msg) {
    __sync_fetch_and_add(&ST->asserts, 1);
    if (!a.e && !b.e) {
        __sync_fetch_and_add(&ST->assertsConcrete, 1);
        if (!(std::fabs(asD(a) - asD(b)) <= tol)) candidate("close", msg + " [" + std::to_string(asD(a)) + " vs " + std::to_string(asD(b)) + "]", PS.model);
        return;
    }
    if (infnan(a) || infnan(b)) { candidate("close", msg + " [non-finite]", PS.model); return; }
    __sync_fetch_and_add(&ST->assertsSymbolic, 1);
    static std::unordered_set<Expr*> same;  // comparisons of a term with itself: one query per term
    if (a.e && a.e == b.e && tol >= 0 && !same.insert(a.e).second) return;
    Model m;
    forceSolver = true;
    Res r = queryClose(toReal(a), toReal(b), tol, &m);
    forceSolver = false;
    if (r == R_UNSAT) return;
    if (r == R_SAT) { candidate("close", msg, m); return; }
    __sync_fetch_and_add(&ST->assertsUndecided, 1);
    report("undecided", "close", msg, PS.model);
}
static void assume(Expr* c) {
    if (isTrue(c)) return;
    if (isFalse(c)) kill_path();
    int q = quickBool(c);
    if (q == 0) kill_path();
    if (q == 1) { return; }
    if (evalBool(c, PS.model) == 1) { pcAdd(c); return; }
    Model m;
    Res r = query(c, &m);
    if (r == R_UNSAT) kill_path();
    pcAdd(c);
    if (r == R_SAT) PS.model = m;
    else PS.model.valid = false;
}
static void installModels() {
    auto& M = models();
#define MODEL(name) M[name] = [](const CallI& ci, std::vector<Val>& a, std::vector<Val>& r)
    // ---- allocation
    Handler al = [](const CallI& ci, std::vector<Val>& a, std::vector<Val>& r) {
        u64 n = concretize(a[0], 64);
        if (n > (1ull << 31)) violate("allocation", "allocation of " + std::to_string(n) + " bytes");
        r[0] = V(arenaAlloc(n));
    };
    for (auto n : {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) M[n] = al;
    MODEL("_ZnwmSt11align_val_t") { r[0] = V(arenaAlloc(concretize(a[0], 64), std::max<u64>(16, a[1].lo))); };
    M["_ZnamSt11align_val_t"] = M["_ZnwmSt11align_val_t"];
    MODEL("aligned_alloc") { r[0] = V(arenaAlloc(concretize(a[1], 64), std::max<u64>(16, a[0].lo))); };
    MODEL("calloc") { u64 n = concretize(a[0], 64) * concretize(a[1], 64); u64 p = arenaAlloc(n); memset((void*)p, 0, n); r[0] = V(p); };
    Handler fr = [](const CallI& ci, std::vector<Val>& a, std::vector<Val>& r) {
        u64 p = concretize(a[0], 64);
        if (!p) return;
        if (!inArena(p)) { free((void*)p); return; }
        if (const char* e = arenaFree(p)) violate("memory", e);
    };
    for (auto n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) M[n] = fr;
    MODEL("realloc") {
        u64 p = concretize(a[0], 64), n = concretize(a[1], 64);
        u64 q = arenaAlloc(n);
        if (p) {
            if (!inArena(p)) throw EngineError("realloc of native memory");
            u64 o = heapSizes()[p];
            memCopy(q, p, std::min(o, n));
            arenaFree(p);
        }
        r[0] = V(q);
    };
    // ---- memory / strings
    Handler mc = [](const CallI& ci, std::vector<Val>& a, std::vector<Val>& r) { memCopy(concretize(a[0], 64), concretize(a[1], 64), concretize(a[2], 64)); r[0] = a[0]; };
    M["memcpy"] = mc; M["memmove"] = mc;
    MODEL("memset") { u64 p = concretize(a[0], 64), n = concretize(a[2], 64); for (u64 i = 0; i < n; i++) storeV(p + i, a[1].e ? VE(mkExtract(toBV(a[1], 32), 0, 8)) : V(a[1].lo & 255), T_INT, 8); r[0] = a[0]; };
    Handler cmp = [](const CallI& ci, std::vector<Val>& a, std::vector<Val>& r) {
        u64 p = concretize(a[0], 64), q = concretize(a[1], 64), n = concretize(a[2], 64);
        if (n) { checkAccess(p, n, "read"); checkAccess(q, n, "read"); }
        if (!anySym(p, n) && !anySym(q, n)) { int c = memcmp((void*)p, (void*)q, n); r[0] = V((uint32_t)(c < 0 ? -1 : c > 0)); return; }
        Expr* e = mkV(0, 32);
        for (u64 i = n; i-- > 0;) {
            Expr *x = byteAt(p + i), *y = byteAt(q + i);
            if (!x) x = mkV(*(uint8_t*)(p + i), 8);
            if (!y) y = mkV(*(uint8_t*)(q + i), 8);
            e = mkIte(mkCmp(O_EQ, x, y), e, mkIte(mkCmp(O_ULT, x, y), mkV(~0ull, 32), mkV(1, 32)));
        }
        r[0] = VE(e);
    };
    M["memcmp"] = cmp; M["bcmp"] = cmp;
    MODEL("strlen") {
        u64 p = concretize(a[0], 64), n = 0;
        for (;; n++) {
            Val b = loadV(p + n, T_INT, 8);
            if (!b.e) { if (!b.lo) break; continue; }
            if (branchOn(mkCmp(O_EQ, toBV(b, 8), mkV(0, 8)))) break;
        }
        r[0] = V(n);
    };
    MODEL("memchr") {
        u64 p = concretize(a[0], 64), n = concretize(a[2], 64);
        u64 c = concretize(a[1], 32) & 255;
        r[0] = V(0);
        for (u64 i = 0; i < n; i++) {
            Val b = loadV(p + i, T_INT, 8);
            bool eq = b.e ? branchOn(mkCmp(O_EQ, toBV(b, 8), mkV(c, 8))) : b.lo == c;
            if (eq) { r[0] = V(p + i); break; }
        }
    };
    MODEL("strcmp") {
        u64 p = concretize(a[0], 64), q = concretize(a[1], 64);
        for (;; p++, q++) {
            Val x = loadV(p, T_INT, 8), y = loadV(q, T_INT, 8);
            Val e = icmp(CmpInst::ICMP_EQ, x, y, 8);
            bool eq = e.e ? branchOn(e.e) : e.lo;
            if (!eq) { Val l = icmp(CmpInst::ICMP_ULT, x, y, 8); bool lt = l.e ? branchOn(l.e) : l.lo; r[0] = V((uint32_t)(lt ? -1 : 1)); return; }
            Val z = icmp(CmpInst::ICMP_EQ, x, V(0), 8);
            if (z.e ? branchOn(z.e) : z.lo) { r[0] = V(0); return; }
        }
    };
    // ---- exceptions
    MODEL("__cxa_allocate_exception") { r[0] = V(arenaAlloc(concretize(a[0], 64) + 128) + 128); };
    MODEL("__cxa_free_exception") {};
    MODEL("__cxa_throw") { excs[a[0].lo] = ExcInfo{a[1].lo, a[2].lo, 0, nullptr}; throw CxxThrow{a[0].lo}; };
    MODEL("__cxa_begin_catch") {
        ExcInfo& x = excs[a[0].lo];
        x.handlers++;
        x.rethrown = false;
        caught.push_back(a[0].lo);
        auto* tt = (const std::type_info*)x.ti;
        r[0] = V(tt && tt->__is_pointer_p() ? *(u64*)a[0].lo : a[0].lo);
    };
    MODEL("__cxa_get_exception_ptr") { r[0] = a[0]; };
    MODEL("__cxa_end_catch") { if (!caught.empty()) { u64 o = caught.back(); caught.pop_back(); if (--excs[o].handlers == 0 && !excs[o].rethrown) { excs[o].keep = nullptr; } } };
    MODEL("__cxa_rethrow") { if (caught.empty()) violate("abort", "rethrow without exception"); u64 o = caught.back(); excs[o].rethrown = true; throw CxxThrow{o}; };
    MODEL("__cxa_atexit") { r[0] = V(0); };
    MODEL("atexit") { r[0] = V(0); };
    MODEL("__cxa_guard_acquire") { u64 p = a[0].lo; r[0] = V(*(uint8_t*)p == 0); };
    MODEL("__cxa_guard_release") { *(uint8_t*)a[0].lo = 1; };
    MODEL("__cxa_guard_abort") {};
    MODEL("__cxa_pure_virtual") { violate("abort", "pure virtual call"); };
    MODEL("_ZSt9terminatev") { violate("abort", "std::terminate"); };
    MODEL("abort") { violate("abort", "abort() called"); };
    MODEL("exit") { violate("exit", "exit(" + std::to_string((int)a[0].lo) + ") called"); };
    MODEL("raise") { violate("abort", "raise(" + std::to_string((int)a[0].lo) + ") called"); };
    MODEL("backtrace") { r[0] = V(0); };
    // one process, MPI not (yet) started
    MODEL("MPI_Initialized") { storeV(a[0].lo, V(0), T_INT, 32); r[0] = V(0); };
    M["MPI_Finalized"] = M["MPI_Initialized"];
    M["MPI_Comm_rank"] = [](const CallI& ci, std::vector<Val>& a, std::vector<Val>& r) { storeV(a[1].lo, V(0), T_INT, 32); r[0] = V(0); };
    M["MPI_Comm_size"] = [](const CallI& ci, std::vector<Val>& a, std::vector<Val>& r) { storeV(a[1].lo, V(1), T_INT, 32); r[0] = V(0); };
    MODEL("_exit") { violate("exit", "_exit called"); };
    MODEL("quick_exit") { violate("exit", "quick_exit called"); };
    MODEL("__assert_fail") { violate("abort", "assertion failed: " + cstr(a[0])); };
    MODEL("_ZSt17current_exceptionv") { throw EngineError("std::current_exception"); };
    MODEL("__errno_location") { static u64 p = arenaAlloc(8); r[0] = V(p); };
    // ---- output sinks
    for (auto n : {"printf", "puts", "putchar", "fputs", "fputc", "fprintf", "fflush", "perror", "vprintf", "vfprintf"}) M[n] = [](const CallI& ci, std::vector<Val>& a, std::vector<Val>& r) { r[0] = V(0); };
    // ---- maths
    struct F1 { const char* n; double (*f)(double); };
    static const F1 f1[] = {{"sin", ::sin}, {"cos", ::cos}, {"exp", ::exp}, {"log", ::log}, {"tan", ::tan}, {"asin", ::asin}, {"acos", ::acos}, {"atan", ::atan}, {"sinh", ::sinh}, {"cosh", ::cosh}, {"tanh", ::tanh}, {"log10", ::log10}, {"log2", ::log2}, {"cbrt", ::cbrt}, {"erf", ::erf}, {"tgamma", ::tgamma}, {"lgamma", ::lgamma}};
    for (auto& x : f1) {
        std::string n = x.n;
        auto f = x.f;
        M[n] = [n, f](const CallI& ci, std::vector<Val>& a, std::vector<Val>& r) { r[0] = a[0].e ? rUF(n, a[0].e, f) : VD(f(asD(a[0]))); };
    }
    MODEL("sqrt") { r[0] = a[0].e ? rSqrt(a[0].e) : VD(std::sqrt(asD(a[0]))); };
    MODEL("fabs") { r[0] = rAbs(a[0]); };
    auto viaIntr = [](Intrinsic::ID id) -> Handler {
        return [id](const CallI& ci, std::vector<Val>& a, std::vector<Val>& r) {
            Type* d = Type::getDoubleTy(CTX);
            std::vector<Type*> tys{d};
            Function* f = Intrinsic::getDeclaration(MOD.get(), id, tys);
            if (!intrinsic(ci, f, a, r)) throw EngineError("intrinsic model");
        };
    };
    M["pow"] = viaIntr(Intrinsic::pow);
    M["floor"] = viaIntr(Intrinsic::floor);
    M["ceil"] = viaIntr(Intrinsic::ceil);
    M["round"] = viaIntr(Intrinsic::round);
    M["fmin"] = viaIntr(Intrinsic::minnum);
    M["fmax"] = viaIntr(Intrinsic::maxnum);
    MODEL("lround") { if (a[0].e) throw EngineError("lround"); r[0] = V((u64)lround(asD(a[0]))); };
    MODEL("hypot") { if (!a[0].e && !a[1].e) { r[0] = VD(std::hypot(asD(a[0]), asD(a[1]))); return; } Expr *x = toReal(a[0]), *y = toReal(a[1]); r[0] = rSqrt(mkRAdd(mkRMul(x, x), mkRMul(y, y))); };
    MODEL("atan2") { if (!a[0].e && !a[1].e) { r[0] = VD(std::atan2(asD(a[0]), asD(a[1]))); return; } Expr* u = mkUF("atan2", canonArg(toReal(a[0])), canonArg(toReal(a[1]))); pvarOf(u); r[0] = VE(u); };
    // ---- harness API
    MODEL("hsx_native") { r[0] = V(0); };
    MODEL("hsx_real") {
        Expr* e = mkVar(uniqueName(cstr(a[0])), SR, 0);
        auto& vi = varTable()[e->c];
        vi.lo = mpq_class(asD(a[1]));
        vi.hi = mpq_class(asD(a[2]));
        PS.model.r[e->c] = (vi.lo + vi.hi) / 2;
        pvarOf(e);
        r[0] = VE(e);
    };
    MODEL("hsx_uint") {
        Expr* e = mkVar(uniqueName(cstr(a[0])), SV, 64);
        auto& vi = varTable()[e->c];
        vi.ulo = a[1].lo;
        vi.uhi = a[2].lo;
        PS.model.b[e->c] = vi.ulo;
        pcAdd(mkCmp(O_ULE, mkV(vi.ulo, 64), e));
        pcAdd(mkCmp(O_ULE, e, mkV(vi.uhi, 64)));
        r[0] = VE(e);
    };
    MODEL("hsx_byte") {
        Expr* e = mkVar(uniqueName(cstr(a[0])), SV, 8);
        auto& vi = varTable()[e->c];
        vi.ulo = 0;
        vi.uhi = 255;
        PS.model.b[e->c] = 0;
        r[0] = VE(e);
    };
    MODEL("hsx_choice") {
        std::string n = uniqueName(cstr(a[0]));
        u64 k = concretize(a[1], 64);
        if (!k) kill_path();
        u64 v = 0;
        for (; v + 1 < k; v++) if (forkPath()) break;
        choices.push_back({n, v});
        r[0] = V(v);
    };
    MODEL("hsx_concrete") { r[0] = V(concretize(a[0], 64)); };
    MODEL("hsx_assume_") { Val c = icmp(CmpInst::ICMP_NE, a[0], V(0), 32); assume(toBool(c)); };
    MODEL("hsx_assert_") { Val c = icmp(CmpInst::ICMP_NE, a[0], V(0), 32); doAssert(toBool(c), cstr(a[1])); };
    MODEL("hsx_close") { doClose(a[0], a[1], asD(a[2]), cstr(a[3])); };
    MODEL("hsx_reach") {
        __sync_fetch_and_add(&ST->reach, 1);
        std::string l = cstr(a[0]);
        for (auto& x : reached) if (x == l) return;
        reached.push_back(l);
        emit("{\"type\":\"reach\",\"case\":" + jstr(caseName) + ",\"label\":" + jstr(l) + "}");
    };
    MODEL("hsx_expect_abort") { expectAbort = a[0].lo != 0; };
    MODEL("hsx_end") { throw PathEnd(); };
    MODEL("hsx_diff") {
        if (!a[0].e) { r[0] = VD(0); return; }
        if (!a[1].e || a[1].e->op != O_VAR) throw EngineError("hsx_diff: not a variable");
        std::unordered_map<Expr*, Expr*> memo;
        r[0] = VE(diffExpr(a[0].e, a[1].e, memo));
    };
    MODEL("hsx_is_symbolic") { r[0] = V(a[0].e != nullptr); };
    MODEL("hsx_print") {
        std::string s = cstr(a[0]);
        if (a[1].e) { const RF& rf = nf(a[1].e); s += " terms=" + std::to_string(rf.n.size()) + " dens=" + std::to_string(rf.d.size()); Iv v = ivRF(rf); s += " in [" + std::to_string(v.lo) + "," + std::to_string(v.hi) + "]"; }
        else s += " " + std::to_string(asD(a[1]));
        emit("{\"type\":\"print\",\"case\":" + jstr(caseName) + ",\"msg\":" + jstr(s) + "}");
    };
    // replace a symbolic real by a fresh bounded variable (result unconstrained): used for havoc stubs
}
static void runPathBody(Function* F) {
    try {
        callFunction(F, {});
        if (expectAbort) {}
    } catch (PathEnd&) {
    } catch (Violation& v) {
        bool ok = expectAbort && (v.kind == "abort" || v.kind == "exit" || v.kind == "uncaught-exception");
        if (!ok) {
            try { __sync_fetch_and_add(&ST->violations, 1); report("candidate", v.kind, v.msg, PS.model); } catch (...) {}
        }
    } catch (EngineError& e) {
        __sync_fetch_and_add(&ST->engineErrors, 1);
        report("engine", "engine", e.what(), PS.model);
    } catch (std::exception& e) {
        __sync_fetch_and_add(&ST->engineErrors, 1);
        report("engine", "engine", std::string("internal: ") + e.what(), PS.model);
    }
}

static void initGlobals() {
    for (auto& g : MOD->globals()) {
        if (g.getName().starts_with("llvm.")) continue;
        if (g.isDeclaration()) {
            void* p = dlsym(RTLD_DEFAULT, g.getName().str().c_str());
            if (!p) {
                u64 n = 64;
                if (g.getValueType()->isSized()) n = std::max<u64>(64, DL->getTypeAllocSize(g.getValueType()));
                if (g.hasExternalWeakLinkage()) { gAddr[&g] = 0; continue; }
                gAddr[&g] = arenaAlloc(n);
                memset((void*)gAddr[&g], 0, n);
            } else gAddr[&g] = (u64)p;
            continue;
        }
        u64 n = DL->getTypeAllocSize(g.getValueType());
        u64 al = 16;
        if (g.getAlign()) al = std::max<u64>(al, g.getAlign()->value());
        gAddr[&g] = arenaAlloc(n, al);
    }
    std::function<void(u64, const Constant*)> wr = [&](u64 p, const Constant* c) {
        if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { memset((void*)p, 0, DL->getTypeAllocSize(c->getType())); return; }
        if (auto* s = dyn_cast<ConstantDataSequential>(c)) { StringRef d = s->getRawDataValues(); memcpy((void*)p, d.data(), d.size()); return; }
        if (auto* s = dyn_cast<ConstantStruct>(c)) { auto* l = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) wr(p + l->getElementOffset(i), s->getOperand(i)); return; }
        if (auto* s = dyn_cast<ConstantArray>(c)) { u64 n = DL->getTypeAllocSize(s->getType()->getElementType()); for (unsigned i = 0; i < s->getNumOperands(); i++) wr(p + i * n, s->getOperand(i)); return; }
        if (auto* s = dyn_cast<ConstantVector>(c)) { u64 n = DL->getTypeAllocSize(s->getType()->getElementType()); for (unsigned i = 0; i < s->getNumOperands(); i++) wr(p + i * n, s->getOperand(i)); return; }
        std::vector<Val> o;
        evalConst(c, o);
        storeV(p, o[0], tkOf(c->getType()), widthOf(c->getType()));
    };
    for (auto& g : MOD->globals()) {
        if (g.isDeclaration() || g.getName().starts_with("llvm.")) continue;
        wr(gAddr[&g], g.getInitializer());
    }
}
static void runCtors() {
    GlobalVariable* g = MOD->getGlobalVariable("llvm.global_ctors");
    if (!g || !g->hasInitializer()) return;
    auto* arr = dyn_cast<ConstantArray>(g->getInitializer());
    if (!arr) return;
    std::vector<std::pair<u64, Function*>> cs;
    for (auto& o : arr->operands()) {
        auto* s = dyn_cast<ConstantStruct>(o);
        if (!s) continue;
        auto* f = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts());
        if (f) cs.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), f});
    }
    std::stable_sort(cs.begin(), cs.end(), [](auto& x, auto& y) { return x.first < y.first; });
    for (auto& c : cs) callFunction(c.second, {});
}
static void segv(int s) {
    const char m[] = "native crash in interpreted call\n";
    if (write(2, m, sizeof m - 1) < 0) {}
    // best effort report
    emit("{\"type\":\"engine\",\"case\":" + jstr(caseName) + ",\"msg\":\"signal " + std::to_string(s) + "\",\"where\":" + jstr(where()) + "}");
    _exit(77);
}
int main(int argc, char** argv) {
    // big native stack for recursive term handling
    rlimit rl;
    getrlimit(RLIMIT_STACK, &rl);
    if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 30) && !getenv("SYMX_REEXEC")) {
        rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (4ull << 30) : rl.rlim_max;
        if (setrlimit(RLIMIT_STACK, &rl) == 0) { setenv("SYMX_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
    }
    std::string bc;
    std::vector<std::string> pats, preload;
    int jobs = 8;
    double timeout = 600;
    long maxPaths = 200000;
    bool list = false, verbose = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "-o") outPath = nx();
        else if (a == "-j") jobs = std::stoi(nx());
        else if (a == "-t") timeout = std::stod(nx());
        else if (a == "-c") pats.push_back(nx());
        else if (a == "--max-paths") maxPaths = std::stol(nx());
        else if (a == "--ext-timeout") optExtTimeout = std::stoi(nx());
        else if (a == "--rlimit") optRlimit = std::stol(nx());
        else if (a == "--max-instr") optMaxInstr = std::stol(nx());
        else if (a == "--preload") preload.push_back(nx());
        else if (a == "--list") list = true;
        else if (a == "-v") verbose = true;
        else if (a == "--trace") optTrace = true;
        else bc = a;
    }
    for (auto& p : preload) if (!dlopen(p.c_str(), RTLD_NOW | RTLD_GLOBAL)) fprintf(stderr, "preload %s: %s\n", p.c_str(), dlerror());
    SMDiagnostic err;
    MOD = parseIRFile(bc, err, CTX);
    if (!MOD) { err.print("symx", errs()); return 3; }
    DL = &MOD->getDataLayout();
    std::vector<Function*> cases;
    uint32_t k = 0;
    for (auto& f : *MOD) {
        fnIdx[&f] = k++;
        if (!f.isDeclaration() && f.getName().starts_with("hsx_case_")) cases.push_back(&f);
    }
    if (list) { for (auto* f : cases) printf("%s\n", f->getName().str().c_str()); return 0; }
    auto mapAt = [](u64 at, u64 n) { void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } };
    mapAt(ARENA, ARENA_SZ);
    mapAt(SYMSH, ARENA_SZ);
    mapAt(ALSH, ARENA_SZ / 8);
    ST = (SharedStats*)mmap(nullptr, sizeof(SharedStats), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    fnHit = (uint8_t*)mmap(nullptr, k + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    ST->tokens = jobs;
    ST->deadline = (long)(nowS() + timeout);
    ST->maxPaths = maxPaths;
    REGS.reserve(1 << 16);
    installModels();
    if (!verbose) {
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1);
        if (!getenv("SYMX_DEBUG")) dup2(dn, 2);
    }
    signal(SIGSEGV, segv);
    signal(SIGBUS, segv);
    signal(SIGFPE, segv);
    signal(SIGPIPE, SIG_IGN);
    double t0 = nowS();
    PS.model.valid = true;
    try {
        initGlobals();
        caseName = "static-init";
        runCtors();
    } catch (Violation& v) {
        report("engine", v.kind, "static init: " + v.msg, PS.model);
        return 4;
    } catch (EngineError& e) {
        report("engine", "engine", std::string("static init: ") + e.what(), PS.model);
        return 4;
    }
    double tInit = nowS() - t0;
    memset(fnHit, 0, k + 1);
    std::vector<pid_t> ps;
    for (auto* f : cases) {
        std::string n = f->getName().str();
        bool sel = pats.empty();
        for (auto& p : pats) if (n == "hsx_case_" + p || n == p) sel = true;
        if (!sel) continue;
        caseName = n.substr(9);
        while (!tryToken()) usleep(2000);
        __sync_fetch_and_add(&ST->paths, 1);
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            haveToken = true;
            instrCount = 0;
            armWatchdog();
            double c0 = nowS();
            runPathBody(f);
            (void)c0;
            finishPath();
        }
        ps.push_back(p);
    }
    for (auto p : ps) reap(p);
    std::string fns = "[";
    bool first = true;
    for (auto& f : *MOD) if (fnHit[fnIdx[&f]]) { fns += (first ? "" : ",") + jstr(f.getName().str()); first = false; }
    fns += "]";
    char b[2048];
    snprintf(b, sizeof b, "{\"type\":\"stats\",\"queries\":%ld,\"unsat\":%ld,\"sat\":%ld,\"unknown\":%ld,\"external\":%ld,\"relax\":%ld,\"nonlinear\":%ld,\"solver_s\":%.3f,\"asserts\":%ld,\"asserts_symbolic\":%ld,\"asserts_concrete\":%ld,\"undecided\":%ld,\"paths\":%ld,\"paths_infeasible\":%ld,\"truncated\":%ld,\"engine_errors\":%ld,\"forks\":%ld,\"instructions\":%ld,\"violations\":%ld,\"reach\":%ld,\"init_s\":%.3f,\"wall_s\":%.3f,\"functions\":",
             ST->queries, ST->qUnsat, ST->qSat, ST->qUnk, ST->qExternal, ST->qRelax, ST->qNl, ST->solverUs * 1e-6, ST->asserts, ST->assertsSymbolic, ST->assertsConcrete, ST->assertsUndecided, ST->paths, ST->pathsKilled, ST->truncated, ST->engineErrors, ST->forks, ST->instrs, ST->violations, ST->reach, tInit, nowS() - t0);
    emit(std::string(b) + fns + "}");
    fflush(nullptr);
    _exit(0);
}
