// -*- c++ -*-   models of external functions (members of Engine)
uint64_t makeCtype(const string& name)
{
    uint64_t ct = allocate(600, 0, "ctype(" + name + ")", true);
    Obj* o      = access(ct, 600, true);
    o->bytes[56] = 1;
    for(int i = 0; i < 256; i++) o->bytes[57 + i] = (uint8_t)i;
    return ct;
}
void putSym(uint64_t os, const Val& c)
{
    auto it = g_text.find(c.e.id());
    if(it != g_text.end()) s->out[os].push_back(it->second.second);
    else s->out[os].push_back({1, 0, c});
}
uint64_t makeStream(const string& name, uint64_t at = 0)
{
    // object: [vptr][ios_base area]; the vtable holds the offset of the virtual base at -24
    uint64_t vt = allocate(64, 0, "vtable(" + name + ")", true);
    Obj* o      = access(vt, 64, true);
    storeScalar(o, 8, 8, mkInt(8, 64));  // vptr = vt+32; [-24] -> vt+8
    uint64_t ct = makeCtype(name);
    uint64_t st = at ? at : allocate(512, 0, name, true);
    o           = access(st, 512, true);
    storeScalar(o, 0, 8, mkInt(vt + 32, 64));
    storeScalar(o, 8 + 240, 8, mkInt(ct, 64));
    storeScalar(o, 8 + 8, 8, mkInt(6, 64));   // precision
    return st;
}

void setupExternals()
{
    auto U = [&](const string& n, Handler h) { ext[n] = h; };
    // ---- harness interface
    // before the run proper another harness may be executed on fixed values (history): only the state it leaves counts
    auto prenum = [](const string& n) -> uint64_t { return n[0] == 'N' ? 3 : 1 - (g_precnt++ & 1); };
    U("vp_u64", [prenum](Engine& e, DInst& d, vector<Val>& a) {
        if(g_pre) {
            e.set(d, mkInt(prenum(e.cstr(a[0])), 64));
            return true;
        }
        e.newInput(d, e.cstr(a[0]), 'u', Z().bv_sort(64));
        return true;
    });
    U("vp_u8", [prenum](Engine& e, DInst& d, vector<Val>& a) {
        if(g_pre) {
            e.set(d, mkInt(prenum(e.cstr(a[0])), 8));
            return true;
        }
        e.newInput(d, e.cstr(a[0]), 'u', Z().bv_sort(8));
        return true;
    });
    U("vp_bool", [prenum](Engine& e, DInst& d, vector<Val>& a) {
        if(g_pre) {
            e.set(d, mkInt(prenum(e.cstr(a[0])) & 1, 1));
            return true;
        }
        e.newInput(d, e.cstr(a[0]), 'b', Z().bool_sort());
        return true;
    });
    U("vp_f64", [](Engine& e, DInst& d, vector<Val>& a) {
        if(g_pre) {
            e.set(d, mkFP(0.5 + 0.0625 * (g_precnt++ & 7), 64));
            return true;
        }
        e.newInput(d, e.cstr(a[0]), 'f', g_fp == FP_IEEE ? fpsort(64) : Z().real_sort());
        return true;
    });
    U("vp_choose", [](Engine& e, DInst& d, vector<Val>& a) {
        // symbolic integer in [lo, hi], immediately split into all its values
        string nm = e.cstr(a[0]);
        State& s  = *e.s;
        if(g_pre) {
            uint64_t lo = e.concretize(a[1]), hi = e.concretize(a[2]);
            if(lo > hi) throw PathEnd{P_INFEASIBLE, "", ""};
            e.set(d, mkInt(lo + g_precnt++ % (hi - lo + 1), 64));
            return true;
        }
        int k     = s.namecnt[nm];
        string n2 = k ? nm + "#" + std::to_string(k) : nm;
        z3::expr v(Z().bv_const(n2.c_str(), 64));
        uint64_t lo = e.concretize(a[1]), hi = e.concretize(a[2]);
        bool have   = false;
        for(auto& in : s.inputs)
            if(in.name == n2) have = true;
        if(!have) {
            if(lo > hi) throw PathEnd{P_INFEASIBLE, "", ""};
            e.regVar(v);
            s.assign[Z3_get_ast_id(Z(), v)] = E(Z().bv_val((uint64_t)lo, 64));
            s.inputs.push_back({n2, 'u', E(v)});
            s.pc.push_back(E(z3::uge(v, Z().bv_val((uint64_t)lo, 64)) && z3::ule(v, Z().bv_val((uint64_t)hi, 64))));
        }
        Val vv;
        vv.k       = V_SYM;
        vv.w       = 64;
        vv.e       = E(v);
        uint64_t r = e.concretize(vv);
        e.s->namecnt[nm]++;
        e.set(d, mkInt(r, 64));
        return true;
    });
    U("vp_conc", [](Engine& e, DInst& d, vector<Val>& a) {
        e.set(d, mkInt(e.concretize(a[0]), 64));
        return true;
    });
    U("vp_is_symbolic", [](Engine& e, DInst& d, vector<Val>& a) {
        e.set(d, mkInt(1, 1));
        return true;
    });
    U("vp_assume", [](Engine& e, DInst& d, vector<Val>& a) {
        if(a[0].k == V_UNDEF) throw PathEnd{P_VIOL, "uninit", "assumption on undefined value"};
        e.assume(bvx(a[0]));
        return true;
    });
    U("vp_assert", [](Engine& e, DInst& d, vector<Val>& a) {
        if(g_pre) return true;
        string m = e.cstr(a[1]);
        if(a[0].k == V_UNDEF) throw PathEnd{P_VIOL, "uninit", "asserted value is uninitialised: " + m};
        e.checkAssert(bvx(a[0]), m);
        return true;
    });
    U("vp_assert_eq_f64", [](Engine& e, DInst& d, vector<Val>& a) {
        if(g_pre) return true;
        string m = e.cstr(a[2]);
        if(a[0].k == V_UNDEF || a[1].k == V_UNDEF)
            throw PathEnd{P_VIOL, "uninit", "asserted value is uninitialised: " + m};
        if(a[0].k == V_FP && a[1].k == V_FP) {
            double x = a[0].d, y = a[1].d;
            double sc = std::max(1.0, std::max(std::fabs(x), std::fabs(y)));
            bool ok   = x == y || std::fabs(x - y) <= 1e-9 * sc;
            e.checkAssert(Z().bool_val(ok), m);
            return true;
        }
        if(g_fp == FP_IEEE) {
            e.checkAssert(z3::expr(Z(), Z3_mk_fpa_eq(Z(), ieeex(a[0]), ieeex(a[1]))), m);
            return true;
        }
        z3::expr x = realx(a[0]), y = realx(a[1]);
        z3::expr df = x - y;
        z3::params p(Z());
        p.set("som", true);
        p.set("som_blowup", 100000u);
        p.set("arith_lhs", true);
        z3::expr n = df.simplify(p);
        double tol = e.s->opts["tol_exp"] ? std::ldexp(1.0, -e.s->opts["tol_exp"]) : 0.0;
        // concrete sub-computations are IEEE, so equality is up to a tolerance relative to the
        // magnitude of the inputs whenever it is not an identity
        z3::expr eq(Z()), strong(Z());
        if(tol > 0) {
            z3::expr t = real_of_double(tol);
            if(n.is_numeral())
                eq = (n <= t && n >= -t);
            else
                eq = (n <= t && n >= -t);
        } else
            eq = n == 0;
        z3::expr sx = Z().real_val(1, 16);
        strong      = n >= sx || n <= -sx;
        e.checkAssert(eq, m, &strong);
        return true;
    });
    U("vp_select_u64", [](Engine& e, DInst& d, vector<Val>& a) {
        if(a[0].k == V_INT) e.set(d, a[0].i ? a[1] : a[2]);
        else e.set(d, e.iteVal(bvx(a[0]).simplify(), a[1], a[2]));
        return true;
    });
    ext["vp_select_f64"] = ext["vp_select_u64"];
    ext["vp_select_bool"] = ext["vp_select_u64"];
    U("vp_arg", [](Engine& e, DInst& d, vector<Val>& a) {
        uint64_t i = e.concretize(a[0]);
        auto& args = g_pre ? g_preargs : g_args;
        e.set(d, mkInt(i < args.size() ? args[i] : 0, 64));
        return true;
    });
    U("vp_opt", [](Engine& e, DInst& d, vector<Val>& a) {
        e.s->opts[e.cstr(a[0])] = (int)e.concretize(a[1]);
        return true;
    });
    U("vp_reach", [](Engine& e, DInst& d, vector<Val>& a) {
        if(!g_pre) g_reached.insert(e.cstr(a[0]));
        return true;
    });
    auto obs = [](Engine& e, DInst& d, vector<Val>& a) {
        if(g_pre) return true;
        if(a[1].k == V_UNDEF) throw PathEnd{P_VIOL, "uninit", "observed value is uninitialised"};
        if(e.s->obs.size() < 400) e.s->obs.push_back({e.cstr(a[0]), a[1]});
        return true;
    };
    U("vp_observe_u64", obs);
    U("vp_observe_f64", obs);
    U("vp_stop", [](Engine& e, DInst& d, vector<Val>& a) -> bool { throw PathEnd{P_OK, "", ""}; });
    U("vp_stream", [](Engine& e, DInst& d, vector<Val>& a) {
        uint64_t id = e.concretize(a[0]);
        string k    = "stream" + std::to_string(id);
        if(!e.s->env.count(k)) e.s->env[k] = mkInt(e.makeStream(k), 64);
        e.set(d, e.s->env[k]);
        return true;
    });
    U("vp_assert_same_output", [](Engine& e, DInst& d, vector<Val>& a) {
        if(g_pre) return true;
        string m   = e.cstr(a[2]);
        auto addr  = [&](const Val& v) {
            string k = "stream" + std::to_string(e.concretize(v));
            return e.s->env.count(k) ? e.s->env[k].i : 0;
        };
        auto &x = e.s->out[addr(a[0])], &y = e.s->out[addr(a[1])];
        z3::expr c = Z().bool_val(x.size() == y.size());
        for(size_t i = 0; i < x.size() && i < y.size(); i++) {
            if(x[i].kind == 0 || y[i].kind == 0) {
                c = c && Z().bool_val(x[i].kind == y[i].kind && x[i].c == y[i].c);
            } else if(x[i].kind == 3 || y[i].kind == 3) {
                if(x[i].kind != y[i].kind) c = Z().bool_val(false);
                else c = c && realx(x[i].v) == realx(y[i].v);
            } else {
                z3::expr p = bvx1(x[i].v), q = bvx1(y[i].v);
                unsigned wp = p.get_sort().bv_size(), wq = q.get_sort().bv_size();
                if(wp < wq) p = z3::zext(p, wq - wp);
                if(wq < wp) q = z3::zext(q, wp - wq);
                c = c && p == q;
            }
        }
        e.checkAssert(c, m);
        return true;
    });
    // ---- memory
    auto nw = [](const char* nm, int kind, bool zero) {
        string n = nm;
        return [n, kind, zero](Engine& e, DInst& d, vector<Val>& a) {
            if(a[0].k == V_SYM) {
                // refuse absurd sizes with a proper report
                z3::expr big = z3::ugt(bvx(a[0]), Z().bv_val((uint64_t)(1ull << 24), 64));
                if(e.feasible(big)) {
                    if(!e.branch(!big, [](State&) {}, [](State&) {}))
                        throw PathEnd{P_VIOL, "memory", "allocation of more than 16 MiB for small inputs"};
                }
            }
            uint64_t n2 = e.concretize(a[0]);
            e.set(d, mkInt(e.allocate(n2, kind, n, zero), 64));
            return true;
        };
    };
    U("_Znwm", nw("heap object (new)", 2, false));
    U("_Znam", nw("heap array (new[])", 3, false));
    U("_ZnwmRKSt9nothrow_t", nw("heap object (new)", 2, false));
    U("_ZnamRKSt9nothrow_t", nw("heap array (new[])", 3, false));
    U("_ZnwmSt11align_val_t", nw("heap object (new)", 2, false));
    U("malloc", nw("heap object (malloc)", 4, false));
    U("calloc", [](Engine& e, DInst& d, vector<Val>& a) {
        uint64_t n = e.concretize(a[0]) * e.concretize(a[1]);
        e.set(d, mkInt(e.allocate(n, 4, "calloc", true), 64));
        return true;
    });
    auto dl = [](int kind) {
        return [kind](Engine& e, DInst& d, vector<Val>& a) {
            e.freeObj(e.concretize(a[0]), kind);
            return true;
        };
    };
    U("_ZdlPv", dl(2));
    U("_ZdlPvm", dl(2));
    U("_ZdlPvRKSt9nothrow_t", dl(2));
    U("_ZdaPvRKSt9nothrow_t", dl(3));
    U("_ZdlPvSt11align_val_t", dl(2));
    U("_ZdlPvmSt11align_val_t", dl(2));
    U("_ZdaPv", dl(3));
    U("_ZdaPvm", dl(3));
    U("free", dl(4));
    auto mc = [](Engine& e, DInst& d, vector<Val>& a) {
        uint64_t n = e.concretize(a[2]);
        if(n) {
            uint64_t x = e.caddr(a[0]), y = e.caddr(a[1]);
            e.copyBytes(x, y, n);
        }
        e.set(d, a[0]);
        return true;
    };
    U("memcpy", mc);
    U("memmove", mc);
    U("memset", [](Engine& e, DInst& d, vector<Val>& a) {
        uint64_t n = e.concretize(a[2]);
        if(n) e.memsetv(e.caddr(a[0]), e.truncTo(a[1], 8), n);
        e.set(d, a[0]);
        return true;
    });
    auto mcmp = [](Engine& e, DInst& d, vector<Val>& a) {
        // returns -1/0/1 ; symbolic contents allowed
        uint64_t n = e.concretize(a[2]);
        z3::expr r = Z().bv_val(0, 32);
        if(n == 0) {
            e.set(d, mkInt(0, 32));
            return true;
        }
        uint64_t x = e.caddr(a[0]), y = e.caddr(a[1]);
        Type* b8   = Type::getInt8Ty(e.lctx);
        // reals: whole doubles compared by value when cells are real
        for(int64_t i = (int64_t)n - 1; i >= 0; i--) {
            Val p = e.loadTyped(x + i, b8), q = e.loadTyped(y + i, b8);
            if(p.k == V_UNDEF || q.k == V_UNDEF) throw PathEnd{P_VIOL, "uninit", "memcmp of uninitialised bytes"};
            z3::expr pp = bvx(p), qq = bvx(q);
            r = z3::ite(pp == qq, r, z3::ite(z3::ult(pp, qq), Z().bv_val(-1, 32), Z().bv_val(1, 32)));
        }
        e.set(d, mkSym(r.simplify()));
        return true;
    };
    U("memcmp", mcmp);
    U("bcmp", mcmp);
    // ---- runtime
    auto nop = [](Engine& e, DInst& d, vector<Val>& a) {
        if(d.dst >= 0) e.set(d, mkInt(0, d.w ? d.w : 64));
        return true;
    };
    for(const char* n : {"__cxa_atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZNSt8ios_baseC2Ev",
                         "_ZNSt8ios_baseD2Ev", "__cxa_end_catch", "_ZNSt6localeC1Ev", "_ZNSt6localeD1Ev",
                         "_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate",
                         "_ZNSt9basic_iosIcSt11char_traitsIcEE8setstateESt12_Ios_Iostate", "_ZNSo5flushEv",
                         "__kmpc_serialized_parallel", "__kmpc_end_serialized_parallel", "__kmpc_for_static_fini", "__kmpc_dispatch_fini_4",
                         "__kmpc_dispatch_fini_8", "__kmpc_dispatch_fini_4u", "__kmpc_dispatch_fini_8u", "__kmpc_flush",
                         "__kmpc_end_master", "__kmpc_end_masked", "__kmpc_end_single", "omp_set_dynamic", "omp_set_nested", "omp_set_schedule", "omp_set_max_active_levels", "__kmpc_push_proc_bind",
                         "puts", "putchar", "printf", "fprintf", "fflush", "usleep", "sched_yield"})
        U(n, nop);
    U("__cxa_guard_acquire", [](Engine& e, DInst& d, vector<Val>& a) {
        uint64_t g = e.caddr(a[0]);
        e.s->par.locked++;
        Obj* o = e.access(g, 1, false);
        e.s->par.locked--;
        e.set(d, mkInt(o->bytes[g - o->base] ? 0 : 1, 32));
        return true;
    });
    U("__cxa_guard_release", [](Engine& e, DInst& d, vector<Val>& a) {
        uint64_t g = e.caddr(a[0]);
        e.s->par.locked++;
        Obj* o = e.access(g, 1, true);
        e.s->par.locked--;
        o->bytes[g - o->base] = 1;
        o->init[g - o->base]  = 1;
        return true;
    });
    U("__assert_fail", [](Engine& e, DInst& d, vector<Val>& a) -> bool {
        throw PathEnd{P_VIOL, "assert_fail", "assertion in the code failed: " + e.cstr(a[0])};
    });
    U("_ZSt21__glibcxx_assert_failPKciS0_S0_", [](Engine& e, DInst& d, vector<Val>& a) -> bool {
        throw PathEnd{P_VIOL, "assert_fail", "assertion of the standard library failed: " + e.cstr(a[3])};
    });
    U("abort", [](Engine& e, DInst& d, vector<Val>& a) -> bool { throw PathEnd{P_VIOL, "trap", "abort called"}; });
    U("_ZSt9terminatev", [](Engine& e, DInst& d, vector<Val>& a) -> bool { throw PathEnd{P_VIOL, "trap", "std::terminate"}; });
    U("exit", [](Engine& e, DInst& d, vector<Val>& a) -> bool {
        if(e.s->opts["throws"]) throw PathEnd{P_OK, "", ""};
        throw PathEnd{P_VIOL, "trap", "exit called"};
    });
    U("getenv", [](Engine& e, DInst& d, vector<Val>& a) -> bool {
        // environment variables may be unset or hold an arbitrary short string
        string n = "getenv:" + e.cstr(a[0]);
        z3::expr v(Z().bool_const(n.c_str()));
        bool have = false;
        for(auto& in : e.s->inputs)
            if(in.name == n) have = true;
        if(!have) {
            e.regVar(v);
            e.s->inputs.push_back({n, 'b', E(v)});
        }
        Val vv;
        vv.k = V_SYM;
        vv.w = 1;
        vv.e = E(v);
        if(!e.concretize(vv)) {
            e.set(d, mkInt(0, 64));
            return true;
        }
        uint64_t m = e.allocate(6, 0, n, true);
        Obj* o     = e.access(m, 6, true);
        memcpy(&o->bytes[0], "value", 5);
        e.set(d, mkInt(m, 64));
        return true;
    });
    U("gethostname", [](Engine& e, DInst& d, vector<Val>& a) -> bool {
        // the buffer may be filled completely without terminator
        uint64_t n = e.concretize(a[1]);
        e.memsetv(e.caddr(a[0]), mkInt('h', 8), n);
        e.set(d, mkInt(0, 32));
        return true;
    });
    // ---- libm
    for(const char* n : {"sin", "cos", "tan", "exp", "log", "sqrt", "pow", "hypot", "atan2", "acos", "asin", "atan", "fmod",
                         "fmax", "fmin", "log10", "log2", "cbrt", "fdim", "remainder"}) {
        string nm = n;
        U(nm, [nm](Engine& e, DInst& d, vector<Val>& a) {
            e.set(d, e.libm(nm, a));
            return true;
        });
        U(nm + "f", [nm](Engine& e, DInst& d, vector<Val>& a) {
            e.set(d, e.narrowToFloat(e.libm(nm, a)));
            return true;
        });
    }
    for(const char* n : {"floor", "ceil", "round", "trunc", "rint", "nearbyint"}) {
        string nm = n;
        U(nm, [nm](Engine& e, DInst& d, vector<Val>& a) {
            e.set(d, e.roundlike(nm, a[0]));
            return true;
        });
    }
    for(const char* n : {"lround", "llround"})
        U(n, [](Engine& e, DInst& d, vector<Val>& a) {
            e.set(d, e.f2i(e.roundlike("round", a[0]), true, d.w));
            return true;
        });
    for(const char* n : {"lrint", "llrint"})
        U(n, [](Engine& e, DInst& d, vector<Val>& a) {
            e.set(d, e.f2i(e.roundlike("rint", a[0]), true, d.w));
            return true;
        });
    U("fabs", [](Engine& e, DInst& d, vector<Val>& a) {
        e.set(d, e.fabsv(a[0]));
        return true;
    });
    U("sincos", [](Engine& e, DInst& d, vector<Val>& a) {
        Type* t = Type::getDoubleTy(e.lctx);
        e.storeTyped(e.caddr(a[1]), t, e.libm("sin", {a[0]}));
        e.storeTyped(e.caddr(a[2]), t, e.libm("cos", {a[0]}));
        return true;
    });
    // complex multiplication/division fall-backs of the compiler runtime
    U("__muldc3", [](Engine& e, DInst& d, vector<Val>& a) {
        auto mul = [&](const Val& x, const Val& y) { return e.fbin(Instruction::FMul, x, y); };
        Val r    = e.fbin(Instruction::FSub, mul(a[0], a[2]), mul(a[1], a[3]));
        Val i    = e.fbin(Instruction::FAdd, mul(a[0], a[3]), mul(a[1], a[2]));
        Val g;
        g.k   = V_AGG;
        g.agg = std::make_shared<vector<Val>>(vector<Val>{r, i});
        e.set(d, g);
        return true;
    });
    U("__divdc3", [](Engine& e, DInst& d, vector<Val>& a) {
        auto mul = [&](const Val& x, const Val& y) { return e.fbin(Instruction::FMul, x, y); };
        Val n    = e.fbin(Instruction::FAdd, mul(a[2], a[2]), mul(a[3], a[3]));
        Val r    = e.fbin(Instruction::FAdd, mul(a[0], a[2]), mul(a[1], a[3]));
        Val i    = e.fbin(Instruction::FSub, mul(a[1], a[2]), mul(a[0], a[3]));
        Val g;
        g.k   = V_AGG;
        g.agg = std::make_shared<vector<Val>>(vector<Val>{e.fbin(Instruction::FDiv, r, n), e.fbin(Instruction::FDiv, i, n)});
        e.set(d, g);
        return true;
    });
    // cabs
    U("cabs", [](Engine& e, DInst& d, vector<Val>& a) {
        e.set(d, e.libm("hypot", a));
        return true;
    });
    // ---- OpenMP
    U("__kmpc_global_thread_num", [](Engine& e, DInst& d, vector<Val>& a) {
        e.set(d, mkInt(e.s->par.active ? e.s->par.tid : 0, 32));
        return true;
    });
    U("omp_get_thread_num", [](Engine& e, DInst& d, vector<Val>& a) {
        e.set(d, mkInt(e.s->par.active ? e.s->par.tid : 0, 32));
        return true;
    });
    U("omp_get_num_threads", [](Engine& e, DInst& d, vector<Val>& a) {
        e.set(d, mkInt(e.s->par.active ? e.s->par.T : 1, 32));
        return true;
    });
    U("omp_get_max_threads", [](Engine& e, DInst& d, vector<Val>& a) {
        e.set(d, mkInt(e.s->omp_set ? e.s->omp_set : g_threads, 32));
        return true;
    });
    U("__kmpc_push_num_threads", [](Engine& e, DInst& d, vector<Val>& a) {
        e.s->omp_push = std::max<int>(1, int(e.concretize(a[2])));
        return true;
    });
    U("omp_set_num_threads", [](Engine& e, DInst& d, vector<Val>& a) {
        e.s->omp_set = std::max<int>(1, int(e.concretize(a[0])));
        return true;
    });
    // neither the number of processors nor anything else here bounds the number of threads
    for(auto& p : vector<pair<string, int>>{{"omp_get_num_procs", 1}, {"omp_get_num_devices", 0}, {"omp_get_dynamic", 0}, {"omp_get_nested", 0},
                                            {"omp_get_max_active_levels", 1}, {"omp_get_thread_limit", 2147483647}, {"omp_get_num_teams", 1},
                                            {"omp_get_team_num", 0}}) {
        const int v = p.second;
        U(p.first, [v](Engine& e, DInst& d, vector<Val>& a) {
            e.set(d, mkInt(uint32_t(v), 32));
            return true;
        });
    }
    for(const char* n : {"omp_get_level", "omp_get_active_level"})
        U(n, [](Engine& e, DInst& d, vector<Val>& a) {
            e.set(d, mkInt(e.s->par.active ? 1 : 0, 32));
            return true;
        });
    U("omp_in_parallel", [](Engine& e, DInst& d, vector<Val>& a) {
        e.set(d, mkInt(e.s->par.active, 32));
        return true;
    });
    U("__kmpc_barrier", [](Engine& e, DInst& d, vector<Val>& a) {
        if(!e.s->par.active) return true;
        if(d.op == Instruction::Invoke)
            e.jump(*e.s, d.succ[0]);
        else
            e.fr().ip++;
        e.parBarrier();
        return false;
    });
    U("__kmpc_fork_call", [](Engine& e, DInst& d, vector<Val>& a) {
        uint64_t f = e.concretize(a[2]);
        auto it    = e.faddr.find(f);
        if(it == e.faddr.end()) unsup("fork_call target");
        vector<Val> args(a.begin() + 3, a.end());
        bool nested = e.s->par.active;
        e.parStart(e.decode(it->second), args);
        (void)nested;
        return false;
    });
    for(auto& p : vector<pair<string, unsigned>>{{"4", 4}, {"4u", 4}, {"8", 8}, {"8u", 8}}) {
        unsigned b = p.second;
        bool sg    = p.first.back() != 'u';
        U("__kmpc_for_static_init_" + p.first, [b](Engine& e, DInst& d, vector<Val>& a) { return e.ompStaticInit(a, b); });
        U("__kmpc_dispatch_init_" + p.first, [b](Engine& e, DInst& d, vector<Val>& a) {
            Par& q = e.s->par;
            uint64_t lb = e.concretize(a[3]), ub = e.concretize(a[4]), st = e.concretize(a[5]);
            q.dispatch[0] = {lb, ub, st};
            q.dispatch_done[0] = 0;
            return true;
        });
        U("__kmpc_dispatch_next_" + p.first, [b, sg](Engine& e, DInst& d, vector<Val>& a) {
            Par& q = e.s->par;
            if(q.dispatch_done[0]) {
                e.set(d, mkInt(0, 32));
                return true;
            }
            // every thread takes one contiguous share (chosen like a static split)
            Type* t   = Type::getIntNTy(e.lctx, b * 8);
            uint64_t plast = e.caddr(a[2]), plo = e.caddr(a[3]), pup = e.caddr(a[4]), pst = e.caddr(a[5]);
            auto r    = q.dispatch[0];
            if(sg ? (int64_t)r[0] > (int64_t)r[1] : r[0] > r[1]) {
                q.dispatch_done[0] = 1;
                e.set(d, mkInt(0, 32));
                return true;
            }
            e.storeTyped(plo, t, mkInt(r[0], b * 8));
            e.storeTyped(pup, t, mkInt(r[1], b * 8));
            e.storeTyped(pst, t, mkInt(r[2], b * 8));
            vector<Val> sa{a[0], a[1], mkInt(34, 32), a[2], a[3], a[4], a[5], mkInt(r[2], b * 8), mkInt(1, b * 8)};
            (void)plast;
            e.ompStaticInit(sa, b);
            e.s->par.dispatch_done[0] = 1;
            uint64_t lo = e.concretize(e.loadTyped(plo, t)), up = e.concretize(e.loadTyped(pup, t));
            bool empty  = sg ? sextw(lo, b * 8) > sextw(up, b * 8) : lo > up;
            e.set(d, mkInt(empty ? 0 : 1, 32));
            return true;
        });
    }
    auto lock = [](int dl, bool ret) {
        return [dl, ret](Engine& e, DInst& d, vector<Val>& a) {
            e.s->par.locked += dl;
            if(ret) e.set(d, mkInt(1, 32));
            return true;
        };
    };
    U("__kmpc_critical", lock(1, false));
    U("__kmpc_critical_with_hint", lock(1, false));
    U("__kmpc_end_critical", lock(-1, false));
    U("__kmpc_reduce", lock(1, true));
    U("__kmpc_reduce_nowait", lock(1, true));
    U("__kmpc_end_reduce", lock(-1, false));
    U("__kmpc_end_reduce_nowait", lock(-1, false));
    U("__kmpc_ordered", lock(1, false));
    U("__kmpc_end_ordered", lock(-1, false));
    U("omp_set_lock", lock(1, false));
    U("omp_unset_lock", lock(-1, false));
    U("__kmpc_atomic_start", lock(1, false));
    U("__kmpc_atomic_end", lock(-1, false));
    auto first = [](Engine& e, DInst& d, vector<Val>& a) {
        e.set(d, mkInt(!e.s->par.active || e.s->par.tid == 0, 32));
        return true;
    };
    U("__kmpc_master", first);
    U("__kmpc_masked", first);
    U("__kmpc_single", first);
    // ---- streams: output is recorded as a sequence of characters and numbers
    auto ins = [](Engine& e, DInst& d, vector<Val>& a) {  // __ostream_insert(os, s, n)
        uint64_t n = e.concretize(a[2]), p = e.caddr(a[1]), os = e.caddr(a[0]);
        for(uint64_t i = 0; i < n; i++) {
            Val c = e.loadTyped(p + i, Type::getInt8Ty(e.lctx));
            if(c.k == V_INT)
                e.s->out[os].push_back({0, c.i, Val()});
            else if(c.k == V_UNDEF)
                throw PathEnd{P_VIOL, "uninit", "uninitialised characters printed"};
            else
                e.putSym(os, c);
        }
        if(d.dst >= 0) e.set(d, a[0]);
        return true;
    };
    U("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l", ins);
    U("_ZNSo5writeEPKcl", ins);
    U("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc", [](Engine& e, DInst& d, vector<Val>& a) {
        e.emitStr(e.caddr(a[0]), e.cstr(a[1]));
        e.set(d, a[0]);
        return true;
    });
    auto putc = [](Engine& e, DInst& d, vector<Val>& a) {
        uint64_t os = e.caddr(a[0]);
        if(a[1].k == V_INT) e.s->out[os].push_back({0, a[1].i & 0xff, Val()});
        else if(a[1].k == V_UNDEF) throw PathEnd{P_VIOL, "uninit", "uninitialised character printed"};
        else e.putSym(os, a[1]);
        e.set(d, a[0]);
        return true;
    };
    U("_ZNSo3putEc", putc);
    U("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c", putc);
    auto num = [](int kind) {
        return [kind](Engine& e, DInst& d, vector<Val>& a) {
            e.emitNum(e.caddr(a[0]), a[1], kind);
            e.set(d, a[0]);
            return true;
        };
    };
    for(const char* n : {"_ZNSolsEm", "_ZNSolsEj", "_ZNSolsEt", "_ZNSolsEy", "_ZNSolsEb", "_ZNSo9_M_insertImEERSoT_",
                         "_ZNSo9_M_insertIyEERSoT_", "_ZNSo9_M_insertIbEERSoT_"})
        U(n, num(1));
    for(const char* n : {"_ZNSolsEl", "_ZNSolsEi", "_ZNSolsEs", "_ZNSolsEx", "_ZNSo9_M_insertIlEERSoT_", "_ZNSo9_M_insertIxEERSoT_"})
        U(n, num(2));
    for(const char* n : {"_ZNSolsEd", "_ZNSolsEf", "_ZNSo9_M_insertIdEERSoT_"}) U(n, num(3));
    // string streams (see shim/sstream): the printed text, with one character standing for each symbolic number
    for(const char* n : {"_ZNSt8ios_baseC2Ev", "_ZNSt8ios_baseC1Ev", "_ZNSt8ios_baseD2Ev", "_ZNSt8ios_baseD1Ev",
                         "_ZNSt9basic_iosIcSt11char_traitsIcEE4initEPSt15basic_streambufIcS1_E"})
        U(n, [](Engine& e, DInst& d, vector<Val>& a) { return true; });
    U("vp_text_init", [](Engine& e, DInst& d, vector<Val>& a) {
        uint64_t os = e.caddr(a[0]);
        e.s->out[os].clear();
        Obj* o = e.access(os, 264, true);
        e.storeScalar(o, os - o->base + 8 + 240, 8, mkInt(e.makeCtype("string stream"), 64));
        o = e.access(os, 264, true);
        for(uint64_t k = 16; k < 240; k += 8) e.storeScalar(o, os - o->base + 8 + k, 8, mkInt(0, 64));
        e.storeScalar(o, os - o->base + 8 + 8, 8, mkInt(6, 64));
        return true;
    });
    U("vp_text_size", [](Engine& e, DInst& d, vector<Val>& a) {
        e.set(d, mkInt(e.s->out[e.caddr(a[0])].size(), 64));
        return true;
    });
    U("vp_text_char", [](Engine& e, DInst& d, vector<Val>& a) {
        OutTok& t = e.s->out[e.caddr(a[0])][e.concretize(a[1])];
        if(t.kind == 0) e.set(d, mkInt(t.c, 8));
        else if(t.kind == 1 && t.v.w == 8) e.set(d, t.v);
        else {
            z3::expr tok = e.freshBV(8, "text");
            g_text[Z3_get_ast_id(Z(), tok)] = {E(tok), t};
            e.set(d, mkSym(tok));
        }
        return true;
    });
    U("_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_", [](Engine& e, DInst& d, vector<Val>& a) {
        e.emitStr(e.caddr(a[0]), "\n");
        e.set(d, a[0]);
        return true;
    });
    U("_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_", [](Engine& e, DInst& d, vector<Val>& a) {
        e.set(d, a[0]);
        return true;
    });
}

// returns true when handled and control should proceed
bool external(DInst& d, Function* F, vector<Val>& a)
{
    string n = F->getName().str();
    if(s->opts["throws"] && (n.find("__throw_") != string::npos || n == "__cxa_throw")) throw PathEnd{P_OK, "", ""};
    if(n.find("__throw_") != string::npos)
        throw PathEnd{P_VIOL, "exception", "exception thrown: " + llvm::demangle(n)};
    if(n == "__cxa_throw" || n == "__cxa_rethrow" || n == "_Unwind_Resume" || n == "__cxa_bad_cast")
        throw PathEnd{P_VIOL, "exception", "exception thrown"};
    if(n == "__cxa_allocate_exception") {
        set(d, mkInt(allocate(concretize(a[0]), 0, "exception", true), 64));
        return true;
    }
    if(n == "__clang_call_terminate") throw PathEnd{P_VIOL, "trap", "std::terminate"};
    if(n.find("_ZNSt13runtime_error") == 0 || n.find("_ZNSt11logic_error") == 0 || n.find("_ZNSt16invalid_argument") == 0 ||
       n.find("_ZNSt12out_of_range") == 0 || n.find("_ZNSt9exception") == 0) {
        return true;
    }
    unsup("call of external function " + llvm::demangle(n));
}
