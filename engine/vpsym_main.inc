// -*- c++ -*-
static string jesc(const string& x)
{
    string r = "\"";
    for(unsigned char c : x) {
        if(c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if(c < 32) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else
            r += c;
    }
    return r + "\"";
}

static bool load_modules(Engine& e, const vector<string>& files)
{
    SMDiagnostic err;
    for(auto& f : files) {
        auto m = parseIRFile(f, err, e.lctx);
        if(!m) {
            fprintf(stderr, "cannot read %s: %s\n", f.c_str(), err.getMessage().str().c_str());
            return false;
        }
        if(!e.M)
            e.M = std::move(m);
        else if(Linker::linkModules(*e.M, std::move(m)))
            return false;
    }
    e.DL = &e.M->getDataLayout();
    return true;
}

static string obsText(Engine& e, const Val& v, bool& ok)
{
    char b[64];
    if(v.k == V_INT) return std::to_string(v.i);
    if(v.k == V_FP) {
        snprintf(b, sizeof b, "%a", v.d);
        return b;
    }
    if(v.k == V_SYM) {
        z3::expr x = e.evalA(bvx1(v));
        uint64_t u = 0;
        if(!Z3_get_numeral_uint64(Z(), x, &u)) ok = false;
        return std::to_string(u);
    }
    if(v.k == V_REAL) return Engine::realText(e.evalA(v.e.x()));
    if(v.k == V_IEEE) {
        Input in{"", 'f', v.e};
        return e.valText(in);
    }
    ok = false;
    return "?";
}

int main(int argc, char** argv)
{
    vector<string> files;
    string entry, out, trace, pre;
    string pre_state = "none";
    for(int i = 1; i < argc; i++) {
        string a = argv[i];
        auto val = [&](const char* p) -> const char* {
            size_t n = strlen(p);
            return a.compare(0, n, p) == 0 ? a.c_str() + n : nullptr;
        };
        const char* v;
        if((v = val("--entry=")))
            entry = v;
        else if((v = val("--out=")))
            out = v;
        else if((v = val("--fp=")))
            g_fp = !strcmp(v, "exact") ? FP_EXACT : !strcmp(v, "err") ? FP_ERR : FP_IEEE;
        else if((v = val("--time=")))
            g_timeout = atof(v);
        else if((v = val("--qtime=")))
            g_qtimeout = atoi(v);
        else if((v = val("--maxinstr=")))
            g_maxinstr = strtoull(v, nullptr, 10);
        else if((v = val("--threads=")))
            g_threads = atoi(v);
        else if((v = val("--seed=")))
            g_seed = strtoull(v, nullptr, 10);
        else if((v = val("--wit=")))
            g_maxwit = atoi(v);
        else if((v = val("--pre="))) {
            std::stringstream ss(v);
            string t;
            std::getline(ss, pre, ':');
            while(std::getline(ss, t, ',')) g_preargs.push_back(strtoull(t.c_str(), nullptr, 10));
        } else if((v = val("--args="))) {
            std::stringstream ss(v);
            string t;
            while(std::getline(ss, t, ',')) g_args.push_back(strtoull(t.c_str(), nullptr, 10));
        } else
            files.push_back(a);
    }
    Engine e;
    if(!load_modules(e, files)) return 3;
    e.setupExternals();
    SP st = std::make_shared<State>();
    e.s   = st.get();
    string fatal;
    try {
        uint64_t ga = 0x10000000, fa = 0x1000;
        for(auto& F : *e.M) {
            e.gaddr[&F] = fa;
            e.faddr[fa] = &F;
            fa += 16;
        }
        vector<std::pair<GlobalVariable*, shared_ptr<Obj>>> gl;
        for(auto& G : e.M->globals()) {
            auto o   = std::make_shared<Obj>();
            o->base  = ga;
            o->size  = G.hasInitializer() ? (uint64_t)e.DL->getTypeAllocSize(G.getValueType()) : 512;
            o->kind  = 0;
            o->name  = "global " + llvm::demangle(G.getName().str());
            o->ro    = G.isConstant() && G.hasInitializer();
            o->bytes.resize(o->size);
            o->init.resize(o->size, 1);
            e.gaddr[&G] = ga;
            ga += ((o->size + 63) & ~63ull) + 128;
            gl.push_back({&G, o});
        }
        for(auto& p : gl) {
            if(p.first->hasInitializer()) {
                try {
                    e.store_const(*p.second, 0, p.first->getInitializer());
                } catch(PathEnd& pe) {
                    // tables that the harness does not use (e.g. type information)
                }
            }
            if(p.second->ro)
                e.ro[p.second->base] = p.second;
            else
                st->mem[p.second->base] = p.second;
        }
        for(const char* n : {"_ZSt4cout", "_ZSt4cerr", "_ZSt4clog"})
            if(auto* g = e.M->getNamedGlobal(n)) e.makeStream(n, e.gaddr[g]);
        // global constructors
        if(auto* g = e.M->getNamedGlobal("llvm.global_ctors"))
            if(g->hasInitializer())
                if(auto* arr = dyn_cast<ConstantArray>(g->getInitializer()))
                    for(auto& op : arr->operands()) {
                        auto* f = dyn_cast<Function>(cast<ConstantStruct>(op)->getOperand(1)->stripPointerCasts());
                        if(!f || f->isDeclaration()) continue;
                        e.pushFrame(e.decode(f), {}, -3, -1);
                        try {
                            while(true) e.step();
                        } catch(PathEnd& pe) {
                            if(pe.kind != P_OK) throw;
                        }
                    }
        Function* F = e.M->getFunction(entry);
        if(!F || F->isDeclaration()) {
            fprintf(stderr, "no entry %s\n", entry.c_str());
            return 3;
        }
        if(!pre.empty()) {
            Function* P = e.M->getFunction(pre);
            if(!P || P->isDeclaration()) {
                fprintf(stderr, "no entry %s\n", pre.c_str());
                return 3;
            }
            e.pushFrame(e.decode(P), {}, -3, -1);
            g_pre = true;
            auto fp = g_fp;
            if(g_fp == FP_ERR) g_fp = FP_EXACT;
            try {
                while(true) e.step();
            } catch(PathEnd& pe) {
                pre_state = pe.kind == P_OK ? "completed" : pe.kind == P_INFEASIBLE ? "assumption failed" : "stopped: " + pe.msg;
            }
            g_pre = false;
            g_fp  = fp;
            st->st.clear();
            st->out.clear();
            st->obs.clear();
            st->opts.clear();
            st->asserts = 0;
            if(!e.work.empty() || !st->inputs.empty() || !st->pc.empty() || !st->ufs.empty()) {
                fatal = "the run before was not concrete";
                e.work.clear();
            }
            for(auto it = st->env.begin(); it != st->env.end();)
                if(it->first.compare(0, 6, "stream") == 0) it = st->env.erase(it);
                else ++it;
        }
        st->instrs = 0;
        e.pushFrame(e.decode(F), {}, -1, -1);
        e.work.push_back(st);
    } catch(PathEnd& pe) {
        fatal = pe.msg;
    }
    uint64_t paths = 0;
    bool timeout   = false;
    while(!e.work.empty() && fatal.empty()) {
        e.cur = e.work.back();
        e.work.pop_back();
        e.s = e.cur.get();
        paths++;
        try {
            uint64_t cnt = 0;
            while(true) {
                e.step();
                if((++cnt & 0xff) == 0 && secs_since(e.t0) > g_timeout) {
                    timeout = true;
                    break;
                }
            }
        } catch(PathEnd& pe) {
            switch(pe.kind) {
                case P_OK: {
                    S.completed++;
                    g_wit_seen++;
                    // keep the first few and a deterministic sample of the rest
                    bool keep = g_wit.size() < g_maxwit;
                    size_t slot = g_wit.size();
                    if(!keep && g_maxwit) {
                        uint64_t h = (g_wit_seen * 0x9E3779B97F4A7C15ull + g_seed * 0xD1B54A32D192ED03ull) >> 20;
                        if(h % g_wit_seen < g_maxwit) {
                            keep = true;
                            slot = h % g_maxwit;
                        }
                    }
                    if(keep) {
                        Witness w;
                        bool ok = true;
                        for(auto& in : e.s->inputs) w.inputs.push_back({in.name, e.valText(in)});
                        for(auto& o : e.s->obs) {
                            try {
                                w.obs.push_back({o.name, obsText(e, o.v, ok)});
                            } catch(PathEnd&) {
                                ok = false;
                            }
                        }
                        w.asserts = e.s->asserts;
                        if(ok) {
                            if(slot >= g_wit.size())
                                g_wit.push_back(w);
                            else
                                g_wit[slot] = w;
                        }
                    }
                    break;
                }
                case P_INFEASIBLE: S.killed_infeasible++; break;
                case P_VIOL: {
                    // the path condition holds under the assignment by construction
                    e.report(pe.vkind, pe.msg);
                    break;
                }
                case P_UNSUP:
                    if(g_unsup.size() < 10) g_unsup.push_back(pe.msg + " at " + e.where());
                    break;
                case P_LIMIT: g_incomplete[pe.msg]++; break;
                case P_STOP: S.stopped++; break;
            }
        } catch(z3::exception& ex) {
            if(g_unsup.size() < 10) g_unsup.push_back(string("z3: ") + ex.msg() + " at " + e.where());
        }
        e.cur.reset();
        if(g_viol.size() >= g_maxviol) break;
        if(timeout || secs_since(e.t0) > g_timeout) {
            g_incomplete["time limit"]++;
            break;
        }
        if(g_unsup.size() >= 10) break;
        if(paths > g_maxpaths) {
            g_incomplete["path limit"]++;
            break;
        }
    }
    // ---- report
    std::ostringstream o;
    o << "{\n\"entry\": " << jesc(entry) << ", \"pre\": " << jesc(pre_state) << ", \"args\": [";
    for(size_t i = 0; i < g_args.size(); i++) o << (i ? "," : "") << g_args[i];
    o << "],\n\"fatal\": " << jesc(fatal) << ", \"paths\": " << paths << ", \"completed\": " << S.completed
      << ", \"stopped\": " << S.stopped << ", \"infeasible\": " << S.killed_infeasible << ", \"forks\": " << S.forks << ", \"instructions\": " << S.instrs
      << ", \"queries\": " << S.queries << ", \"q_sat\": " << S.q_sat << ", \"narrowed\": " << S.narrowed << ", \"q_unsat\": " << S.q_unsat
      << ", \"q_unknown\": " << S.q_unknown << ", \"cache_hits\": " << S.cache_hits << ", \"int_queries\": " << S.int_queries<< ", \"solver_s\": " << S.solver_s
      << ", \"asserts\": " << S.asserts << ", \"asserts_proved\": " << S.asserts_proved << ", \"asserts_trivial\": "
      << S.asserts_trivial << ", \"mem_checks\": " << S.oblig_mem << ", \"max_depth\": " << S.max_depth << ", \"left\": " << e.work.size()
      << ", \"wall_s\": " << secs_since(e.t0) << ",\n\"assert_stats\": {";
    bool first = true;
    for(auto& kv : g_asserts) {
        o << (first ? "" : ",\n ") << jesc(kv.first) << ": [" << kv.second.checked << "," << kv.second.proved << ","
          << kv.second.trivial << "," << kv.second.failed << "," << kv.second.unknown << "]";
        first = false;
    }
    o << "},\n\"reached\": [";
    first = true;
    for(auto& r : g_reached) {
        o << (first ? "" : ", ") << jesc(r);
        first = false;
    }
    o << "],\n\"functions\": [";
    first = true;
    for(auto& r : g_functions) {
        o << (first ? "" : ",\n ") << jesc(r);
        first = false;
    }
    o << "],\n\"lines\": " << g_lines.size() << ",\n\"unsupported\": [";
    first = true;
    for(auto& r : g_unsup) {
        o << (first ? "" : ",\n ") << jesc(r);
        first = false;
    }
    o << "],\n\"incomplete\": {";
    first = true;
    for(auto& r : g_incomplete) {
        o << (first ? "" : ",\n ") << jesc(r.first) << ": " << r.second;
        first = false;
    }
    o << "},\n\"violations\": [";
    first = true;
    for(auto& v : g_viol) {
        o << (first ? "" : ",\n ") << "{\"kind\": " << jesc(v.kind) << ", \"msg\": " << jesc(v.msg) << ", \"stack\": " << jesc(v.stack)
          << ", \"inputs\": [";
        for(size_t i = 0; i < v.inputs.size(); i++)
            o << (i ? ", " : "") << "[" << jesc(v.inputs[i].first) << ", " << jesc(v.inputs[i].second) << "]";
        o << "]}";
        first = false;
    }
    o << "],\n\"witnesses\": [";
    first = true;
    for(auto& v : g_wit) {
        o << (first ? "" : ",\n ") << "{\"asserts\": " << v.asserts << ", \"inputs\": [";
        for(size_t i = 0; i < v.inputs.size(); i++)
            o << (i ? ", " : "") << "[" << jesc(v.inputs[i].first) << ", " << jesc(v.inputs[i].second) << "]";
        o << "], \"obs\": [";
        for(size_t i = 0; i < v.obs.size(); i++)
            o << (i ? ", " : "") << "[" << jesc(v.obs[i].first) << ", " << jesc(v.obs[i].second) << "]";
        o << "]}";
        first = false;
    }
    o << "]\n}\n";
    if(out.empty())
        fputs(o.str().c_str(), stdout);
    else {
        std::ofstream f(out);
        f << o.str();
    }
    return 0;
}
