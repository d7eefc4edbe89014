// -*- c++ -*-   execution core of vpsym
struct Engine {
    LLVMContext lctx;
    std::unique_ptr<Module> M;
    const DataLayout* DL = nullptr;
    map<const GlobalValue*, uint64_t> gaddr;
    map<uint64_t, Function*> faddr;
    map<uint64_t, shared_ptr<Obj>> ro;  // read-only globals, shared by all states
    std::unordered_map<Function*, std::unique_ptr<DFunc>> dfuncs;
    vector<SP> work;
    Clock::time_point t0 = Clock::now();
    SP cur;
    State* s = nullptr;
    bool trace = false;
    typedef std::function<bool(Engine&, DInst&, vector<Val>&)> Handler;  // false: not handled
    std::unordered_map<string, Handler> ext;

    // ---- decode ---------------------------------------------------------------------------
    void store_const(Obj& o, uint64_t off, const Constant* c)
    {
        Type* t = c->getType();
        if(isa<UndefValue>(c)) {
            uint64_t n = DL->getTypeStoreSize(t);
            for(uint64_t i = 0; i < n; i++) o.init[off + i] = 1;  // globals: zero
            return;
        }
        if(c->isNullValue()) {
            uint64_t n = DL->getTypeAllocSize(t);
            for(uint64_t i = 0; i < n && off + i < o.size; i++) {
                o.bytes[off + i] = 0;
                o.init[off + i]  = 1;
            }
            return;
        }
        if(auto* st = dyn_cast<StructType>(t)) {
            auto* sl = DL->getStructLayout(st);
            for(unsigned i = 0; i < st->getNumElements(); i++)
                store_const(o, off + sl->getElementOffset(i), c->getAggregateElement(i));
            return;
        }
        if(auto* at = dyn_cast<ArrayType>(t)) {
            uint64_t es = DL->getTypeAllocSize(at->getElementType());
            for(unsigned i = 0; i < at->getNumElements(); i++)
                store_const(o, off + i * es, c->getAggregateElement(i));
            return;
        }
        if(auto* vt = dyn_cast<FixedVectorType>(t)) {
            uint64_t es = DL->getTypeAllocSize(vt->getElementType());
            for(unsigned i = 0; i < vt->getNumElements(); i++)
                store_const(o, off + i * es, c->getAggregateElement(i));
            return;
        }
        Val v      = constVal(c);
        uint64_t n = DL->getTypeStoreSize(t);
        uint64_t b = v.i;
        if(v.k == V_FP) b = fpbits(v);
        if(v.k == V_UNDEF) b = 0;
        if(v.k == V_SYM) {
            string d = v.e.x().to_string();
            unsup("wide constant " + d);
        }
        for(uint64_t i = 0; i < n; i++) {
            o.bytes[off + i] = (uint8_t)(b >> (8 * i));
            o.init[off + i]  = 1;
        }
    }

    static uint64_t fpbits(const Val& v)
    {
        if(v.w == 32) {
            float f = (float)v.d;
            uint32_t u;
            memcpy(&u, &f, 4);
            return u;
        }
        uint64_t u;
        memcpy(&u, &v.d, 8);
        return u;
    }

    Val constVal(const Constant* c)
    {
        Type* t = c->getType();
        if(auto* ci = dyn_cast<ConstantInt>(c)) {
            unsigned w = ci->getBitWidth();
            if(w <= 64) return mkInt(ci->getZExtValue(), w);
            SmallString<64> str;
            ci->getValue().toStringUnsigned(str);
            Val r;
            r.k = V_SYM;
            r.w = w;
            r.e = E(Z().bv_val(string(str.str()).c_str(), w));
            return r;
        }
        if(auto* cf = dyn_cast<ConstantFP>(c)) {
            if(t->isFloatTy()) return mkFP(cf->getValueAPF().convertToFloat(), 32);
            if(t->isDoubleTy()) return mkFP(cf->getValueAPF().convertToDouble(), 64);
            return mkUndef(80);
        }
        if(isa<ConstantPointerNull>(c)) return mkInt(0, 64);
        if(isa<UndefValue>(c)) {
            if(t->isAggregateType() || t->isVectorTy()) return undefOf(t);
            return mkUndef(widthOf(t));
        }
        if(auto* gv = dyn_cast<GlobalValue>(c)) {
            const GlobalValue* g = gv;
            if(auto* ga = dyn_cast<GlobalAlias>(gv)) g = ga->getAliaseeObject();
            auto it = gaddr.find(g);
            if(it == gaddr.end()) unsup("address of unknown global " + gv->getName().str());
            return mkInt(it->second, 64);
        }
        if(auto* ce = dyn_cast<ConstantExpr>(c)) {
            switch(ce->getOpcode()) {
                case Instruction::GetElementPtr: {
                    auto* g = cast<GEPOperator>(ce);
                    APInt off(64, 0);
                    if(!g->accumulateConstantOffset(*DL, off)) unsup("constant gep");
                    Val b = constVal(cast<Constant>(g->getPointerOperand()));
                    return mkInt(b.i + off.getSExtValue(), 64);
                }
                case Instruction::BitCast:
                case Instruction::IntToPtr:
                case Instruction::PtrToInt:
                case Instruction::AddrSpaceCast: {
                    Val b = constVal(ce->getOperand(0));
                    b     = mkInt(b.i, widthOf(t));
                    return b;
                }
                case Instruction::Trunc: {
                    Val b = constVal(ce->getOperand(0));
                    return mkInt(b.i, widthOf(t));
                }
                case Instruction::Add: {
                    Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1));
                    return mkInt(a.i + b.i, a.w);
                }
                case Instruction::Sub: {
                    Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1));
                    return mkInt(a.i - b.i, a.w);
                }
                default: unsup("constant expression");
            }
        }
        if(t->isAggregateType() || t->isVectorTy()) {
            Val r;
            r.k        = V_AGG;
            r.agg      = std::make_shared<vector<Val>>();
            unsigned n = t->isStructTy()  ? t->getStructNumElements()
                         : t->isArrayTy() ? (unsigned)t->getArrayNumElements()
                                          : cast<FixedVectorType>(t)->getNumElements();
            for(unsigned i = 0; i < n; i++) r.agg->push_back(constVal(c->getAggregateElement(i)));
            return r;
        }
        unsup("constant");
    }

    unsigned widthOf(Type* t)
    {
        if(t->isIntegerTy()) return t->getIntegerBitWidth();
        if(t->isPointerTy()) return 64;
        if(t->isFloatTy()) return 32;
        if(t->isDoubleTy()) return 64;
        if(t->isX86_FP80Ty()) return 80;
        return 0;
    }
    Val undefOf(Type* t)
    {
        if(t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
            Val r;
            r.k        = V_AGG;
            r.agg      = std::make_shared<vector<Val>>();
            unsigned n = t->isStructTy()  ? t->getStructNumElements()
                         : t->isArrayTy() ? (unsigned)t->getArrayNumElements()
                                          : cast<FixedVectorType>(t)->getNumElements();
            for(unsigned i = 0; i < n; i++)
                r.agg->push_back(undefOf(t->isStructTy()  ? t->getStructElementType(i)
                                         : t->isArrayTy() ? t->getArrayElementType()
                                                          : t->getScalarType()));
            return r;
        }
        return mkUndef(widthOf(t));
    }

    DFunc* decode(Function* F)
    {
        auto it = dfuncs.find(F);
        if(it != dfuncs.end()) return it->second.get();
        auto df  = std::make_unique<DFunc>();
        df->F    = F;
        df->name = llvm::demangle(F->getName().str());
        DenseMap<const Value*, int> slot;
        DenseMap<const BasicBlock*, int> bidx;
        int n = 0;
        for(auto& a : F->args()) slot[&a] = n++;
        int bn = 0;
        for(auto& B : *F) {
            bidx[&B] = bn++;
            for(auto& I : B)
                if(!I.getType()->isVoidTy()) slot[&I] = n++;
        }
        df->nslots = n;
        auto opnd  = [&](const Value* v) {
            Opnd o;
            if(auto* c = dyn_cast<Constant>(v)) {
                try {
                    o.cv = constVal(c);
                } catch(PathEnd& pe) {
                    o.cv = mkUndef(64);
                }
                o.slot = -1;
            } else if(isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) {
                o.slot = -1;
            } else {
                o.slot = slot[v];
            }
            return o;
        };
        for(auto& B : *F) {
            df->blocks.emplace_back();
            DBlock& db = df->blocks.back();
            db.B       = &B;
            for(auto& I : B) {
                if(auto* p = dyn_cast<PHINode>(&I)) {
                    DPhi dp;
                    dp.dst = slot[p];
                    dp.w   = widthOf(p->getType());
                    for(unsigned k = 0; k < p->getNumIncomingValues(); k++)
                        dp.in[bidx[p->getIncomingBlock(k)]] = opnd(p->getIncomingValue(k));
                    db.phis.push_back(dp);
                    continue;
                }
                if(isa<DbgInfoIntrinsic>(&I)) continue;
                DInst d;
                d.op = I.getOpcode();
                d.I  = &I;
                d.ty = I.getType();
                d.w  = widthOf(I.getType());
                if(!I.getType()->isVoidTy()) d.dst = slot[&I];
                if(auto* cb = dyn_cast<CallBase>(&I)) {
                    for(auto& a : cb->args()) d.ops.push_back(opnd(a.get()));
                    d.callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
                    if(d.callee && isa<GlobalAlias>(cb->getCalledOperand())) d.callee = nullptr;
                    if(!d.callee) {
                        if(auto* al = dyn_cast<GlobalAlias>(cb->getCalledOperand()))
                            d.callee = dyn_cast<Function>(al->getAliaseeObject());
                    }
                    if(!d.callee) d.ops.push_back(opnd(cb->getCalledOperand()));
                    if(d.callee && d.callee->isIntrinsic()) {
                        d.isIntr = true;
                        d.iid    = d.callee->getIntrinsicID();
                    }
                    if(auto* inv = dyn_cast<InvokeInst>(&I))
                        d.succ = {bidx[inv->getNormalDest()], bidx[inv->getUnwindDest()]};
                } else if(auto* g = dyn_cast<GetElementPtrInst>(&I)) {
                    d.ops.push_back(opnd(g->getPointerOperand()));
                    for(gep_type_iterator gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge;
                        ++gi) {
                        Value* idx = gi.getOperand();
                        if(StructType* st = gi.getStructTypeOrNull()) {
                            d.goff += DL->getStructLayout(st)->getElementOffset(
                                cast<ConstantInt>(idx)->getZExtValue());
                        } else {
                            int64_t sc = DL->getTypeAllocSize(gi.getIndexedType());
                            if(auto* ci = dyn_cast<ConstantInt>(idx))
                                d.goff += sc * ci->getSExtValue();
                            else {
                                d.gidx.push_back({(unsigned)d.ops.size(), sc});
                                d.ops.push_back(opnd(idx));
                            }
                        }
                    }
                } else if(auto* br = dyn_cast<BranchInst>(&I)) {
                    if(br->isConditional()) d.ops.push_back(opnd(br->getCondition()));
                    for(unsigned k = 0; k < br->getNumSuccessors(); k++)
                        d.succ.push_back(bidx[br->getSuccessor(k)]);
                } else if(auto* sw = dyn_cast<SwitchInst>(&I)) {
                    d.ops.push_back(opnd(sw->getCondition()));
                    d.succ.push_back(bidx[sw->getDefaultDest()]);
                    for(auto& c : sw->cases())
                        d.cases.push_back(
                            {c.getCaseValue()->getZExtValue(), bidx[c.getCaseSuccessor()]});
                } else {
                    for(auto& o : I.operands()) d.ops.push_back(opnd(o.get()));
                    if(auto* cm = dyn_cast<CmpInst>(&I)) d.pred = cm->getPredicate();
                }
                db.insts.push_back(std::move(d));
            }
        }
        DFunc* r = df.get();
        dfuncs[F] = std::move(df);
        return r;
    }

    // ---- helpers ----------------------------------------------------------------------------
    Frame& fr() { return s->st.back(); }
    Val get(const Opnd& o) { return o.slot >= 0 ? fr().regs[o.slot] : o.cv; }
    void set(DInst& d, const Val& v)
    {
        if(d.dst >= 0) fr().regs[d.dst] = v;
    }

    string where()
    {
        string r;
        for(int i = (int)s->st.size() - 1; i >= 0 && (int)s->st.size() - i < 12; i--) {
            Frame& f = s->st[i];
            if(f.blk < 0 || f.ip >= (int)f.f->blocks[f.blk].insts.size()) continue;
            const Instruction* I = f.f->blocks[f.blk].insts[f.ip].I;
            if(!r.empty()) r += " <- ";
            r += f.f->name.substr(0, 120);
            const DILocation* L = I->getDebugLoc();
            while(L) {
                r += " @" + L->getFilename().str() + ":" + std::to_string(L->getLine());
                L = L->getInlinedAt();
            }
        }
        return r;
    }

    z3::expr freshBV(unsigned w, const string& tag)
    {
        string n = "!" + tag + std::to_string(s->fresh++);
        z3::expr v = w == 1 ? Z().bool_const(n.c_str()) : Z().bv_const(n.c_str(), w);
        regVar(v);
        return v;
    }
    z3::expr freshReal(const string& tag)
    {
        string n   = "!" + tag + std::to_string(s->fresh++);
        z3::expr v = Z().real_const(n.c_str());
        regVar(v);
        return v;
    }
    void regVar(const z3::expr& v)
    {
        unsigned id = Z3_get_ast_id(Z(), v);
        g_vars[id]  = E(v);
        if(!s->assign.count(id)) {
            z3::expr val = v.is_bool()   ? Z().bool_val(false)
                           : v.is_bv()   ? Z().bv_val(0, v.get_sort().bv_size())
                           : v.is_real() ? Z().real_val(0)
                                         : z3::expr(Z(), Z3_mk_fpa_numeral_double(Z(), 0.0, v.get_sort()));
            s->assign[id] = E(val);
        }
    }

    // value of e under the state's assignment; simplified expression
    z3::expr evalA(const z3::expr& e)
    {
        VarSet vs = varsOf(e);
        z3::expr_vector from(Z()), to(Z());
        for(unsigned v : *vs) {
            from.push_back(g_vars[v].x());
            auto it = s->assign.find(v);
            if(it == s->assign.end()) {
                regVar(g_vars[v].x());
                it = s->assign.find(v);
            }
            to.push_back(it->second.x());
        }
        z3::expr e2 = e;
        return e2.substitute(from, to).simplify();
    }

    vector<E> slice(const vector<z3::expr>& conds)
    {
        std::set<unsigned> W;
        vector<E> r;
        for(auto& c : conds) {
            VarSet v = varsOf(c);
            W.insert(v->begin(), v->end());
            r.push_back(E(c));
        }
        vector<char> used(s->pc.size(), 0);
        bool ch = true;
        while(ch) {
            ch = false;
            for(size_t i = 0; i < s->pc.size(); i++) {
                if(used[i]) continue;
                VarSet v = varsOf(s->pc[i].x());
                bool hit = false;
                for(unsigned x : *v)
                    if(W.count(x)) {
                        hit = true;
                        break;
                    }
                if(hit) {
                    used[i] = 1;
                    r.push_back(s->pc[i]);
                    W.insert(v->begin(), v->end());
                    ch = true;
                }
            }
        }
        return r;
    }

    QRes sat(const z3::expr& c)
    {
        z3::expr c2 = c;
        return query(slice({c2}));
    }

    // Is c satisfiable with the path condition?  When it is, *m is an assignment.
    bool feasible(const z3::expr& c0, shared_ptr<Assign>* m = nullptr, bool* unknown = nullptr)
    {
        z3::expr c = c0.simplify();
        if(!g_text.empty())
            for(unsigned v : *varsOf(c))
                if(g_text.count(v)) unsup("the digits of a symbolic number");
        if(c.is_true()) {
            if(m) m->reset();
            return true;
        }
        if(c.is_false()) return false;
        z3::expr v = evalA(c);
        if(v.is_true()) {
            if(m) m->reset();
            return true;
        }
        QRes r = sat(c);
        if(r.r == z3::unsat) return false;
        if(r.r == z3::unknown) {
            if(unknown) *unknown = true;
            g_incomplete["solver gave no answer"]++;
            if(m) m->reset();
            return true;
        }
        if(m) *m = r.model;
        return true;
    }

    void applyModel(State& st, const shared_ptr<Assign>& m)
    {
        if(m)
            for(auto& kv : *m) st.assign[kv.first] = kv.second;
    }

    // add a constraint to the current state; ends the path when infeasible
    void assume(const z3::expr& c0)
    {
        z3::expr c = c0.simplify();
        if(c.is_true()) return;
        if(c.is_false()) throw PathEnd{P_INFEASIBLE, "", ""};
        shared_ptr<Assign> m;
        if(!feasible(c, &m)) throw PathEnd{P_INFEASIBLE, "", ""};
        s->pc.push_back(E(c));
        applyModel(*s, m);
    }

    SP forkState()
    {
        S.forks++;
        SP n = std::make_shared<State>(*s);
        n->depth++;
        s->depth++;
        if(s->depth > S.max_depth) S.max_depth = s->depth;
        return n;
    }

    // two-way fork on a symbolic condition; returns the side taken by the current state
    // (mk is called for the other state to set its control)
    bool branch(const z3::expr& c0, const std::function<void(State&)>& other_true,
                const std::function<void(State&)>& other_false)
    {
        z3::expr c = c0.simplify();
        if(c.is_true()) return true;
        if(c.is_false()) return false;
        z3::expr v = evalA(c);
        bool side;
        if(v.is_true())
            side = true;
        else if(v.is_false())
            side = false;
        else {
            shared_ptr<Assign> m;
            side = feasible(c, &m);
            if(side) applyModel(*s, m);
        }
        z3::expr taken = side ? c : !c, nt = side ? !c : c;
        shared_ptr<Assign> m;
        if(!feasible(nt, &m)) return side;
        SP n = forkState();
        n->pc.push_back(E(nt));
        applyModel(*n, m);
        if(side)
            other_false(*n);
        else
            other_true(*n);
        work.push_back(n);
        s->pc.push_back(E(taken));
        return side;
    }

    // Complete case split on the value of a symbolic bit-vector.  Other cases are re-executed from
    // the current instruction in their own states.
    uint64_t concretize(const Val& v, unsigned limit = 4096)
    {
        if(v.k == V_INT) return v.i;
        if(v.k == V_UNDEF) throw PathEnd{P_VIOL, "uninit", "control or address depends on an uninitialised value"};
        if(v.k != V_SYM) unsup("concretization of a non-integer value");
        z3::expr x = v.e.x();
        auto it    = s->conc.find(v.e.id());
        if(it != s->conc.end()) return it->second.second;
        bool isb = x.is_bool();
        auto num = [&](const z3::expr& val) -> uint64_t {
            if(isb) return val.is_true() ? 1 : 0;
            uint64_t u = 0;
            if(!Z3_get_numeral_uint64(Z(), val, &u)) unsup("cannot evaluate symbolic integer");
            return u;
        };
        auto eq = [&](uint64_t u) -> z3::expr {
            if(isb) return u ? x : !x;
            return x == Z().bv_val((uint64_t)u, v.w);
        };
        z3::expr cv = evalA(x);
        uint64_t u0 = num(cv);
        vector<pair<uint64_t, shared_ptr<Assign>>> others;
        z3::expr excl = !eq(u0);
        while(true) {
            shared_ptr<Assign> m;
            bool unk = false;
            if(!feasible(excl, &m, &unk)) break;
            if(unk || !m) {
                if(unk) throw PathEnd{P_UNSUP, "unsupported", "solver gave no answer in a case split"};
            }
            // evaluate under m
            Assign save = s->assign;
            applyModel(*s, m);
            uint64_t u = num(evalA(x));
            s->assign  = save;
            others.push_back({u, m});
            excl = excl && !eq(u);
            if(others.size() > limit)
                throw PathEnd{P_LIMIT, "limit", "more than " + std::to_string(limit) + " values in a case split at " + where()};
        }
        for(auto& o : others) {
            SP n = forkState();
            n->pc.push_back(E(eq(o.first)));
            applyModel(*n, o.second);
            n->conc[v.e.id()] = {v.e, o.first};
            work.push_back(n);
        }
        if(!others.empty()) s->pc.push_back(E(eq(u0)));
        s->conc[v.e.id()] = {v.e, u0};
        return u0;
    }

    // ---- memory -----------------------------------------------------------------------------
    uint64_t allocate(uint64_t size, uint8_t kind, const string& name, bool zero = false)
    {
        if(size > (1ull << 28)) throw PathEnd{P_VIOL, "memory", "allocation of " + std::to_string(size) + " bytes"};
        auto o  = std::make_shared<Obj>();
        o->base = s->next_addr;
        o->size = size;
        o->kind = kind;
        o->name = name;
        o->bytes.resize(size);
        o->init.resize(size, zero ? 1 : 0);
        if(s->par.active) o->region_tag = s->par.region * 64 + s->par.tid + 1;
        s->next_addr += ((size + 63) & ~63ull) + 128;
        s->mem[o->base] = o;
        return o->base;
    }

    Obj* findObj(uint64_t a, bool write, shared_ptr<Obj>** slot = nullptr)
    {
        auto it = s->mem.upper_bound(a);
        if(it != s->mem.begin()) {
            --it;
            Obj* o = it->second.get();
            if(a >= o->base && a < o->base + std::max<uint64_t>(o->size, 1)) {
                if(slot) *slot = &it->second;
                return o;
            }
        }
        auto ir = ro.upper_bound(a);
        if(ir != ro.begin()) {
            --ir;
            Obj* o = ir->second.get();
            if(a >= o->base && a < o->base + std::max<uint64_t>(o->size, 1)) return o;
        }
        return nullptr;
    }

    void record_access(Obj* o, uint64_t a, uint64_t n, bool write, bool sync = false)
    {
        Par& p = s->par;
        if(!p.active) return;
        if(o->region_tag == p.region * 64 + p.tid + 1) return;
        if(o->ro) return;
        int sy = (sync || p.locked) ? 1 : 0;
        for(uint64_t i = 0; i < n; i++) {
            Access& ac = p.acc[a + i];
            if(write)
                ac.wr[sy] |= 1u << p.tid;
            else
                ac.rd[sy] |= 1u << p.tid;
        }
    }

    [[noreturn]] void memerr(uint64_t a, uint64_t n, bool write, Obj* o)
    {
        string m = string(write ? "write of " : "read of ") + std::to_string(n) + " bytes ";
        if(!o) {
            // describe neighbouring object
            auto it = s->mem.upper_bound(a);
            string near;
            if(it != s->mem.begin()) {
                --it;
                Obj* q = it->second.get();
                if(a < q->base + q->size + 4096)
                    near = " (" + std::to_string(a - q->base) + " bytes into object '" + q->name +
                           "' of size " + std::to_string(q->size) + ")";
            }
            m += "outside any live object" + near;
        } else
            m += "overrunning object '" + o->name + "' of size " + std::to_string(o->size) +
                 " at offset " + std::to_string(a - o->base);
        throw PathEnd{P_VIOL, "memory", m};
    }

    Obj* access(uint64_t a, uint64_t n, bool write, bool sync = false)
    {
        shared_ptr<Obj>* slot = nullptr;
        Obj* o                = findObj(a, write, &slot);
        S.oblig_mem++;
        if(!o || a + n > o->base + o->size) memerr(a, n, write, o);
        if(write) {
            if(o->ro) throw PathEnd{P_VIOL, "memory", "write to read-only object " + o->name};
            if(slot->use_count() > 1) {
                *slot = std::make_shared<Obj>(*o);
                o     = slot->get();
            }
        }
        if(s->par.active) record_access(o, a, n, write, sync);
        return o;
    }

    // split a symbolic cell into byte cells (bit-vector only)
    void splitCell(Obj* o, uint32_t off)
    {
        Cell c = o->cells[off];
        o->cells.erase(off);
        if(c.v.k != V_SYM) {
            if(c.v.k == V_IEEE) {
                z3::expr b(Z(), Z3_mk_fpa_to_ieee_bv(Z(), c.v.e.x()));
                Val nv = mkSym(b);
                c.v    = nv;
            } else
                unsup("partial access to a symbolic floating-point value");
        }
        z3::expr x = bvx(c.v);
        if(x.is_bool()) x = z3::ite(x, Z().bv_val(1, 8), Z().bv_val(0, 8));
        for(uint32_t i = 0; i < c.size; i++) {
            Val b = mkSym(x.extract(8 * i + 7, 8 * i).simplify());
            if(b.k == V_INT) {
                o->bytes[off + i] = (uint8_t)b.i;
                o->init[off + i]  = 1;
            } else
                o->cells[off + i] = Cell{1, b};
        }
    }

    // remove symbolic cells overlapping [off, off+n) (partial overlaps are split)
    void clearCells(Obj* o, uint32_t off, uint32_t n)
    {
        if(o->cells.empty() || n == 0) return;
        while(true) {
            auto it = o->cells.lower_bound(off + n);
            bool again = false;
            while(it != o->cells.begin()) {
                --it;
                uint32_t c0 = it->first, c1 = it->first + it->second.size;
                if(c1 <= off) {
                    // cells are at most 16 bytes wide
                    if(off - c0 > 64) break;
                    continue;
                }
                if(c0 >= off && c1 <= off + n)
                    it = o->cells.erase(it);
                else {
                    splitCell(o, c0);
                    again = true;
                    break;
                }
            }
            if(!again) break;
        }
    }

    bool overlapsCell(Obj* o, uint32_t off, uint32_t n)
    {
        if(o->cells.empty()) return false;
        auto it = o->cells.lower_bound(off + n);
        while(it != o->cells.begin()) {
            --it;
            if(it->first + it->second.size > off) return true;
            if(off - it->first > 64) break;
        }
        return false;
    }

    void storeScalar(Obj* o, uint32_t off, uint32_t n, const Val& v)
    {
        clearCells(o, off, n);
        switch(v.k) {
            case V_UNDEF:
                for(uint32_t i = 0; i < n; i++) o->init[off + i] = 0;
                return;
            case V_INT:
            case V_FP: {
                uint64_t b = v.k == V_FP ? fpbits(v) : v.i;
                for(uint32_t i = 0; i < n; i++) {
                    o->bytes[off + i] = i < 8 ? (uint8_t)(b >> (8 * i)) : 0;
                    o->init[off + i]  = 1;
                }
                return;
            }
            default: {
                Val c = v;
                if(c.k == V_SYM) {
                    z3::expr x = bvx(c);
                    if(x.is_bool()) x = z3::ite(x, Z().bv_val(1, 8 * n), Z().bv_val(0, 8 * n));
                    if(x.get_sort().bv_size() < 8 * n)
                        x = z3::zext(x, 8 * n - x.get_sort().bv_size());
                    c.e = E(x);
                    c.w = 8 * n;
                }
                o->cells[off] = Cell{n, c};
                for(uint32_t i = 0; i < n; i++) o->init[off + i] = 1;
            }
        }
    }

    Val loadScalar(Obj* o, uint32_t off, uint32_t n, Type* t)
    {
        unsigned w = widthOf(t);
        bool fp    = t->isFloatTy() || t->isDoubleTy();
        if(!overlapsCell(o, off, n)) {
            unsigned ni = 0;
            for(uint32_t i = 0; i < n; i++) ni += o->init[off + i];
            if(ni == 0) return mkUndef(w);
            if(ni == n) {
                if(n > 8) {
                    z3::expr x = Z().bv_val(o->bytes[off], 8);
                    for(uint32_t i = 1; i < n; i++)
                        x = z3::concat(Z().bv_val(o->bytes[off + i], 8), x);
                    Val r;
                    r.k = V_SYM;
                    r.w = w;
                    r.e = E(x.simplify());
                    return r;
                }
                uint64_t b = 0;
                for(uint32_t i = 0; i < n; i++) b |= (uint64_t)o->bytes[off + i] << (8 * i);
                if(fp) {
                    if(w == 32) {
                        uint32_t u = (uint32_t)b;
                        float f;
                        memcpy(&f, &u, 4);
                        return mkFP(f, 32);
                    }
                    double d;
                    memcpy(&d, &b, 8);
                    return mkFP(d, 64);
                }
                return mkInt(b, w);
            }
        } else {
            auto it = o->cells.find(off);
            if(it != o->cells.end() && it->second.size == n) {
                const Val& c = it->second.v;
                if(c.k == V_SYM) {
                    if(fp) {
                        if(g_fp == FP_IEEE) {
                            return mkIeee(z3::expr(Z(), Z3_mk_fpa_to_fp_bv(Z(), c.e.x(), fpsort(w))), w);
                        }
                        unsup("symbolic integer bits read as floating point");
                    }
                    if(w == c.w) return c;
                    if(w == 1) return truncTo(c, 1);
                    return mkSym(c.e.x().extract(w - 1, 0));
                }
                if(c.k == V_IEEE && !fp)
                    return mkSym(z3::expr(Z(), Z3_mk_fpa_to_ieee_bv(Z(), c.e.x())));
                return c;  // REAL (also when read as integer bits: only copied)
            }
        }
        // generic: bytewise
        if(n > 16) unsup("wide mixed load");
        z3::expr x(Z());
        for(uint32_t i = 0; i < n; i++) {
            z3::expr b(Z());
            bool done = false;
            if(!o->cells.empty()) {
                auto it = o->cells.upper_bound(off + i);
                if(it != o->cells.begin()) {
                    --it;
                    if(it->first <= off + i && off + i < it->first + it->second.size) {
                        Val c = it->second.v;
                        uint32_t k = off + i - it->first;
                        if(c.k == V_IEEE)
                            c = mkSym(z3::expr(Z(), Z3_mk_fpa_to_ieee_bv(Z(), c.e.x())));
                        if(c.k != V_SYM)
                            unsup("partial access to a symbolic floating-point value");
                        b    = c.e.x().extract(8 * k + 7, 8 * k);
                        done = true;
                    }
                }
            }
            if(!done) {
                if(o->init[off + i])
                    b = Z().bv_val(o->bytes[off + i], 8);
                else
                    b = freshBV(8, "undef");
            }
            x = i == 0 ? b : z3::concat(b, x);
        }
        x = x.simplify();
        if(fp) {
            if(g_fp != FP_IEEE) unsup("mixed bytes read as floating point");
            return mkIeee(z3::expr(Z(), Z3_mk_fpa_to_fp_bv(Z(), x, fpsort(w))), w);
        }
        Val r = mkSym(x);
        if(w < 8 * n) return truncTo(r, w);
        return r;
    }

    Val loadTyped(uint64_t a, Type* t)
    {
        if(t->isStructTy()) {
            Val r;
            r.k      = V_AGG;
            r.agg    = std::make_shared<vector<Val>>();
            auto* sl = DL->getStructLayout(cast<StructType>(t));
            for(unsigned i = 0; i < t->getStructNumElements(); i++)
                r.agg->push_back(loadTyped(a + sl->getElementOffset(i), t->getStructElementType(i)));
            return r;
        }
        if(t->isArrayTy() || t->isVectorTy()) {
            Val r;
            r.k        = V_AGG;
            r.agg      = std::make_shared<vector<Val>>();
            Type* et   = t->isArrayTy() ? t->getArrayElementType() : t->getScalarType();
            unsigned n = t->isArrayTy() ? (unsigned)t->getArrayNumElements()
                                        : cast<FixedVectorType>(t)->getNumElements();
            uint64_t es = DL->getTypeAllocSize(et);
            for(unsigned i = 0; i < n; i++) r.agg->push_back(loadTyped(a + i * es, et));
            return r;
        }
        uint64_t n = DL->getTypeStoreSize(t);
        Obj* o     = access(a, n, false);
        return loadScalar(o, a - o->base, n, t);
    }
    void storeTyped(uint64_t a, Type* t, const Val& v)
    {
        if(v.k == V_AGG) {
            if(t->isStructTy()) {
                auto* sl = DL->getStructLayout(cast<StructType>(t));
                for(unsigned i = 0; i < t->getStructNumElements(); i++)
                    storeTyped(a + sl->getElementOffset(i), t->getStructElementType(i), (*v.agg)[i]);
            } else {
                Type* et = t->isArrayTy() ? t->getArrayElementType() : t->getScalarType();
                uint64_t es = DL->getTypeAllocSize(et);
                for(unsigned i = 0; i < v.agg->size(); i++) storeTyped(a + i * es, et, (*v.agg)[i]);
            }
            return;
        }
        uint64_t n = DL->getTypeStoreSize(t);
        Obj* o     = access(a, n, true);
        storeScalar(o, a - o->base, n, v);
    }

    // candidate addresses of a symbolic pointer
    struct Cand {
        z3::expr cond;
        uint64_t a;
    };
    bool iteLeaves(const z3::expr& x, const z3::expr& c, vector<Cand>& out, int depth = 0)
    {
        if(x.is_numeral()) {
            uint64_t u;
            if(!Z3_get_numeral_uint64(Z(), x, &u)) return false;
            out.push_back({c, u});
            return out.size() <= 16;
        }
        if(x.is_app() && x.decl().decl_kind() == Z3_OP_ITE && depth < 8)
            return iteLeaves(x.arg(1), c && x.arg(0), out, depth + 1) &&
                   iteLeaves(x.arg(2), c && !x.arg(0), out, depth + 1);
        return false;
    }

    vector<Cand> resolve(const Val& av, uint64_t n, bool write)
    {
        z3::expr x = av.e.x();
        vector<Cand> cands, good;
        z3::expr sx = x.simplify();
        if(!iteLeaves(sx, Z().bool_val(true), cands)) {
            cands.clear();
            // whole-object case
            z3::expr cv = evalA(x);
            uint64_t a0 = 0;
            Z3_get_numeral_uint64(Z(), cv, &a0);
            Obj* o = findObj(a0, write);
            // (an array of structures: only the addresses that can really occur)
            bool hetero = false;
            if(o) {
                bool real = false, other = false;
                uint32_t end = 0;
                for(auto& kv : o->cells) {
                    auto k = kv.second.v.k;
                    (k == V_REAL || k == V_IEEE || k == V_FP ? real : other) = true;
                    for(; end < kv.first; end++) other = other || o->init[end];
                    end = kv.first + kv.second.size;
                }
                for(; end < o->size && !other; end++) other = other || o->init[end];
                hetero = real && other;
            }
            if(o && !hetero && a0 + n <= o->base + o->size && o->size / n <= 600) {
                z3::expr lo = Z().bv_val((uint64_t)o->base, 64),
                         hi = Z().bv_val((uint64_t)(o->base + o->size - n), 64);
                if(!feasible(z3::ult(x, lo) || z3::ugt(x, hi))) {
                    uint64_t step = n;
                    while(step > 1) {
                        z3::expr off = x - Z().bv_val((uint64_t)a0, 64);
                        if(!feasible(z3::urem(off, Z().bv_val((uint64_t)step, 64)) != 0)) break;
                        step /= 2;
                    }
                    uint64_t first = a0;
                    while(first >= o->base + step) first -= step;
                    if((o->size / step) <= 600) {
                        for(uint64_t a = first; a + n <= o->base + o->size; a += step)
                            cands.push_back({x == Z().bv_val((uint64_t)a, 64), a});
                        return cands;
                    }
                }
            }
            // enumerate values
            z3::expr excl = Z().bool_val(true);
            while(true) {
                shared_ptr<Assign> m;
                bool unk = false;
                if(!feasible(excl, &m, &unk)) break;
                if(unk) unsup("solver gave no answer while resolving an address");
                Assign save = s->assign;
                applyModel(*s, m);
                uint64_t u = 0;
                Z3_get_numeral_uint64(Z(), evalA(x), &u);
                s->assign = save;
                cands.push_back({x == Z().bv_val((uint64_t)u, 64), u});
                excl = excl && x != Z().bv_val((uint64_t)u, 64);
                // an invalid address: report right away (once), then drop all invalid ones
                Obj* q = findObj(u, write);
                if(!q || u + n > q->base + q->size) break;
                if(cands.size() > 1024) throw PathEnd{P_LIMIT, "limit", "too many addresses"};
            }
        }
        bool restrict = false;
        for(auto& c : cands) {
            Obj* q = findObj(c.a, write);
            if(q && c.a + n <= q->base + q->size) {
                good.push_back(c);
                continue;
            }
            shared_ptr<Assign> m;
            if(feasible(x == Z().bv_val((uint64_t)c.a, 64), &m)) {
                // fork an error state: report here, continue with the rest
                SP n2  = std::make_shared<State>(*s);
                State* save = s;
                s           = n2.get();
                applyModel(*s, m);
                s->pc.push_back(E(x == Z().bv_val((uint64_t)c.a, 64)));
                string msg;
                try {
                    memerr(c.a, n, write, q);
                } catch(PathEnd& pe) {
                    report(pe.vkind, pe.msg);
                }
                s        = save;
                restrict = true;
            }
        }
        if(restrict) {  // the remaining executions stay inside valid objects
            z3::expr ok = Z().bool_val(false);
            for(auto& g : good) ok = ok || x == Z().bv_val((uint64_t)g.a, 64);
            assume(ok);
        }
        if(good.empty()) throw PathEnd{P_STOP, "", ""};
        return good;
    }

    Val iteVal(const z3::expr& c, const Val& a, const Val& b)
    {
        if(c.is_true()) return a;
        if(c.is_false()) return b;
        if(a.k == V_AGG && b.k == V_AGG) {
            Val r;
            r.k   = V_AGG;
            r.agg = std::make_shared<vector<Val>>();
            for(size_t i = 0; i < a.agg->size(); i++)
                r.agg->push_back(iteVal(c, (*a.agg)[i], (*b.agg)[i]));
            return r;
        }
        if(a.k == V_UNDEF || b.k == V_UNDEF) {
            if(a.k == V_UNDEF && b.k == V_UNDEF) return a;
            // Either side may be undefined: the result is undefined unless unused.  Keep the
            // defined side's shape but make the other arbitrary.
            const Val& d = a.k == V_UNDEF ? b : a;
            Val u;
            if(d.k == V_INT || d.k == V_SYM)
                u = mkSym(freshBV(d.w, "undef"));
            else if(d.k == V_IEEE)
                unsup("undefined fp");
            else {
                u = mkReal(freshReal("undef"));
                if(g_fp == FP_IEEE) unsup("undefined fp");
            }
            return a.k == V_UNDEF ? iteVal(c, u, b) : iteVal(c, a, u);
        }
        if((a.k == V_INT || a.k == V_SYM) && (b.k == V_INT || b.k == V_SYM)) {
            if(a.k == V_INT && b.k == V_INT && a.i == b.i) return a;
            z3::expr xa = bvx(a), xb = bvx(b);
            if(Z3_is_eq_ast(Z(), xa, xb)) return a;
            if(a.w == 1 && a.k == V_INT && b.k == V_INT) return a.i ? mkSym(c) : mkSym(!c);
            return mkSym(z3::ite(c, xa, xb));
        }
        if(g_fp == FP_IEEE) {
            if(a.k == V_FP && b.k == V_FP && fpbits(a) == fpbits(b)) return a;
            return mkIeee(z3::ite(c, ieeex(a), ieeex(b)), a.w);
        }
        if(a.k == V_FP && b.k == V_FP && fpbits(a) == fpbits(b)) return a;
        // pointer-sized integers punned with reals are not merged
        if(a.k == V_INT && b.k == V_REAL) return mkReal(z3::ite(c, realx(mkFP(bitsToD(a.i), 64)), realx(b)));
        if(a.k == V_REAL && b.k == V_INT) return mkReal(z3::ite(c, realx(a), realx(mkFP(bitsToD(b.i), 64))));
        z3::expr ra = realx(a), rb = realx(b);
        if(Z3_is_eq_ast(Z(), ra, rb)) return a;
        return mkReal(z3::ite(c, ra, rb));
    }
    static double bitsToD(uint64_t b)
    {
        double d;
        memcpy(&d, &b, 8);
        return d;
    }

    Val load(const Val& av, Type* t)
    {
        if(av.k == V_INT) return loadTyped(av.i, t);
        if(av.k == V_UNDEF) throw PathEnd{P_VIOL, "uninit", "load through an uninitialised pointer"};
        if(av.k != V_SYM) unsup("load through a floating point value");
        auto it = s->conc.find(av.e.id());
        if(it != s->conc.end()) return loadTyped(it->second.second, t);
        uint64_t n = DL->getTypeStoreSize(t);
        auto c     = resolve(av, n, false);
        vector<Val> vs;
        bool bits = false, reals = false;
        for(auto& k : c) {
            vs.push_back(loadTyped(k.a, t));
            bits  = bits || vs.back().k == V_SYM || (vs.back().k == V_INT && !t->isFloatingPointTy());
            reals = reals || vs.back().k == V_REAL || (vs.back().k == V_FP && !t->isFloatingPointTy());
        }
        // an array of structures: integers and reals cannot be merged, split on the address instead
        if(bits && reals && c.size() > 1) return loadTyped(concretize(av), t);
        Val r = vs.back();
        for(int i = (int)c.size() - 2; i >= 0; i--) r = iteVal(c[i].cond, vs[i], r);
        return r;
    }
    void store(const Val& av, Type* t, const Val& v)
    {
        if(av.k == V_INT) return storeTyped(av.i, t, v);
        if(av.k == V_UNDEF) throw PathEnd{P_VIOL, "uninit", "store through an uninitialised pointer"};
        if(av.k != V_SYM) unsup("store through a floating point value");
        auto it = s->conc.find(av.e.id());
        if(it != s->conc.end()) return storeTyped(it->second.second, t, v);
        uint64_t n = DL->getTypeStoreSize(t);
        auto c     = resolve(av, n, true);
        if(c.size() == 1) return storeTyped(c[0].a, t, v);
        vector<Val> olds;
        bool bits = v.k == V_SYM || v.k == V_INT, reals = v.k == V_REAL || v.k == V_FP, agg = v.k == V_AGG;
        for(auto& k : c) {
            olds.push_back(loadTyped(k.a, t));
            bits  = bits || olds.back().k == V_SYM || olds.back().k == V_INT;
            reals = reals || olds.back().k == V_REAL || olds.back().k == V_FP;
        }
        bool undef = false;
        for(auto& o : olds) undef = undef || o.k == V_UNDEF;
        if(((bits && reals) || undef) && !agg) return storeTyped(concretize(av), t, v);
        for(size_t i = 0; i < c.size(); i++) storeTyped(c[i].a, t, iteVal(c[i].cond, v, olds[i]));
    }
    // concrete address for block operations and library calls
    uint64_t caddr(const Val& v) { return concretize(v); }

    void copyBytes(uint64_t dst, uint64_t src, uint64_t n)
    {
        if(n == 0 || dst == src) return;
        Obj* so = access(src, n, false);
        shared_ptr<Obj> keep;
        // copy out first (handles overlap)
        uint32_t off = src - so->base;
        vector<uint8_t> b(so->bytes.begin() + off, so->bytes.begin() + off + n),
            in(so->init.begin() + off, so->init.begin() + off + n);
        vector<pair<uint32_t, Cell>> cs;
        if(!so->cells.empty()) {
            // split cells straddling the border (on a private copy)
            auto straddle = [&](Obj* o) {
                for(auto& kv : o->cells) {
                    uint32_t c0 = kv.first, c1 = c0 + kv.second.size;
                    if(c1 > off && c0 < off + n && (c0 < off || c1 > off + n)) return (int)c0;
                }
                return -1;
            };
            int st = straddle(so);
            if(st >= 0) {
                keep = std::make_shared<Obj>(*so);
                so   = keep.get();
                while((st = straddle(so)) >= 0) splitCell(so, st);
                b.assign(so->bytes.begin() + off, so->bytes.begin() + off + n);
                in.assign(so->init.begin() + off, so->init.begin() + off + n);
            }
            for(auto it = so->cells.lower_bound(off); it != so->cells.end() && it->first < off + n; ++it)
                cs.push_back({it->first - off, it->second});
        }
        Obj* d       = access(dst, n, true);
        uint32_t dof = dst - d->base;
        clearCells(d, dof, n);
        std::copy(b.begin(), b.end(), d->bytes.begin() + dof);
        std::copy(in.begin(), in.end(), d->init.begin() + dof);
        for(auto& c : cs) d->cells[dof + c.first] = c.second;
    }

    void freeObj(uint64_t a, int kind)
    {
        if(a == 0) return;
        auto it = s->mem.find(a);
        if(it == s->mem.end() || it->second->kind != kind)
            throw PathEnd{P_VIOL, "memory", "invalid or double free"};
        if(s->par.active) record_access(it->second.get(), a, it->second->size, true);
        s->mem.erase(it);
    }

    // ---- reporting --------------------------------------------------------------------------
    string valText(const Input& in)
    {
        if(in.kind == 'c') return std::to_string(in.cval);
        z3::expr v = evalA(in.e.x());
        if(v.is_bool()) return v.is_true() ? "1" : "0";
        if(v.is_bv()) {
            uint64_t u = 0;
            Z3_get_numeral_uint64(Z(), v, &u);
            return std::to_string(u);
        }
        if(v.is_real()) return realText(v);
        if(v.is_fpa()) {
            z3::expr b = z3::expr(Z(), Z3_mk_fpa_to_ieee_bv(Z(), v)).simplify();
            uint64_t u = 0;
            if(!Z3_get_numeral_uint64(Z(), b, &u)) return "nan";
            char buf[64];
            snprintf(buf, sizeof buf, "%a", bitsToD(u));
            return buf;
        }
        return v.to_string();
    }
    static string realText(const z3::expr& v)
    {
        string d;
        if(v.is_numeral()) {
            // to nearest double, through exact decimal string of num/den
            string nu = Z3_get_numeral_decimal_string(Z(), v, 40);
            if(!nu.empty() && nu.back() == '?') nu.pop_back();
            double x = strtod(nu.c_str(), nullptr);
            char buf[64];
            snprintf(buf, sizeof buf, "%a", x);
            return buf;
        }
        if(v.is_algebraic()) {
            string nu = Z3_get_numeral_decimal_string(Z(), v, 40);
            if(!nu.empty() && nu.back() == '?') nu.pop_back();
            char buf[64];
            snprintf(buf, sizeof buf, "%a", strtod(nu.c_str(), nullptr));
            return buf;
        }
        return "?" + v.to_string();
    }

    void report(const string& kind, const string& msg)
    {
        string w   = where();
        string key = kind + "|" + (kind == "assert" ? msg : w.substr(0, 200));
        if(g_violkeys[key]++ >= 1 || g_viol.size() >= g_maxviol) return;
        Violation v;
        v.kind  = kind;
        v.msg   = msg;
        v.stack = w;
        for(auto& in : s->inputs) v.inputs.push_back({in.name, valText(in)});
        g_viol.push_back(v);
    }

#include "vpsym_ops.inc"
};
#include "vpsym_main.inc"
