// -*- c++ -*-   instruction semantics (member functions of Engine)
Val truncTo(const Val& v, unsigned w)
{
    if(v.k == V_INT) return mkInt(v.i, w);
    if(v.k == V_UNDEF) return mkUndef(w);
    z3::expr x = bvx1(v);
    if(w == 1) {
        if(x.is_app() && x.decl().decl_kind() == Z3_OP_ITE && x.arg(1).is_numeral() && x.arg(2).is_numeral()) {
            uint64_t a = 0, b = 0;
            Z3_get_numeral_uint64(Z(), x.arg(1), &a);
            Z3_get_numeral_uint64(Z(), x.arg(2), &b);
            a &= 1;
            b &= 1;
            if(a == b) return mkInt(a, 1);
            return mkSym(a ? x.arg(0) : !x.arg(0));
        }
        return mkSym((x.extract(0, 0) == Z().bv_val(1, 1)).simplify());
    }
    if(x.is_app() && x.decl().decl_kind() == Z3_OP_ITE) return mkSym(x.extract(w - 1, 0).simplify());
    return mkSym(x.extract(w - 1, 0));
}
Val extTo(const Val& v, unsigned w, bool sg)
{
    if(v.k == V_INT) return mkInt(sg ? (uint64_t)sextw(v.i, v.w) : v.i, w);
    if(v.k == V_UNDEF) return mkUndef(w);
    z3::expr x = bvx(v);
    if(x.is_bool()) {
        z3::expr one = sg ? Z().bv_val(-1, w) : Z().bv_val(1, w);
        return mkSym(z3::ite(x, one, Z().bv_val(0, w)));
    }
    unsigned w0 = x.get_sort().bv_size();
    return mkSym(sg ? z3::sext(x, w - w0) : z3::zext(x, w - w0));
}

Val binop(unsigned op, const Val& a, const Val& b, unsigned w)
{
    if(a.k == V_AGG) {
        Val r;
        r.k   = V_AGG;
        r.agg = std::make_shared<vector<Val>>();
        for(size_t i = 0; i < a.agg->size(); i++)
            r.agg->push_back(binop(op, (*a.agg)[i], (*b.agg)[i], (*a.agg)[i].w));
        return r;
    }
    if(op == Instruction::FAdd || op == Instruction::FSub || op == Instruction::FMul ||
       op == Instruction::FDiv || op == Instruction::FRem)
        return fbin(op, a, b);
    w = a.w ? a.w : w;
    if(a.k == V_UNDEF || b.k == V_UNDEF) {
        if(op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem)
            if(b.k == V_UNDEF) throw PathEnd{P_VIOL, "uninit", "division by an uninitialised value"};
        // a & undef, a | undef: only the bits that the other operand does not determine are undefined
        if((op == Instruction::And || op == Instruction::Or) && !(a.k == V_UNDEF && b.k == V_UNDEF)) {
            const Val& o = a.k == V_UNDEF ? b : a;
            const uint64_t all = w >= 64 ? ~0ull : (1ull << w) - 1;
            if(o.k == V_INT && (o.i & all) == (op == Instruction::And ? 0 : all)) return o;
            if(o.k == V_SYM) return binop(op, o, mkSym(freshBV(w, "undef")), w);
        }
        return mkUndef(w);
    }
    bool div = op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem ||
               op == Instruction::SRem;
    if(a.k == V_INT && b.k == V_INT) {
        uint64_t x = a.i, y = b.i;
        int64_t sx = sextw(x, w), sy = sextw(y, w);
        if(div && y == 0) throw PathEnd{P_VIOL, "trap", "integer division by zero"};
        switch(op) {
            case Instruction::Add: return mkInt(x + y, w);
            case Instruction::Sub: return mkInt(x - y, w);
            case Instruction::Mul: return mkInt(x * y, w);
            case Instruction::And: return mkInt(x & y, w);
            case Instruction::Or: return mkInt(x | y, w);
            case Instruction::Xor: return mkInt(x ^ y, w);
            case Instruction::UDiv: return mkInt(x / y, w);
            case Instruction::URem: return mkInt(x % y, w);
            case Instruction::SDiv: return sy == -1 ? mkInt(-x, w) : mkInt((uint64_t)(sx / sy), w);
            case Instruction::SRem: return sy == -1 ? mkInt(0, w) : mkInt((uint64_t)(sx % sy), w);
            case Instruction::Shl: return y >= w ? mkUndef(w) : mkInt(x << y, w);
            case Instruction::LShr: return y >= w ? mkUndef(w) : mkInt(x >> y, w);
            case Instruction::AShr: return y >= w ? mkUndef(w) : mkInt((uint64_t)(sx >> y), w);
        }
    }
    if(a.k == V_REAL || b.k == V_REAL) {
        // sign-bit manipulation of punned doubles
        const Val& r = a.k == V_REAL ? a : b;
        const Val& c = a.k == V_REAL ? b : a;
        if(c.k == V_INT && w == 64) {
            if(op == Instruction::Xor && c.i == 0x8000000000000000ull) return mkReal(-r.e.x());
            if(op == Instruction::And && c.i == 0x7fffffffffffffffull)
                return mkReal(z3::ite(r.e.x() < 0, -r.e.x(), r.e.x()));
        }
        unsup("integer arithmetic on floating-point bits");
    }
    // cheap identities
    if(b.k == V_INT) {
        if(b.i == 0 && (op == Instruction::Add || op == Instruction::Sub || op == Instruction::Or ||
                        op == Instruction::Xor || op == Instruction::Shl || op == Instruction::LShr ||
                        op == Instruction::AShr))
            return a;
        if(b.i == 0 && (op == Instruction::And || op == Instruction::Mul)) return b;
        if(b.i == 1 && (op == Instruction::Mul || op == Instruction::UDiv)) return a;
    }
    if(a.k == V_INT) {
        if(a.i == 0 && (op == Instruction::Add || op == Instruction::Or || op == Instruction::Xor)) return b;
        if(a.i == 0 && (op == Instruction::And || op == Instruction::Mul)) return a;
    }
    if(w == 1) {
        z3::expr x = bvx(a), y = bvx(b);
        switch(op) {
            case Instruction::And: return mkSym((x && y));
            case Instruction::Or: return mkSym((x || y));
            case Instruction::Add:
            case Instruction::Sub:
            case Instruction::Xor:
                if(y.is_true()) return mkSym((!x).simplify());
                return mkSym(x != y);
            case Instruction::Mul: return mkSym(x && y);
            default: unsup("i1 operation");
        }
    }
    z3::expr x = bvx(a), y = bvx(b);
    if(div) {
        if(!branch(y != Z().bv_val(0, w), [](State&) {}, [](State&) {}))
            throw PathEnd{P_VIOL, "trap", "integer division by zero"};
    }
    z3::expr r(Z());
    // division by a symbolic value that goes in at most once needs no divider circuit
    if((op == Instruction::UDiv || op == Instruction::URem) && b.k != V_INT && w <= 64) {
        bool unk = false;
        if(!feasible(z3::uge(x, y) && z3::uge(x - y, y), nullptr, &unk) && !unk) {
            z3::expr in = z3::uge(x, y);
            r = op == Instruction::URem ? z3::ite(in, x - y, x) : z3::ite(in, Z().bv_val(1, w), Z().bv_val(0, w));
            return mkSym(r.simplify());
        }
    }
    switch(op) {
        case Instruction::Add: r = x + y; break;
        case Instruction::Sub: r = x - y; break;
        case Instruction::Mul: r = x * y; break;
        case Instruction::And: r = x & y; break;
        case Instruction::Or: r = x | y; break;
        case Instruction::Xor: r = x ^ y; break;
        case Instruction::UDiv: r = z3::udiv(x, y); break;
        case Instruction::URem: r = z3::urem(x, y); break;
        case Instruction::SDiv: r = x / y; break;
        case Instruction::SRem: r = z3::srem(x, y); break;
        case Instruction::Shl: r = z3::shl(x, y); break;
        case Instruction::LShr: r = z3::lshr(x, y); break;
        case Instruction::AShr: r = z3::ashr(x, y); break;
        default: unsup("binary operation");
    }
    if(w > 64 || a.k == V_INT || b.k == V_INT) r = r.simplify();
    return mkSym(r);
}

Val withErr(const z3::expr& e, bool mulLike)
{
    if(g_fp != FP_ERR) return mkReal(e);
    z3::expr r = freshReal("rnd");
    // |r-e| <= 2^-53 |e| (+ 2^-1074 for products and quotients)
    z3::expr u   = real_of_double(std::ldexp(1.0, -53));
    z3::expr eta = mulLike ? real_of_double(std::ldexp(1.0, -1074)) : Z().real_val(0);
    z3::expr ae  = z3::ite(e < 0, -e, e);
    z3::expr c   = r - e <= u * ae + eta && e - r <= u * ae + eta;
    z3::expr ev  = evalA(e);
    s->assign[Z3_get_ast_id(Z(), r)] = E(ev);
    s->pc.push_back(E(c));
    return mkReal(r);
}

// a real value rounded to single precision
Val narrowToFloat(const Val& v)
{
    S.narrowed++;
    if(v.k != V_REAL) return v;
    z3::expr e   = v.e.x();
    z3::expr r   = freshReal("narrowed");
    z3::expr u   = real_of_double(std::ldexp(1.0, -24));
    z3::expr eta = real_of_double(std::ldexp(1.0, -149));
    z3::expr ae  = z3::ite(e < 0, -e, e);
    z3::expr ev  = evalA(e);
    s->assign[Z3_get_ast_id(Z(), r)] = E(ev);
    s->pc.push_back(E(r - e <= u * ae + eta && e - r <= u * ae + eta));
    return mkReal(r);
}

Val fbin(unsigned op, const Val& a, const Val& b)
{
    if(a.k == V_UNDEF || b.k == V_UNDEF) return mkUndef(64);
    if(a.k == V_FP && b.k == V_FP) {
        double x = a.d, y = b.d, r = 0;
        switch(op) {
            case Instruction::FAdd: r = x + y; break;
            case Instruction::FSub: r = x - y; break;
            case Instruction::FMul: r = x * y; break;
            case Instruction::FDiv: r = x / y; break;
            case Instruction::FRem: r = std::fmod(x, y); break;
        }
        return mkFP(r, a.w);
    }
    if(g_fp == FP_IEEE) {
        z3::expr x = ieeex(a), y = ieeex(b);
        z3::expr rm = Z3_mk_fpa_rne(Z()) ? z3::expr(Z(), Z3_mk_fpa_rne(Z())) : x;
        Z3_ast r    = nullptr;
        if((op == Instruction::FAdd || op == Instruction::FMul) && Z3_get_ast_id(Z(), x) > Z3_get_ast_id(Z(), y)) std::swap(x, y);
        switch(op) {
            case Instruction::FAdd: r = Z3_mk_fpa_add(Z(), rm, x, y); break;
            case Instruction::FSub:
                if(a.k == V_IEEE && b.k == V_IEEE && Z3_get_ast_id(Z(), x) > Z3_get_ast_id(Z(), y)) {
                    // x - y as -(y - x), so that both share one circuit; exact except for the sign of a zero
                    z3::expr d(Z(), Z3_mk_fpa_sub(Z(), rm, y, x)), n(Z(), Z3_mk_fpa_neg(Z(), d));
                    auto is = [&](Z3_ast f) { return z3::expr(Z(), f); };
                    z3::expr mz = is(Z3_mk_fpa_is_zero(Z(), x)) && is(Z3_mk_fpa_is_negative(Z(), x)) && is(Z3_mk_fpa_is_positive(Z(), y));
                    z3::expr p0(Z(), Z3_mk_fpa_zero(Z(), x.get_sort(), false)), n0(Z(), Z3_mk_fpa_zero(Z(), x.get_sort(), true));
                    return mkIeee(z3::ite(is(Z3_mk_fpa_is_zero(Z(), d)), z3::ite(mz, n0, p0), n), a.w);
                }
                r = Z3_mk_fpa_sub(Z(), rm, x, y);
                break;
            case Instruction::FMul: r = Z3_mk_fpa_mul(Z(), rm, x, y); break;
            case Instruction::FDiv: r = Z3_mk_fpa_div(Z(), rm, x, y); break;
            case Instruction::FRem: unsup("fp remainder");
        }
        return mkIeee(z3::expr(Z(), r), a.w);
    }
    // exact zero / one shortcuts keep expressions small
    auto isC = [](const Val& v, double c) { return v.k == V_FP && v.d == c; };
    switch(op) {
        case Instruction::FAdd:
            if(isC(a, 0)) return b;
            if(isC(b, 0)) return a;
            return withErr(realx(a) + realx(b), false);
        case Instruction::FSub:
            if(isC(b, 0)) return a;
            if(isC(a, 0)) return mkReal(-realx(b));
            return withErr(realx(a) - realx(b), false);
        case Instruction::FMul:
            if(isC(a, 1)) return b;
            if(isC(b, 1)) return a;
            if(isC(a, 0) || isC(b, 0)) return mkFP(0, 64);
            if(isC(a, -1)) return mkReal(-realx(b));
            if(isC(b, -1)) return mkReal(-realx(a));
            return withErr(realx(a) * realx(b), true);
        case Instruction::FDiv: {
            if(isC(b, 1)) return a;
            if(b.k == V_FP) {
                if(b.d == 0) unsup("floating-point division by zero");
                return withErr(realx(a) / realx(b), true);
            }
            z3::expr y = realx(b);
            if(feasible(y == 0)) {
                if(s->opts["fdiv_nonzero"])
                    assume(y != 0);
                else
                    unsup("division by a symbolic value that may be zero");
            }
            return withErr(realx(a) / y, true);
        }
        case Instruction::FRem: return libm("fmod", {a, b});
    }
    unsup("fp op");
}

Val icmp(int pred, const Val& a, const Val& b)
{
    if(a.k == V_AGG) {
        Val r;
        r.k   = V_AGG;
        r.agg = std::make_shared<vector<Val>>();
        for(size_t i = 0; i < a.agg->size(); i++)
            r.agg->push_back(icmp(pred, (*a.agg)[i], (*b.agg)[i]));
        return r;
    }
    if(a.k == V_UNDEF || b.k == V_UNDEF) return mkUndef(1);
    unsigned w = a.w;
    if(a.k == V_INT && b.k == V_INT) {
        uint64_t x = a.i, y = b.i;
        int64_t sx = sextw(x, w), sy = sextw(y, w);
        bool r = false;
        switch(pred) {
            case CmpInst::ICMP_EQ: r = x == y; break;
            case CmpInst::ICMP_NE: r = x != y; break;
            case CmpInst::ICMP_UGT: r = x > y; break;
            case CmpInst::ICMP_UGE: r = x >= y; break;
            case CmpInst::ICMP_ULT: r = x < y; break;
            case CmpInst::ICMP_ULE: r = x <= y; break;
            case CmpInst::ICMP_SGT: r = sx > sy; break;
            case CmpInst::ICMP_SGE: r = sx >= sy; break;
            case CmpInst::ICMP_SLT: r = sx < sy; break;
            case CmpInst::ICMP_SLE: r = sx <= sy; break;
        }
        return mkInt(r, 1);
    }
    if(a.k == V_REAL || b.k == V_REAL) unsup("integer comparison of floating-point bits");
    z3::expr x = bvx(a), y = bvx(b);
    if(x.is_bool()) {
        switch(pred) {
            case CmpInst::ICMP_EQ: return mkSym((x == y).simplify());
            case CmpInst::ICMP_NE: return mkSym((x != y).simplify());
            default:
                x = bvx1(a);
                y = bvx1(b);
        }
    }
    z3::expr r(Z());
    switch(pred) {
        case CmpInst::ICMP_EQ:
            // comparison of a zero-extended boolean with a constant
            r = x == y;
            break;
        case CmpInst::ICMP_NE: r = x != y; break;
        case CmpInst::ICMP_UGT: r = z3::ugt(x, y); break;
        case CmpInst::ICMP_UGE: r = z3::uge(x, y); break;
        case CmpInst::ICMP_ULT: r = z3::ult(x, y); break;
        case CmpInst::ICMP_ULE: r = z3::ule(x, y); break;
        case CmpInst::ICMP_SGT: r = x > y; break;
        case CmpInst::ICMP_SGE: r = x >= y; break;
        case CmpInst::ICMP_SLT: r = x < y; break;
        case CmpInst::ICMP_SLE: r = x <= y; break;
    }
    if(Z3_is_eq_ast(Z(), x, y)) r = r.simplify();
    if((x.is_app() && x.decl().decl_kind() == Z3_OP_ITE) || (y.is_app() && y.decl().decl_kind() == Z3_OP_ITE))
        r = r.simplify();
    return mkSym(r);
}

Val fcmp(int pred, const Val& a, const Val& b)
{
    if(a.k == V_UNDEF || b.k == V_UNDEF) return mkUndef(1);
    if(a.k == V_FP && b.k == V_FP) {
        double x = a.d, y = b.d;
        bool un = std::isnan(x) || std::isnan(y), r = false;
        switch(pred) {
            case CmpInst::FCMP_FALSE: r = false; break;
            case CmpInst::FCMP_TRUE: r = true; break;
            case CmpInst::FCMP_OEQ: r = x == y; break;
            case CmpInst::FCMP_OGT: r = x > y; break;
            case CmpInst::FCMP_OGE: r = x >= y; break;
            case CmpInst::FCMP_OLT: r = x < y; break;
            case CmpInst::FCMP_OLE: r = x <= y; break;
            case CmpInst::FCMP_ONE: r = !un && x != y; break;
            case CmpInst::FCMP_ORD: r = !un; break;
            case CmpInst::FCMP_UNO: r = un; break;
            case CmpInst::FCMP_UEQ: r = un || x == y; break;
            case CmpInst::FCMP_UGT: r = un || x > y; break;
            case CmpInst::FCMP_UGE: r = un || x >= y; break;
            case CmpInst::FCMP_ULT: r = un || x < y; break;
            case CmpInst::FCMP_ULE: r = un || x <= y; break;
            case CmpInst::FCMP_UNE: r = un || x != y; break;
        }
        return mkInt(r, 1);
    }
    z3::expr r(Z());
    if(g_fp == FP_IEEE) {
        z3::expr x = ieeex(a), y = ieeex(b);
        z3::context& c = Z();
        auto mk        = [&](Z3_ast t) { return z3::expr(c, t); };
        z3::expr un    = mk(Z3_mk_fpa_is_nan(c, x)) || mk(Z3_mk_fpa_is_nan(c, y));
        switch(pred) {
            case CmpInst::FCMP_FALSE: return mkInt(0, 1);
            case CmpInst::FCMP_TRUE: return mkInt(1, 1);
            case CmpInst::FCMP_OEQ: r = mk(Z3_mk_fpa_eq(c, x, y)); break;
            case CmpInst::FCMP_OGT: r = mk(Z3_mk_fpa_gt(c, x, y)); break;
            case CmpInst::FCMP_OGE: r = mk(Z3_mk_fpa_geq(c, x, y)); break;
            case CmpInst::FCMP_OLT: r = mk(Z3_mk_fpa_lt(c, x, y)); break;
            case CmpInst::FCMP_OLE: r = mk(Z3_mk_fpa_leq(c, x, y)); break;
            case CmpInst::FCMP_ONE: r = !un && !mk(Z3_mk_fpa_eq(c, x, y)); break;
            case CmpInst::FCMP_ORD: r = !un; break;
            case CmpInst::FCMP_UNO: r = un; break;
            case CmpInst::FCMP_UEQ: r = un || mk(Z3_mk_fpa_eq(c, x, y)); break;
            case CmpInst::FCMP_UGT: r = !mk(Z3_mk_fpa_leq(c, x, y)); break;
            case CmpInst::FCMP_UGE: r = !mk(Z3_mk_fpa_lt(c, x, y)); break;
            case CmpInst::FCMP_ULT: r = !mk(Z3_mk_fpa_geq(c, x, y)); break;
            case CmpInst::FCMP_ULE: r = !mk(Z3_mk_fpa_gt(c, x, y)); break;
            case CmpInst::FCMP_UNE: r = !mk(Z3_mk_fpa_eq(c, x, y)); break;
        }
        return mkSym(r.simplify());
    }
    switch(pred) {  // symbolic reals are never NaN
        case CmpInst::FCMP_FALSE:
        case CmpInst::FCMP_UNO: 
            if(a.k == V_FP && std::isnan(a.d)) return mkInt(pred == CmpInst::FCMP_UNO, 1);
            return mkInt(0, 1);
        case CmpInst::FCMP_TRUE:
        case CmpInst::FCMP_ORD: return mkInt(1, 1);
        default: break;
    }
    auto inf = [](const Val& v) { return v.k == V_FP && std::isinf(v.d); };
    if(inf(a) || inf(b)) {
        // finite (symbolic) against infinite
        Val fa = inf(a) ? a : mkFP(0, 64), fb = inf(b) ? b : mkFP(0, 64);
        return fcmp(pred, fa, fb);
    }
    z3::expr x = realx(a), y = realx(b);
    switch(pred) {
        case CmpInst::FCMP_OEQ:
        case CmpInst::FCMP_UEQ: r = x == y; break;
        case CmpInst::FCMP_ONE:
        case CmpInst::FCMP_UNE: r = x != y; break;
        case CmpInst::FCMP_OGT:
        case CmpInst::FCMP_UGT: r = x > y; break;
        case CmpInst::FCMP_OGE:
        case CmpInst::FCMP_UGE: r = x >= y; break;
        case CmpInst::FCMP_OLT:
        case CmpInst::FCMP_ULT: r = x < y; break;
        case CmpInst::FCMP_OLE:
        case CmpInst::FCMP_ULE: r = x <= y; break;
    }
    return mkSym(r.simplify());
}

// integer -> floating point
Val i2f(const Val& v, bool sg, unsigned w)
{
    if(v.k == V_UNDEF) return mkUndef(w);
    if(v.k == V_INT) return sg ? mkFP((double)sextw(v.i, v.w), w) : mkFP((double)v.i, w);
    if(g_fp == FP_IEEE) {
        z3::expr rm(Z(), Z3_mk_fpa_rne(Z()));
        return mkIeee(z3::expr(Z(), sg ? Z3_mk_fpa_to_fp_signed(Z(), rm, bvx1(v), fpsort(w))
                                       : Z3_mk_fpa_to_fp_unsigned(Z(), rm, bvx1(v), fpsort(w))), w);
    }
    z3::expr x = bvx(v);
    if(x.is_bool())
        return mkReal(z3::ite(x, Z().real_val(sg ? -1 : 1), Z().real_val(0)));
    // an ITE over constants becomes an ITE over reals
    z3::expr sx = x.simplify();
    vector<Cand> leaves;
    if(iteLeaves(sx, Z().bool_val(true), leaves)) {
        z3::expr r = i2fleaf(leaves.back().a, sg, v.w);
        for(int i = (int)leaves.size() - 2; i >= 0; i--)
            r = z3::ite(leaves[i].cond, i2fleaf(leaves[i].a, sg, v.w), r);
        return mkReal(r);
    }
    if(s->opts["i2f_opaque"] && s->conc.find(v.e.id()) == s->conc.end()) {
        for(auto& u : s->ufs)
            if(u.first == "i2f" && u.second.first.id() == v.e.id()) return mkReal(u.second.second.x());
        z3::expr r = freshReal("i2f");
        if(!sg) {
            bool pos = !feasible(x == Z().bv_val(0, v.w));
            s->assign[Z3_get_ast_id(Z(), r)] = E(Z().real_val(1));
            s->pc.push_back(E(pos ? r >= 1 : r >= 0));
        }
        s->ufs.push_back({"i2f", {v.e, E(r)}});
        return mkReal(r);
    }
    if(!sg && v.w > 8 && s->conc.find(v.e.id()) == s->conc.end() && feasible(z3::uge(x, Z().bv_val(256, v.w)))) {
        // too many values to enumerate: the sum of its bits
        z3::expr r = Z().real_val(0);
        for(unsigned i = 0; i < v.w; i++)
            r = r + z3::ite(sx.extract(i, i) == Z().bv_val(1, 1), real_of_double(std::ldexp(1., i)), Z().real_val(0));
        return mkReal(r.simplify());
    }
    uint64_t u = concretize(v);
    return sg ? mkFP((double)sextw(u, v.w), w) : mkFP((double)u, w);
}
z3::expr i2fleaf(uint64_t a, bool sg, unsigned w)
{
    return real_of_double(sg ? (double)sextw(a, w) : (double)a);
}

// complete case split over floor(x) for a symbolic real; returns the floor
// (num and den: x is num / den with den > 0, which makes the constraints linear)
int64_t splitFloor(const z3::expr& x, const string& tag, const z3::expr* num = nullptr, const z3::expr* den = nullptr)
{
    // register a fresh integer-valued variable bound to the floor by constraints
    for(auto& u : s->ufs)
        if(u.first == "floorval" && u.second.first.id() == E(x).id()) {
            uint64_t b = 0;
            Z3_get_numeral_uint64(Z(), u.second.second.x(), &b);
            return (int64_t)b;
        }
    auto floorOf = [&](const z3::expr& v) -> int64_t {
        if(!v.is_numeral()) {
            if(v.is_algebraic()) {
                string d = Z3_get_numeral_decimal_string(Z(), v, 20);
                return (int64_t)std::floor(strtod(d.c_str(), nullptr));
            }
            unsup("cannot evaluate real value");
        }
        z3::expr f = z3::expr(Z(), Z3_mk_real2int(Z(), v)).simplify();
        int64_t i;
        if(!Z3_get_numeral_int64(Z(), f, &i)) unsup("huge real value converted to integer");
        return i;
    };
    auto in = [&](int64_t k) {
        if(den)
            return *num >= Z().real_val(std::to_string(k).c_str()) * *den && *num < Z().real_val(std::to_string(k + 1).c_str()) * *den;
        return x >= Z().real_val(std::to_string(k).c_str()) && x < Z().real_val(std::to_string(k + 1).c_str());
    };
    int64_t k0    = floorOf(evalA(x));
    z3::expr excl = !in(k0);
    vector<pair<int64_t, shared_ptr<Assign>>> others;
    while(true) {
        shared_ptr<Assign> m;
        bool unk = false;
        if(!feasible(excl, &m, &unk)) break;
        if(unk) unsup("solver gave no answer in a floor split");
        Assign save = s->assign;
        applyModel(*s, m);
        int64_t k = floorOf(evalA(x));
        s->assign = save;
        others.push_back({k, m});
        excl = excl && !in(k);
        if(others.size() > 300) throw PathEnd{P_LIMIT, "limit", "too many integer parts in a conversion"};
    }
    for(auto& o : others) {
        SP n = forkState();
        n->pc.push_back(E(in(o.first)));
        applyModel(*n, o.second);
        n->ufs.push_back({"floorval", {E(x), E(Z().bv_val((uint64_t)o.first, 64))}});
        work.push_back(n);
    }
    if(!others.empty()) s->pc.push_back(E(in(k0)));
    s->ufs.push_back({"floorval", {E(x), E(Z().bv_val((uint64_t)k0, 64))}});
    return k0;
}

Val f2i(const Val& v, bool sg, unsigned w)
{
    if(v.k == V_UNDEF) return mkUndef(w);
    if(v.k == V_FP) {
        double t = std::trunc(v.d);
        bool ok  = sg ? (t >= -std::ldexp(1.0, w - 1) && t < std::ldexp(1.0, w - 1))
                     : (t >= 0 && t < std::ldexp(1.0, w));
        if(t == 0) ok = true;
        if(!ok)
            throw PathEnd{P_VIOL, "trap", "conversion of " + std::to_string(v.d) + " to an integer type that cannot represent it"};
        return sg ? mkInt((uint64_t)(int64_t)t, w) : mkInt((uint64_t)t, w);
    }
    if(g_fp == FP_IEEE) {
        z3::expr x = ieeex(v);
        z3::expr rm(Z(), Z3_mk_fpa_rtz(Z()));
        z3::expr bad(Z());
        // representable range check
        double lo = sg ? -std::ldexp(1.0, w - 1) - (w == 64 ? 0 : 1) : -1.0,
               hi = sg ? std::ldexp(1.0, w - 1) : std::ldexp(1.0, w);
        z3::expr L = Z().fpa_val(lo), Hh = Z().fpa_val(hi);
        z3::expr ok = (sg && w == 64 ? z3::expr(Z(), Z3_mk_fpa_geq(Z(), x, L)) : z3::expr(Z(), Z3_mk_fpa_gt(Z(), x, L))) &&
                      z3::expr(Z(), Z3_mk_fpa_lt(Z(), x, Hh));
        if(!branch(ok, [](State&) {}, [](State&) {}))
            throw PathEnd{P_VIOL, "trap", "conversion of an unrepresentable value to an integer"};
        return mkSym(z3::expr(Z(), sg ? Z3_mk_fpa_to_sbv(Z(), rm, x, w) : Z3_mk_fpa_to_ubv(Z(), rm, x, w)));
    }
    z3::expr x = realx(v);
    // Range check first, so that an unrepresentable value is reported as such
    z3::expr lo = sg ? x > real_of_double(-std::ldexp(1.0, w - 1)) - 1 : x > -1;
    z3::expr hi = x < real_of_double(sg ? std::ldexp(1.0, w - 1) : std::ldexp(1.0, w));
    if(!branch(lo && hi, [](State&) {}, [](State&) {}))
        throw PathEnd{P_VIOL, "trap", "conversion of an unrepresentable value to an integer"};
    int64_t k = splitFloor(x, "f2i");
    if(k < 0) {
        // truncation towards zero: exact integer k, or k+1
        z3::expr isint = x == Z().real_val(std::to_string(k).c_str());
        if(!branch(isint, [](State&) {}, [](State&) {})) k = k + 1;
    }
    return mkInt((uint64_t)k, w);
}

Val fneg(const Val& v)
{
    if(v.k == V_UNDEF) return v;
    if(v.k == V_FP) return mkFP(-v.d, v.w);
    if(v.k == V_IEEE) return mkIeee(z3::expr(Z(), Z3_mk_fpa_neg(Z(), v.e.x())), v.w);
    if(v.k == V_AGG) {
        Val r;
        r.k   = V_AGG;
        r.agg = std::make_shared<vector<Val>>();
        for(auto& x : *v.agg) r.agg->push_back(fneg(x));
        return r;
    }
    return mkReal(-realx(v));
}
Val fabsv(const Val& v)
{
    if(v.k == V_UNDEF) return v;
    if(v.k == V_FP) return mkFP(std::fabs(v.d), v.w);
    if(v.k == V_IEEE) {
        z3::expr x = v.e.x();
        return mkIeee(z3::expr(Z(), Z3_mk_fpa_abs(Z(), x)), v.w);
    }
    z3::expr x = realx(v);
    return mkReal(z3::ite(x < 0, -x, x));
}
Val roundlike(const string& f, const Val& v)
{
    if(v.k == V_UNDEF) return v;
    if(v.k == V_FP) {
        double x = v.d;
        if(f == "floor") return mkFP(std::floor(x), v.w);
        if(f == "ceil") return mkFP(std::ceil(x), v.w);
        if(f == "trunc") return mkFP(std::trunc(x), v.w);
        if(f == "round") return mkFP(std::round(x), v.w);
        return mkFP(std::nearbyint(x), v.w);
    }
    if(g_fp == FP_IEEE) {
        Z3_ast rm = f == "floor"   ? Z3_mk_fpa_rtn(Z())
                    : f == "ceil"  ? Z3_mk_fpa_rtp(Z())
                    : f == "trunc" ? Z3_mk_fpa_rtz(Z())
                    : f == "round" ? Z3_mk_fpa_rna(Z())
                                   : Z3_mk_fpa_rne(Z());
        z3::expr r(Z(), rm);
        return mkIeee(z3::expr(Z(), Z3_mk_fpa_round_to_integral(Z(), r, ieeex(v))), v.w);
    }
    z3::expr x = realx(v);
    if(f == "floor") return mkFP((double)splitFloor(x, f), 64);
    if(f == "ceil") return mkFP(-(double)splitFloor(-x, f), 64);
    if(f == "trunc") {
        int64_t k = splitFloor(x, f);
        if(k < 0 && !branch(x == Z().real_val(std::to_string(k).c_str()), [](State&) {}, [](State&) {})) k++;
        return mkFP((double)k, 64);
    }
    if(f == "round") {
        // half away from zero
        z3::expr h = x + Z().real_val(1, 2);
        if(branch(x >= 0, [](State& n) {}, [](State& n) {}))
            return mkFP((double)splitFloor(h, f), 64);
        z3::expr g = -x + Z().real_val(1, 2);
        return mkFP(-(double)splitFloor(g, f), 64);
    }
    unsup("rounding function " + f);
}

// uninterpreted library function with contracts
Val libm(const string& f, const vector<Val>& a)
{
    bool conc = true;
    for(auto& v : a) {
        if(v.k == V_UNDEF) return mkUndef(64);
        if(v.k != V_FP) conc = false;
    }
    if(conc) {
        double x = a[0].d, y = a.size() > 1 ? a[1].d : 0;
        unsigned w = a[0].w;
        if(f == "sin") return mkFP(std::sin(x), w);
        if(f == "cos") return mkFP(std::cos(x), w);
        if(f == "tan") return mkFP(std::tan(x), w);
        if(f == "exp") return mkFP(std::exp(x), w);
        if(f == "log") return mkFP(std::log(x), w);
        if(f == "sqrt") return mkFP(std::sqrt(x), w);
        if(f == "pow") return mkFP(std::pow(x, y), w);
        if(f == "hypot") return mkFP(std::hypot(x, y), w);
        if(f == "atan2") return mkFP(std::atan2(x, y), w);
        if(f == "acos") return mkFP(std::acos(x), w);
        if(f == "asin") return mkFP(std::asin(x), w);
        if(f == "atan") return mkFP(std::atan(x), w);
        if(f == "fmod") return mkFP(std::fmod(x, y), w);
        if(f == "remainder") return mkFP(std::remainder(x, y), w);
        if(f == "fmax") return mkFP(std::fmax(x, y), w);
        if(f == "fmin") return mkFP(std::fmin(x, y), w);
        if(f == "log10") return mkFP(std::log10(x), w);
        if(f == "log2") return mkFP(std::log2(x), w);
        if(f == "cbrt") return mkFP(std::cbrt(x), w);
        if(f == "fdim") return mkFP(std::fdim(x, y), w);
        unsup("library function " + f);
    }
    if(g_fp == FP_IEEE) {
        if(f == "sqrt") {
            z3::expr rm(Z(), Z3_mk_fpa_rne(Z()));
            return mkIeee(z3::expr(Z(), Z3_mk_fpa_sqrt(Z(), rm, ieeex(a[0]))), a[0].w);
        }
        unsup("library function " + f + " of a symbolic value");
    }
    z3::expr x = realx(a[0]);
    if(f == "fmax" || f == "fmin") {
        z3::expr y = realx(a[1]);
        return mkReal(f == "fmax" ? z3::ite(x < y, y, x) : z3::ite(y < x, y, x));
    }
    if(f == "pow" && a[1].k == V_FP && a[1].d == 2) return withErr(x * x, true);
    if(f == "pow" && a[1].k == V_FP && a[1].d == 3) return withErr(x * x * x, true);
    if(f == "pow" && a[1].k == V_FP && a[1].d == 4) return withErr(x * x * x * x, true);
    if(f == "pow" && a[1].k == V_FP && a[1].d == 1) return a[0];
    if(f == "fmod") {
        if(a[1].k == V_FP && a[1].d == 0) unsup("symbolic fmod");
        // x - m*trunc(x/m), exact in IEEE arithmetic; the sign of m does not matter
        z3::expr m = realx(a[1]);
        if(a[1].k == V_FP) {
            if(a[1].d < 0) m = -m;
        } else if(!branch(m > 0, [](State&) {}, [](State&) {})) {
            if(feasible(m == 0)) unsup("fmod by a symbolic value that may be zero");
            m = -m;
        }
        m          = m.simplify();
        z3::expr q = (x / m).simplify();
        int64_t k  = splitFloor(q, f, &x, &m);
        if(k < 0 && !branch(x == m * Z().real_val(std::to_string(k).c_str()), [](State&) {}, [](State&) {})) k++;
        return mkReal(x - m * Z().real_val(std::to_string(k).c_str()));
    }
    x          = x.simplify();
    for(auto& u : s->ufs)
        if(u.first == f && Z3_is_eq_ast(Z(), u.second.first.x(), x)) return mkReal(u.second.second.x());
    z3::expr r = freshReal(f);
    if(f == "sin" || f == "cos") {
        s->pc.push_back(E(r >= -1 && r <= 1));
        for(auto& u : s->ufs)
            if(u.first == f) s->pc.push_back(E(z3::implies(u.second.first.x() == x, u.second.second.x() == r)));
        s->ufs.push_back({f, {E(x), E(r)}});
        // keep the assignment consistent
        refit();
        return mkReal(r);
    }
    if(f == "sqrt") {
        if(feasible(x < 0)) {
            if(!branch(x >= 0, [](State&) {}, [](State&) {})) unsup("square root of a negative value");
        }
        s->pc.push_back(E(r >= 0 && r * r == x));
        s->ufs.push_back({f, {E(x), E(r)}});
        refit();
        return mkReal(r);
    }
    if(f == "hypot") {
        z3::expr y = realx(a[1]);
        s->pc.push_back(E(r >= 0 && r * r == x * x + y * y));
        refit();
        return mkReal(r);
    }
    unsup("library function " + f + " of a symbolic value");
}
// re-solve the complete path condition (after constraints on fresh variables were added)
void refit()
{
    bool ok = true;
    for(auto& c : s->pc)
        if(!evalA(c.x()).is_true()) {
            ok = false;
            break;
        }
    if(ok) return;
    QRes r = query(s->pc);
    if(r.r == z3::unsat) throw PathEnd{P_INFEASIBLE, "", ""};
    if(r.r == z3::unknown) unsup("solver gave no answer for library function constraints");
    applyModel(*s, r.model);
}

Val minmax(const string& f, const Val& a, const Val& b)
{
    int p = f == "umax" ? CmpInst::ICMP_UGT : f == "umin" ? CmpInst::ICMP_ULT
          : f == "smax" ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT;
    if(a.k == V_AGG) {
        Val r;
        r.k   = V_AGG;
        r.agg = std::make_shared<vector<Val>>();
        for(size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(minmax(f, (*a.agg)[i], (*b.agg)[i]));
        return r;
    }
    Val c = icmp(p, a, b);
    if(c.k == V_UNDEF) return mkUndef(a.w);
    if(c.k == V_INT) return c.i ? a : b;
    return iteVal(bvx(c), a, b);
}

// ---- control --------------------------------------------------------------------------------
void jump(State& st, int to)
{
    Frame& f = st.st.back();
    f.prev   = f.blk;
    f.blk    = to;
    f.ip     = 0;
    enterBlock(st);
}
void enterBlock(State& st)
{
    Frame& f  = st.st.back();
    DBlock& b = f.f->blocks[f.blk];
    if(!b.visited) visit(b);
    if(b.phis.empty()) return;
    vector<Val> tmp;
    tmp.reserve(b.phis.size());
    for(auto& p : b.phis) {
        auto it = p.in.find(f.prev);
        if(it == p.in.end()) unsup("phi without incoming edge");
        tmp.push_back(it->second.slot >= 0 ? f.regs[it->second.slot] : it->second.cv);
    }
    for(size_t i = 0; i < tmp.size(); i++) f.regs[b.phis[i].dst] = std::move(tmp[i]);
}
void visit(DBlock& b)
{
    b.visited = true;
    for(auto& d : b.insts) {
        const DILocation* L = d.I->getDebugLoc();
        while(L) {
            string fn = L->getFilename().str();
            if(fn.find("ieompp") != string::npos || fn.find("/repo/") != string::npos) {
                auto p = fn.find("/repo/");
                if(p != string::npos) fn = fn.substr(p + 6);
                if(fn.find("/verif/") == string::npos) {
                    g_functions.insert(fn + ":" + L->getScope()->getSubprogram()->getName().str());
                    g_lines.insert({fn, L->getLine()});
                }
            }
            L = L->getInlinedAt();
        }
    }
}

void pushFrame(DFunc* f, const vector<Val>& args, int retslot, int normal)
{
    if(s->st.size() > 400) throw PathEnd{P_LIMIT, "limit", "call depth"};
    Frame nf;
    nf.f           = f;
    nf.retslot     = retslot;
    nf.normal_dest = normal;
    nf.regs.resize(f->nslots);
    for(size_t i = 0; i < args.size() && i < f->F->arg_size(); i++) nf.regs[i] = args[i];
    // byval arguments
    unsigned i = 0;
    for(auto& a : f->F->args()) {
        if(a.hasByValAttr()) {
            uint64_t n   = DL->getTypeAllocSize(a.getParamByValType());
            uint64_t mem = allocate(n, 1, "byval");
            copyBytes(mem, caddr(nf.regs[i]), n);
            nf.regs[i] = mkInt(mem, 64);
            nf.allocas.push_back(mem);
        }
        i++;
    }
    s->st.push_back(std::move(nf));
    s->st.back().prev = -1;
    s->st.back().blk  = 0;
    s->st.back().ip   = 0;
    enterBlock(*s);
}

void doReturn(const Val& v)
{
    Frame f = std::move(s->st.back());
    s->st.pop_back();
    for(uint64_t a : f.allocas) s->mem.erase(a);
    if(f.parmark) {
        parNext();
        return;
    }
    if(s->st.empty()) throw PathEnd{P_OK, "", ""};
    Frame& c = s->st.back();
    if(f.retslot >= 0) c.regs[f.retslot] = v;
    if(f.normal_dest >= 0)
        jump(*s, f.normal_dest);
    else if(f.retslot != -3)
        c.ip++;
}

// ---- OpenMP: threads executed one after the other, access sets recorded ---------------------
void parStart(DFunc* fn, const vector<Val>& args)
{
    Par& p = s->par;
    if(p.active) {  // nested region: executed by the encountering thread alone
        uint64_t z = allocate(4, 1, "omp.tid", true);
        vector<Val> a{mkInt(z, 64), mkInt(z, 64)};
        a.insert(a.end(), args.begin(), args.end());
        pushFrame(fn, a, -1, -1);
        return;
    }
    // the order in which the threads run is part of the input (chosen before the state changes)
    // one region at a time gets an arbitrary schedule, the others are split evenly
    // a team may be smaller than what was asked for
    const unsigned most = s->omp_push ? s->omp_push : s->omp_set ? s->omp_set : g_threads;
    const unsigned team = std::min(most, g_threads);
    uint64_t perm = 0;
    if(team > 1 && !s->focus && ompChoice("omp_vary" + std::to_string(s->regions + 1), 0, 1)) s->focus = s->regions + 1;
    if(team > 1 && s->focus == s->regions + 1)
        perm = ompChoice("omp_order" + std::to_string(s->regions + 1), 0, team == 2 ? 1 : team == 3 ? 5 : 0);
    s->omp_push = 0;
    p        = Par();
    p.active = team > 1;
    p.T      = team;
    p.fn     = fn;
    p.args   = args;
    p.region = ++s->regions;
    p.base   = s->st.size();
    p.loopno.assign(p.T, 0);
    p.status.assign(p.T, 0);
    p.parked.resize(p.T);
    for(unsigned i = 0; i < p.T; i++) p.order.push_back(i);
    for(uint64_t i = 0; i < perm; i++) std::next_permutation(p.order.begin(), p.order.end());
    p.tid = p.order[0];
    parRun();
}
// a fresh 64-bit input in [lo, hi], split into all its values
uint64_t ompChoice(const string& nm, uint64_t lo, uint64_t hi)
{
    z3::expr v = Z().bv_const(nm.c_str(), 64);
    bool have  = false;
    for(auto& in : s->inputs)
        if(in.name == nm) have = true;
    if(!have) {
        regVar(v);
        s->inputs.push_back({nm, 'u', E(v)});
        s->pc.push_back(E(z3::ule(v, Z().bv_val(hi, 64)) && z3::uge(v, Z().bv_val(lo, 64))));
        s->assign[Z3_get_ast_id(Z(), v)] = E(Z().bv_val(lo, 64));
    }
    Val vv;
    vv.k = V_SYM;
    vv.w = 64;
    vv.e = E(v);
    return concretize(vv);
}
void parRun()
{
    Par& p = s->par;
    uint64_t z = allocate(4, 1, "omp.tid", true);
    Obj* o = access(z, 4, true);
    storeScalar(o, 0, 4, mkInt(p.tid, 32));
    vector<Val> a{mkInt(z, 64), mkInt(z, 64)};
    a.insert(a.end(), p.args.begin(), p.args.end());
    pushFrame(p.fn, a, -1, -1);
    s->st.back().parmark = 1;
    s->st.back().allocas.push_back(z);
}
// two accesses of different threads to one byte without a barrier in between, one writing, not both synchronised
void checkRaces()
{
    Par& p = s->par;
    for(auto& kv : p.acc) {
        const Access& a = kv.second;
        if(!(a.wr[0] | a.wr[1])) continue;
        bool conflict = false;
        for(unsigned i = 0; i < p.T && !conflict; i++)
            for(unsigned j = 0; j < p.T && !conflict; j++) {
                if(i == j) continue;
                bool wi0 = a.wr[0] >> i & 1, wi1 = a.wr[1] >> i & 1;
                bool j0 = (a.wr[0] | a.rd[0]) >> j & 1, j1 = (a.wr[1] | a.rd[1]) >> j & 1;
                if((wi0 && (j0 || j1)) || (wi1 && j0)) conflict = true;
            }
        if(conflict) {
            Obj* o = findObj(kv.first, false);
            report("race", "two threads access byte " +
                               std::to_string(o ? kv.first - o->base : 0) + " of '" +
                               (o ? o->name : string("?")) + "' without synchronisation, at least one writing, in " + p.fn->name);
            break;
        }
    }
    p.acc.clear();
}
// switch to the next thread; at the end of a round either all threads are at a barrier or all are finished.
// Returns false when the region is over.
bool parSwitch()
{
    Par& p = s->par;
    while(true) {
        if(++p.pos == p.T) {
            checkRaces();
            unsigned fin = 0;
            for(int x : p.status) fin += x == 2;
            if(fin == p.T) return false;
            if(fin) throw PathEnd{P_VIOL, "deadlock", "a thread leaves the parallel region while another one waits at a barrier"};
            p.pos = 0;
        }
        p.tid = p.order[p.pos];
        if(p.status[p.tid] == 0)
            parRun();
        else {
            for(auto& f : p.parked[p.tid]) s->st.push_back(std::move(f));
            p.parked[p.tid].clear();
        }
        return true;
    }
}
void parNext()
{
    Par& p = s->par;
    if(p.active) {
        p.status[p.tid] = 2;
        if(parSwitch()) return;
    }
    p.active = false;
    p.acc.clear();
    // return to the instruction after __kmpc_fork_call
    s->st.back().ip++;
}
// the instruction after the call has been set already
void parBarrier()
{
    Par& p = s->par;
    if(p.locked) throw PathEnd{P_VIOL, "deadlock", "barrier within a critical section"};
    p.status[p.tid] = 1;
    p.parked[p.tid].assign(s->st.begin() + p.base, s->st.end());
    s->st.resize(p.base);
    parSwitch();
}

bool ompStaticInit(vector<Val>& a, unsigned bytes)
{
    Par& p = s->par;
    // a: loc, gtid, sched, plast, plower, pupper, pstride, incr, chunk
    uint64_t plast = caddr(a[3]), plo = caddr(a[4]), pup = caddr(a[5]);
    Type* t        = Type::getIntNTy(lctx, bytes * 8);
    uint64_t lb    = concretize(loadTyped(plo, t)), ub = concretize(loadTyped(pup, t));
    uint64_t inc   = concretize(a[7]);
    if(!p.active || p.T <= 1) {
        Obj* o = access(plast, 4, true);
        storeScalar(o, plast - o->base, 4, mkInt(1, 32));
        return true;
    }
    uint64_t n = (ub - lb) / inc + 1;
    if((int64_t)(ub - lb) < 0) n = 0;
    int ln = p.loopno[p.tid];
    if(!p.splits.count(ln)) {
        // T-1 ordered split points, part of the input
        vector<uint64_t> sp;
        uint64_t prev = 0;
        for(unsigned k = 0; k + 1 < p.T; k++) {
            if(s->focus != p.region)
                prev = n * (k + 1) / p.T;
            else
                prev = ompChoice("omp_split" + std::to_string(p.region) + "_" + std::to_string(ln) + "_" + std::to_string(k), prev, n);
            sp.push_back(prev);
        }
        p.splits[ln] = sp;
    }
    auto sp     = p.splits[ln];
    uint64_t b0 = p.tid == 0 ? 0 : sp[p.tid - 1], b1 = p.tid + 1 == p.T ? n : sp[p.tid];
    p.loopno[p.tid]++;
    uint64_t nlo = lb + b0 * inc, nup = lb + b1 * inc - inc;
    if(b1 <= b0) {
        nlo = ub + inc;
        nup = ub;
    }
    uint64_t pst = caddr(a[6]);
    Obj* o       = access(pst, bytes, true);
    storeScalar(o, pst - o->base, bytes, mkInt(ub - lb + inc, bytes * 8));
    o = access(plo, bytes, true);
    storeScalar(o, plo - o->base, bytes, mkInt(nlo, bytes * 8));
    o = access(pup, bytes, true);
    storeScalar(o, pup - o->base, bytes, mkInt(nup, bytes * 8));
    o = access(plast, 4, true);
    storeScalar(o, plast - o->base, 4, mkInt(b1 == n && b1 > b0, 32));
    return true;
}

// ---- one instruction ------------------------------------------------------------------------
void step()
{
    Frame& f = s->st.back();
    DInst& d = f.f->blocks[f.blk].insts[f.ip];
    S.instrs++;
    if(++s->instrs > g_maxinstr)
        throw PathEnd{P_VIOL, "nontermination", "no result after " + std::to_string(g_maxinstr) + " instructions"};
    switch(d.op) {
        case Instruction::Br:
            if(d.succ.size() == 1) {
                jump(*s, d.succ[0]);
                return;
            } else {
                Val c = get(d.ops[0]);
                bool t;
                if(c.k == V_INT)
                    t = c.i & 1;
                else if(c.k == V_UNDEF)
                    throw PathEnd{P_VIOL, "uninit", "branch depends on an uninitialised value"};
                else {
                    int t1 = d.succ[0], t0 = d.succ[1];
                    t = branch(bvx(c), [&](State& n) { jump(n, t1); }, [&](State& n) { jump(n, t0); });
                }
                jump(*s, t ? d.succ[0] : d.succ[1]);
                return;
            }
        case Instruction::Switch: {
            Val c = get(d.ops[0]);
            if(c.k == V_SYM && !c.e.x().is_bool() && !s->conc.count(c.e.id())) {
                // one fork per target instead of one per value
                z3::expr x = c.e.x();
                std::map<int, z3::expr> to;
                for(auto& k : d.cases) {
                    if(k.second == d.succ[0]) continue;
                    z3::expr q = x == Z().bv_val((uint64_t)k.first, c.w);
                    auto it    = to.find(k.second);
                    if(it == to.end())
                        to.emplace(k.second, q);
                    else
                        it->second = it->second || q;
                }
                for(auto& t : to)
                    if(branch(t.second, [](State&) {}, [](State&) {})) {
                        jump(*s, t.first);
                        return;
                    }
                jump(*s, d.succ[0]);
                return;
            }
            uint64_t v = concretize(c);
            for(auto& k : d.cases)
                if(k.first == v) {
                    jump(*s, k.second);
                    return;
                }
            jump(*s, d.succ[0]);
            return;
        }
        case Instruction::Ret: {
            Val v;
            if(!d.ops.empty()) v = get(d.ops[0]);
            doReturn(v);
            return;
        }
        case Instruction::Unreachable:
            throw PathEnd{P_VIOL, "trap", "unreachable code reached (undefined behaviour)"};
        case Instruction::Alloca: {
            auto* ai   = cast<AllocaInst>(d.I);
            uint64_t n = DL->getTypeAllocSize(ai->getAllocatedType());
            uint64_t k = concretize(get(d.ops[0]));
            uint64_t a = allocate(n * k, 1, "local in " + f.f->name.substr(0, 60));
            s->st.back().allocas.push_back(a);
            set(d, mkInt(a, 64));
            break;
        }
        case Instruction::Load: {
            Val v = load(get(d.ops[0]), d.ty);
            set(d, v);
            break;
        }
        case Instruction::Store: {
            Val v = get(d.ops[0]);
            store(get(d.ops[1]), cast<StoreInst>(d.I)->getValueOperand()->getType(), v);
            break;
        }
        case Instruction::GetElementPtr: {
            Val b = get(d.ops[0]);
            if(b.k == V_AGG) unsup("vector gep");
            if(d.goff) b = binop(Instruction::Add, b, mkInt((uint64_t)d.goff, 64), 64);
            for(auto& gi : d.gidx) {
                Val x = get(d.ops[gi.first]);
                if(x.w < 64 && x.k != V_UNDEF) x = extTo(x, 64, true);
                x = binop(Instruction::Mul, x, mkInt((uint64_t)gi.second, 64), 64);
                b = binop(Instruction::Add, b, x, 64);
            }
            set(d, b);
            break;
        }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul:
        case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem:
        case Instruction::SRem: case Instruction::Shl: case Instruction::LShr:
        case Instruction::AShr: case Instruction::And: case Instruction::Or:
        case Instruction::Xor: case Instruction::FAdd: case Instruction::FSub:
        case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
            Val v = binop(d.op, get(d.ops[0]), get(d.ops[1]), d.w);
            set(d, d.ty->isFloatTy() ? narrowToFloat(v) : v);
            break;
        }
        case Instruction::FNeg: set(d, fneg(get(d.ops[0]))); break;
        case Instruction::ICmp: set(d, icmp(d.pred, get(d.ops[0]), get(d.ops[1]))); break;
        case Instruction::FCmp: set(d, fcmp(d.pred, get(d.ops[0]), get(d.ops[1]))); break;
        case Instruction::Trunc: {
            Val v = get(d.ops[0]);
            set(d, truncTo(v, d.w));
            break;
        }
        case Instruction::ZExt: set(d, extTo(get(d.ops[0]), d.w, false)); break;
        case Instruction::SExt: set(d, extTo(get(d.ops[0]), d.w, true)); break;
        case Instruction::PtrToInt:
        case Instruction::IntToPtr: {
            Val v = get(d.ops[0]);
            if(v.k == V_INT || v.k == V_SYM) {
                if(v.w < d.w) v = extTo(v, d.w, false);
                else if(v.w > d.w) v = truncTo(v, d.w);
            }
            set(d, v);
            break;
        }
        case Instruction::BitCast: {
            Val v = get(d.ops[0]);
            if(v.k == V_AGG || d.ty->isVectorTy()) {
                if(d.ty == d.I->getOperand(0)->getType()) {
                    set(d, v);
                    break;
                }
                // through memory
                uint64_t m = allocate(DL->getTypeStoreSize(d.ty), 1, "bitcast");
                storeTyped(m, d.I->getOperand(0)->getType(), v);
                Val r = loadTyped(m, d.ty);
                s->mem.erase(m);
                set(d, r);
                break;
            }
            if(v.k == V_INT && (d.ty->isDoubleTy())) v = mkFP(bitsToD(v.i), 64);
            else if(v.k == V_INT && d.ty->isFloatTy()) {
                uint32_t u = (uint32_t)v.i;
                float fl;
                memcpy(&fl, &u, 4);
                v = mkFP(fl, 32);
            } else if(v.k == V_FP && d.ty->isIntegerTy())
                v = mkInt(fpbits(v), d.w);
            else if(v.k == V_IEEE && d.ty->isIntegerTy())
                v = mkSym(z3::expr(Z(), Z3_mk_fpa_to_ieee_bv(Z(), v.e.x())));
            else if(v.k == V_SYM && (d.ty->isDoubleTy() || d.ty->isFloatTy())) {
                if(g_fp != FP_IEEE) unsup("symbolic bits reinterpreted as floating point");
                v = mkIeee(z3::expr(Z(), Z3_mk_fpa_to_fp_bv(Z(), v.e.x(), fpsort(d.w))), d.w);
            }
            set(d, v);
            break;
        }
        case Instruction::UIToFP: {
            Val v = i2f(get(d.ops[0]), false, d.w);
            set(d, d.ty->isFloatTy() ? narrowToFloat(v) : v);
            break;
        }
        case Instruction::SIToFP: {
            Val v = i2f(get(d.ops[0]), true, d.w);
            set(d, d.ty->isFloatTy() ? narrowToFloat(v) : v);
            break;
        }
        case Instruction::FPToUI: set(d, f2i(get(d.ops[0]), false, d.w)); break;
        case Instruction::FPToSI: set(d, f2i(get(d.ops[0]), true, d.w)); break;
        case Instruction::FPExt:
        case Instruction::FPTrunc: {
            Val v = get(d.ops[0]);
            if(v.k == V_FP) {
                if(d.op == Instruction::FPTrunc) S.narrowed++;
                v = mkFP(v.d, d.w);
            } else if(v.k == V_IEEE) {
                z3::expr rm(Z(), Z3_mk_fpa_rne(Z()));
                v = mkIeee(z3::expr(Z(), Z3_mk_fpa_to_fp_float(Z(), rm, v.e.x(), fpsort(d.w))), d.w);
            } else if(d.op == Instruction::FPTrunc && v.k == V_REAL)
                v = narrowToFloat(v);
            set(d, v);
            break;
        }
        case Instruction::Select: {
            Val c = get(d.ops[0]), a = get(d.ops[1]), b = get(d.ops[2]);
            if(c.k == V_INT)
                set(d, c.i & 1 ? a : b);
            else if(c.k == V_UNDEF)
                set(d, mkUndef(d.w));
            else if(c.k == V_AGG)
                unsup("vector select");
            else {
                z3::expr cx = bvx(c).simplify();
                if(cx.is_true() || cx.is_false())
                    set(d, cx.is_true() ? a : b);
                else if(d.w == 1 && (a.k == V_UNDEF || b.k == V_UNDEF))
                    set(d, iteVal(cx, a, b));
                else if(d.w == 1) {
                    z3::expr xa = bvx(a), xb = bvx(b);
                    set(d, mkSym(z3::ite(cx, xa, xb).simplify()));
                } else
                    set(d, iteVal(cx, a, b));
            }
            break;
        }
        case Instruction::ExtractValue: {
            Val v = get(d.ops[0]);
            for(unsigned i : cast<ExtractValueInst>(d.I)->indices()) {
                if(v.k != V_AGG) unsup("extractvalue");
                Val t = (*v.agg)[i];
                v     = t;
            }
            set(d, v);
            break;
        }
        case Instruction::InsertValue: {
            Val v = get(d.ops[0]), x = get(d.ops[1]);
            if(v.k != V_AGG) v = undefOf(d.ty);
            ArrayRef<unsigned> idx = cast<InsertValueInst>(d.I)->getIndices();
            set(d, insertAt(v, idx, 0, x));
            break;
        }
        case Instruction::ExtractElement: {
            Val v = get(d.ops[0]);
            uint64_t i = concretize(get(d.ops[1]));
            if(v.k != V_AGG || i >= v.agg->size()) unsup("extractelement");
            Val t = (*v.agg)[i];
            set(d, t);
            break;
        }
        case Instruction::InsertElement: {
            Val v = get(d.ops[0]), x = get(d.ops[1]);
            uint64_t i = concretize(get(d.ops[2]));
            if(v.k != V_AGG) v = undefOf(d.ty);
            Val r = v;
            r.agg = std::make_shared<vector<Val>>(*v.agg);
            (*r.agg)[i] = x;
            set(d, r);
            break;
        }
        case Instruction::ShuffleVector: {
            auto* sv = cast<ShuffleVectorInst>(d.I);
            Val a = get(d.ops[0]), b = get(d.ops[1]);
            unsigned n0 = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements();
            if(a.k != V_AGG) a = undefOf(sv->getOperand(0)->getType());
            if(b.k != V_AGG) b = undefOf(sv->getOperand(0)->getType());
            Val r;
            r.k   = V_AGG;
            r.agg = std::make_shared<vector<Val>>();
            for(int m : sv->getShuffleMask())
                r.agg->push_back(m < 0 ? mkUndef(widthOf(d.ty->getScalarType()))
                                 : (unsigned)m < n0 ? (*a.agg)[m] : (*b.agg)[m - n0]);
            set(d, r);
            break;
        }
        case Instruction::Freeze: {
            Val v = get(d.ops[0]);
            if(v.k == V_UNDEF && d.w && d.ty->isIntegerTy()) v = mkSym(freshBV(d.w, "frz"));
            set(d, v);
            break;
        }
        case Instruction::AtomicRMW: {
            auto* r    = cast<AtomicRMWInst>(d.I);
            Val p = get(d.ops[0]), x = get(d.ops[1]);
            s->par.locked++;
            Val old = load(p, d.ty), nv;
            switch(r->getOperation()) {
                case AtomicRMWInst::Add: nv = binop(Instruction::Add, old, x, d.w); break;
                case AtomicRMWInst::Sub: nv = binop(Instruction::Sub, old, x, d.w); break;
                case AtomicRMWInst::And: nv = binop(Instruction::And, old, x, d.w); break;
                case AtomicRMWInst::Or: nv = binop(Instruction::Or, old, x, d.w); break;
                case AtomicRMWInst::Xor: nv = binop(Instruction::Xor, old, x, d.w); break;
                case AtomicRMWInst::Xchg: nv = x; break;
                case AtomicRMWInst::FAdd: nv = fbin(Instruction::FAdd, old, x); break;
                case AtomicRMWInst::FSub: nv = fbin(Instruction::FSub, old, x); break;
                default: unsup("atomicrmw");
            }
            store(p, d.ty, nv);
            s->par.locked--;
            set(d, old);
            break;
        }
        case Instruction::AtomicCmpXchg: {
            Val p = get(d.ops[0]), cmp = get(d.ops[1]), nv = get(d.ops[2]);
            Type* t = d.I->getOperand(1)->getType();
            s->par.locked++;
            Val old = load(p, t);
            Val eq;
            if(old.k == V_REAL || cmp.k == V_REAL) {
                // same symbolic bits: the exchange always succeeds in a sequential execution
                if(old.k == V_REAL && cmp.k == V_REAL && old.e.id() == cmp.e.id())
                    eq = mkInt(1, 1);
                else
                    unsup("compare-exchange on symbolic floating-point bits");
            } else
                eq = icmp(CmpInst::ICMP_EQ, old, cmp);
            if(eq.k != V_INT) unsup("symbolic compare-exchange");
            if(eq.i) store(p, t, nv);
            s->par.locked--;
            Val r;
            r.k   = V_AGG;
            r.agg = std::make_shared<vector<Val>>(vector<Val>{old, eq});
            set(d, r);
            break;
        }
        case Instruction::Fence: break;
        case Instruction::Call:
        case Instruction::Invoke: call(d); return;
        default: unsup(string("instruction ") + d.I->getOpcodeName());
    }
    s->st.back().ip++;
}

Val insertAt(const Val& v, ArrayRef<unsigned> idx, unsigned k, const Val& x)
{
    Val r = v;
    r.agg = std::make_shared<vector<Val>>(*v.agg);
    if(k + 1 == idx.size())
        (*r.agg)[idx[k]] = x;
    else
        (*r.agg)[idx[k]] = insertAt((*v.agg)[idx[k]], idx, k + 1, x);
    return r;
}

void next(DInst& d)
{
    if(d.op == Instruction::Invoke)
        jump(*s, d.succ[0]);
    else
        s->st.back().ip++;
}

void call(DInst& d)
{
    vector<Val> args;
    unsigned na = cast<CallBase>(d.I)->arg_size();
    for(unsigned i = 0; i < na; i++) args.push_back(get(d.ops[i]));
    Function* F = d.callee;
    if(!F) {
        if(cast<CallBase>(d.I)->isInlineAsm()) {
            auto* ia = cast<InlineAsm>(cast<CallBase>(d.I)->getCalledOperand());
            if(ia->getAsmString().empty()) {
                next(d);
                return;
            }
            unsup("inline assembly");
        }
        Val fp     = get(d.ops[na]);
        uint64_t a = concretize(fp);
        auto it    = faddr.find(a);
        if(it == faddr.end()) throw PathEnd{P_VIOL, "memory", "call through an invalid function pointer"};
        F = it->second;
    }
    if(d.isIntr) {
        intrinsic(d, args);
        return;
    }
    auto h = ext.find(F->getName().str());
    if(h != ext.end() && (F->isDeclaration() || F->getName().startswith("vp_"))) {
        if(h->second(*this, d, args)) {
            next(d);
            return;
        }
        return;  // handler arranged control itself
    }
    if(F->isDeclaration()) {
        if(external(d, F, args)) next(d);
        return;
    }
    int normal = d.op == Instruction::Invoke ? d.succ[0] : -1;
    pushFrame(decode(F), args, d.dst, normal);
}

string cstr(const Val& v)
{
    uint64_t a = caddr(v);
    string r;
    while(true) {
        Obj* o = access(a, 1, false);
        Val c  = loadScalar(o, a - o->base, 1, Type::getInt8Ty(lctx));
        if(c.k != V_INT) unsup("symbolic string");
        if(c.i == 0) break;
        r += (char)c.i;
        a++;
        if(r.size() > 4000) unsup("long string");
    }
    return r;
}

void intrinsic(DInst& d, vector<Val>& a)
{
    switch(d.iid) {
        case Intrinsic::memcpy:
        case Intrinsic::memmove:
        case Intrinsic::memcpy_inline: {
            uint64_t n = concretize(a[2]);
            if(n) {
                uint64_t x = caddr(a[0]), y = caddr(a[1]);
                copyBytes(x, y, n);
            }
            break;
        }
        case Intrinsic::memset: {
            uint64_t n = concretize(a[2]);
            if(n) memsetv(caddr(a[0]), a[1], n);
            break;
        }
        case Intrinsic::umax: set(d, minmax("umax", a[0], a[1])); break;
        case Intrinsic::umin: set(d, minmax("umin", a[0], a[1])); break;
        case Intrinsic::smax: set(d, minmax("smax", a[0], a[1])); break;
        case Intrinsic::smin: set(d, minmax("smin", a[0], a[1])); break;
        case Intrinsic::abs: {
            Val neg = icmp(CmpInst::ICMP_SLT, a[0], mkInt(0, a[0].w));
            Val m   = binop(Instruction::Sub, mkInt(0, a[0].w), a[0], a[0].w);
            if(neg.k == V_UNDEF)
                set(d, mkUndef(d.w));
            else if(neg.k == V_INT)
                set(d, neg.i ? m : a[0]);
            else
                set(d, iteVal(bvx(neg), m, a[0]));
            break;
        }
        case Intrinsic::uadd_with_overflow:
        case Intrinsic::usub_with_overflow:
        case Intrinsic::umul_with_overflow:
        case Intrinsic::sadd_with_overflow:
        case Intrinsic::ssub_with_overflow:
        case Intrinsic::smul_with_overflow: {
            unsigned w = a[0].w;
            bool sg = d.iid == Intrinsic::sadd_with_overflow || d.iid == Intrinsic::ssub_with_overflow ||
                      d.iid == Intrinsic::smul_with_overflow;
            unsigned op = (d.iid == Intrinsic::uadd_with_overflow || d.iid == Intrinsic::sadd_with_overflow) ? Instruction::Add
                        : (d.iid == Intrinsic::usub_with_overflow || d.iid == Intrinsic::ssub_with_overflow) ? Instruction::Sub
                                                                                                        : Instruction::Mul;
            Val r = binop(op, a[0], a[1], w), o;
            if(r.k == V_UNDEF)
                o = mkUndef(1);
            else if(a[0].k == V_INT && a[1].k == V_INT) {
                bool ov;
                if(sg) {
                    __int128 x = sextw(a[0].i, w), y = sextw(a[1].i, w);
                    __int128 z = op == Instruction::Add ? x + y : op == Instruction::Sub ? x - y : x * y;
                    ov         = z != (__int128)sextw(r.i, w);
                } else {
                    __int128 x = (__int128)a[0].i, y = (__int128)a[1].i;
                    if(op == Instruction::Mul) {
                        unsigned __int128 z = (unsigned __int128)a[0].i * a[1].i;
                        ov                  = z != (unsigned __int128)r.i;
                    } else {
                        __int128 z = op == Instruction::Add ? x + y : x - y;
                        ov         = z != (__int128)r.i;
                    }
                }
                o = mkInt(ov, 1);
            } else {
                z3::expr x = bvx1(a[0]), y = bvx1(a[1]);
                z3::expr wx = sg ? z3::sext(x, w) : z3::zext(x, w), wy = sg ? z3::sext(y, w) : z3::zext(y, w);
                z3::expr wr = op == Instruction::Add ? wx + wy : op == Instruction::Sub ? wx - wy : wx * wy;
                z3::expr rr = bvx1(r);
                z3::expr re = sg ? z3::sext(rr, w) : z3::zext(rr, w);
                if(op == Instruction::Mul && !sg && a[1].k == V_INT && a[1].i)
                    o = mkSym(z3::ugt(x, Z().bv_val((uint64_t)(maskw(~0ull, w) / a[1].i), w)));
                else if(op == Instruction::Mul && !sg && a[0].k == V_INT && a[0].i)
                    o = mkSym(z3::ugt(y, Z().bv_val((uint64_t)(maskw(~0ull, w) / a[0].i), w)));
                else
                    o = mkSym(wr != re);
            }
            Val g;
            g.k   = V_AGG;
            g.agg = std::make_shared<vector<Val>>(vector<Val>{r, o});
            set(d, g);
            break;
        }
        case Intrinsic::usub_sat: {
            Val c = icmp(CmpInst::ICMP_ULT, a[0], a[1]);
            Val r = binop(Instruction::Sub, a[0], a[1], d.w);
            if(c.k == V_INT) set(d, c.i ? mkInt(0, d.w) : r);
            else set(d, iteVal(bvx(c), mkInt(0, d.w), r));
            break;
        }
        case Intrinsic::uadd_sat: {
            Val r = binop(Instruction::Add, a[0], a[1], d.w);
            Val c = icmp(CmpInst::ICMP_ULT, r, a[0]);
            if(c.k == V_INT) set(d, c.i ? mkInt(~0ull, d.w) : r);
            else set(d, iteVal(bvx(c), mkInt(~0ull, d.w), r));
            break;
        }
        case Intrinsic::fshl:
        case Intrinsic::fshr: {
            unsigned w = d.w;
            if(a[2].k != V_INT) unsup("symbolic funnel shift");
            unsigned k = a[2].i % w;
            if(k == 0) { set(d, d.iid == Intrinsic::fshl ? a[0] : a[1]); break; }
            unsigned l = d.iid == Intrinsic::fshl ? k : w - k;
            set(d, binop(Instruction::Or, binop(Instruction::Shl, a[0], mkInt(l, w), w),
                         binop(Instruction::LShr, a[1], mkInt(w - l, w), w), w));
            break;
        }
        case Intrinsic::ctpop: {
            if(a[0].k == V_INT) set(d, mkInt(__builtin_popcountll(a[0].i), d.w));
            else {
                z3::expr x = bvx1(a[0]);
                z3::expr r = Z().bv_val(0, d.w);
                for(unsigned i = 0; i < d.w; i++) {
                    z3::expr b = x.extract(i, i);
                    r = r + (d.w > 1 ? z3::zext(b, d.w - 1) : b);
                }
                set(d, mkSym(r));
            }
            break;
        }
        case Intrinsic::ctlz:
        case Intrinsic::cttz: {
            uint64_t v = concretize(a[0]);
            unsigned n = 0, w = a[0].w;
            if(d.iid == Intrinsic::ctlz)
                while(n < w && !((v >> (w - 1 - n)) & 1)) n++;
            else
                while(n < w && !((v >> n) & 1)) n++;
            set(d, mkInt(n, d.w));
            break;
        }
        case Intrinsic::bswap: {
            uint64_t v = concretize(a[0]);
            set(d, mkInt(__builtin_bswap64(v) >> (64 - d.w), d.w));
            break;
        }
        case Intrinsic::fabs: set(d, fabsv(a[0])); break;
        case Intrinsic::floor: set(d, roundlike("floor", a[0])); break;
        case Intrinsic::ceil: set(d, roundlike("ceil", a[0])); break;
        case Intrinsic::trunc: set(d, roundlike("trunc", a[0])); break;
        case Intrinsic::round: set(d, roundlike("round", a[0])); break;
        case Intrinsic::rint:
        case Intrinsic::nearbyint:
        case Intrinsic::roundeven: set(d, roundlike("rint", a[0])); break;
        case Intrinsic::lround:
        case Intrinsic::llround: set(d, f2i(roundlike("round", a[0]), true, d.w)); break;
        case Intrinsic::sqrt: set(d, libm("sqrt", a)); break;
        case Intrinsic::sin: set(d, libm("sin", a)); break;
        case Intrinsic::cos: set(d, libm("cos", a)); break;
        case Intrinsic::exp: set(d, libm("exp", a)); break;
        case Intrinsic::log: set(d, libm("log", a)); break;
        case Intrinsic::pow: set(d, libm("pow", a)); break;
        case Intrinsic::maxnum: set(d, libm("fmax", a)); break;
        case Intrinsic::minnum: set(d, libm("fmin", a)); break;
        case Intrinsic::powi: {
            int64_t n = sextw(concretize(a[1]), a[1].w);
            Val r     = mkFP(1, d.w);
            for(int64_t i = 0; i < (n < 0 ? -n : n); i++) r = fbin(Instruction::FMul, r, a[0]);
            if(n < 0) r = fbin(Instruction::FDiv, mkFP(1, d.w), r);
            set(d, r);
            break;
        }
        case Intrinsic::fma:
        case Intrinsic::fmuladd:
            set(d, fbin(Instruction::FAdd, fbin(Instruction::FMul, a[0], a[1]), a[2]));
            break;
        case Intrinsic::copysign: {
            if(a[0].k == V_FP && a[1].k == V_FP) set(d, mkFP(std::copysign(a[0].d, a[1].d), d.w));
            else if(g_fp == FP_IEEE) unsup("copysign");
            else {
                z3::expr m = realx(fabsv(a[0])), sg = realx(a[1]);
                set(d, mkReal(z3::ite(sg < 0, -m, m)));
            }
            break;
        }
        case Intrinsic::is_fpclass: {
            uint64_t m = concretize(a[1]);
            if(a[0].k == V_REAL) {
                // finite values only: zero and normal/subnormal by sign
                z3::expr x = realx(a[0]);
                z3::expr r = Z().bool_val(false);
                if(m & (0x08 | 0x10)) r = r || x < 0;
                if(m & (0x20 | 0x40)) r = r || x == 0;
                if(m & (0x80 | 0x100)) r = r || x > 0;
                set(d, mkSym(r.simplify()));
                break;
            }
            if(a[0].k == V_FP) {
                double x = a[0].d;
                bool r = false;
                if(std::isnan(x)) r = m & 3;
                else if(std::isinf(x)) r = m & (x < 0 ? 4 : 0x200);
                else if(x == 0) r = m & (std::signbit(x) ? 0x20 : 0x40);
                else if(std::fpclassify(x) == FP_SUBNORMAL) r = m & (x < 0 ? 0x10 : 0x80);
                else r = m & (x < 0 ? 8 : 0x100);
                set(d, mkInt(r, 1));
                break;
            }
            z3::expr x = ieeex(a[0]);
            z3::context& c = Z();
            auto mk = [&](Z3_ast t) { return z3::expr(c, t); };
            z3::expr r = c.bool_val(false), ng = mk(Z3_mk_fpa_is_negative(c, x));
            if(m & 3) r = r || mk(Z3_mk_fpa_is_nan(c, x));
            if(m & 4) r = r || (mk(Z3_mk_fpa_is_infinite(c, x)) && ng);
            if(m & 8) r = r || (mk(Z3_mk_fpa_is_normal(c, x)) && ng);
            if(m & 0x10) r = r || (mk(Z3_mk_fpa_is_subnormal(c, x)) && ng);
            if(m & 0x20) r = r || (mk(Z3_mk_fpa_is_zero(c, x)) && ng);
            if(m & 0x40) r = r || (mk(Z3_mk_fpa_is_zero(c, x)) && !ng);
            if(m & 0x80) r = r || (mk(Z3_mk_fpa_is_subnormal(c, x)) && !ng);
            if(m & 0x100) r = r || (mk(Z3_mk_fpa_is_normal(c, x)) && !ng);
            if(m & 0x200) r = r || (mk(Z3_mk_fpa_is_infinite(c, x)) && !ng);
            set(d, mkSym(r.simplify()));
            break;
        }
        case Intrinsic::expect: set(d, a[0]); break;
        case Intrinsic::is_constant: set(d, mkInt(0, 1)); break;
        case Intrinsic::objectsize: set(d, mkInt(~0ull, d.w)); break;
        case Intrinsic::launder_invariant_group:
        case Intrinsic::strip_invariant_group: set(d, a[0]); break;
        case Intrinsic::threadlocal_address: set(d, a[0]); break;
        case Intrinsic::stacksave: set(d, mkInt(0, 64)); break;
        case Intrinsic::invariant_start: set(d, mkInt(0, 64)); break;
        case Intrinsic::stackrestore:
        case Intrinsic::lifetime_start:
        case Intrinsic::lifetime_end:
        case Intrinsic::assume:
        case Intrinsic::invariant_end:
        case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::prefetch:
        case Intrinsic::donothing:
        case Intrinsic::sideeffect: break;
        case Intrinsic::trap:
        case Intrinsic::ubsantrap: throw PathEnd{P_VIOL, "trap", "undefined behaviour trap"};
        case Intrinsic::eh_typeid_for: set(d, mkInt(1, 32)); break;
        case Intrinsic::vector_reduce_add:
        case Intrinsic::vector_reduce_fadd: unsup("vector reduction");
        default: unsup("intrinsic " + d.callee->getName().str());
    }
    next(d);
}

void memsetv(uint64_t a, const Val& v, uint64_t n)
{
    Obj* o       = access(a, n, true);
    uint32_t off = a - o->base;
    clearCells(o, off, n);
    if(v.k == V_INT) {
        std::fill(o->bytes.begin() + off, o->bytes.begin() + off + n, (uint8_t)v.i);
        std::fill(o->init.begin() + off, o->init.begin() + off + n, 1);
    } else if(v.k == V_UNDEF)
        std::fill(o->init.begin() + off, o->init.begin() + off + n, 0);
    else
        for(uint64_t i = 0; i < n; i++) storeScalar(o, off + i, 1, v);
}

// ---- harness assertions ---------------------------------------------------------------------
void checkAssert(const z3::expr& cond, const string& msg, const z3::expr* strong = nullptr)
{
    AssertStat& as = g_asserts[msg];
    as.checked++;
    S.asserts++;
    s->asserts++;
    z3::expr c = cond.simplify();
    if(c.is_true()) {
        as.proved++;
        as.trivial++;
        S.asserts_proved++;
        S.asserts_trivial++;
        return;
    }
    bool unk = false;
    shared_ptr<Assign> m;
    bool bad = false;
    if(c.is_false())
        bad = true;
    else {
        // complete path condition slice
        z3::expr nc = !c;
        z3::expr ev = evalA(nc);
        if(ev.is_true())
            bad = true;
        else {
            QRes r = sat(nc);
            if(r.r == z3::unsat) {
                as.proved++;
                S.asserts_proved++;
                return;
            }
            if(r.r == z3::unknown) {
                as.unknown++;
                g_incomplete["assertion not decided: " + msg]++;
                return;
            }
            bad = true;
            m   = r.model;
        }
    }
    (void)unk;
    if(bad) {
        as.failed++;
        Assign save = s->assign;
        applyModel(*s, m);
        // prefer small, exactly representable counterexamples
        bool hasreal = false;
        for(auto& in : s->inputs)
            if(in.kind == 'f') hasreal = true;
        if(hasreal && g_fp != FP_IEEE) {
            z3::expr_vector ex(Z());
            z3::expr neg = strong ? *strong : !c;
            vector<E> cs = slice({neg});
            int k        = 0;
            z3::expr nice = Z().bool_val(true);
            for(auto& in : s->inputs)
                if(in.kind == 'f') {
                    z3::expr q = Z().int_const(("!q" + std::to_string(k++)).c_str());
                    g_vars[Z3_get_ast_id(Z(), q)] = E(q);
                    nice = nice && in.e.x() * 4 == z3::to_real(q) && q >= -64 && q <= 64;
                }
            vector<E> cs2;
            for(auto& e : s->pc) cs2.push_back(e);
            cs2.push_back(E(neg));
            cs2.push_back(E(nice));
            unsigned saveq = g_qtimeout;
            g_qtimeout     = 5000;
            QRes r         = query(cs2);
            g_qtimeout     = saveq;
            if(r.r == z3::sat)
                applyModel(*s, r.model);
            else if(strong) {
                cs2.clear();
                for(auto& e : s->pc) cs2.push_back(e);
                cs2.push_back(E(neg));
                r = query(cs2);
                if(r.r == z3::sat) applyModel(*s, r.model);
            }
        }
        report("assert", msg);
        s->assign = save;
        if(c.is_false()) throw PathEnd{P_STOP, "", ""};
        // continue below the assertion
        shared_ptr<Assign> m2;
        if(!feasible(c, &m2)) throw PathEnd{P_STOP, "", ""};
        s->pc.push_back(E(c));
        applyModel(*s, m2);
    }
}

void newInput(DInst& d, const string& nm0, char kind, const z3::sort& so)
{
    string nm = nm0;
    int k     = s->namecnt[nm0]++;
    if(k) nm += "#" + std::to_string(k);
    z3::expr v = Z().constant(nm.c_str(), so);
    regVar(v);
    s->inputs.push_back({nm, kind, E(v)});
    if(kind == 'f') {
        if(g_fp == FP_IEEE)
            set(d, mkIeee(v, 64));
        else
            set(d, mkReal(v));
    } else
        set(d, mkSym(v));
}

void emitStr(uint64_t os, const string& str)
{
    for(char c : str) s->out[os].push_back({0, (uint64_t)(unsigned char)c, Val()});
}
void emitNum(uint64_t os, const Val& v, int kind)
{
    if(v.k == V_UNDEF) throw PathEnd{P_VIOL, "uninit", "uninitialised value printed"};
    if(v.k == V_INT) {
        if(kind == 1) emitStr(os, std::to_string(v.i));
        else if(kind == 2) emitStr(os, std::to_string(sextw(v.i, v.w)));
        return;
    }
    if(v.k == V_FP) {
        char b[64];
        snprintf(b, sizeof b, "%g", v.d);
        emitStr(os, b);
        return;
    }
    s->out[os].push_back({kind, 0, v});
}

#include "vpsym_ext.inc"
