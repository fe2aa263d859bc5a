// Values of the transcribed problem: time grid, defects, path constraints, cost; O_LEVEL 0 values, 1 first derivatives, 2 second derivatives
#include "ocp.hpp"
#ifndef O_LEVEL
#define O_LEVEL 2
#endif
namespace {
typedef Eigen::MatrixXd M; typedef Eigen::VectorXd V;
using oc::L;
#if O_SP
typedef Eigen::SparseMatrix<F> Mat;
M dense(vt::Case& c, const Mat& a)
{   // read the storage directly: sorted, in range, no duplicates
    M d = M::Zero(a.rows(), a.cols());
    for (int k = 0; k < a.outerSize(); ++k)
    {
        long last = -1;
        for (Mat::InnerIterator it(a, k); it; ++it) { if (!(it.row() > last && it.row() < a.rows())) c.fail("sparse/storage", "rows of a column not strictly increasing"); last = it.row(); d(it.row(), it.col()) = it.value(); }
    }
    return d;
}
Mat make(int r, int c) { return Mat(r, c); }
#else
typedef Eigen::Matrix<F, -1, -1> Mat;
M dense(vt::Case&, const Mat& a) { return a.template cast<double>(); }
#endif
void body(vt::Case& c)
{
    vt::Rng& r = c.rng;
    const oc::Dims n = dims();
    const int NV = n.var(), NE = n.ne(), NI = n.ni();
    std::vector<oc::Point> pts = oc::random_points(c, n, 3, SINGLE);
    const oc::Spec s = oc::random_spec(c, n, pts, SINGLE, O_LEVEL == 2 ? 5 : 7);
    Mem mem(r.pick(std::vector<int>{0, 0xff, 0x40})); TestOcp& o = *mem.o; o.s = &s;
    c.nontrivial(); c.cfg = "lagrange " + s.lag.str() + " mayer " + s.may.str(); for (auto& k : s.f) c.cfg += " f " + k.str(); for (auto& k : s.g) c.cfg += " g " + k.str();
    typename TestOcp::nlp_variable_t x(NV), g(NV), lg(NV); typename TestOcp::static_parameter_t d; typename TestOcp::nlp_eq_constraints_t e(NE); typename TestOcp::nlp_ineq_constraints_t in(NI); typename TestOcp::nlp_constraints_t con(NE + NI); typename TestOcp::nlp_dual_t lam(NE + NI + NV);
#if O_SP
    Mat Je = make(NE, NV), Ji = make(NI, NV), J = make(NE + NI, NV), H = make(NV, NV);
#else
    typename TestOcp::nlp_eq_jacobian_t Je; typename TestOcp::nlp_ineq_jacobian_t Ji; typename TestOcp::nlp_jacobian_t J; typename TestOcp::nlp_hessian_t H;
    Je.resize(NE, NV); Ji.resize(NI, NV); J.resize(NE + NI, NV); H.resize(NV, NV);
#endif
    std::string trace; double wt0 = 0, wtf = 1;
    const F junk = r.chance(0.5) ? (F)NAN : (F)7;
    for (int step = 0; step < (O_SP ? 12 : 8); ++step)
    {
        const int pi = r.range(0, 2); oc::Point p = pts[pi];
        const oc::Point& win = r.chance(0.3) ? pts[0] : p;
        if (r.chance(0.5)) { p.t0 = wt0; p.tf = wtf; } else { p.t0 = win.t0; p.tf = win.tf; }
        // the programs were made for (point, own window) and (point, window of the first point)
        if (!(p.t0 == pts[0].t0 && p.tf == pts[0].tf)) { p.t0 = pts[pi].t0; p.tf = pts[pi].tf; }
        if (p.t0 != wt0 || p.tf != wtf) { o.set_time_limits((F)p.t0, (F)p.tf); wt0 = p.t0; wtf = p.tf; c.event("time_window_changed"); trace += " t"; }
        for (int i = 0; i < NV; ++i) x(i) = (F)p.var[i];
        for (int i = 0; i < O_D; ++i) d(i) = (F)p.d[i];
        for (int i = 0; i < NE + NI + NV; ++i) lam(i) = (F)(r.chance(0.2) ? 0 : r.uniform(-2, 2));
        const double cs = r.chance(0.5) ? 1 : r.chance(0.2) ? r.pick(std::vector<double>{0, -1, -0.5}) : (double)(F)r.uniform(0.2, 3);
        const oc::VL ll = lam.template cast<L>();
        const int what = O_LEVEL == 0 ? r.pick(std::vector<int>{0, 1, 2, 3, 4, 5}) : O_LEVEL == 1 ? r.range(6, 10) : r.range(6, 14);
        const int order = what < 6 ? 0 : what < 11 ? 1 : 2;
        const oc::Ref q = oc::reference(s, p, ll.head(NE + NI), what == 13 ? cs : 1, order);
        const double t = 3000 * U_ * q.mag * q.mag * (1 + O_POLY * O_POLY) * (SINGLE ? 2 : 1), T = t * (1 + ll.norm());
        const V qc = q.c.template cast<double>(), qg = q.grad.template cast<double>();
        F v = junk; g.setConstant(junk); lg.setConstant(junk); e.setConstant(junk); in.setConstant(junk); con.setConstant(junk);
        if (!O_SP || r.chance(0.15))
        {   // start from a matrix the problem has not seen (sparse: empty; dense: any content)
#if O_SP
            if (r.chance(0.5)) { Je = make(NE, NV); Ji = make(NI, NV); } if (r.chance(0.5)) J = make(NE + NI, NV); if (r.chance(0.5)) H = make(NV, NV);
            c.event("fresh_matrix");
#else
            Je.setConstant(junk); Ji.setConstant(junk); J.setConstant(junk); H.setConstant(junk);
#endif
        }
        V rlg; if (order) { rlg = (q.grad + ll.tail(NV) + q.J.transpose() * ll.head(NE + NI)).template cast<double>(); }
        c.event(vt::fmt("call%02d", what)); trace += vt::fmt(" %d", what);
        const V xd = x.template cast<double>(); const std::vector<L> tt = oc::times(n, p.t0, p.tf);
        const auto x_before = x; const auto l_before = lam;
        bool ok = true, touched = true;
        for (int k = 0; k < n.nodes() && ok; ++k) ok = c.near(o.time_nodes(k), (double)tt[k], 8 * U_ * (std::fabs(p.t0) + std::fabs(p.tf) + O_SEG), "time_nodes", vt::fmt("%d", k).c_str());
        o.calls[0] = o.calls[1] = o.calls[2] = o.calls[3] = 0;
        switch (ok ? what : -1)
        {
        case 0: o.cost(x, d, v); ok = c.near(v, (double)q.cost, t, "cost"); break;
        case 1: o.equalities(x, d, e); ok = c.nearm(e, qc.head(NE), t, "equalities"); break;
        case 2: o.inequalities(x, d, in); ok = c.nearm(in, qc.tail(NI), t, "inequalities"); break;
        case 3: o.constraints(x, d, con); ok = c.nearm(con, qc, t, "constraints"); break;
        case 4: o.lagrangian(x, d, lam, v); ok = c.near(v, (double)(q.cost + ll.head(NE + NI).dot(q.c) + ll.tail(NV).dot(x.template cast<L>())), 10 * T, "lagrangian"); break;
        case 5: o.lagrangian(x, d, lam, v, con); ok = c.near(v, (double)(q.cost + ll.head(NE + NI).dot(q.c) + ll.tail(NV).dot(x.template cast<L>())), 10 * T, "lagrangian/with-constraints") && c.nearm(con, qc, t, "lagrangian/constraints"); break;
#if O_LEVEL >= 1
        case 6: o.cost_gradient(x, d, v, g); ok = c.near(v, (double)q.cost, t, "cost_gradient/cost") && c.nearm(g, qg, t, "cost_gradient/gradient"); break;
        case 7: o.equalities_linearised(x, d, e, Je); ok = c.nearm(e, qc.head(NE), t, "equalities_linearised/value") && c.nearm(dense(c, Je), q.J.topRows(NE), t, "equalities_linearised/jacobian"); break;
        case 8: if (NI) { o.inequalities_linearised(x, d, in, Ji); ok = c.nearm(in, qc.tail(NI), t, "inequalities_linearised/value") && c.nearm(dense(c, Ji), q.J.bottomRows(NI), t, "inequalities_linearised/jacobian"); } break;
        case 9: o.constraints_linearised(x, d, con, J); ok = c.nearm(con, qc, t, "constraints_linearised/value") && c.nearm(dense(c, J), q.J, t, "constraints_linearised/jacobian"); break;
        case 10:
            if (r.chance(0.4)) { c.event("short_overload"); touched = false; o.lagrangian_gradient(x, d, lam, v, lg); ok = c.near(v, (double)q.cost, t, "lagrangian_gradient/short-cost") && c.nearm(lg, rlg, 10 * T, "lagrangian_gradient/short-gradient"); break; }
            o.lagrangian_gradient(x, d, lam, v, lg, g, con, J);
            ok = c.near(v, (double)q.cost, t, "lagrangian_gradient/cost") && c.nearm(lg, rlg, 10 * T, "lagrangian_gradient/lag-gradient") && c.nearm(g, qg, t, "lagrangian_gradient/cost-gradient") && c.nearm(con, qc, t, "lagrangian_gradient/constraints") && c.nearm(dense(c, J), q.J, t, "lagrangian_gradient/jacobian");
            break;
#endif
#if O_LEVEL >= 2
        case 11: o.cost_gradient_hessian(x, d, v, g, H); ok = c.near(v, (double)q.cost, t, "cost_gradient_hessian/cost") && c.nearm(g, qg, t, "cost_gradient_hessian/gradient") && c.nearm(dense(c, H), q.H, t, "cost_gradient_hessian/hessian"); break;
        case 12: case 13:
#if !O_SP
            if (what == 12 && r.chance(0.4)) { o.lagrangian_gradient_hessian(x, d, lam, v, lg, H); ok = c.near(v, (double)q.cost, t, "lagrangian_gradient_hessian/short-cost") && c.nearm(lg, rlg, 10 * T, "lagrangian_gradient_hessian/short-gradient") && c.nearm(dense(c, H), q.W, 10 * T, "lagrangian_gradient_hessian/short-hessian"); break; }
#endif
            if (what == 12) o.lagrangian_gradient_hessian(x, d, lam, v, lg, H, g, con, J);
            else o.lagrangian_gradient_hessian(x, d, lam, v, lg, H, g, con, J, (F)cs);
            ok = c.near(v, (double)q.cost, t, "lagrangian_gradient_hessian/cost") && c.nearm(lg, rlg, 10 * T, "lagrangian_gradient_hessian/lag-gradient") && c.nearm(g, qg, t, "lagrangian_gradient_hessian/cost-gradient") && c.nearm(con, qc, t, "lagrangian_gradient_hessian/constraints")
                 && c.nearm(dense(c, J), q.J, t, "lagrangian_gradient_hessian/jacobian") && c.nearm(dense(c, H), q.W, 10 * T, "lagrangian_gradient_hessian/hessian");
            break;
        case 14: {  // quasi-Newton update of the Hessian
#if O_SP
            if (H.nonZeros() == 0) break;
            const M B = dense(c, H);
            Eigen::Matrix<F, -1, 1> s_(NV), y_(NV);
            const int kind = r.range(0, 4);
            for (int i = 0; i < NV; ++i) { s_(i) = (F)(kind == 0 && r.chance(0.8) ? 0 : r.normal()); y_(i) = (F)(kind == 1 && r.chance(0.8) ? 0 : r.normal()); }
            if (kind == 2) for (int i = 0; i < NV; ++i) y_(i) = s_(i) * (F)2 + (F)0.1 * y_(i);
            if (r.chance(0.2))
            {   // steps without curvature information leave the Hessian alone
                const int deg = r.range(0, 2);
                if (deg == 0) s_.setZero();
                else if (deg == 1) { s_ *= (F)(SINGLE ? 1e-12 : 1e-20); y_ *= (F)(SINGLE ? 1e-12 : 1e-20); }
                const oc::VL s0 = s_.template cast<L>(), y0 = y_.template cast<L>(); const L b0 = s0.dot(B.cast<L>() * s0), c0 = s0.dot(y0);
                const L sr0 = c0 >= 0.2L * b0 ? c0 : 0.2L * b0;
                if (deg < 2 || sr0 < -1e-3L * ((B.cast<L>().norm() + 1) * s0.squaredNorm() + s0.norm() * y0.norm()))
                {
                    o.hessian_update_impl(H, s_, y_);
                    ok = c.check(dense(c, H) == B, "block-bfgs/degenerate-step-changes-the-hessian");
                    c.event("block_bfgs_degenerate");
                    break;
                }
            }
            if (r.chance(0.1))
            {   // a Hessian that is singular along the step: nothing to remove
                for (int k = 0; k < H.outerSize(); ++k) for (typename Mat::InnerIterator it(H, k); it; ++it) it.valueRef() = 0;
                const oc::VL s0 = s_.template cast<L>(), y0 = y_.template cast<L>(); const L c0 = s0.dot(y0);
                if (std::fabs(c0) < 1e-2L * s0.norm() * y0.norm()) break;
                const oc::ML up = c0 > 0 ? oc::ML(y0 * y0.transpose() / c0) : oc::ML::Zero(NV, NV);
                o.hessian_update_impl(H, s_, y_);
                const M A = dense(c, H); const double bt = 1e5 * U_ * (double)(up.norm() + 1);
                for (int i = 0; i < NV && ok; ++i) for (int k = 0; k < NV && ok; ++k) if (H.coeff(i, k) != 0 || A(i, k) != 0) ok = c.near(A(i, k), (double)up(i, k), bt, "block-bfgs/zero-hessian");
                for (int i = 0; i < NV && ok; ++i) ok = c.near(A(i, i), (double)up(i, i), bt, "block-bfgs/zero-hessian");
                c.event("block_bfgs_zero_hessian");
                break;
            }
            const oc::ML Bl = B.cast<L>(); const oc::VL sl = s_.template cast<L>(), yl = y_.template cast<L>(), v_ = Bl * sl;
            const L sBs = sl.dot(v_), sy = sl.dot(yl), mg = (Bl.norm() + 1) * sl.squaredNorm() + sl.norm() * yl.norm();
            if (!(sBs > 1e-3L * mg)) break; // the damped update is defined for positive curvature of the old matrix
            if (std::fabs(sy - 0.2L * sBs) < 1e4L * U_ * mg) break;
            const oc::VL rr = sy >= 0.2L * sBs ? yl : oc::VL((0.8L * sBs / (sBs - sy)) * yl + (1 - 0.8L * sBs / (sBs - sy)) * v_);
            const L sr = sl.dot(rr);
            if (!(sr > 1e-3L * mg)) break;
            const oc::ML up = Bl - v_ * v_.transpose() / sBs + rr * rr.transpose() / sr;
            o.hessian_update_impl(H, s_, y_);
            const M A = dense(c, H);
            c.event(sy >= 0.2L * sBs ? "block_bfgs_plain" : "block_bfgs_damped");
            const double bt = 3000 * U_ * (double)(up.norm() + Bl.norm() + mg / std::min(sBs, sr) * (v_.squaredNorm() / sBs + rr.squaredNorm() / sr));
            auto node = [&](int i) { return i < n.vx() ? i / O_X : i < n.vx() + n.vu() ? (i - n.vx()) / std::max(1, O_U) : -1; };
            for (int i = 0; i < NV && ok; ++i) for (int k = 0; k < NV && ok; ++k)
            {
                const bool in_pattern = node(i) < 0 || node(k) < 0 || node(i) == node(k);
                ok = in_pattern ? c.near(A(i, k), (double)up(i, k), bt, "block-bfgs/entry", vt::fmt("(%d,%d)", i, k).c_str()) : c.check(A(i, k) == 0, "block-bfgs/outside-the-pattern");
            }
            if (ok) ok = c.check(H.nonZeros() == o.m_hes_inner_nnz.sum(), "block-bfgs/pattern-changed");
#endif
            break; }
#endif
        default: break;
        }
        c.check(x == x_before && lam == l_before, "inputs-modified");
#if O_SP
        if (ok && what > 6)
        {
            // structure: exactly the announced number of entries, kept from one evaluation to the next
            if (what == 7) c.check(Je.nonZeros() == o.m_jac_inner_nnz.sum(), "sparse/equality-pattern");
            if (what == 8 && NI) c.check(Ji.nonZeros() == o.m_ineq_jac_inner_nnz.sum(), "sparse/inequality-pattern");
            if (touched && (what == 9 || what == 10 || what == 12 || what == 13)) c.check(J.nonZeros() == o.nnz_jacobian(), "sparse/nnz_jacobian", vt::fmt("%ld vs %d", (long)J.nonZeros(), o.nnz_jacobian()));
            if (what == 11 || what == 12 || what == 13)
            {
                long low = 0; for (int k = 0; k < H.outerSize(); ++k) for (Mat::InnerIterator it(H, k); it; ++it) low += it.row() >= it.col();
                c.check(low == o.nnz_lag_hessian(), "sparse/nnz_lag_hessian", vt::fmt("%ld vs %d", low, o.nnz_lag_hessian()));
            }
        }
#endif
        if (!ok) { c.fail("trace", "calls:" + trace); return; }
    }
}
vt::Reg reg(strdup((std::string(O_LEVEL == 0 ? "values_" : O_LEVEL == 1 ? "first_" : "second_") + OCP_NAME).c_str()), body, O_LEVEL == 0 ? 1500 : O_LEVEL == 1 ? 1500 : 1000, O_LEVEL == 0 ? 300000 : 150000);
}
