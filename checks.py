"""What each property's check compiles and runs (see run_check.py)."""
UB = "bounds,signed-integer-overflow,float-cast-overflow,integer-divide-by-zero,bool,return,unreachable,vla-bound,shift"
BUILDS = {
    # behavioural monitors: AddressSanitizer plus the cheap part of UBSan, Eigen assertions on
    "asan": {"cxx": "clang++", "flags": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address," + UB, "-fno-sanitize-recover=all"]},
    # Eigen's iterative solvers cannot be constructed on fixed-size matrices with assertions on
    "tsan": {"cxx": "clang++", "flags": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"]},
    # uninitialised reads; linked as C so that our operator new (main.cpp) replaces MSan's
    "msan": {"cxx": "clang++", "ld": "clang", "link": ["-lstdc++", "-lm"], "flags": ["-O1", "-g1", "-fno-omit-frame-pointer", "-include", "msan_pre.hpp", "-fsanitize=memory"]},
    # another compiler, everything UndefinedBehaviorSanitizer has, pointer and library container checks
    "gcc": {"cxx": "g++", "flags": ["-O1", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"]},
    "nodebug": {"cxx": "clang++", "flags": ["-O1", "-g1", "-DNDEBUG", "-fno-omit-frame-pointer", "-fsanitize=address," + UB, "-fno-sanitize-recover=all"]},
}


def qp(alias, n, m, s="double"):
    return "qp_variant.cpp@V_ALIAS=%s;V_S=%s;V_N=%d;V_M=%d;V_SP=%d" % (alias, s, n, m, alias.startswith("S"))


CHECKS = {}
CHECKS["P01"] = {
    "groups": [{"build": "asan", "src": ["qp_p01.cpp", "qp_lib.cpp"] + [
        qp("DADMM", 4, 2), qp("DBOX", 4, 2), qp("SADMM", 4, 2), qp("SBOX", 4, 2), qp("DADMM", 2, 5), qp("SBOX", 7, 3), qp("DBOX", 6, 6), qp("SADMM", 5, 4),
        qp("DADMM", 3, 2, "float"), qp("DBOX", 3, 2, "float"), qp("DADMM", 1, 1), qp("DBOX", 1, 1), qp("SBOX", 3, 2, "float"), qp("SADMM_CG", 4, 2)]},
        {"build": "nodebug", "src": ["qp_p01.cpp", "qp_lib.cpp"] + [qp("DBOX_CG", 4, 2), qp("DADMM_CG", 4, 2)], "scale": 0.1}],
    "rule": "every execution of solve() that returned SOLVED is judged against the KKT conditions of the original data",
    "require": {"qp_certificate.solved": 1000, "qp_certificate.not_solved": 100},
}
CHECKS["P02"] = {
    "groups": [{"build": "asan", "src": ["qp_p02.cpp", "qp_lib.cpp"] + [
        qp("DADMM", 4, 2), qp("DBOX", 4, 2), qp("SADMM", 4, 2), qp("SBOX", 4, 2), qp("DADMM", 2, 5), qp("SBOX", 7, 3), qp("DBOX", 6, 6), qp("SADMM", 5, 4),
        qp("DADMM", 3, 2, "float"), qp("DBOX", 3, 2, "float"), qp("DADMM", 1, 1), qp("DBOX", 1, 1)]}],
    "rule": "one planted convex QP solved under one setting; the answer is compared with the planted optimum through a rigorous error bound",
    "require": {"qp_converges.class1": 300, "qp_converges.class2": 300},
}
CHECKS["P03"] = {
    "groups": [{"build": "asan", "src": ["qp_p03.cpp", "qp_lib.cpp"] + [
        qp("DADMM", 4, 2), qp("DBOX", 4, 2), qp("SADMM", 4, 2), qp("SBOX", 4, 2), qp("DADMM", 5, 4), qp("DBOX", 5, 4), qp("SADMM", 5, 4), qp("SBOX", 5, 4),qp("SADMM_CG", 5, 4), qp("SBOX_CG", 5, 4)], "families": ["dense_vs_sparse", "reuse_pattern", "reuse_pattern_cg"]},
        {"build": "nodebug", "src": ["qp_p03.cpp", "qp_lib.cpp"] + [qp(a, 4, 2) for a in ("DADMM", "DBOX", "SADMM", "SBOX", "DADMM_CG", "DBOX_CG", "SADMM_CG", "SBOX_CG")], "families": ["direct_vs_cg"]}],
    "rule": "one QP executed by two back ends / storage layouts / with and without pattern reuse, iterates compared",
    "require": {"reuse_pattern.reuses": 1000},
}
CHECKS["P04"] = {
    "groups": [{"build": "asan", "src": ["qp_p04.cpp", "qp_lib.cpp"] + [
        qp("DADMM", 4, 2), qp("DBOX", 4, 2), qp("SADMM", 4, 2), qp("SBOX", 4, 2), qp("DADMM", 2, 5), qp("SBOX", 7, 3), qp("DBOX", 6, 6), qp("SADMM", 5, 4),
        qp("DADMM", 3, 2, "float"), qp("DBOX", 3, 2, "float"), qp("SBOX", 3, 2, "float"), qp("SADMM_CG", 4, 2), qp("SBOX_CG", 4, 2)]}],
    "rule": "one problem solved by a used, a fresh, a memory-poisoned and a repeated solver; bitwise equality and recomputed info()",
    "require": {"qp_pure_function.residuals_recomputed": 1000},
}
def pre(n, m, sp, s="double"):
    return "qp_p05.cpp@P_N=%d;P_M=%d;P_SP=%d;P_S=%s" % (n, m, sp, s)


CHECKS["P05"] = {
    "groups": [{"build": "asan", "src": ["qp_lib.cpp", pre(4, 2, 0), pre(4, 2, 1), pre(5, 4, 0), pre(5, 4, 1), pre(3, 2, 0, "float"), pre(3, 2, 1, "float"),
                                         qp("DADMM", 4, 2), qp("SBOX", 4, 2), qp("DBOX", 5, 4), qp("SADMM", 5, 4)]}],
    "rule": "one QP equilibrated, compared entrywise with the change of variables given by the reported factors, unscaled again, and solved in scaled form",
    "require": {"ruiz_*.scaled_solved": 300},
}


def ad(n, dyn, second, s="double"):
    return "ad_p21.cpp@A_F=%s;A_N=%d;A_DYN=%d;A_SECOND=%d" % (s, n, dyn, second)


CHECKS["P21"] = {
    "groups": [{"build": "asan", "src": ["expr.cpp", ad(3, 0, 0), ad(1, 0, 0), ad(7, 0, 0), ad(4, 1, 0), ad(3, 0, 0, "float"), ad(3, 0, 1), ad(2, 0, 1), ad(2, 0, 1, "float")]}],
    "rule": "one random program over the supported operations, evaluated at two points by the AD types and by independent jet arithmetic",
    "require": {"ad_*.op35": 100, "ad_*.op41": 100},
}


def nlp(x, e, i, p, s="double", nocost=0):
    return "nlp_p06.cpp@N_X=%d;N_E=%d;N_I=%d;N_P=%d;N_F=%s;N_NOCOST=%d" % (x, e, i, p, s, nocost)


CHECKS["P06"] = {
    # one binary each: the problem class has the same name in all of them
    "groups": [{"build": "asan", "src": ["expr.cpp", nlp(*a)]} for a in
               [(3, 2, 2, 1), (2, 0, 2, 0), (4, 1, 0, 2), (3, 0, 0, 1), (3, 1, 1, 0, "float"), (2, 1, 1, 1, "double", 1), (1, 1, 1, 1)]],
    "rule": "one user-defined NLP made of random programs; 14 evaluations in random order at random points on one object built in dirty memory, each compared with jet arithmetic",
    "require": {"nlp_*.call12": 1000, "nlp_*.constant_function": 100},
}


def qn(n, s="double", dyn=0):
    return "qn_p07.cpp@B_N=%d;B_F=%s;B_DYN=%d" % (n, s, dyn)


CHECKS["P07"] = {
    "groups": [{"build": "asan", "src": [qn(1), qn(2), qn(4), qn(7), qn(3, "float"), qn(5, "double", 1)]}],
    "rule": "one sequence of quasi-Newton updates, each compared with the defining formula in long double",
    "require": {"update_*.bfgs_damped": 1000, "update_*.bfgs_plain": 1000, "update_*.sr1_update": 1000, "update_*.bfgs_flat": 10},
}


def sqp(src, name, x, e, i, p, s="double", qp="boxADMM", pre="polympc::IdentityPreconditioner"):
    return src + "@NLP_NAME=%s;N_X=%d;N_E=%d;N_I=%d;N_P=%d;N_F=%s;N_QP=%s;N_PRE=%s" % (name, x, e, i, p, s, qp, pre)


SQP = [("NlpA", 3, 1, 2, 1), ("NlpB", 2, 0, 0, 0), ("NlpC", 4, 0, 3, 0), ("NlpD", 5, 2, 0, 2), ("NlpE", 3, 1, 1, 0, "float"), ("NlpF", 1, 0, 1, 1)]
CHECKS["P09"] = {
    # one binary per problem: the monitored solver has the same name in all of them
    "groups": [{"build": "asan", "src": ["lsf_p09.cpp"]}] + [{"build": "asan", "src": ["sqp_prob.cpp", sqp("sqp_p09.cpp", *a)]} for a in SQP],
    "rule": "one line search on a random problem judged against the definition of the sufficient decrease condition, or one sequence of filter operations judged against a model",
    "require": {"linesearch_*.full_step": 1000, "linesearch_*.reduced_step": 1000, "linesearch_*.exhausted": 100, "filter_*.history_block": 1000},
}
CHECKS["P08"] = {
    "groups": [{"build": "asan", "src": ["sqp_prob.cpp", sqp("sqp_p08.cpp", *a)]} for a in SQP + [
        ("NlpG", 3, 1, 2, 1, "double", "ADMM"), ("NlpH", 3, 1, 2, 1, "double", "boxADMM", "polympc::RuizEquilibration<double,3,3>"), ("NlpI", 6, 2, 3, 1)]],
    "rule": "one SQP solve (or a history of solves on one object) whose report, iterates and answer are judged against the original functions",
    "require": {"sqp_*.solved_full_step": 1000, "sqp_*.not_solved": 500, "sqp_*.fresh_compared": 3000, "sqp_*.bfgs_pair": 3000},
}
CHECKS["P10"] = {
    "groups": [{"build": "asan", "src": ["poly_p10.cpp@PART=%d" % k for k in range(9)]}],
    "rule": "one scheme (family, order, scalar type) built in dirty memory and compared with an independent construction, then used on one random polynomial and interval",
    "require": {"*.projection": 1000, "legendre*.galerkin": 20},
}
CHECKS["P11"] = {
    "groups": [{"build": "asan", "src": ["poly_p11.cpp@V_F=double", "poly_p11.cpp@V_F=float"]}],
    "rule": "one spline, one interpolation problem or one pair of polynomials, compared with an evaluation in long double",
    "require": {"lagrange_*.interpolated": 1000, "cubic_spline_*.right_of_table": 1000, "poly_arith*.zero_polynomial": 100},
}


def ocp(level, x, u, p, d, g, poly, seg, sp, cost=3, s="double", src="ocp_p12.cpp"):
    return src + "@O_LEVEL=%d;O_X=%d;O_U=%d;O_P=%d;O_D=%d;O_G=%d;O_F=%s;O_POLY=%d;O_SEG=%d;O_SP=%d;O_COST=%d" % (level, x, u, p, d, g, s, poly, seg, sp, cost)


def ocps(*specs):  # one binary each: the problem class has the same name in all of them
    return [{"build": "asan", "src": ["expr.cpp", "ocp_ref.cpp", s]} for s in specs]


CHECKS["P12"] = {
    "groups": ocps(ocp(0, 2, 1, 1, 1, 1, 3, 2, 0), ocp(0, 3, 2, 0, 2, 2, 2, 3, 0), ocp(0, 1, 1, 0, 0, 0, 4, 1, 0), ocp(0, 2, 2, 1, 0, 1, 5, 2, 1), ocp(0, 1, 2, 2, 1, 3, 3, 3, 1, 2),
                   ocp(0, 2, 1, 0, 0, 1, 3, 2, 0, 1, "float"), ocp(0, 2, 1, 1, 1, 1, 6, 1, 0, 0)),
    "rule": "one problem of random functions; a random sequence of evaluations at random points and time windows, each compared with an independent transcription in long double",
    "require": {"values_*.call00": 1000, "values_*.call03": 1000, "values_*.time_window_changed": 1000},
}
CHECKS["P13"] = {
    "groups": ocps(ocp(2, 2, 1, 1, 1, 1, 3, 2, 0), ocp(2, 3, 2, 0, 2, 2, 2, 3, 0), ocp(2, 1, 1, 0, 0, 0, 4, 1, 0), ocp(2, 1, 2, 2, 1, 3, 3, 2, 0, 2), ocp(2, 2, 1, 0, 0, 1, 3, 2, 0, 1, "float"), ocp(2, 2, 1, 1, 1, 1, 4, 1, 0, 0)),
    "rule": "one problem of random functions; a random sequence of linearisations and Hessians on one object built in dirty memory, each compared with jet arithmetic",
    "require": {"second_*.call12": 500, "second_*.call10": 500},
}
CHECKS["P14"] = {
    "groups": ocps(ocp(2, 2, 1, 1, 1, 1, 3, 2, 1), ocp(2, 2, 1, 2, 0, 1, 2, 2, 1), ocp(2, 3, 2, 0, 2, 2, 2, 3, 1), ocp(2, 1, 1, 0, 0, 0, 4, 1, 1), ocp(2, 1, 2, 2, 1, 3, 3, 2, 1, 2), ocp(2, 2, 1, 0, 0, 1, 3, 2, 1, 1, "float"), ocp(2, 2, 1, 1, 1, 1, 4, 1, 1, 0)),
    "rule": "one problem of random functions; a random sequence of sparse evaluations into new and reused matrices, each compared with jet arithmetic; block quasi-Newton updates compared with the dense formula on the pattern",
    "require": {"second_*.call12": 500, "second_*.fresh_matrix": 500, "second_*.block_bfgs_plain": 50, "second_*.block_bfgs_damped": 50},
}


def mpc(src, x, u, p, d, g, poly, seg, sp, cost=3, s="double", qp="boxADMM"):
    return ocp(2, x, u, p, d, g, poly, seg, sp, cost, s, src) + ";M_QP=" + qp


def mpcs(*specs):
    return [{"build": "asan", "src": ["expr.cpp", "ocp_ref.cpp", "mpc_ref.cpp", s]} for s in specs]


CHECKS["P15"] = {
    "groups": mpcs(mpc("mpc_p15.cpp", 2, 1, 1, 1, 1, 3, 2, 0), mpc("mpc_p15.cpp", 3, 2, 0, 1, 0, 4, 1, 1), mpc("mpc_p15.cpp", 2, 1, 0, 0, 2, 2, 3, 1), mpc("mpc_p15.cpp", 1, 1, 2, 2, 1, 5, 2, 0), mpc("mpc_p15.cpp", 2, 1, 0, 1, 1, 3, 2, 0, 3, "float")),
    "rule": "one controller object driven by 25 random calls, its bounds, guesses, solution accessors, time grid and interpolated trajectories compared with a model indexed by time after every call",
    "require": {"mpc_*.solved_on_the_way": 100, "mpc_*.set_time_limits": 500, "mpc_*.at_knot": 1000},
}
CHECKS["P16"] = {
    "groups": mpcs(mpc("mpc_p16.cpp", 2, 1, 1, 1, 1, 3, 2, 0), mpc("mpc_p16.cpp", 3, 2, 0, 1, 0, 4, 1, 1), mpc("mpc_p16.cpp", 2, 2, 0, 0, 2, 3, 2, 1), mpc("mpc_p16.cpp", 1, 1, 1, 2, 1, 5, 2, 0, 3, "double", "ADMM"), mpc("mpc_p16.cpp", 2, 2, 0, 1, 1, 3, 2, 0, 3, "float")),
    "rule": "closed loops: every SOLVED answer certified (feasibility, multipliers, stationarity) with an independent transcription; linear-quadratic problems must be solved; twin controllers with different histories compared",
    "require": {"loop_*.certified": 1000, "loop_*.well_posed": 80, "loop_*.horizon_shifted": 500, "loop_*.fresh_twin": 300},
}
CHECKS["P18"] = {
    "groups": mpcs(mpc("mem_p18.cpp", 2, 1, 1, 1, 1, 3, 2, 0), mpc("mem_p18.cpp", 1, 1, 0, 1, 1, 3, 1, 0, 3, "double", "ADMM"), mpc("mem_p18.cpp", 3, 2, 0, 0, 0, 4, 2, 0, 3, "float"))
    + [{"build": "asan", "src": ["mem_p18n.cpp@H_F=%s;H_QP=%s;H_PRE=%s;H_ID=%d" % a]} for a in
       [("double", "boxADMM", "polympc::IdentityPreconditioner", 0), ("float", "ADMM", "polympc::IdentityPreconditioner", 1), ("double", "boxADMM", "polympc::RuizEquilibration<double,5,4>", 2)]],
    "rule": "one fixed-size dense controller, NLP or QP solver driven through several solves with an allocation hook armed around every call",
    "require": {"noheap_*.self_test": 100, "noheap_*.solve": 200, "noheap_*.rho_updates": 150, "noheap_nlp_*.nlp-solve": 200},
}
CHECKS["P20"] = {
    "groups": [{"build": "asan", "src": ["lqr_p20.cpp@PART=0", "lqr_p20.cpp@PART=1", "lqr_p20b.cpp", "lqr_ref.cpp"]}],
    "rule": "one pseudo-inverse, Lyapunov, line-search or LQR problem judged against its defining equations in long double",
    "require": {"pinv.tall": 300, "pinv.wide": 300, "lyapunov.complex_eigenvalues": 500, "lqr.lqr": 1000, "lqr.lqr_cross": 300, "lqr.rejected": 50},
}
CHECKS["P19"] = {
    "groups": [{"build": "tsan", "link": ["-lpthread"], "src": ["thr_p19.cpp", "thr_qp.cpp", "qp_lib.cpp", "thr_misc.cpp", qp("DADMM", 4, 2), qp("DBOX", 4, 2), qp("SADMM", 4, 2), qp("SBOX", 4, 2), qp("DBOX", 3, 2, "float")]
                + ["thr_nlp.cpp@T_NAME=%s;T_F=%s;T_QP=%s;T_PRE=%s" % a for a in [("ThrA", "double", "boxADMM", "polympc::IdentityPreconditioner"), ("ThrB", "double", "ADMM", "polympc::RuizEquilibration<double,4,3>"), ("ThrC", "float", "boxADMM", "polympc::IdentityPreconditioner")]]},
               {"build": "tsan", "link": ["-lpthread"], "src": ["thr_p19.cpp", "expr.cpp", "ocp_ref.cpp", "mpc_ref.cpp", mpc("thr_mpc.cpp", 2, 1, 1, 1, 1, 3, 2, 0)], "scale": 0.3},
               {"build": "tsan", "link": ["-lpthread"], "src": ["thr_p19.cpp", "expr.cpp", "ocp_ref.cpp", "mpc_ref.cpp", mpc("thr_mpc.cpp", 2, 1, 0, 1, 1, 3, 2, 1)], "scale": 0.3}],
    "rule": "several objects of one kind (or a mixture) driven from 2 to 4 threads or interleaved in one thread under ThreadSanitizer; every result compared bitwise with the object alone",
    "require": {"threads.thread_steps": 800, "threads.overlapping_steps": 100, "interleaved.values": 10000},
}


def colloc(x, u, p, y, poly, seg, s="double"):
    return {"build": "asan", "src": ["expr.cpp", "ocp_ref.cpp", "colloc_p22.cpp@K_X=%d;K_U=%d;K_NP=%d;K_Y=%d;K_P=%d;K_S=%d;K_F=%s" % (x, u, p, y, poly, seg, s)]}


CHECKS["P22"] = {
    "groups": [colloc(2, 1, 1, 2, 3, 2), colloc(3, 2, 0, 1, 4, 1), colloc(1, 2, 2, 1, 2, 3), colloc(2, 1, 1, 3, 5, 2, "float"), colloc(2, 2, 1, 1, 1, 3), colloc(2, 1, 2, 1, 2, 1)],
    "rule": "six random evaluations of the ODE, sparse ODE, cost and constraint collocation of one problem compared with the reference transcription",
    "require": {"colloc_*.call%d" % i: 300 for i in range(8)},
}

def ipn(x, e, i, p):
    return {"build": "asan", "src": ["expr.cpp", "ipopt_p23.cpp@N_X=%d;N_E=%d;N_I=%d;N_P=%d" % (x, e, i, p)]}


CHECKS["P23"] = {
    "groups": [ipn(3, 1, 2, 1), ipn(2, 1, 0, 0), ipn(4, 0, 2, 0), ipn(3, 0, 0, 1),
               {"build": "asan", "src": ["expr.cpp", "ocp_ref.cpp", ocp(2, 1, 1, 1, 1, 1, 3, 2, 0).replace("ocp_p12", "ipopt_ocp_p23")]},
               {"build": "asan", "src": ["expr.cpp", "ocp_ref.cpp", ocp(2, 2, 1, 1, 1, 1, 3, 2, 1).replace("ocp_p12", "ipopt_ocp_p23")]},
               {"build": "asan", "src": ["expr.cpp", "ocp_ref.cpp", ocp(2, 2, 1, 0, 0, 0, 2, 2, 1).replace("ocp_p12", "ipopt_ocp_p23")]},
               {"build": "asan", "src": ["qp_lib.cpp", "osqp_p23.cpp@A_N=4;A_M=2"]}, {"build": "asan", "src": ["qp_lib.cpp", "osqp_p23.cpp@A_N=3;A_M=5"]}, {"build": "asan", "src": ["qp_lib.cpp", "osqp_p23.cpp@A_N=1;A_M=1"]}],
    "rule": "one problem handed to a scripted stand-in of the external solver, which asks for everything the solver may ask and answers with prescribed results",
    "require": dict([("ipopt_*.eval%d" % i, 500) for i in range(5)] + [("osqp_*.warm%d_reuse%d_guess%d" % (a, b, d), 300) for a in (0, 1) for b in (0, 1) for d in (0, 1)] + [("qpmad_*.status%d" % i, 300) for i in range(4)]),
}

MEM = [  # one instantiation or two of every module
    ["qp_p01.cpp", "qp_p03.cpp", "qp_p04.cpp", "qp_lib.cpp", qp("DADMM", 4, 2), qp("DBOX", 4, 2), qp("SADMM", 4, 2), qp("SBOX", 4, 2), qp("DBOX", 3, 2, "float"), qp("SADMM_CG", 4, 2), qp("DADMM", 2, 5)],
    ["qp_lib.cpp", pre(4, 2, 0), pre(4, 2, 1)],
    ["expr.cpp", ad(3, 0, 0), ad(4, 1, 0), ad(2, 0, 1)],
    ["expr.cpp", nlp(3, 2, 2, 1)],
    [qn(5, "double", 1)],
    ["lsf_p09.cpp"], ["sqp_prob.cpp", sqp("sqp_p09.cpp", *SQP[0])],
    ["sqp_prob.cpp", sqp("sqp_p08.cpp", "NlpH", 3, 1, 2, 1, "double", "boxADMM", "polympc::RuizEquilibration<double,3,3>")],
    ["poly_p10.cpp@PART=0"], ["poly_p11.cpp@V_F=double"],
    ["expr.cpp", "ocp_ref.cpp", ocp(2, 2, 1, 1, 1, 1, 3, 2, 0)], ["expr.cpp", "ocp_ref.cpp", ocp(2, 2, 1, 1, 1, 1, 3, 2, 1)],
    ["expr.cpp", "ocp_ref.cpp", "mpc_ref.cpp", mpc("mpc_p15.cpp", 3, 2, 0, 1, 0, 4, 1, 1)],
    ["expr.cpp", "ocp_ref.cpp", "mpc_ref.cpp", mpc("mpc_p16.cpp", 2, 1, 1, 1, 1, 3, 2, 0)],
    ["lqr_p20.cpp@PART=0", "lqr_p20.cpp@PART=1", "lqr_p20b.cpp", "lqr_ref.cpp"],
]
MEM_MORE = [
    colloc(2, 1, 1, 2, 3, 2)["src"],
    [qn(4)], ["poly_p10.cpp@PART=3"], ["sqp_prob.cpp", sqp("sqp_p08.cpp", *SQP[0])],
    ["expr.cpp", nlp(3, 0, 0, 1)], ["sqp_prob.cpp", sqp("sqp_p08.cpp", *SQP[2])], ["expr.cpp", "ocp_ref.cpp", ocp(2, 1, 1, 0, 0, 0, 4, 1, 0)],
    ["expr.cpp", "ocp_ref.cpp", "mpc_ref.cpp", mpc("mpc_p15.cpp", 2, 1, 1, 1, 1, 3, 2, 0)], ["expr.cpp", "ocp_ref.cpp", "mpc_ref.cpp", mpc("mpc_p16.cpp", 2, 2, 0, 0, 2, 3, 2, 1)],
]
MEM_GCC = [MEM[0], MEM[1], MEM[3], [qn(4)], MEM[7], MEM[9], MEM[12]]
CHECKS["P17"] = {
    "groups": [{"build": "msan", "src": m, "scale": 0.1} for m in MEM] + [{"build": "msan", "src": m, "scale": 0.1, "thorough_only": True} for m in MEM_MORE]
    + [{"build": "gcc", "src": m, "scale": 0.05} for m in MEM_GCC] + [{"build": "gcc", "src": m, "scale": 0.05, "thorough_only": True} for m in MEM + MEM_MORE if m not in MEM_GCC],
    "crash_only": True,
    "rule": "the workloads of the other checks executed under MemorySanitizer (objects built in poisoned memory, fresh heap poisoned) and under gcc's AddressSanitizer + UndefinedBehaviorSanitizer; any report is a violation",
    "require": {"*.msan_armed": 50, "*.asan_armed": 30, "*.objects_in_poisoned_memory": 1000},
}
