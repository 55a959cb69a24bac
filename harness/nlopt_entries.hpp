#define NG(A) go<opt::NLOptGrad<P, nlopt::A>>
#define NN(A) go<opt::NLOptNoGrad<P, nlopt::A>>
es = {
#if NLSET == 0
    {"LBFGS", NG(LD_LBFGS), 5, false, true},
    {"MMA", NG(LD_MMA), 5, true, true},
    {"SLSQP", NG(LD_SLSQP), 5, true, true},
    {"CCSAQ", NG(LD_CCSAQ), 5, true, true},
    {"TNEWTON_PR", NG(LD_TNEWTON_PRECOND_RESTART), 5, false, true},
    {"VAR1", NG(LD_VAR1), 5, false, true},
    {"VAR2", NG(LD_VAR2), 5, false, true},
    {"chain rprop+LBFGS", go<opt::Chained<P, Rp, opt::NLOptGrad<P, nlopt::LD_LBFGS>>>, 4, false, true},
    {"repeat LBFGS", go<opt::ParallelRepeater<P, opt::NLOptGrad<P, nlopt::LD_LBFGS>>>, 4, false, true},
    {"default grad", go<opt::NLOptGrad<P>>, 5, false, true},
#else
    {"DIRECT", NN(GN_DIRECT), 4, true, false},
    {"DIRECT_L", NN(GN_DIRECT_L), 4, true, false},
    {"DIRECT_L_RAND", NN(GN_DIRECT_L_RAND), 4, true, false},
    {"ORIG_DIRECT", NN(GN_ORIG_DIRECT), 4, true, false},
    {"CRS2", NN(GN_CRS2_LM), 4, true, false},
    {"ESCH", NN(GN_ESCH), 4, true, false},
    {"ISRES", NN(GN_ISRES), 4, true, false},
    {"COBYLA", NN(LN_COBYLA), 5, false, true},
    {"BOBYQA", NN(LN_BOBYQA), 5, true, false},
    {"NELDERMEAD", NN(LN_NELDERMEAD), 5, true, true},
    {"SBPLX", NN(LN_SBPLX), 5, true, true},
    {"default nograd", go<opt::NLOptNoGrad<P>>, 4, true, false},
    {"chain default+LBFGS", go<opt::Chained<P, opt::NLOptNoGrad<P>, opt::NLOptGrad<P>>>, 4, false, false},
    {"chain default+COBYLA", go<opt::Chained<P, opt::NLOptNoGrad<P>, opt::NLOptNoGrad<P, nlopt::LN_COBYLA>>>, 4, false, false},
    {"repeat SBPLX", go<opt::ParallelRepeater<P, opt::NLOptNoGrad<P, nlopt::LN_SBPLX>>>, 4, false, true},
#endif
};
