# writes properties.jsonl (run after editing the list below)
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b) for a,b in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
CPP="src/"
p("P01","Sequential reduction converges to the exact likelihood",
 "For a binomial model with logit or probit link whose dependence structure is sparse enough, the sequential reduction log-likelihood agrees with the exact log-likelihood (responses integrated over the random effects, up to the binomial coefficients) with an error that shrinks as the level grows and is negligible (below about 1e-4) at level 4 for random-effect standard deviations up to about 1. This holds for every pattern of observations: crossed, nested and correlated random effects, several factors, groups or cells that are empty, observations with zero covariates, zero weights, repeated cells, and long chains, cycles and trees of comparisons with any numbering.",
 ["inputs","configurations"],"every occupancy pattern, grouping, comparison graph, response vector, link and level within the stated sizes",
 "The tests evaluate a handful of data sets and compare with stored numbers or with another approximation of the same code; a wrong clique, cluster or conditional mean only matters for particular dependence structures.",
 ["R/loglikelihood.R","R/splitframe.R","src/ClusterGraph.cpp","src/MixedContinuousBelief.cpp","src/SparseBelief.cpp","src/IntegratedFunction.cpp","src/GLMMBelief.cpp","src/SparseGrid.cpp"],
 [("find_lfun_SR / find_factorization_terms","R/loglikelihood.R, R/splitframe.R"),("ClusterGraph::computeLogNormalizingConstant","src/ClusterGraph.cpp"),("IntegratedFunction","src/IntegratedFunction.cpp")],
 ["find_lfun_glmm(method = 'SR')"],[("cluster graph beliefs","partial products and messages of the variable elimination")])
p("P02","Limiting cases of sequential reduction: Laplace and adaptive quadrature",
 "With nSL = 0 the sequential reduction log-likelihood equals the first-order Laplace approximation. When each observation involves at most one random effect, sequential reduction at level k equals adaptive Gaussian quadrature with 2^(k+1) - 1 points, whatever the group sizes, number and numbering of groups, weights, link and parameter values.",
 ["inputs","configurations"],"every layout, response vector, link, theta and level within the stated sizes",
 "Tests check the equality for one or two data sets with default settings.",
 ["R/loglikelihood.R","src/QuadratureRule.cpp","src/IntegratedFunction.cpp","src/SparseBelief.cpp","src/MultiNormal.cpp"],
 [("find_lfun_SR","R/loglikelihood.R"),("GaussHermite rule and integrate1D","src/QuadratureRule.cpp")],["find_lfun_glmm(method = 'SR')","find_lfun_glmm(method = 'Laplace' or 'AGQ')"])
p("P03","Laplace approximations of order 1 and 2 equal their definitions",
 "The first-order Laplace log-likelihood is the log-integrand at its mode minus half the log-determinant of the curvature there (expected information for the probit link), and the second-order one adds the standard correction from third and fourth derivatives for canonical links. Second order with a non-canonical link, and any order above 2, is refused rather than approximated.",
 ["inputs","configurations"],"every layout, response vector, weight vector and parameter value within the stated sizes",
 "Tests compare a few values with stored numbers and check finite differences at one point.",
 ["R/laplace.R","R/hol.R","R/loglikelihood.R","src/LogitLink.cpp","src/Binomial.cpp","src/FamilyGivenMean.cpp"],
 [("find_epsilon_1","R/hol.R"),("find_lfun_Laplace","R/laplace.R"),("extended_family derivatives","src/Family.cpp")],["find_lfun_glmm(method = 'Laplace', control = list(order = 1 or 2))"])
p("P04","Importance sampling is the average weight of fixed draws from the Gaussian fit",
 "The importance sampling log-likelihood is the log of the average, over nIS draws from the Gaussian approximation at those parameters, of the integrand divided by the density of the draw, with the underlying standard normal draws fixed when the likelihood function is created. It is therefore a deterministic function of the parameters (no random numbers are consumed by evaluation), reproducible from the random seed, finite wherever the integrand is, and exact when the random-effect standard deviations are zero.",
 ["inputs","configurations","histories"],"every layout, family of response, weights, offset, nIS and sequence of evaluations within the stated sizes",
 "Tests call the method on one data set and cannot see a wrong proposal covariance or transposed matrix because the estimate is still consistent.",
 ["R/IS.R","R/loglikelihood.R"],[("find_log_weights / transform_normal / find_lfun_IS","R/IS.R")],["find_lfun_glmm(method = 'IS')"],[("z_poss","the standard normal draws fixed at creation")])
p("P05","Likelihood functions are independent of history",
 "The value of a likelihood function depends only on the model, the method and control settings and the parameters passed to it: not on earlier evaluations (including ones that failed), on other likelihood functions built from the same model frame, on fits made in between, on the order in which any of these were made, or on the frame having been stored and restored. Building and evaluating likelihood functions does not modify the data, offset or weights of the user, nor the model frame.",
 ["histories"],"every sequence of creating and evaluating likelihood functions up to the stated depth",
 "A test runs one sequence; leakage through shared environments, in-place modification by compiled code and warm starts needs particular sequences.",
 ["R/loglikelihood.R","R/IS.R","R/laplace.R","R/hol.R","src/GLMMBelief.cpp","src/ClusterGraph.cpp"],
 [("find_devfun_laplace_1 (lme4 environment shared by closures)","R/loglikelihood.R"),("compute_normal_approx","R/loglikelihood.R"),("parameters object inside the SR closure","R/loglikelihood.R")],
 ["find_lfun_glmm","find_modfr_glmm"],[("lme4 deviance environment","mode and weights left by the previous evaluation"),("calibration parameters","theta and beta of the previous evaluation")])
p("P06","Substituted variables and subformulas mean what they say",
 "In a model with Sub() terms, the fixed-effects matrix and the random-effects matrix of the model frame are those of the linear predictor obtained by substituting the value of each subformula, evaluated at each index, into the Sub() expression (sums, differences, multiples and divisions by data vectors or constants, one or more indices), alongside the other terms of the formula. This holds for every way of writing the indices: factors with any levels or level order, numeric indices, covariates as vectors, matrices or arrays, index levels that do not occur; and whatever the variables are called.",
 ["inputs","programs"],"every expression, index encoding and combination of other terms within the stated grammar depth",
 "Tests check a few expressions for dimensions or against stored frames; wrong alignment of index levels or dimensions needs particular encodings.",
 ["R/subformula.R","R/modify_subexpr.R","R/indexing.R","R/model_frames.R"],
 [("split_formula / parse_sub","R/subformula.R"),("flatten_formula / multi_to_flat","R/indexing.R"),("[fr, +fr, -fr, *fr, /fr","R/model_frames.R")],["find_modfr_glmm","find_lfun_glmm"])
p("P07","Weights are replication, and encodings of the response are equivalent",
 "For every method, an observation with integer prior weight w contributes exactly as w copies of that observation (weight zero as if absent), up to constants not involving the parameters. Binary responses coded as numbers, logicals or factors, and grouped ones coded as (successes, failures) columns or proportions with weights, give the same likelihood differences, and the same fit, as the individual binary responses.",
 ["inputs","configurations"],"every response pattern, weight vector, encoding, method and link within the stated sizes",
 "Tests check weights for one data set and method, and no other encodings of the response.",
 ["R/model_frames.R","R/splitframe.R","R/IS.R","R/hol.R","src/Binomial.cpp","src/GLMMBelief.cpp"],
 [("find_response","R/model_frames.R"),("find_local_term","R/splitframe.R"),("weights in Binomial","src/Binomial.cpp")],["find_lfun_glmm","glmm"])
p("P08","Offsets shift the linear predictor, in every method",
 "For every method, a known offset, given as the offset argument or as one or more offset() terms of the formula, enters the linear predictor with coefficient one: the log-likelihood with offset X b at coefficients beta equals the one without offset at beta + b, and an arbitrary offset gives the same value as a covariate equal to it with coefficient 1. This also holds in models with Sub() terms and in models with no other fixed effects.",
 ["inputs","configurations"],"every form of offset, method, link and layout within the stated sizes",
 "There is no test with an offset.",
 ["R/model_frames.R","R/loglikelihood.R","R/IS.R","R/splitframe.R","R/subformula.R"],[("find_XBeta","R/IS.R"),("find_factorization_terms (offset column)","R/splitframe.R"),("parse_formula","R/model_frames.R")],["find_lfun_glmm","glmm"])
p("P09","Likelihood invariances: order, labels, signs and reparametrisation",
 "The log-likelihood of a model does not change, for any deterministic method, when the rows of the data are permuted, the variables are renamed, the levels of a grouping factor are renamed or reordered, the terms of the formula are reordered (with the parameters reordered accordingly), the sign of an uncorrelated random-effect standard deviation is changed, or successes and failures are exchanged together with the signs of the fixed effects and the offset (for differences of compared units: the units of each comparison exchanged). For sequential reduction of models whose observations involve several random effects, a change in the order of levels or terms may change the value by its approximation error. When all standard deviations are zero, or arbitrarily close to zero, it equals the log-likelihood of the generalized linear model without random effects.",
 ["inputs"],"every permutation of rows, renaming, relabelling, order of terms and sign pattern within the stated sizes",
 "Tests evaluate one ordering of one data set.",
 ["R/loglikelihood.R","R/splitframe.R","src/ClusterGraph.cpp","src/Graph.cpp","R/subformula.R"],[("find_cliques / find_local_term","R/splitframe.R"),("elimination ordering","src/Graph.cpp, src/ClusterGraph.cpp")],["find_lfun_glmm"])
p("P10","glmm returns a maximiser and its curvature",
 "A successful fit (no convergence warning) returns parameters at which the approximate log-likelihood returned with it is stationary and no lower than at the starting point and at nearby points, with non-negative standard deviations, and Sigma equal to the inverse of the negative Hessian of that log-likelihood (where it is smooth: sparse-grid approximations have corners). The result does not depend on verbose, and starting from a previous fit, of the same or another method, leads to the same maximum; a standard deviation estimated beyond the allowed range is reported with a warning and a missing Sigma.",
 ["inputs","configurations","histories"],"every small data set, method, verbosity and chain of previous fits within the stated sizes",
 "Tests compare estimates on two stored data sets with lme4's to loose tolerance.",
 ["R/fit.R","R/optimization.R"],[("optimize_glmm","R/optimization.R"),("glmm","R/fit.R")],["glmm"])
p("P11","coef, vcov, summary and print report the fit",
 "coef, vcov, summary and print of a fitted model report exactly its estimates, standard errors (root of the diagonal of Sigma), absolute z values and two-sided normal p-values, each attached to the name of its own parameter, random effects first in the order of the model, and print names the formula, family, approximation, number of observations and number of groups of each random-effects term. This holds for any numbers of fixed and random effects, including no fixed effects.",
 ["inputs","configurations"],"every combination of numbers and kinds of fixed and random effects, method and Sub() terms within the stated sizes",
 "There are no tests of the reporting methods beyond names for one model.",
 ["R/glmmFit.R"],[("print.glmmFit, summary.glmmFit, coef, vcov","R/glmmFit.R")],["coef","vcov","summary","print"])
p("P12","Control settings are honoured and unsupported requests are refused",
 "Settings in control take effect for the method they belong to (with the documented defaults nAGQ 15, nSL 3, nIS 1000, order 1), settings of other methods or unknown names give a warning, and lme4_control is passed on. Requests the package does not support (no or unknown method, gaussian and quasi families, other families or links for SR, models without random effects, non-integer weights, parameter vectors of the wrong length for SR, computations that are too wide for SR, invalid Sub expressions or subformulas, missing values in the variables used, variables of unequal lengths) stop with an error rather than returning a number.",
 ["inputs","configurations"],"every combination of method, control setting, family, link and kind of invalid request in the stated lists",
 "Tests check a few of the errors one at a time.",
 ["R/control.R","R/fit.R","R/utility.R","R/laplace.R","R/subformula.R","R/indexing.R","R/loglikelihood.R"],[("find_control_with_defaults","R/control.R"),("check_modfr_SR, check_weights","R/utility.R"),("find_lfun_glmm_internal","R/loglikelihood.R")],["glmm","find_lfun_glmm","find_modfr_glmm","set_lme4_control"])
p("P13","Normalizing constants of Gaussian factor graphs are exact",
 "The normalizing constant computed by the cluster tree for a product of Gaussian factors (with the Gaussian approximation set to that product) is the exact multivariate normal integral, at every sparse-grid level and number of quadrature points, for every graph of factors. It does not depend on the order in which factors are added, on how a factor is split into several, or on the numbering of the variables.",
 ["inputs","configurations"],"every graph on up to the stated number of variables, numbering, factor order, level and number of points",
 "No test uses the cluster tree directly; in models the error is hidden by the approximation error.",
 ["src/ClusterGraph.cpp","src/MixedContinuousBelief.cpp","src/MixedContinuousBeliefVector.cpp","src/NormalBelief.cpp","src/SparseBelief.cpp","src/IntegratedFunction.cpp","src/MultiNormal.cpp","src/Quadratic.cpp"],
 [("ClusterGraph::computeLogNormalizingConstant","src/ClusterGraph.cpp"),("marginal beliefs","src/SparseBelief.cpp, src/NormalBelief.cpp")],["cluster_graph$compute_log_normalizing_constant"])
p("P14","The cluster tree is as narrow as its elimination order allows",
 "The width reported for a factor graph is the size of the largest cluster of a valid variable elimination of that graph: at least the size of the largest factor and at least the treewidth plus one, at most what eliminating a variable with fewest neighbours first can give, and so equal to treewidth plus one for trees, cycles, complete graphs and small graphs, however factors and variables are ordered or repeated. A model is refused as too difficult exactly when width^(2 nSL) exceeds 5e5.",
 ["inputs","configurations"],"every graph on up to the stated number of variables and every numbering",
 "No test looks at the width.",
 ["src/ClusterGraph.cpp","src/Graph.cpp","R/loglikelihood.R"],[("elimination ordering","src/Graph.cpp"),("complexity limit","R/loglikelihood.R")],["cluster_graph$width","find_lfun_glmm(method = 'SR')"])
p("P15","Log-likelihood contributions and their derivatives are right and stay finite",
 "For the binomial family, the contribution of an observation to the log-likelihood and its first and second derivatives (for the logit link also third and fourth) in the linear predictor equal those of w(y log mu + (1-y) log(1-mu)), vectorised over observations, for every proportion y in [0,1], weight w >= 0 and linear predictor; where mu is within 1e-8 of 0 or 1 it is replaced by that bound, and everything stays finite for linear predictors up to 1e100 in absolute value. Unknown families and links are refused.",
 ["inputs"],"a dense grid of linear predictors crossed with responses, weights, links, vector lengths and derivative orders",
 "Tests check finite differences at a few points.",
 ["src/Family.cpp","src/FamilyBase.cpp","src/Binomial.cpp","src/LogitLink.cpp","src/ProbitLink.cpp","src/FamilyGivenMean.cpp","src/LinkBase.cpp"],[("Family / Link / FamilyGivenMean","src/")],["extended_family"])
p("P16","One-dimensional integrals use the stated Gauss-Hermite rule",
 "For a factor graph in which each variable is on its own, the normalizing constant is the sum over variables of the log of the n-point Gauss-Hermite rule centred and scaled by the given Gaussian approximation, for every number of points n and every centre and scale; it is exact for Gaussian factors, and rules used earlier do not affect later ones.",
 ["inputs","configurations","histories"],"every number of points up to the stated limit, every order of use, a grid of centres and scales",
 "Tests use the default number of points only.",
 ["src/QuadratureRule.cpp","src/IntegratedFunction.cpp"],[("GaussHermite / integrate1D","src/QuadratureRule.cpp")],["cluster_graph$compute_log_normalizing_constant"])
p("P17","Compiled code stays within its memory",
 "No sequence of valid calls makes the compiled code read or write outside its objects, use uninitialised or freed memory, or execute undefined operations: constructing and evaluating every kind of belief and cluster graph, in any order, including models with no fixed effects, single observations, random effects no observation uses, and cliques of any size.",
 ["inputs","histories"],"every structure, level and call sequence in the stated lists, run under address and undefined-behaviour sanitizers with Eigen's assertions on",
 "Tests run without sanitizers, where such errors mostly go unnoticed.",
 ["src/GLMMBelief.cpp","src/ClusterGraph.cpp","src/SparseBelief.cpp","src/SparseGrid.cpp","src/RcppR6.cpp","src/subsetEigen.cpp"],[("GLMMBelief constructor","src/GLMMBelief.cpp"),("subsetEigen helpers","src/subsetEigen.cpp")],["process exit, sanitizer reports"])
p("P18","Calibration parameters hold what was last set",
 "Each field of a calibration_parameters object returns the value last assigned to it, whatever was assigned to the other fields or to other objects before or since, and computations use the values held at the time of the call.",
 ["histories"],"every sequence of assignments up to the stated depth over a small alphabet of fields and values, on one and two objects",
 "Tests never read the fields back.",
 ["src/Parameters.cpp","src/accessParameters.cpp","R/RcppR6.R"],[("get/setParameters*","src/accessParameters.cpp")],["calibration_parameters"],[("Parameters","the fields held")])
p("P19","Random-effects structures of a model frame are internally consistent",
 "In every model frame, with several random-effects terms, several Sub() terms or both, the parts of the random-effects structure agree with each other: the stacked matrix is the stack of the per-term ones, the column pointers, the relative covariance template and its parameter map, starting values, lower bounds, component names, grouping factors and their assignment to terms all have matching lengths and refer to the same terms in the same order.",
 ["inputs","programs"],"every combination of terms within the stated grammar",
 "Tests check dimensions of the matrices for two models.",
 ["R/model_frames.R","R/subformula.R"],[("concatenate_frames / attach_subframes","R/model_frames.R")],["find_modfr_glmm"])
p("P20","The Laplace check measures the shift from the second-order correction",
 "With check_Laplace and the logit link, glmm reports laplace_divergence = half the quadratic form of the gradient of the second-order correction (second minus first-order log-likelihood) at the estimate with Sigma, and warns that inference may be unreliable exactly when it exceeds divergence_threshold. It is not computed for other methods or for order 2, and does not change the estimates.",
 ["inputs","configurations"],"every small data set, threshold and method in the stated lists",
 "Tests compare one value with a stored number.",
 ["R/hol.R","R/fit.R","R/control.R"],[("find_laplace_divergence","R/hol.R"),("glmm","R/fit.R")],["glmm(control = list(check_Laplace = TRUE))"])
p("P21","Sequential reduction at each finite level follows its definition",
 "For every model and every level nSL, and for every factor graph with every number of quadrature points and every Gaussian approximation, the value of sequential reduction is that of its definition: variables are eliminated in an order of smallest degree, each factor is used once, each integral is the Gauss-Hermite rule centred and scaled by the conditional distribution in the Gaussian approximation, and each resulting function is stored as the sum of the quadratic which makes its derivatives at the centre those of the Gaussian approximation, and of the interpolation of the remainder on the sparse grid of that level (splines with end conditions of Forsythe, Malcolm and Moler on the symmetrically standardised variables), cut off at the largest stored value.",
 ["inputs","configurations"],"every factor graph, model structure, level and number of points in the stated lists",
 "Tests check that the error decreases for two data sets; a wrong derivative, end condition or factor assignment leaves a smaller but still wrong approximation.",
 ["src/ClusterGraph.cpp","src/IntegratedFunction.cpp","src/SparseStore.cpp","src/SparseGrid.cpp","src/SparseGridTransform.cpp","src/BasisLevel.cpp","src/Point.cpp","src/MixedContinuousBelief.cpp","R/splitframe.R","R/loglikelihood.R"],[("ClusterGraph::initializeInternal / passMessage","src/ClusterGraph.cpp"),("IntegratedFunction","src/IntegratedFunction.cpp"),("SparseStore::initializeFromNormal","src/SparseStore.cpp"),("BasisLevel","src/BasisLevel.cpp")],["cluster_graph$compute_log_normalizing_constant","find_lfun_glmm(method = \"SR\")"])
open(os.path.join(V,"properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
# ... and MANIFEST.json
TECH={}
def t(ids,tech,note):
    for i in ids.split(): TECH[i]=(tech,note)
BASE=" Assumes R, lme4, Matrix and Eigen compute what they document; nothing outside the stated alphabets is covered."
t("P01 P02 P03 P04 P09 P13 P14 P16","bounded exhaustive enumeration of model structures on the real code, each compared with an independent reference model","Every structure within the bounds in the evidence file is run on the freshly built package and compared with a reference written from the definitions."+BASE)
t("P07 P08 P15 P19 P20 P11 P12 P10","bounded exhaustive enumeration of inputs and configurations on the real code, against a reference model or a differential oracle","Every combination of the alphabets in the evidence file is run on the freshly built package."+BASE)
t("P06","exhaustive enumeration of Sub expressions, index encodings and surrounding terms up to a depth, on the real code, against direct evaluation","Every program of the grammar within the bounds is parsed by the real code and compared with an evaluator written from the vignette's description."+BASE)
t("P05 P18","exhaustive exploration of operation sequences up to a depth on the real code, against a reference state machine","All operation sequences within the bounds are executed; each step is compared with the reference (fresh-state value)."+BASE)
t("P21","explicit-state exploration of a nondeterministic model of the algorithm, bound to the code by running every factor graph and model within the bounds on both","The model (lib/srmodel.R) is written from the definition without the package's code; where the definition leaves a choice all choices are explored, and the value of the freshly built package must be one of the model's."+BASE)
t("P17","exhaustive exploration of structures and call sequences on the real code built with address and undefined-behaviour sanitizers","Every listed structure and sequence is executed under ASan, UBSan and Eigen assertions; a report is a violation."+BASE)
ids=[x["id"] for x in P]
have=[i for i in ids if os.path.exists(os.path.join(V,"checks",i+".R"))]
M=dict(version=1,setup_cmd="bash lib/setup.sh",
 checks=[dict(property=i,quick_cmd=f"bash check.sh {i} quick",thorough_cmd=f"bash check.sh {i} thorough",evidence_file=f"evidence/{i}.json",technique=TECH[i][0],level="model_checking",level_note=TECH[i][1]) for i in have],
 not_applicable=[dict(property=i,reason="no check has been built for it yet") for i in ids if i not in have],
 notes="check.sh ID replay PATH replays a recorded violation. No hooks in /repo. Known findings and repaired defects: known_findings.jsonl.")
open(os.path.join(V,"MANIFEST.json"),"w").write(json.dumps(M,indent=1)+"\n")
