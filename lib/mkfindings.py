# regenerates known_findings.jsonl from the fix: commits in /repo
import subprocess,json
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h%x09%s','7df3d40..'],text=True).strip().split('\n')
prop={'log density of zero is':('P07','SR failed with an improper belief when a cluster held only observations with weight zero (or a log density of exactly zero)'),
'logit link finite':('P15','the logit link and its derivatives were NaN for linear predictors above 178 to 710'),
'make the offset argument':('P08','the offset argument failed (or was ignored) in models with random effects'),
'overwrite the offset stored':('P05','evaluating a likelihood changed the offset in the model frame and in the data of the user'),
'include the offset':('P08','SR, IS and second-order Laplace ignored offsets'),
'factor and two-column':('P07','factor and cbind() responses gave wrong values or errors in SR, IS and second-order Laplace'),
'which involve no random effects':('P01','observations whose random effects all have zero coefficient were assigned to the wrong clique or failed'),
'models with no fixed effects':('P11','print, coef and vcov failed or mislabelled models with no fixed effects'),
'removing Sub terms':('P06','y ~ x + (1|g) + Sub(.) became (x + 1|g), and offsets were dropped'),
'Ztlist a list when adding':('P19','Ztlist became a matrix after adding model frames'),
'vector row by row':('P06','multiplying a substituted variable by a data vector scaled the random-effects part along the wrong dimension'),
'numeric constants in Sub':('P06','a numeric constant in a Sub expression was an error'),
'combine the lower bounds':('P19','model frames with several random-effects terms or Sub terms had wrong lower, Gp, flist, nl'),
'subset the columns of each':('P19','Ztlist was not subset with Zt'),
'contained in the data':('P06','an index variable contained in the data was coded by the levels of another variable'),
'wrong number of substituted':('P12','a Sub term with no or several substituted variables was not refused'),
'subformulas which are not used':('P12','an unused subformula was an obscure error'),
'use lme4_control when':('P12','glmm did not pass lme4_control to the construction of the model frame'),
'intended covariance':('P04','importance samples had covariance from the transposed Cholesky factor'),
'past the end of theta':('P17','out-of-bounds read of theta when constructing a GLMM belief'),
'conditional mean':('P13','the quadrature rule was centred at the conditional mean with the wrong sign'),
'data to be an environment':('P12','data given as an environment, as documented, was an error'),
'apart from variables named':('P08','with no ordinary random effects, the offset (weights) argument replaced a data variable named off (weights)'),
'theta and Lambdat':('P05','evaluating a likelihood changed theta and Lambdat of the model frame, so that later likelihood functions of the same frame differed'),
'curvature is negligible':('P09','sequential reduction of models with several random effects was arbitrary (or an error) at tiny standard deviations, 1e-20 to 1e-9, such as an optimiser meets when one is estimated as zero'),
'belong to non-negative':('P10','when the optimiser ended at a negative standard deviation, Sigma kept the wrong sign of its covariances, and for IS the reported estimates did not maximise the log-likelihood returned'),
'out-of-range conversions':('P17','the spline basis converted NaN or infinity to an integer when nSL = 0'),
'several indices and no random effects':('P06','a subformula with several indices and no random effects was refused'),
'quadrature weights':('P16','weights of large quadrature rules had absolute but no relative accuracy, so that sequential reduction was wrong (10% at nSL = 5) or refused (nSL = 6) when the integrand is far from the normal density'),
'apart from variables of those names':('P09','in formulas with random effects, a data variable called weights or offset was replaced by the argument of that name'),
'index variables of different lengths':('P12','index variables of different lengths were recycled in terms with several indices'),
'multiplication of a model frame by a vector':('P12','a vector of another length which multiplies a substituted variable was recycled in subformulas without random effects'),
'missing values in subformulas':('P12','levels with missing covariates were dropped from subformulas without random effects, so that covariates were attached to the wrong levels'),
'flattened indices apart':('P06','terms with several indices whose names run together to the name of a variable or of another term used the wrong index'),
'importance sampling likelihood finite':('P04','the importance sampling log-likelihood was infinite or NaN when the weights of the draws differ by more than the range of exp'),
'gaussian family in models with Sub':('P12','the gaussian family (the default) was accepted in models with Sub() terms and no other random effects'),
'quasi families':('P12','quasi families were accepted in models with Sub() terms and no other random effects'),
'several subformulas for the same':('P12','two subformulas for one substituted variable were both added to the model'),
'weights and offsets which are too short':('P12','weights or offset arguments shorter than the data were recycled when the data are a data frame'),
'normalizer of a Gaussian in many':('P13','the normalizing constant was NaN, or the cluster graph refused, when the determinant of a precision matrix of 50 or more variables lies outside the range of a double'),
'quadrature rules with more than about 370':('P16','quadrature rules with more than about 370 points (sequential reduction at level 8) gave NaN, or an error'),
'offsets in subformulas':('P12','an offset() term in a subformula was dropped without notice'),
'all levels of a numeric index':('P06','numeric index levels which do not occur shifted the alignment of the other index, or were an obscure error'),
}
with open('/verif/known_findings.jsonl','w') as f:
    for l in log:
        h,s=l.split('\t')
        m=[v for k,v in prop.items() if k in s]
        assert len(m)==1,(s,m)
        f.write(json.dumps(dict(status="fixed",property=m[0][0],commit=h,what=m[0][1],text=f"fixed: property={m[0][0]} {h} {m[0][1]}"))+"\n")

