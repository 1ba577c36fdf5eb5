From 7ce93a06a24906b47597419ad4dea9890dc22651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 01/43] fix: make the offset argument work when the formula has
 random effects

---
 R/model_frames.R | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/R/model_frames.R b/R/model_frames.R
index 6563440..34cee6a 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -11,13 +11,15 @@ parse_formula <- function(formula, data, family, weights, off,
   if(has_re(formula)) {
     if (family$family == "gaussian")
       stop("glmmsr can't yet handle family = gaussian", call. = FALSE)
+    # glFormula looks up the offset argument under the name `offset`
+    offset <- off
     if(is.null(off) && is.null(weights)) {
       modfr <- lme4::glFormula(formula, data = data_vars, family = family,
                                na.action = na.fail, control = lme4_control)
     } else {
       if(is.null(weights)) {
         modfr <- lme4::glFormula(formula, data = data_vars, family = family,
-                                 na.action = na.fail, offset = off,
+                                 na.action = na.fail, offset = offset,
                                  control = lme4_control)
       } else {
         if(is.null(off)) {
@@ -27,7 +29,7 @@ parse_formula <- function(formula, data, family, weights, off,
         } else {
           modfr <- lme4::glFormula(formula, data = data_vars, family = family,
                                    na.action = na.fail, weights = weights,
-                                   offset = off, control = lme4_control)
+                                   offset = offset, control = lme4_control)
         }
       }
     }
-- 
2.43.0


From 70edaad4b5342e530215f281fd2d116fd7b00b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:17 +0000
Subject: [PATCH 02/43] fix: do not let lme4 overwrite the offset stored in the
 model frame

---
 R/loglikelihood.R | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/R/loglikelihood.R b/R/loglikelihood.R
index 8c6c721..71b142c 100644
--- a/R/loglikelihood.R
+++ b/R/loglikelihood.R
@@ -11,7 +11,13 @@ find_lfun_glmm <- function(modfr, method, control = NULL,
 }
 
 find_devfun_laplace_1 <- function(modfr, lme4_control) {
-  devfun_lme4 <- lme4::mkGlmerDevfun(fr = modfr$fr, X = modfr$X,
+  # lme4 overwrites the offset vector in place, so give it one of its own
+  fr <- modfr$fr
+  offset_cols <- c(attr(attr(fr, "terms"), "offset"),
+                   which(names(fr) == "(offset)"))
+  for(i in offset_cols)
+    fr[[i]] <- fr[[i]] + 0
+  devfun_lme4 <- lme4::mkGlmerDevfun(fr = fr, X = modfr$X,
                                      reTrms = modfr$reTrms, family = modfr$family,
                                      control = lme4_control)
   lme4::updateGlmerDevfun(devfun_lme4, modfr$reTrms, nAGQ = 1)
-- 
2.43.0


From 6f8b39b95e8710d810b476db28b5e6fa89dea993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 03/43] fix: include the offset in the SR, IS and second-order
 Laplace approximations

---
 NAMESPACE         | 1 +
 R/IS.R            | 7 +++++--
 R/glmmsr.R        | 2 +-
 R/loglikelihood.R | 3 ++-
 R/splitframe.R    | 2 ++
 5 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/NAMESPACE b/NAMESPACE
index fd5b29c..354f281 100644
--- a/NAMESPACE
+++ b/NAMESPACE
@@ -21,6 +21,7 @@ importFrom(stats,gaussian)
 importFrom(stats,glm)
 importFrom(stats,lm)
 importFrom(stats,model.matrix)
+importFrom(stats,model.offset)
 importFrom(stats,model.response)
 importFrom(stats,model.weights)
 importFrom(stats,na.fail)
diff --git a/R/IS.R b/R/IS.R
index 0fe8158..4b606de 100644
--- a/R/IS.R
+++ b/R/IS.R
@@ -1,8 +1,11 @@
 find_XBeta <- function(pars, modfr) {
-  n_fixed <- ncol(modfr$X)
   n_random <- length(modfr$reTrms$theta)
-  beta <- pars[(n_random + 1) : (n_random + n_fixed)]
+  beta <- pars[-(1:n_random)]
   XBeta <- as.numeric(modfr$X %*% beta)
+  offset <- model.offset(modfr$fr)
+  if(!is.null(offset))
+    XBeta <- XBeta + offset
+  XBeta
 }
 
 find_LambdatThetaZt <- function(pars, modfr) {
diff --git a/R/glmmsr.R b/R/glmmsr.R
index c3b2dd4..e256857 100644
--- a/R/glmmsr.R
+++ b/R/glmmsr.R
@@ -26,7 +26,7 @@
 #' @importFrom Rcpp sourceCpp
 #' @importFrom methods as
 #' @importFrom stats dnorm drop.terms family formula gaussian glm lm model.matrix
-#'  model.response model.weights na.fail offset optim pnorm rnorm terms update.formula
+#'  model.offset model.response model.weights na.fail offset optim pnorm rnorm terms update.formula
 NULL
 
 #' A dataset simulated from a two-level model
diff --git a/R/loglikelihood.R b/R/loglikelihood.R
index 71b142c..fe1bf22 100644
--- a/R/loglikelihood.R
+++ b/R/loglikelihood.R
@@ -46,6 +46,7 @@ find_lfun_SR <- function(modfr, devfun_lme4, nSL, nAGQ) {
 
   n_fixed <- ncol(modfr$X)
   n_random <- length(modfr$reTrms$theta)
+  has_offset <- !is.null(model.offset(modfr$fr))
 
   factorization_terms <- find_factorization_terms(modfr)
   calibration_pars <- calibration_parameters()
@@ -70,7 +71,7 @@ find_lfun_SR <- function(modfr, devfun_lme4, nSL, nAGQ) {
            call. = FALSE)
     }
     calibration_pars$theta <- pars[1:n_random]
-    calibration_pars$beta <- pars[-(1:n_random)]
+    calibration_pars$beta <- c(pars[-(1:n_random)], if(has_offset) 1)
     normal_approx <- compute_normal_approx(pars, devfun_lme4)
     l_SR <- beliefs$compute_log_normalizing_constant(normal_approx$mean,
                                                      normal_approx$precision,
diff --git a/R/splitframe.R b/R/splitframe.R
index 2d5e74b..0b56f88 100644
--- a/R/splitframe.R
+++ b/R/splitframe.R
@@ -65,6 +65,8 @@ find_factorization_terms <- function(modfr) {
   n_obs <- ncol(modfr$reTrms$Zt)
   n_re <- nrow(modfr$reTrms$Zt)
   cliques_ext <- add_obs(cliques, act, 1:n_obs)
+  # an offset enters as one more column of X, with coefficient fixed at 1
+  modfr$X <- cbind(modfr$X, model.offset(modfr$fr))
   factorization_terms <- continuous_beliefs()
   for(i in seq_along(cliques_ext)) {
     lmodfr <- find_local_term(cliques_ext[[i]], modfr)
-- 
2.43.0


From c01de672dbc5b82f76d604373f7c7f86639630b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:38 +0000
Subject: [PATCH 04/43] fix: handle factor and two-column responses in SR, IS
 and second-order Laplace

---
 R/IS.R           |  7 +++----
 R/hol.R          |  9 +++------
 R/model_frames.R | 19 +++++++++++++++++++
 R/splitframe.R   | 22 +++-------------------
 4 files changed, 28 insertions(+), 29 deletions(-)

diff --git a/R/IS.R b/R/IS.R
index 4b606de..f098e0b 100644
--- a/R/IS.R
+++ b/R/IS.R
@@ -41,10 +41,9 @@ find_eta <- function(u, XBeta, LambdatThetaZt) {
 find_log_integrand<- function(pars, modfr)
 {
   family <- modfr$family
-  y <- model.response(modfr$fr)
-  weights <- model.weights(modfr$fr)
-  if(length(weights) == 0)
-    weights <- rep(1, length(y))
+  response <- find_response(modfr)
+  y <- response$y
+  weights <- response$weights
 
   XBeta <- find_XBeta(pars, modfr)
   LambdatThetaZt <- find_LambdatThetaZt(pars, modfr)
diff --git a/R/hol.R b/R/hol.R
index 6ae7d7e..a1c342d 100644
--- a/R/hol.R
+++ b/R/hol.R
@@ -14,13 +14,10 @@ find_epsilon_1 <- function(pars, modfr, devfun_laplace_1) {
   LambdatThetaZt <- find_LambdatThetaZt(pars, modfr)
   eta_hat <- find_eta(u_hat, XBeta, LambdatThetaZt)
 
-  response <- model.response(modfr$fr)
-  weights <- model.weights(modfr$fr)
-  if(length(weights) == 0)
-    weights <- rep(1, length(response))
+  response <- find_response(modfr)
 
-  gamma_3 <- -modfr_family$evaluate_d3(eta_hat, response, weights)
-  gamma_4 <- -modfr_family$evaluate_d4(eta_hat, response, weights)
+  gamma_3 <- -modfr_family$evaluate_d3(eta_hat, response$y, response$weights)
+  gamma_4 <- -modfr_family$evaluate_d4(eta_hat, response$y, response$weights)
 
   M <- find_M(pars, modfr, normal_approx)
   diag_M <- Matrix::diag(M)
diff --git a/R/model_frames.R b/R/model_frames.R
index 34cee6a..b983b1d 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -94,6 +94,25 @@ has_reTrms <- function(modfr) {
   "reTrms" %in% names(modfr)
 }
 
+# find the response in vector form, together with the weight of each observation.
+# A response which is a factor is coded as 0 (first level) or 1 (other levels),
+# and a two-column response (successes, failures) as a proportion,
+# with weight the number of trials, as in glm
+find_response <- function(modfr) {
+  y <- model.response(modfr$fr)
+  weights <- model.weights(modfr$fr)
+  if(is.null(weights))
+    weights <- rep(1, NROW(y))
+  if(is.factor(y)) {
+    y <- as.numeric(y != levels(y)[1L])
+  } else if(NCOL(y) == 2) {
+    n_trials <- rowSums(y)
+    y <- ifelse(n_trials == 0, 0, y[, 1] / n_trials)
+    weights <- weights * n_trials
+  }
+  list(y = as.numeric(y), weights = weights)
+}
+
 is_modfr <- function(x) {
   is.list(x) && ("X" %in% names(x))
 }
diff --git a/R/splitframe.R b/R/splitframe.R
index 0b56f88..8b70e6b 100644
--- a/R/splitframe.R
+++ b/R/splitframe.R
@@ -36,25 +36,9 @@ find_local_term <- function(clique_ext, modfr) {
   Lind_mat <- modfr$reTrms$Lambdat
   Lind_mat@x <- as.numeric(modfr$reTrms$Lind)
   Lind_C <- as.integer(Lind_mat[C, C, drop = FALSE]@x) - 1
-  resp <- model.response(modfr$fr)
-  if(is.factor(resp)) {
-    resp <- (resp != levels(resp)[1L])
-  }
-  weights <- model.weights(modfr$fr)
-  if(is.null(weights)) {
-    weights_C <- rep(1, length(obs_C))
-  } else {
-    weights_C <- weights[obs_C]
-  }
-  if(NCOL(resp) == 1) {
-    resp_C <- resp[obs_C]
-    resp_C <- matrix(unname(resp_C), ncol = 1)
-  } else {
-    #####################
-    # FIXME: should convert to vector form
-    resp_C <- resp[obs_C, , drop = FALSE]
-    #####################
-  }
+  resp <- find_response(modfr)
+  weights_C <- resp$weights[obs_C]
+  resp_C <- matrix(unname(resp$y[obs_C]), ncol = 1)
   list(C = C, X = X_C, Zt = Zt_C, Lambdat = Lambdat_C,
        Lind = Lind_C, resp = resp_C, weights = weights_C)
 }
-- 
2.43.0


From e7004f198a3687bda11df8b67a0a6dfcef19f7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:24 +0000
Subject: [PATCH 05/43] fix: allocate observations which involve no random
 effects correctly

---
 R/splitframe.R | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/R/splitframe.R b/R/splitframe.R
index 8b70e6b..bda1b96 100644
--- a/R/splitframe.R
+++ b/R/splitframe.R
@@ -4,7 +4,18 @@ find_active <- function(modfr) {
   Lambdat <- modfr$reTrms$Lambdat
   LambdatZt <- Lambdat %*% Zt
   LambdatZt <- as(LambdatZt, "dgTMatrix")
-  tapply(LambdatZt@i + 1, LambdatZt@j + 1, c, simplify = FALSE)
+  # an observation may involve none of the random effects
+  split(LambdatZt@i + 1, factor(LambdatZt@j + 1, levels = seq_len(ncol(LambdatZt))))
+}
+
+# Find the distinct non-empty active sets. Observations with an empty active set
+# may be allocated to any of these
+find_cliques <- function(act) {
+  cliques <- unname(unique(act))
+  cliques <- cliques[vapply(cliques, length, 1L) > 0L]
+  if(length(cliques) == 0L)
+    cliques <- list(1)
+  cliques
 }
 
 add_obs_C <- function(C, act, obs_rem) {
@@ -45,7 +56,7 @@ find_local_term <- function(clique_ext, modfr) {
 
 find_factorization_terms <- function(modfr) {
   act <- find_active(modfr)
-  cliques <- unname(unique(act))
+  cliques <- find_cliques(act)
   n_obs <- ncol(modfr$reTrms$Zt)
   n_re <- nrow(modfr$reTrms$Zt)
   cliques_ext <- add_obs(cliques, act, 1:n_obs)
@@ -90,7 +101,7 @@ save_factorization_to_file <- function(modfr, file = "") {
   unlink(file)
 
   act <- find_active(modfr)
-  cliques <- unname(unique(act))
+  cliques <- find_cliques(act)
   n_obs <- ncol(modfr$reTrms$Zt)
   n_re <- nrow(modfr$reTrms$Zt)
   cliques_ext <- add_obs(cliques, act, 1:n_obs)
-- 
2.43.0


From 717bfb05b215e658e4bec278d33c2f3ec71322ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:05 +0000
Subject: [PATCH 06/43] fix: print and extract coefficients of models with no
 fixed effects

---
 R/glmmFit.R | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/R/glmmFit.R b/R/glmmFit.R
index e35c4e3..98259cf 100644
--- a/R/glmmFit.R
+++ b/R/glmmFit.R
@@ -70,8 +70,7 @@ print.glmmFit <- function(x, ...){
   names_theta <- unlist(unname(x$modfr$reTrms$cnms))
   p_beta <- ncol(x$modfr$X)
   p_theta <- length(x$modfr$reTrms$theta)
-  p <- p_beta + p_theta
-  estim_fixed <- x$estim[(p_theta+1):p]
+  estim_fixed <- x$estim[p_theta + seq_len(p_beta)]
   names(estim_fixed) <- names_beta
   estim_random <- x$estim[1:p_theta]
   estim_random_df <- data.frame("Groups" = group_names,
@@ -133,7 +132,6 @@ print.summaryGlmmFit <- function(x, ...){
   names_theta <- unlist(unname(fit$modfr$reTrms$cnms))
   p_beta <- ncol(fit$modfr$X)
   p_theta <- length(fit$modfr$reTrms$theta)
-  p <- p_beta + p_theta
   estim_random <- fit$estim[1:p_theta]
   se_random <- x$se[1:p_theta]
   estim_random_df <- data.frame("Groups" = group_names,
@@ -152,7 +150,7 @@ print.summaryGlmmFit <- function(x, ...){
   cat("\n")
   cat("\n")
   cat("Fixed effects: \n")
-  which_fixed <- (p_theta+1):p
+  which_fixed <- p_theta + seq_len(p_beta)
   estim_fixed <- fit$estim[which_fixed]
   se_fixed <- x$se[which_fixed]
   z_fixed <- x$z[which_fixed]
@@ -176,10 +174,9 @@ coef_random.glmmFit <- function(x) {
 coef_fixed.glmmFit <- function(x) {
   p_theta <- length(x$modfr$reTrms$theta)
   p_beta <- ncol(x$modfr$X)
-  p <- p_beta + p_theta
 
   names_beta <- attr(x$modfr$X,"dimnames")[[2]]
-  which_fixed <- (p_theta+1):p
+  which_fixed <- p_theta + seq_len(p_beta)
   estim_fixed <- x$estim[which_fixed]
   names(estim_fixed) <- names_beta
 
-- 
2.43.0


From 94da6b29d1cac197f1e334a73a84fb81a5d4abbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 07/43] fix: keep random effects and offsets intact when
 removing Sub terms from the formula

---
 R/subformula.R | 38 ++++++++++++++++++++++++++++++--------
 R/utility.R    | 26 --------------------------
 2 files changed, 30 insertions(+), 34 deletions(-)

diff --git a/R/subformula.R b/R/subformula.R
index 623912b..a6ea628 100644
--- a/R/subformula.R
+++ b/R/subformula.R
@@ -7,6 +7,29 @@ find_var_rhs <- function(var, fac) {
   which(fac[var, ] > 0L)
 }
 
+# remove any Sub(.) terms from a sum of terms, leaving the other terms
+# (including random effects and offsets) as they are
+remove_sub <- function(x) {
+  if(is.call(x) && identical(x[[1]], quote(Sub))) {
+    NULL
+  } else if(is.call(x) && length(x) == 3L &&
+            (identical(x[[1]], quote(`+`)) || identical(x[[1]], quote(`-`)))) {
+    lhs <- remove_sub(x[[2]])
+    rhs <- remove_sub(x[[3]])
+    if(is.null(rhs))
+      return(lhs)
+    x[[3]] <- rhs
+    if(is.null(lhs))
+      as.call(as.list(x)[-2])
+    else {
+      x[[2]] <- lhs
+      x
+    }
+  } else {
+    x
+  }
+}
+
 split_formula <- function(formula) {
   tf <- terms(formula, specials = "Sub")
   var_sub <- attr(tf, "specials")$Sub
@@ -17,14 +40,13 @@ split_formula <- function(formula) {
     fac <- attr(tf, "factors")
     rhs_vars <- attr(fac, "dimnames")[[2]]
     var_sub_rhs <- sapply(var_sub, find_var_rhs, fac = fac)
-    if(length(rhs_vars) > length(var_sub_rhs)){
-      attr(tf, "intercept") <- 1
-      tf_no_sub <- drop.terms(tf, var_sub_rhs, keep.response = TRUE)
-      attr(tf_no_sub, "intercept") <- 0
-      form_no_sub <- fixFormulaObject(tf_no_sub)
-    } else{
-      form_no_sub <- update.formula(formula, . ~ 0)
-    }
+    # terms in formula should not include an intercept
+    rhs_no_sub <- remove_sub(formula[[length(formula)]])
+    form_no_sub <- formula
+    if(is.null(rhs_no_sub))
+      form_no_sub[[length(formula)]] <- 0
+    else
+      form_no_sub[[length(formula)]] <- call("-", rhs_no_sub, 1)
     subexprs <- lapply(rhs_vars[var_sub_rhs], find_subexpr)
   }
   else{
diff --git a/R/utility.R b/R/utility.R
index f9c1748..07db27e 100644
--- a/R/utility.R
+++ b/R/utility.R
@@ -39,32 +39,6 @@ subset_dim <- function(x, i, indices){
 }
 
 
-# copied from terms.formula
-# stop dropping of brackets around (1 | group) terms
-fixFormulaObject <- function(object) {
-  Terms <- terms(object)
-  tmp <- attr(Terms, "term.labels")
-  ind <- grep("|", tmp, fixed = TRUE)
-  if (length(ind))
-    tmp[ind] <- paste("(", tmp[ind], ")")
-  if (length(ind <- attr(Terms, "offset"))) {
-    tmp2 <- as.character(attr(Terms, "variables"))[-1L]
-    tmp <- c(tmp, tmp2[ind])
-  }
-  rhs <- if (length(tmp))
-    paste(tmp, collapse = " + ")
-  else "1"
-  if (!attr(terms(object), "intercept"))
-    rhs <- paste(rhs, "- 1")
-  if (length(form <- formula(object)) > 2L) {
-    res <- formula(paste("lhs ~", rhs))
-    res[[2L]] <- form[[2L]]
-    res
-  }
-  else formula(paste("~", rhs))
-}
-
-
 find_pairs <- function(set) {
   if(length(set) > 1L) {
     return(utils::combn(set, m = 2, simplify = FALSE))
-- 
2.43.0


From e178ed79136a6c1bb2caed95b572985ac450b8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:11 +0000
Subject: [PATCH 08/43] fix: keep Ztlist a list when adding model frames

---
 R/model_frames.R | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/R/model_frames.R b/R/model_frames.R
index b983b1d..2e72894 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -181,7 +181,8 @@ is_modfr <- function(x) {
            call. = FALSE)
     }
     out$reTrms$Zt <- modfr1$reTrms$Zt + modfr2$reTrms$Zt
-    out$reTrms$Ztlist <- mapply("+", modfr1$reTrms$Ztlist, modfr2$reTrms$Ztlist)
+    out$reTrms$Ztlist <- mapply("+", modfr1$reTrms$Ztlist, modfr2$reTrms$Ztlist,
+                                SIMPLIFY = FALSE)
     # what about flist?
   }
   return(out)
-- 
2.43.0


From a382aa8c8ac9f1b0c2e0e2cf72622279ca33dd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 09/43] fix: multiply the random-effects part of a model frame
 by a vector row by row

---
 R/model_frames.R | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/R/model_frames.R b/R/model_frames.R
index 2e72894..1c3a5d2 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -132,7 +132,15 @@ is_modfr <- function(x) {
 }
 
 
-# multiply a model frame by a constant
+# multiply each column of a matrix by a constant, or by one number for each column
+scale_columns <- function(M, a) {
+  if(length(a) == 1L)
+    M * a
+  else
+    M %*% Matrix::Diagonal(x = a)
+}
+
+# multiply a model frame by a constant, or by one number for each row
 `*fr` <- function(modfr, a) {
   if(!is_modfr(modfr) || !is.numeric(a)) {
     if(is_modfr(a) && is.numeric(modfr)) {
@@ -144,8 +152,8 @@ is_modfr <- function(x) {
   out <- modfr
   out$X <- modfr$X * a
   if(has_reTrms(modfr)) {
-    out$reTrms$Zt <- modfr$reTrms$Zt * a
-    out$reTrms$Ztlist <- lapply(modfr$reTrms$Ztlist, `*`, e2 = a)
+    out$reTrms$Zt <- scale_columns(modfr$reTrms$Zt, a)
+    out$reTrms$Ztlist <- lapply(modfr$reTrms$Ztlist, scale_columns, a = a)
   }
   return(out)
 }
-- 
2.43.0


From 5468b4dc4e119c4edade3c6fe004b99ec7b0ef9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 10/43] fix: allow numeric constants in Sub expressions

---
 R/modify_subexpr.R | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/R/modify_subexpr.R b/R/modify_subexpr.R
index 8537842..e699155 100644
--- a/R/modify_subexpr.R
+++ b/R/modify_subexpr.R
@@ -1,6 +1,6 @@
 find_sub_status <- function(x, subvar) {
-  if(is.logical(x)) {
-    x
+  if(is.atomic(x)) {
+    FALSE
   }
   else if(is.name(x)) {
     identical(as.character(x), subvar)
-- 
2.43.0


From a338ff49b35ed68435ce3012b9891c5d81d4752f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:37 +0000
Subject: [PATCH 11/43] fix: combine the lower bounds, pointers and grouping
 factors of random-effects terms

---
 R/glmmFit.R      |  6 ++++--
 R/model_frames.R | 12 ++++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/R/glmmFit.R b/R/glmmFit.R
index 98259cf..6d1cd19 100644
--- a/R/glmmFit.R
+++ b/R/glmmFit.R
@@ -79,7 +79,8 @@ print.glmmFit <- function(x, ...){
 
   cat("Random effects:\n")
   print(estim_random_df, digits = 4,right = FALSE, row_names = FALSE)
-  nlevels_each <- sapply(x$modfr$reTrms$flist, nlevels)
+  flist <- x$modfr$reTrms$flist
+  nlevels_each <- sapply(flist, nlevels)[attr(flist, "assign")]
   y <- model.response(x$modfr$fr)
   nobs <- NROW(y)
   cat("Number of obs: ", nobs, ", groups: ", sep="")
@@ -139,7 +140,8 @@ print.summaryGlmmFit <- function(x, ...){
                                 "Estimate" = estim_random,
                                 "Std.Error" = se_random)
   print(estim_random_df, digits = 4, right = FALSE, row.names=FALSE)
-  nlevels_each <- sapply(fit$modfr$reTrms$flist, nlevels)
+  flist <- fit$modfr$reTrms$flist
+  nlevels_each <- sapply(flist, nlevels)[attr(flist, "assign")]
   y <- model.response(fit$modfr$fr)
   nobs <- NROW(y)
   cat("Number of obs: ", nobs, ", groups: ", sep="")
diff --git a/R/model_frames.R b/R/model_frames.R
index 1c3a5d2..2aba8d9 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -127,6 +127,7 @@ is_modfr <- function(x) {
     out$reTrms$Zt <- reTrms$Zt[, i, drop = FALSE]
     out$reTrms$Ztlist <- lapply(reTrms$Ztlist, "[", j = i, drop = FALSE)
     out$reTrms$flist <- lapply(reTrms$flist, "[", j = i, drop = FALSE)
+    attr(out$reTrms$flist, "assign") <- attr(reTrms$flist, "assign")
   }
   return(out)
 }
@@ -227,11 +228,14 @@ concatenate_frames <- function(modfr1, modfr2) {
       out$reTrms$Zt <- rbind(reTrms1$Zt, reTrms2$Zt)
       out$reTrms$theta <- c(reTrms1$theta, reTrms2$theta)
       out$reTrms$Lind <- c(reTrms1$Lind, reTrms2$Lind + length(reTrms1$theta))
-      out$reTrms$Gp <- c(0L, reTrms1$Gp[2] + reTrms2$Gp[2])
-      out$reTrms$lower <- c(reTrms1$lower, reTrms2$upper)
+      out$reTrms$Gp <- c(reTrms1$Gp, max(reTrms1$Gp) + reTrms2$Gp[-1])
+      out$reTrms$lower <- c(reTrms1$lower, reTrms2$lower)
       out$reTrms$Lambdat <- concatenate_Matrix(reTrms1$Lambdat, reTrms2$Lambdat)
-      # need "assign" attribute to print out groups correctly
-      attr(out$reTrms$flist, "assign") <- TRUE
+      out$reTrms$flist <- c(reTrms1$flist, reTrms2$flist)
+      # the "assign" attribute gives the element of flist used by each term
+      attr(out$reTrms$flist, "assign") <- c(attr(reTrms1$flist, "assign"),
+                                            length(reTrms1$flist) + attr(reTrms2$flist, "assign"))
+      out$reTrms$nl <- c(reTrms1$nl, reTrms2$nl)
       out$reTrms$cnms <- c(reTrms1$cnms, reTrms2$cnms)
       out$reTrms$Ztlist <- c(reTrms1$Ztlist, reTrms2$Ztlist)
     }
-- 
2.43.0


From 956392d6931e0e18f213a00003fcc449ed8b2a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:05 +0000
Subject: [PATCH 12/43] fix: subset the columns of each element of Ztlist

---
 R/model_frames.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/model_frames.R b/R/model_frames.R
index 2aba8d9..97c6fb1 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -125,7 +125,7 @@ is_modfr <- function(x) {
   if(has_reTrms(modfr)) {
     reTrms <- modfr$reTrms
     out$reTrms$Zt <- reTrms$Zt[, i, drop = FALSE]
-    out$reTrms$Ztlist <- lapply(reTrms$Ztlist, "[", j = i, drop = FALSE)
+    out$reTrms$Ztlist <- lapply(reTrms$Ztlist, function(Zt) Zt[, i, drop = FALSE])
     out$reTrms$flist <- lapply(reTrms$flist, "[", j = i, drop = FALSE)
     attr(out$reTrms$flist, "assign") <- attr(reTrms$flist, "assign")
   }
-- 
2.43.0


From 3b6d31382cf7bfd99e2c0b00770d34c44ee435d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:25 +0000
Subject: [PATCH 13/43] fix: use the levels of an index variable contained in
 the data

---
 R/indexing.R | 1 +
 1 file changed, 1 insertion(+)

diff --git a/R/indexing.R b/R/indexing.R
index a34cb99..dad407f 100644
--- a/R/indexing.R
+++ b/R/indexing.R
@@ -85,6 +85,7 @@ find_indices_subform <- function(sub, data) {
     if(exists(index, data)) {
       # coerce to factor with common levels
       levels_i <- get(index, data)
+      index_i <- factor(levels_i, levels = levels_i)
       indices_i <- lapply(indices_i, factor, levels = levels_i)
       # replace in data, so have factors with correct levels
       for(j in seq_along(indices_i)) {
-- 
2.43.0


From 42fa04ad82c8fdb2ae2454d147806152aeff1f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:31 +0000
Subject: [PATCH 14/43] fix: reject Sub terms involving the wrong number of
 substituted variables

---
 R/subformula.R | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/R/subformula.R b/R/subformula.R
index a6ea628..d0a23b6 100644
--- a/R/subformula.R
+++ b/R/subformula.R
@@ -127,11 +127,11 @@ match_subform_subexpr <- function(subforms, subexprs, data) {
   which_subvars <- lapply(subexprs, find_vars, vars = subvars)
   # check how many subvars involved in each subexpr
   n_subvars <- vapply(which_subvars, length, 1L)
-  if(any(n_subvars) > 1L) {
+  if(any(n_subvars > 1L)) {
     stop("Each Sub(.) should only involve a single substituted variable",
-      .call = FALSE)
-  } else if (any(n_subvars) == 0L) {
-    stop("Each Sub(.) should involve a substituted variable", .call = FALSE)
+      call. = FALSE)
+  } else if (any(n_subvars == 0L)) {
+    stop("Each Sub(.) should involve a substituted variable", call. = FALSE)
   }
   lapply(subforms, add_subexpr, subexprs = subexprs, which_subvars = which_subvars)
 }
-- 
2.43.0


From 2d0fcfdeb05c1724cfebc4fdeb22bfc58daa77a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:39 +0000
Subject: [PATCH 15/43] fix: ignore subformulas which are not used

---
 R/subformula.R | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/R/subformula.R b/R/subformula.R
index d0a23b6..acd71f0 100644
--- a/R/subformula.R
+++ b/R/subformula.R
@@ -200,6 +200,8 @@ find_modfr_glmm <- function (formula, subformula = NULL, data = NULL,
     return(modfr_no_sub)
   }
   subs <- match_subform_subexpr(subforms, subexprs, data)
+  # a subformula which is not used gives a warning, and is ignored
+  subs <- subs[!vapply(subs, is.null, TRUE)]
 
   modfr_list <- lapply(subs, parse_sub, data = data, family = family,
                        lme4_control = lme4_control)
-- 
2.43.0


From 8d5ccbb8bf549fd0d218730a808d8b6ac5572188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:02 +0000
Subject: [PATCH 16/43] fix: use lme4_control when constructing the model frame
 in glmm

---
 R/fit.R | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/R/fit.R b/R/fit.R
index 6377e90..c09e533 100644
--- a/R/fit.R
+++ b/R/fit.R
@@ -51,7 +51,8 @@ glmm <- function(formula, subformula = NULL, data = NULL, family = gaussian,
   con <- find_control_with_defaults(control, method)
 
   modfr <- find_modfr_glmm(formula, subformula = subformula, data = data,
-                           family = family, weights = weights, offset = offset)
+                           family = family, weights = weights, offset = offset,
+                           lme4_control = lme4_control)
 
   if(has_reTrms(modfr)) {
     devfun_laplace_1 <- find_devfun_laplace_1(modfr, lme4_control)
-- 
2.43.0


From 3d7e00d08e9cdc5bc7899722f7af6d5af4e6025a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:24 +0000
Subject: [PATCH 17/43] fix: draw importance samples with the intended
 covariance

---
 R/IS.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/IS.R b/R/IS.R
index f098e0b..5e2c2f6 100644
--- a/R/IS.R
+++ b/R/IS.R
@@ -63,7 +63,7 @@ find_log_integrand<- function(pars, modfr)
 
 transform_normal <- function(z, normal_approx) {
   C <- solve(chol(normal_approx$precision))
-  normal_approx$mean + crossprod(C, z)
+  normal_approx$mean + C %*% z
 }
 
 find_log_weights <- function(z, log_integrand, normal_approx) {
-- 
2.43.0


From 08b669d095755867996d53505156679dbd776aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:51 +0000
Subject: [PATCH 18/43] fix: do not read past the end of theta when
 constructing a GLMM belief

---
 src/GLMMBelief.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GLMMBelief.cpp b/src/GLMMBelief.cpp
index a790f0e..0c20635 100644
--- a/src/GLMMBelief.cpp
+++ b/src/GLMMBelief.cpp
@@ -70,7 +70,7 @@ void GLMMBelief::setBeta(const Eigen::VectorXd& beta)
 
 void GLMMBelief::initializeParameterDependents()
 {
-  theta_ = Eigen::VectorXd::Zero(numItems_);
+  theta_ = Eigen::VectorXd::Zero(Lind_.size() > 0 ? Lind_.maxCoeff() + 1 : 0);
   beta_ = Eigen::VectorXd::Zero(numFixed_);
   setLambdatThetaZt(theta_);
   XBeta_ = X_ * beta_;
-- 
2.43.0


From cc4b2bbe436feb08c9b1114b95e38bbde120776a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:28 +0000
Subject: [PATCH 19/43] fix: centre the quadrature rule at the conditional mean

The conditional mean of one component of a normal given the others has
the sign opposite to the one used, so the rule was centred (and its
derivatives were shifted) away from the integrand.
---
 src/IntegratedFunction.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/IntegratedFunction.cpp b/src/IntegratedFunction.cpp
index 409ff99..8e8af1e 100644
--- a/src/IntegratedFunction.cpp
+++ b/src/IntegratedFunction.cpp
@@ -95,7 +95,7 @@ double IntegratedFunction::findConditionalMean(const Vector& x) const
 {
   double mu = mean1_;
   if(x.size() > 0)
-    mu -= cross_.dot(x - mean2_);
+    mu += cross_.dot(x - mean2_);
   
   return mu;
 }
@@ -131,7 +131,7 @@ Vector IntegratedFunction::integrateDerivativeNoLog
     Vector derivative =  derivativeFunction_(xExt) * value;
     Vector derivativeRem = getVectorWithout(integrateOver_,
 					    derivative);
-    Vector correction = -cross_ * derivative(integrateOver_);
+    Vector correction = cross_ * derivative(integrateOver_);
     Eigen::ArrayXd ret = (derivativeRem + correction).array();
     return ret;
   };
@@ -163,8 +163,8 @@ Matrix IntegratedFunction::integrateSecondDerivativeNoLog
     double secondDerivative11 = secondDerivative(integrateOver_,
 						 integrateOver_);
     Matrix ret = secondDerivative22;
-    ret -= cross_ * secondDerivative12.transpose();
-    ret -= secondDerivative12 * cross_.transpose();
+    ret += cross_ * secondDerivative12.transpose();
+    ret += secondDerivative12 * cross_.transpose();
     ret += cross_ * cross_.transpose() * secondDerivative11;
     Eigen::ArrayXXd retArray = ret.array();
     return retArray;
-- 
2.43.0


From f619f2dfeb1eb0d800310488d8e07bbb311886b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:32 +0000
Subject: [PATCH 20/43] fix: allow data to be an environment, as documented

---
 R/subformula.R | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/R/subformula.R b/R/subformula.R
index acd71f0..d17da71 100644
--- a/R/subformula.R
+++ b/R/subformula.R
@@ -184,6 +184,8 @@ find_modfr_glmm <- function (formula, subformula = NULL, data = NULL,
                              family = gaussian, weights = NULL, offset = NULL,
                              lme4_control = set_lme4_control())
 {
+  if(is.environment(data))
+    data <- as.list(data)
   if(is.list(subformula) || length(subformula) == 0L){
     subforms <- subformula
   } else {
-- 
2.43.0


From c6858bbcd5efc2ee411065b92cf3b81d24412494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 21/43] fix: keep offset and weights apart from variables named
 off and weights

---
 R/model_frames.R | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/R/model_frames.R b/R/model_frames.R
index 97c6fb1..b57da22 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -42,23 +42,23 @@ parse_formula <- function(formula, data, family, weights, off,
     } else {
       if(is.null(weights)) {
         data_vars_off <- data_vars
-        data_vars_off$off <- off
+        data_vars_off$`(off)` <- off
         fr <- glm(formula, data = data_vars_off, family = family,
-                  method = "model.frame", offset = off)
+                  method = "model.frame", offset = `(off)`)
       } else {
         if(is.null(off)) {
           data_vars_weights <- data_vars
-          data_vars_weights$weights <- weights
+          data_vars_weights$`(weights)` <- weights
           fr <- glm(formula, data = data_vars_weights,
                     family = family, method = "model.frame",
-                    weights = weights)
+                    weights = `(weights)`)
         } else {
           data_vars_off_weights <- data_vars
-          data_vars_off_weights$off <- off
-          data_vars_off_weights$weights <- weights
+          data_vars_off_weights$`(off)` <- off
+          data_vars_off_weights$`(weights)` <- weights
           fr <- glm(formula, data = data_vars_off_weights,
                     family = family, method = "model.frame",
-                    offset = off, weights = weights)
+                    offset = `(off)`, weights = `(weights)`)
         }
 
       }
-- 
2.43.0


From 94e40ed1dad1c610f343bb555430f7f2102521b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:33 +0000
Subject: [PATCH 22/43] fix: do not let lme4 overwrite theta and Lambdat of the
 model frame

---
 R/loglikelihood.R | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/R/loglikelihood.R b/R/loglikelihood.R
index fe1bf22..72d4578 100644
--- a/R/loglikelihood.R
+++ b/R/loglikelihood.R
@@ -17,10 +17,14 @@ find_devfun_laplace_1 <- function(modfr, lme4_control) {
                    which(names(fr) == "(offset)"))
   for(i in offset_cols)
     fr[[i]] <- fr[[i]] + 0
+  # and likewise for theta and the entries of Lambdat
+  reTrms <- modfr$reTrms
+  reTrms$theta <- reTrms$theta + 0
+  reTrms$Lambdat@x <- reTrms$Lambdat@x + 0
   devfun_lme4 <- lme4::mkGlmerDevfun(fr = fr, X = modfr$X,
-                                     reTrms = modfr$reTrms, family = modfr$family,
+                                     reTrms = reTrms, family = modfr$family,
                                      control = lme4_control)
-  lme4::updateGlmerDevfun(devfun_lme4, modfr$reTrms, nAGQ = 1)
+  lme4::updateGlmerDevfun(devfun_lme4, reTrms, nAGQ = 1)
 }
 
 find_lfun_glmm_internal <- function(modfr, method, control, devfun_laplace_1)
-- 
2.43.0


From 6c621e2f7c27cfdb54e62924921f7f4ff8ec881f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:34 +0000
Subject: [PATCH 23/43] fix: use all levels of a numeric index, and refuse
 indices out of range

---
 R/indexing.R | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/R/indexing.R b/R/indexing.R
index dad407f..962adb0 100644
--- a/R/indexing.R
+++ b/R/indexing.R
@@ -113,15 +113,21 @@ find_indices_subform <- function(sub, data) {
 
 
 find_index_i <- function(index, i, index_i, subform, data) {
-  vars <- find_vars_with_index(subform, i, index)
-  in_data <- vapply(vars, exists, TRUE, where = data)
-  vars <- vars[in_data]
-  x_vars <- data[vars]
+  # the variables of the subformula could have the index in any position
+  d <- find_dim_sub(subform, find_subvar(subform))
+  dims <- lapply(seq_len(d), function(pos) {
+    vars <- find_vars_with_index(subform, pos, index)
+    in_data <- vapply(vars, exists, TRUE, where = data)
+    vapply(data[vars[in_data]], find_dim_in_dir, 1L, i = pos)
+  })
+  dims <- unlist(dims)
   # for each var, we subset vars to keep only levels
-  if(length(x_vars) > 0) {
-    levels_i_max <- max(vapply(x_vars, find_dim_in_dir, 1L, i = i))
-  } else {
+  if(length(dims) > 0) {
+    levels_i_max <- max(dims)
+  } else if(is.factor(index_i)) {
     levels_i_max <- length(index_i)
+  } else {
+    levels_i_max <- max(index_i)
   }
   if(is.factor(index_i)) {
     if(length(index_i) != levels_i_max) {
@@ -131,6 +137,10 @@ find_index_i <- function(index, i, index_i, subform, data) {
       return(index_i)
     }
   } else {
+    if(any(!is.element(index_i, seq_len(levels_i_max)))) {
+      stop(paste0("Numeric index ", index, " should take values in 1, ..., ", levels_i_max),
+           call. = FALSE)
+    }
     return(1:levels_i_max)
   }
 }
-- 
2.43.0


From 081ff56c96946234e943f64f262f715dee38087b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:59 +0000
Subject: [PATCH 24/43] fix: a log density of zero is not improper

---
 src/MixedContinuousBelief.cpp | 4 ++--
 src/MultiNormal.cpp           | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MixedContinuousBelief.cpp b/src/MixedContinuousBelief.cpp
index 211b700..b0f89aa 100644
--- a/src/MixedContinuousBelief.cpp
+++ b/src/MixedContinuousBelief.cpp
@@ -232,13 +232,13 @@ bool MixedContinuousBelief::isProper(const Parameters& parameters)
   auto normalMean = normalApprox_.getNormal().getMean();
   if(beliefs_.size() > 0) {
     auto evalAtMean = evaluate(normalMean, parameters);
-    if(!std::isnormal(evalAtMean)) {
+    if(!std::isfinite(evalAtMean)) {
       proper = false;
     }
   }
   auto evalNormalAtMean = normalApprox_.evaluate(normalMean,
 						 parameters);
-  if(!std::isnormal(evalNormalAtMean)) {
+  if(!std::isfinite(evalNormalAtMean)) {
     proper = false;
   }
   
diff --git a/src/MultiNormal.cpp b/src/MultiNormal.cpp
index 9f721c2..2253833 100644
--- a/src/MultiNormal.cpp
+++ b/src/MultiNormal.cpp
@@ -82,7 +82,7 @@ void MultiNormal::divideSubset(const MultiNormal& normal,
 
 bool MultiNormal::isProper() const
 {
-  return ((normalizer_ != 0) && (std::isfinite(normalizer_)));
+  return std::isfinite(normalizer_);
 }
 
 double MultiNormal::evaluate(const Eigen::VectorXd& x) const
-- 
2.43.0


From badbb05ae698528fef09192e7bb3c317e252889e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:44 +0000
Subject: [PATCH 25/43] fix: keep the logit link finite for large linear
 predictors

---
 src/LogitLink.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/LogitLink.cpp b/src/LogitLink.cpp
index a82d8c5..1f4797d 100644
--- a/src/LogitLink.cpp
+++ b/src/LogitLink.cpp
@@ -4,37 +4,37 @@ LogitLink::LogitLink()
 {
 }
 
+// all written in terms which stay finite for large positive and negative
+// values of the linear predictor
 Eigen::ArrayXd LogitLink::computeMean(const Eigen::ArrayXd& linearPredictor) const
 {
-  return exp(linearPredictor) / (1 + exp(linearPredictor)); 
+  return 1. / (1. + exp(-linearPredictor));
 }
 
 Eigen::ArrayXd LogitLink::computeMeanDerivative(const Eigen::ArrayXd& linearPredictor) const
 {
-  return exp(linearPredictor) / pow(1. + exp(linearPredictor), 2);
+  Eigen::ArrayXd expMinusAbs = exp(-linearPredictor.abs());
+  return expMinusAbs / pow(1. + expMinusAbs, 2);
 }
 
 Eigen::ArrayXd LogitLink::computeMeanSecondDerivative(const Eigen::ArrayXd& linearPredictor) const
 {
-  return exp(linearPredictor) * (1 - exp(linearPredictor)) / pow(1. + exp(linearPredictor), 3);
+  Eigen::ArrayXd mean = computeMean(linearPredictor);
+  Eigen::ArrayXd meanD1 = computeMeanDerivative(linearPredictor);
+  return meanD1 * (1. - 2. * mean);
 }
 
 Eigen::ArrayXd LogitLink::computeMeanThirdDerivative(const Eigen::ArrayXd& linearPredictor) const
 {
- 
-  auto numerator = exp(linearPredictor) *
-    (-4 * exp(linearPredictor) + exp(2 * linearPredictor) + 1.);
-  auto denominator = pow(1. + exp(linearPredictor), 4);
-  return numerator / denominator;
+  Eigen::ArrayXd meanD1 = computeMeanDerivative(linearPredictor);
+  return meanD1 * (1. - 6. * meanD1);
 }
 
 Eigen::ArrayXd LogitLink::computeMeanFourthDerivative(const Eigen::ArrayXd& linearPredictor) const
 {
-  auto numerator = - exp(linearPredictor) *
-    (11 * exp(linearPredictor) - 11 * exp(2*linearPredictor)
-     + exp(3 * linearPredictor) - 1.);
-  auto denominator = pow(1. + exp(linearPredictor), 5);
-  return numerator / denominator;
+  Eigen::ArrayXd mean = computeMean(linearPredictor);
+  Eigen::ArrayXd meanD1 = computeMeanDerivative(linearPredictor);
+  return meanD1 * (1. - 2. * mean) * (1. - 12. * meanD1);
 }
 
 std::string LogitLink::getName() const
-- 
2.43.0


From 8f0e057d82ba678fdb7b63b34dc66672609fef13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:45 +0000
Subject: [PATCH 26/43] fix: keep the stored functions accurate when their
 curvature is negligible

---
 inst/include/Quadratic.h |  1 +
 src/Quadratic.cpp        | 15 ++++++++-------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/inst/include/Quadratic.h b/inst/include/Quadratic.h
index 62f2da8..5959b36 100644
--- a/inst/include/Quadratic.h
+++ b/inst/include/Quadratic.h
@@ -12,6 +12,7 @@ class Quadratic
   Eigen::VectorXd derivative(const Eigen::VectorXd&) const;
   Eigen::MatrixXd secondDerivative(const Eigen::VectorXd&) const;
  private:
+  Eigen::VectorXd location_;
   Eigen::VectorXd b_;
   Eigen::MatrixXd A_;
   void initializeFromDerivatives(const Eigen::VectorXd&, const Eigen::VectorXd&, const Eigen::MatrixXd&);
diff --git a/src/Quadratic.cpp b/src/Quadratic.cpp
index a1eb09a..2658f97 100644
--- a/src/Quadratic.cpp
+++ b/src/Quadratic.cpp
@@ -1,17 +1,18 @@
 #include "Quadratic.h"
 
-Quadratic::Quadratic(int d): b_(d), A_(d, d)
+Quadratic::Quadratic(int d): location_(d), b_(d), A_(d, d)
 {
 }
 
 double Quadratic::operator()(const Eigen::VectorXd& x) const
 {
-  return (x - b_).transpose() * A_ * (x - b_);
+  Eigen::VectorXd xDiff = x - location_;
+  return xDiff.dot(A_ * xDiff) - b_.dot(xDiff);
 }
 
 Eigen::VectorXd Quadratic::derivative(const Eigen::VectorXd& x) const
 {
-  return (x - b_).transpose() * (A_ +  A_.transpose());
+  return (A_ +  A_.transpose()) * (x - location_) - b_;
 }
 
 Eigen::MatrixXd Quadratic::secondDerivative(const Eigen::VectorXd& x) const
@@ -27,9 +28,9 @@ void Quadratic::initializeFromDerivatives(const Eigen::VectorXd& location, const
     // there are multiple choices of A  which would give the
     // correct derivatives. We choose the symmetric one.
     A_ = -secondDerivativeAtLocation / 2;
-    if(A_.norm() > 0)
-       b_ = location + A_.colPivHouseholderQr().solve(derivativeAtLocation) / 2;
-    else
-      b_ = location;
+    // A_ might be (close to) singular, so expand about location,
+    // rather than about the turning point of the quadratic
+    location_ = location;
+    b_ = derivativeAtLocation;
   }
 }
-- 
2.43.0


From 33c4d4a67c1ba3eb007fc1c07d312bcdaee3e690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 27/43] fix: report the Sigma and log-likelihood which belong
 to non-negative standard deviations

---
 R/fit.R | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/R/fit.R b/R/fit.R
index c09e533..72580fe 100644
--- a/R/fit.R
+++ b/R/fit.R
@@ -70,7 +70,13 @@ glmm <- function(formula, subformula = NULL, data = NULL, family = gaussian,
                 call. = FALSE)
     }
     if(all(modfr$reTrms$lower == 0)) {
-      opt$estim[1:p_theta] <- abs(opt$estim[1:p_theta])
+      # the sign of each standard deviation is not identified: report
+      # non-negative ones, with the corresponding Sigma and log-likelihood
+      signs <- ifelse(opt$estim < 0 & seq_along(opt$estim) <= p_theta, -1, 1)
+      opt$estim <- signs * opt$estim
+      opt$Sigma <- opt$Sigma * outer(signs, signs)
+      if(any(signs < 0))
+        lfun <- change_signs(lfun, signs[1:p_theta])
       if(any(opt$estim[1:p_theta] > 4.9)) {
         opt$Sigma <- matrix(NA, nrow = length(opt$estim), ncol = length(opt$estim))
         warning("The approximate MLE might not be finite", call. = FALSE)
@@ -90,3 +96,14 @@ glmm <- function(formula, subformula = NULL, data = NULL, family = gaussian,
     stop("haven't yet implemented no random effects case")
   }
 }
+
+# the log-likelihood function after changing signs of the first parameters
+change_signs <- function(lfun, signs)
+{
+  force(lfun)
+  function(pars) {
+    i <- seq_len(min(length(signs), length(pars)))
+    pars[i] <- signs[i] * pars[i]
+    lfun(pars)
+  }
+}
-- 
2.43.0


From 1d03a4e360ff10c468b6aa69a8bb2ef95037d772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 28/43] fix: no out-of-range conversions to integers in the
 spline basis

With nSL = 0 the grid of knots had zero spacing, so that positions in it
were computed by converting NaN or infinity to an integer, as were
positions of points far beyond the last knot.
---
 src/BasisLevel.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/BasisLevel.cpp b/src/BasisLevel.cpp
index b566bde..02735ee 100644
--- a/src/BasisLevel.cpp
+++ b/src/BasisLevel.cpp
@@ -76,7 +76,8 @@ void BasisLevel::initializeBandwidth(int levelMax)
      boost::math::normal standardNormal(0.0, 1.0);
      bandwidth_ = (scale_ * quantile(standardNormal, prob)) / 10;
   } else {
-    bandwidth_ = 0;
+    // the only knot is at zero, so any positive bandwidth will do
+    bandwidth_ = 1;
   }
 }
 
@@ -205,9 +206,10 @@ int BasisLevel::findIntervalId(double x) const
 {
   int ret = 0;
   if(x > knots_.at(0)) {
-     unsigned int xToGrid = (x - knots_.at(0)) / bandwidth_;
+     // only convert to an integer if in range
+     double xToGrid = (x - knots_.at(0)) / bandwidth_;
      if(xToGrid < gridIds_.size())
-       ret = gridIds_[xToGrid];
+       ret = gridIds_[static_cast<int>(xToGrid)];
      else
        ret = (2 << level_) - 1;
   }
-- 
2.43.0


From 30d87f9ae1d7cfc0d2b30f90d4f7eff127bff9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:05 +0000
Subject: [PATCH 29/43] fix: allow subformulas with several indices and no
 random effects

---
 R/indexing.R | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/R/indexing.R b/R/indexing.R
index 962adb0..2ac1db5 100644
--- a/R/indexing.R
+++ b/R/indexing.R
@@ -179,7 +179,9 @@ flatten_formula <- function(formula, indices){
     # and combine with cbind
     # for now, insist all indexing is done with indices in indices
 
-    formula_flat <- matrix_indexing(formula_flat, indices)
+    # (changing the right-hand side only, so that this remains a formula)
+    rhs <- length(formula_flat)
+    formula_flat[[rhs]] <- matrix_indexing(formula_flat[[rhs]], indices)
   }
   formula_flat
 }
-- 
2.43.0


From 8f3d35978e452eb62a44aff04aa29a2a4a349502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:09 +0000
Subject: [PATCH 30/43] fix: compute quadrature weights to full relative
 accuracy

---
 src/QuadratureRule.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/QuadratureRule.cpp b/src/QuadratureRule.cpp
index 47b9ba6..985dea5 100644
--- a/src/QuadratureRule.cpp
+++ b/src/QuadratureRule.cpp
@@ -23,11 +23,24 @@ void QuadratureRule::initialize(int n)
 {
   static const double sqrtPi = 1.772453851;
   Eigen::MatrixXd hermiteJacobi = findHermiteJacobi(n);
-  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(hermiteJacobi);
+  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(hermiteJacobi, Eigen::EigenvaluesOnly);
   nodes_ = es.eigenvalues().array();
 
-  Eigen::ArrayXd firstRow = es.eigenvectors().row(0).array();
-  weights_ = sqrtPi * firstRow * firstRow;
+  // The first row of es.eigenvectors() also gives the weights, but is only
+  // accurate relative to its largest element, and the smallest weights
+  // are multiplied by exp(node^2). So use the orthonormal polynomials,
+  // scaled so that the first one is one: weight = sqrt(pi) / (sum of squares)
+  Eigen::ArrayXd previous = Eigen::ArrayXd::Zero(n);
+  Eigen::ArrayXd current = Eigen::ArrayXd::Ones(n);
+  Eigen::ArrayXd sumOfSquares = Eigen::ArrayXd::Zero(n);
+  for(int i = 0; i < n; ++i) {
+    sumOfSquares += current * current;
+    Eigen::ArrayXd next = sqrt(2.0 / (i + 1)) * nodes_ * current
+      - sqrt(i / (i + 1.0)) * previous;
+    previous = current;
+    current = next;
+  }
+  weights_ = sqrtPi / sumOfSquares;
 }
 
 Eigen::MatrixXd QuadratureRule::findHermiteJacobi(int n)
-- 
2.43.0


From 23a161275c5429b7b6fbd8d6abe227cae71abb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 31/43] fix: keep weights and offset apart from variables of
 those names

With random effects in the main formula, glFormula evaluates the weights and
offset arguments among the variables of the formula first, so that a
covariate named weights (offset) was used as the weights (offset).
---
 R/model_frames.R | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/R/model_frames.R b/R/model_frames.R
index b57da22..f0b3548 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -13,23 +13,27 @@ parse_formula <- function(formula, data, family, weights, off,
       stop("glmmsr can't yet handle family = gaussian", call. = FALSE)
     # glFormula looks up the offset argument under the name `offset`
     offset <- off
+    # as in the case without random effects, keep both apart from any variables
+    # in the data named weights and offset
+    data_vars$`(weights)` <- weights
+    data_vars$`(off)` <- off
     if(is.null(off) && is.null(weights)) {
       modfr <- lme4::glFormula(formula, data = data_vars, family = family,
                                na.action = na.fail, control = lme4_control)
     } else {
       if(is.null(weights)) {
         modfr <- lme4::glFormula(formula, data = data_vars, family = family,
-                                 na.action = na.fail, offset = offset,
+                                 na.action = na.fail, offset = `(off)`,
                                  control = lme4_control)
       } else {
         if(is.null(off)) {
           modfr <- lme4::glFormula(formula, data = data_vars, family = family,
-                                   na.action = na.fail, weights = weights,
+                                   na.action = na.fail, weights = `(weights)`,
                                    control = lme4_control)
         } else {
           modfr <- lme4::glFormula(formula, data = data_vars, family = family,
-                                   na.action = na.fail, weights = weights,
-                                   offset = offset, control = lme4_control)
+                                   na.action = na.fail, weights = `(weights)`,
+                                   offset = `(off)`, control = lme4_control)
         }
       }
     }
-- 
2.43.0


From 7132cf700a82038fa71804ac7d843cff39385b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 32/43] fix: refuse index variables of different lengths

With several indices, the shorter index variables were recycled.
---
 R/indexing.R | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/R/indexing.R b/R/indexing.R
index 2ac1db5..a039e52 100644
--- a/R/indexing.R
+++ b/R/indexing.R
@@ -194,6 +194,9 @@ multi_to_flat <- function(multi_id, indices) {
 }
 
 flatten_vars <- function(var_names, indices, data) {
+  lengths_vars <- vapply(data[var_names], length, 1L)
+  if(any(lengths_vars != lengths_vars[1]))
+    stop("Indexing variables should all have the same length", call. = FALSE)
   multi_id <- Reduce(rbind, lapply(data[var_names], as.numeric))
   multi_to_flat(multi_id, indices)
 }
-- 
2.43.0


From 535cf31eeb263a8c953f740f4d60f6840f937143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 33/43] fix: refuse multiplication of a model frame by a vector
 of another length

Without random effects in the subformula, a data vector in a Sub() expression
was recycled, or ignored if it had length zero.
---
 R/model_frames.R | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/R/model_frames.R b/R/model_frames.R
index f0b3548..c3c7506 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -154,6 +154,9 @@ scale_columns <- function(M, a) {
       stop("Invalid use of `*fr`", call. = FALSE)
     }
   }
+  if(length(a) != 1L && length(a) != nrow(modfr$X)) {
+    stop("Invalid use of `*fr`: Dimension mismatch", call. = FALSE)
+  }
   out <- modfr
   out$X <- modfr$X * a
   if(has_reTrms(modfr)) {
-- 
2.43.0


From c4916b121baf09b9c1f019e58c0a3da97d4aa04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 34/43] fix: refuse missing values in subformulas without
 random effects

The levels with missing values were dropped from the model matrix of the
subformula, so that observations were given the covariates of other levels.
---
 R/model_frames.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/model_frames.R b/R/model_frames.R
index c3c7506..217c81a 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -86,7 +86,7 @@ parse_subformula <- function(formula, data, lme4_control) {
   } else {
 
     fr <- lm(formula, data = data_vars, family = family,
-             method = "model.frame")
+             method = "model.frame", na.action = na.fail)
     X <- model.matrix(formula, data = fr)
     modfr <- list(X = X)
   }
-- 
2.43.0


From af2984db215b0caa4e36a2e7c98e19d5eb4d5587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 35/43] fix: keep flattened indices apart from variables of the
 same name

The indices p1, p2 were stored under the name p1_p2, which hid a variable of
that name in the data, and could be the name of another set of indices.
---
 R/modify_subexpr.R | 15 +++++++++++++--
 R/subformula.R     |  2 +-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/R/modify_subexpr.R b/R/modify_subexpr.R
index e699155..d2c6a0a 100644
--- a/R/modify_subexpr.R
+++ b/R/modify_subexpr.R
@@ -14,6 +14,17 @@ find_sub_status <- function(x, subvar) {
   }
 }
 
+# the names of the index variables in a term like a[p1, p2]
+find_index_names <- function(x) {
+  vapply(as.list(x)[-c(1, 2)], function(i) paste(as.character(i), collapse = " "), "")
+}
+
+# the name for the flattened version of several index variables:
+# not one which could be used for a variable in the data
+find_flat_name <- function(index_names) {
+  paste0("[", paste(index_names, collapse = ", "), "]")
+}
+
 modify_subexpr <- function(x, subvar) {
   if(is.atomic(x) || is.name(x)) {
     x
@@ -31,7 +42,7 @@ modify_subexpr <- function(x, subvar) {
         x[[1]] <- quote(`[fr`)
         if(length(x) > 3L) {
           # have multiple indexing: must flatten
-          index <- parse(text = paste(x[-c(1, 2)], collapse = "_"))[[1]]
+          index <- as.name(find_flat_name(find_index_names(x)))
           x <- x[1:3]
           x[[3]] <- index
         }
@@ -64,7 +75,7 @@ extract_to_flatten <- function(x, subvar) {
   } else if(is.call(x)) {
     if(identical(x[[1]], quote(`[`)) && length(x) > 3L && find_sub_status(x[[2]], subvar)) {
       # have multiple indexing: must flatten
-      to_flatten <- paste(as.list(x)[-c(1, 2)])
+      to_flatten <- find_index_names(x)
       out <- list()
       out[[1]] <- to_flatten
       out <- unique(c(out, unlist(lapply(x, extract_to_flatten,
diff --git a/R/subformula.R b/R/subformula.R
index d17da71..1c01fc4 100644
--- a/R/subformula.R
+++ b/R/subformula.R
@@ -168,7 +168,7 @@ parse_sub <- function(sub, data, family, lme4_control)
                              indices = indices_subform,
                              data = data)
 
-  names(subset_vars_flat) <- lapply(to_flatten, paste, collapse = "_")
+  names(subset_vars_flat) <- lapply(to_flatten, find_flat_name)
 
   # we want to replace subvar with modfr_subform
   data_subexpr <- c(modfr_subform_list, subset_vars_flat, as.list(data))
-- 
2.43.0


From 25b6d84ff206932d938bdb9510cebbb1bb3b409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 36/43] fix: keep the importance sampling likelihood finite
 when weights differ widely

The log-weights were centred at their mean, so exp() overflowed (or gave NaN)
when some draws had negligible weight.
---
 R/IS.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/IS.R b/R/IS.R
index 5e2c2f6..9d11c85 100644
--- a/R/IS.R
+++ b/R/IS.R
@@ -82,7 +82,7 @@ find_lfun_IS <- function(modfr, devfun_laplace, nIS) {
     normal_approx <- compute_normal_approx(pars, devfun_laplace)
     log_integrand <- find_log_integrand(pars, modfr)
     log_weights <- find_log_weights(z_poss, log_integrand, normal_approx)
-    b <- mean(log_weights)
+    b <- max(log_weights)
     log(mean(exp(log_weights - b))) + b
   }
 
-- 
2.43.0


From f3ee141ebd377416ce1f5bfcaf752cf71e30d200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 37/43] fix: refuse the gaussian family in models with Sub
 terms only

The family was checked only where the formula has other random effects, so
that the default family gave a likelihood in models of comparisons.
---
 R/model_frames.R | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/R/model_frames.R b/R/model_frames.R
index 217c81a..c6796a8 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -8,9 +8,9 @@ parse_formula <- function(formula, data, family, weights, off,
     family <- get(family, mode = "function", envir = parent.frame())
   if (is.function(family))
     family <- family()
+  if (family$family == "gaussian")
+    stop("glmmsr can't yet handle family = gaussian", call. = FALSE)
   if(has_re(formula)) {
-    if (family$family == "gaussian")
-      stop("glmmsr can't yet handle family = gaussian", call. = FALSE)
     # glFormula looks up the offset argument under the name `offset`
     offset <- off
     # as in the case without random effects, keep both apart from any variables
-- 
2.43.0


From 7757988453ba5ffcd687ef3f244bcfbec63339ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 38/43] fix: refuse quasi families in models with Sub terms
 only

lme4 refuses them in models with other random effects.
---
 R/model_frames.R | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/R/model_frames.R b/R/model_frames.R
index c6796a8..bf7b10c 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -10,6 +10,8 @@ parse_formula <- function(formula, data, family, weights, off,
     family <- family()
   if (family$family == "gaussian")
     stop("glmmsr can't yet handle family = gaussian", call. = FALSE)
+  if (family$family %in% c("quasibinomial", "quasipoisson", "quasi"))
+    stop("quasi families do not have a likelihood", call. = FALSE)
   if(has_re(formula)) {
     # glFormula looks up the offset argument under the name `offset`
     offset <- off
-- 
2.43.0


From 621a52491e8db401898bf256d174c4edb62a12b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 39/43] fix: refuse several subformulas for the same
 substituted variable

All of them were added to the model for a single Sub() term.
---
 R/subformula.R | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/R/subformula.R b/R/subformula.R
index 1c01fc4..dbf57c9 100644
--- a/R/subformula.R
+++ b/R/subformula.R
@@ -122,6 +122,9 @@ add_subexpr <- function(subform, subexprs, which_subvars) {
 
 match_subform_subexpr <- function(subforms, subexprs, data) {
   subvars <- vapply(subforms, find_subvar, "test")
+  if(anyDuplicated(subvars)) {
+    stop("Each substituted variable should have only one subformula", call. = FALSE)
+  }
 
   # find the names of the subvars involved in each subexpr
   which_subvars <- lapply(subexprs, find_vars, vars = subvars)
-- 
2.43.0


From 4ab7b914cac1707b6f328cb41ae5cbed064806ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 40/43] fix: refuse offsets in subformulas

An offset() term in a subformula was dropped without notice.
---
 R/subformula.R | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/R/subformula.R b/R/subformula.R
index dbf57c9..7216c51 100644
--- a/R/subformula.R
+++ b/R/subformula.R
@@ -146,6 +146,10 @@ parse_sub <- function(sub, data, family, lme4_control)
   subform <- sub$subform
   subexpr <- sub$subexpr
 
+  if(length(attr(terms(subform), "offset")) > 0L) {
+    stop("Offsets are not supported in subformulas", call. = FALSE)
+  }
+
   indices_subform_tot <- find_indices_subform(sub, data)
   data <- indices_subform_tot$data
   indices_subform <- indices_subform_tot$indices_subform
-- 
2.43.0


From eb3863db7033b8e0dd2b3729ea0d3fbc1fa65d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:35 +0000
Subject: [PATCH 41/43] fix: refuse weights and offsets which are too short

---
 R/model_frames.R | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/R/model_frames.R b/R/model_frames.R
index bf7b10c..452cdad 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -12,6 +12,9 @@ parse_formula <- function(formula, data, family, weights, off,
     stop("glmmsr can't yet handle family = gaussian", call. = FALSE)
   if (family$family %in% c("quasibinomial", "quasipoisson", "quasi"))
     stop("quasi families do not have a likelihood", call. = FALSE)
+  # a data frame would recycle weights or an offset which are too short
+  if(!is.null(weights) || !is.null(off))
+    data_vars <- as.list(data_vars)
   if(has_re(formula)) {
     # glFormula looks up the offset argument under the name `offset`
     offset <- off
-- 
2.43.0


From 47939cc0eaac4cad7092032c7daacba849f154f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:26 +0000
Subject: [PATCH 42/43] fix: normalizer of a Gaussian in many dimensions, whose
 determinant over- or underflows

---
 src/MultiNormal.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/MultiNormal.cpp b/src/MultiNormal.cpp
index 2253833..22b9a73 100644
--- a/src/MultiNormal.cpp
+++ b/src/MultiNormal.cpp
@@ -149,7 +149,18 @@ MultiNormal MultiNormal::integrate(int item) const
 void MultiNormal::initializeNormalizer()
 {
   static const double logSqrtTwoPi = 0.91893853320467266954;
-  normalizer_ = -dimension() * logSqrtTwoPi + 0.5 * log(precision_.determinant());
+  // log of the determinant, by way of logs because in many dimensions the
+  // determinant itself may overflow or underflow
+  double logDet = 0;
+  if(precision_.rows() > 0) {
+    Eigen::PartialPivLU<Eigen::MatrixXd> lu(precision_);
+    Eigen::ArrayXd diagonal = lu.matrixLU().diagonal().array();
+    int sign = lu.permutationP().determinant();
+    if((diagonal < 0).count() % 2 == 1)
+      sign = -sign;
+    logDet = sign > 0 ? diagonal.abs().log().sum() : log(-1.0);
+  }
+  normalizer_ = -dimension() * logSqrtTwoPi + 0.5 * logDet;
 }
 
 void MultiNormal::multiplySubsetInternal
-- 
2.43.0


From 8b2a0bf1497f0ffd9c17037b38e1b96547a883cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:26 +0000
Subject: [PATCH 43/43] fix: quadrature rules with more than about 370 points,
 whose weights underflow

---
 inst/include/QuadratureRule.h |  1 +
 src/QuadratureRule.cpp        | 21 ++++++++++++++++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/inst/include/QuadratureRule.h b/inst/include/QuadratureRule.h
index 58820c3..73424ba 100644
--- a/inst/include/QuadratureRule.h
+++ b/inst/include/QuadratureRule.h
@@ -12,6 +12,7 @@ class QuadratureRule
   QuadratureRule(int);
 
   Eigen::ArrayXd getNodes() const;
+  // the Gauss-Hermite weights, multiplied by exp(node^2)
   Eigen::ArrayXd getWeights() const;
 
  private:
diff --git a/src/QuadratureRule.cpp b/src/QuadratureRule.cpp
index 985dea5..d22cfc4 100644
--- a/src/QuadratureRule.cpp
+++ b/src/QuadratureRule.cpp
@@ -29,18 +29,29 @@ void QuadratureRule::initialize(int n)
   // The first row of es.eigenvectors() also gives the weights, but is only
   // accurate relative to its largest element, and the smallest weights
   // are multiplied by exp(node^2). So use the orthonormal polynomials,
-  // scaled so that the first one is one: weight = sqrt(pi) / (sum of squares)
+  // scaled so that the first one is one: weight = sqrt(pi) / (sum of squares).
+  // With many points exp(node^2) overflows and the sum of squares with it, so
+  // the polynomials are scaled down as they grow, and put back on a log scale
   Eigen::ArrayXd previous = Eigen::ArrayXd::Zero(n);
   Eigen::ArrayXd current = Eigen::ArrayXd::Ones(n);
   Eigen::ArrayXd sumOfSquares = Eigen::ArrayXd::Zero(n);
+  Eigen::ArrayXd logScale = Eigen::ArrayXd::Zero(n);
   for(int i = 0; i < n; ++i) {
     sumOfSquares += current * current;
     Eigen::ArrayXd next = sqrt(2.0 / (i + 1)) * nodes_ * current
       - sqrt(i / (i + 1.0)) * previous;
     previous = current;
     current = next;
+    for(int j = 0; j < n; ++j) {
+      if(sumOfSquares(j) > 1e100) {
+	sumOfSquares(j) *= 1e-100;
+	previous(j) *= 1e-50;
+	current(j) *= 1e-50;
+	logScale(j) += 100 * log(10.0);
+      }
+    }
   }
-  weights_ = sqrtPi / sumOfSquares;
+  weights_ = sqrtPi * exp(nodes_.square() - logScale) / sumOfSquares;
 }
 
 Eigen::MatrixXd QuadratureRule::findHermiteJacobi(int n)
@@ -67,7 +78,7 @@ double integrate1D(std::function<double(double)> f,
   for(auto i = 0; i < nodes.size(); ++i) {
     double node = nodes(i);
     double transformedNode = scale * node + location;
-    ret += weights(i) * f(transformedNode) * exp(pow(node, 2));
+    ret += weights(i) * f(transformedNode);
   }
   return scale * ret;
 }
@@ -86,7 +97,7 @@ Eigen::ArrayXd integrate1DVector(std::function<Eigen::ArrayXd(double)> f,
   for(auto i = 0; i < nodes.size(); ++i) {
     double node = nodes(i);
     double transformedNode = scale * node + location;
-    ret += weights(i) * f(transformedNode) * exp(pow(node, 2));
+    ret += weights(i) * f(transformedNode);
   }
   return scale * ret;
 }
@@ -105,7 +116,7 @@ Eigen::ArrayXXd integrate1DMatrix(std::function<Eigen::ArrayXXd(double)> f,
   for(auto i = 0; i < nodes.size(); ++i) {
     double node = nodes(i);
     double transformedNode = scale * node + location;
-    ret += weights(i) * f(transformedNode) * exp(pow(node, 2));
+    ret += weights(i) * f(transformedNode);
   }
   return scale * ret;
 }
-- 
2.43.0

