#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (run by hand, never by a check)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "bayesian_sde_solver/"
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[os.path.normpath(P + f) + ("/" if f.endswith("/") or not f else "") for f in files],
                      mech=mech, observe=observe, technique=technique, note=note))


prop("C01", "SDE driver composes the random ODEs of the Brownian pieces exactly",
     "On every interval k the SDE driver hands the ODE integrator the previous interval's end state and the vector field "
     "z,t -> f(z,t_k+t) + sigma(z,t_k+t) P_k'(t) over the step length, where P_k is the polynomial given by that interval's own "
     "Brownian coefficients, and appends what the integrator returns. It returns the grid 0,delta,...,N*delta, the N+1 states starting "
     "at x0 (component by component when the state is a tuple) and the N drawn coefficients, row k belonging to interval k. "
     "This holds for every drift, d-by-m diffusion, Brownian approximation, integrator, state structure, step length and N.",
     ["inputs", "programs", "configurations"],
     "all drifts/diffusions (time-dependent, non-square), all coefficient generators and polynomials, all integrators and state pytrees, all (delta, N, key)",
     "The tests only look at Monte-Carlo moments of two autonomous problems with 10% tolerance, so a wrong time offset, a coefficient of another interval or a misplaced initial row is invisible.",
     ["sde_solver.py", "utils/insert.py", "foster_polynomial.py"],
     [("scan body building the interval vector field", P + "sde_solver.py:sde_solver"), ("initial row insertion for arrays and tuples", P + "utils/insert.py:insert")],
     ["return value of the driver", "calls into the user supplied integrator and Brownian generator"],
     "reference-model monitor (recording stubs at the driver boundary + independent replay)",
     "Held on the executions produced: randomised fields, stub integrators and Brownian generators that record what they are given, replayed by an independent numpy model.")

prop("C02", "Every random draw is fresh, independent and a pure function of the key",
     "Along any run of the SDE drivers (parabola ODE and marginal-parabola) and of the keyed SDE schemes, each interval's Brownian coefficients or increments and each posterior-sampling key are "
     "drawn from randomness never used elsewhere in the run: they are distinct and statistically independent across intervals, coordinates and purposes. "
     "Repeating a call with the same key repeats the result bit for bit, different keys give independent runs, and the Brownian coefficients of a run depend only on "
     "key, step length, N and the approximation, not on the drift, diffusion, state or integrator.",
     ["inputs", "histories", "configurations"],
     "all keys, all run lengths N, all schemes/integrators, all pairs of intervals of a run",
     "Tests use one key and one-time marginals; reuse of a key or a correlation between intervals leaves one-step marginals unchanged.",
     ["sde_solver.py", "ssm_parabola/ssm_parabola_ode.py", "sde_solvers/euler_maruyama.py", "sde_solvers/diag_15_scheme.py",
      "sde_solvers/hypoelliptic_diffusion__diag_15_scheme.py", "foster_polynomial.py"],
     [("key splitting per interval", P + "sde_solver.py:sde_solver"), ("key splitting per interval", P + "ssm_parabola/ssm_parabola_ode.py:sde_solver"),
      ("key splitting in the schemes", P + "sde_solvers/")],
     ["keys received by integrators and generators", "returned coefficients", "increments recovered from trajectories"],
     "online key-uniqueness monitor + offline independence statistics over recorded draws",
     "Held on the recorded runs; independence is tested statistically with false-alarm probability below 1e-8 per run.")

prop("C03", "Sampled Brownian parabolas have the right joint law and interpolate exactly",
     "For every step length dt and dimension, each of the three coefficient generators yields independent centred Gaussian coordinates with increment variance dt and second coefficient variance dt/2 "
     "(up to the discretisation of the sampled path), the two coefficients being uncorrelated. "
     "The polynomial is P(t) = a t/dt + sqrt(6) b (t/dt)(1 - t/dt): it starts at 0, ends at the increment a, and its time integral is dt(a/2 + b/sqrt(6)), whatever the shapes the arguments broadcast to.",
     ["inputs", "configurations"],
     "all dt > 0 over many orders of magnitude, all dimensions, keys, batch shapes, resolutions",
     "Tests check moments for dt=1 and dim=1 or 2 samples at loose tolerance; the scaling in dt, cross-coordinate independence and the polynomial itself are not pinned.",
     ["foster_polynomial.py"],
     [("coefficient generators", P + "foster_polynomial.py:get_approx"), ("polynomial evaluation", P + "foster_polynomial.py:get_approx.eval_parabola")],
     ["sampled coefficients", "polynomial values and derivatives"],
     "statistical monitor over recorded draws + exact polynomial oracle",
     "Moments/independence held within >6 sigma bands over the recorded draws; the polynomial is compared to its closed form pointwise.")

prop("C04", "Coarse and fine Brownian descriptions of a step describe the same path",
     "When a generator returns both the coarse parabola and fine data, both describe one Brownian path: the coarse increment is the sum of the fine increments and the coarse second coefficient is "
     "sqrt(6) times the mean of the path over the step minus half the increment. For fine parabolas the path mean is that of the glued fine parabolas, for sampled paths it is the trapezoidal mean of the "
     "path through 0 and the partial sums of the (standardised) increments; for every resolution, dimension and step length.",
     ["inputs", "configurations"],
     "all keys, dt, dimensions and resolutions N >= 1",
     "Tests only check the marginal moments of the coarse coefficients, never the coupling on which every pathwise error computation rests.",
     ["foster_polynomial.py"],
     [("fine-to-coarse recursion", P + "foster_polynomial.py:get_approx_fine"), ("path integral", P + "foster_polynomial.py:get_approx_and_brownian")],
     ["returned coarse and fine coefficients"],
     "offline consistency checker over returned coarse/fine data",
     "Exact identity checked on every recorded draw.")

prop("C05", "Ito and Stratonovich conversions are exact and mutually inverse",
     "Converting a d-dimensional SDE with any differentiable d-by-m diffusion changes the drift by minus (to Stratonovich) or plus (to Ito) half of sum_{j,k} sigma_{jk} d sigma_{ik}/dx_j evaluated at the same state and time, "
     "and returns the diffusion unchanged. The two conversions undo each other and do nothing when the diffusion does not depend on the state.",
     ["inputs", "programs"],
     "all drifts, diffusions (non-square, non-diagonal, time-dependent), states and times",
     "Tests use three hand-made square or diagonal autonomous diffusions for which index transpositions coincide.",
     ["ito_stratonovich.py"],
     [("drift correction", P + "ito_stratonovich.py:drift_correction")],
     ["returned drift and diffusion functions"],
     "reference-model monitor (complex-step derivative oracle)",
     "Randomised non-symmetric diffusions compared to an independent complex-step computation.")

prop("C06", "Euler-Maruyama follows its recursion for given increments, without side effects",
     "Given increments, Euler-Maruyama returns the grid 0,h,...,Nh and the path x_{k+1} = x_k + h f(x_k,t_k) + sigma(x_k,t_k) dW_k from x_0, where dW_k is the given increment or, when flagged as standard, sqrt(h) times it. "
     "Only the last row changes with the last increment (non-anticipation) and the caller's arrays are left untouched, for every drift, d-by-m diffusion, h and N.",
     ["inputs", "programs", "histories"],
     "all drifts, diffusions, increments (numpy or JAX), h, N, standard flag",
     "Tests check the moments of an autonomous problem; time dependence, non-square noise and mutation of the inputs are never exercised.",
     ["sde_solvers/euler_maruyama.py"],
     [("pathwise recursion", P + "sde_solvers/euler_maruyama.py:solver_pathwise")],
     ["returned grid and samples", "caller's arrays after the call"],
     "reference-model monitor (independent recursion) + input-mutation monitor",
     "Every recorded path is replayed by an independent numpy recursion.")

prop("C07", "Keyed Euler-Maruyama is the same recursion driven by iid N(0,h) noise",
     "The keyed Euler-Maruyama scheme returns the same grid and recursion as the pathwise one for some increments which are independent across steps, noise coordinates and keys and N(0,h) distributed; "
     "these increments depend only on the key, h, N and the noise dimension, not on drift, diffusion or state. This holds for every drift, d-by-m diffusion, h, N.",
     ["inputs", "programs", "configurations"],
     "all drifts, diffusions, keys, h, N",
     "Tests check means and standard deviations of scalar problems at one h.",
     ["sde_solvers/euler_maruyama.py"],
     [("increment sampling and recursion", P + "sde_solvers/euler_maruyama.py:solver")],
     ["returned samples", "increments recovered from an augmented state"],
     "recovered-noise monitor (augmented state), recursion replay and law statistics",
     "Recursion exact on recorded runs; law held within >6 sigma bands.")

prop("C08", "The diagonal-noise 1.5 Taylor scheme takes exactly the Ito-Taylor step",
     "For every autonomous drift f and diagonal diffusion with entries s_i depending on their own coordinate, each step adds h f + h^2/2 (f'f + (1/2) sum_j s_j^2 d_jj f) + s dW + f' s dZ + (1/2) s s'(dW^2-h) "
     "+ (f s' + s^2 s''/2)(h dW - dZ) + (1/2) s (s s'' + s'^2)(dW^2/3 - h) dW coordinate by coordinate. The pairs (dW, dZ) depend only on key, h, N and dimension, are independent across steps, coordinates and keys, "
     "centred Gaussian with variances h, h^3/3 and covariance h^2/2, and the returned grid and path start at 0 and x0.",
     ["inputs", "programs", "configurations"],
     "all drifts, diagonal diffusions, states, h, N, keys",
     "Tests cover two problems by Monte-Carlo moments at 1e-1-ish tolerance; higher-order terms are far below that resolution.",
     ["sde_solvers/diag_15_scheme.py"],
     [("step formula", P + "sde_solvers/diag_15_scheme.py:solver")],
     ["returned samples", "noise recovered by running the scheme with trivial coefficients and the same key"],
     "recovered-noise monitor + independent Ito-Taylor step oracle + law statistics",
     "Step identity exact on recorded runs; law within >6 sigma bands.")

prop("C09", "The hypoelliptic 1.5 scheme samples its conditional Gaussian at each step",
     "For a drift whose first coordinate carries no noise of its own and non-degenerate noise on the rest reaching it through the drift, each step is Gaussian given the current state with mean x + h f + h^2/2 f'f + h^2/4 (sigma sigma^T : Hessian f) and covariance "
     "[[h^3/3 a G a^T, h^2/2 a G],[h^2/2 G a^T, h G]], a the gradient of the smooth drift in the rough coordinates and G the rough noise covariance, all evaluated at the current state. "
     "Standardised step noises are independent across steps and keys, and the returned grid and path start at 0 and x0.",
     ["inputs", "programs", "configurations"],
     "all drifts, rough diffusions, states, h, N, keys, dimensions",
     "Tests compare moments for three fixed problems from one initial state.",
     ["sde_solvers/hypoelliptic_diffusion__diag_15_scheme.py"],
     [("conditional mean and covariance", P + "sde_solvers/hypoelliptic_diffusion__diag_15_scheme.py:solver")],
     ["returned samples given the previous state"],
     "whitening monitor over recorded transitions (conditional mean/covariance oracle)",
     "Standardised residual statistics within >6 sigma bands over recorded transitions, exact checks where the noise vanishes.")

prop("C10", "The Euler ODE solver is the explicit Euler recursion",
     "The Euler solver returns the state after N steps y <- y + h F(y, kh), k=0..N-1, for every vector field, initial state, h (also negative) and N, without altering its inputs; "
     "consequently its global error is first order in h and it is exact for constant fields.",
     ["inputs", "programs"],
     "all vector fields, initial states, h, N",
     "Tests compare two scalar ODEs to the exact solution at one resolution.",
     ["ode_solvers/euler.py"],
     [("scan recursion", P + "ode_solvers/euler.py:solver")],
     ["returned state", "vector-field evaluation sites"],
     "reference-model monitor (independent recursion)",
     "Every recorded solve replayed by an independent recursion.")

prop("C11", "The EKF engine computes the exact Gaussian posterior, in both covariance forms",
     "For every initial Gaussian, transition (A, Q, xi), observation function and noise R, the extended Kalman filter returns the mean and covariance of the textbook recursion: predict m <- A m + xi, P <- A P A^T + Q; "
     "linearise the observation at the predicted mean and parameter; condition on it being zero with noise R. "
     "For affine observations this is the exact Bayesian posterior; with the square-root form, fed square roots, it returns a factor L with L L^T equal to that covariance and the same mean; "
     "with uncertainty output it additionally returns the last residual and its covariance H P H^T + R.",
     ["inputs", "programs", "configurations"],
     "all dimensions, transitions, observation functions, noises, parameter sequences, both forms",
     "The repository's EKF tests do not run against the current signature; nothing checks the engine beyond scalar end-to-end runs.",
     ["ode_solvers/probnum/ekf.py"],
     [("predict/update/scan", P + "ode_solvers/probnum/ekf.py:ekf")],
     ["returned mean, covariance or factor, residual and residual covariance"],
     "reference-model monitor (batch Bayesian conditioning and textbook recursion in float64)",
     "Compared with two independent oracles on randomised models.")

prop("C12", "The Gaussian ODE filters return the EKF posterior mean of the ODE solution",
     "Without a sampling key, the EKF0 and EKF1 ODE solvers return the solution component of the extended Kalman posterior of a Gauss-Markov prior conditioned on y'(t)-F(y(t),t)=0 (noise R if given) at t=h,2h,...,Nh, "
     "started exactly at y0, F(y0,0) and, from order 2 on, the total second derivative d/dt F (further derivatives: zero mean, unit variance); EKF0 ignores dF/dy in the linearisation, EKF1 includes it. "
     "This holds for every vector field, dimension, number of steps, noise, given prior (default: once-integrated Brownian motion at step h) and for both covariance forms.",
     ["inputs", "programs", "configurations"],
     "all vector fields, initial states, h, N, dims, priors (IOUP, Matern, padded, heterogeneous, with mean increments), noise, sqrt flag",
     "Tests run the default prior on two autonomous problems and compare Monte-Carlo moments at 10%.",
     ["ode_solvers/ekf0.py", "ode_solvers/ekf1.py", "ode_solvers/ekf.py", "ode_solvers/probnum/ekf.py", "ode_solvers/probnum/_utils.py"],
     [("initialisation", P + "ode_solvers/ekf0.py:solver"), ("initialisation", P + "ode_solvers/ekf1.py:solver"), ("observation model", P + "ode_solvers/ekf.py:_solver")],
     ["returned posterior mean"],
     "reference-model monitor (independent numpy EKF)",
     "Randomised configurations compared to an independent float64 filter.")

prop("C13", "Square-root and covariance forms agree and stay finite, symmetric and PSD",
     "Every Gaussian filter (ODE filters with fresh prior, posterior-propagating filters, marginal parabola filter) gives the same posterior in its square-root and covariance forms up to rounding, "
     "and its reported covariances are symmetric and positive semi-definite up to rounding. Outputs stay finite for finite well-scaled inputs over long chains of steps, including exact initialisation, singular priors and zero noise: "
     "in single and double precision for the square-root form, in double precision for the covariance form.",
     ["inputs", "histories", "configurations"],
     "all chains of solver calls, step lengths down to 1e-3, priors incl. singular ones, noise, precision",
     "Tests never compare the two forms nor look at covariances or single-precision breakdown.",
     ["ode_solvers/", "ssm_parabola/", "ode_solvers/probnum/ekf.py", "ode_solvers/probnum/_utils.py"],
     [("matrix square root", P + "ode_solvers/probnum/_utils.py:psd_sqrt"), ("QR based update", P + "ode_solvers/probnum/ekf.py:update")],
     ["returned means, covariances, samples along chains"],
     "invariant monitor (finite / symmetric / PSD) and differential monitor between the two forms",
     "Held on the recorded chains.")

prop("C14", "ODE solvers converge to the true solution with their nominal order",
     "For smooth vector fields, including time-dependent ones, as h decreases at fixed horizon the error of the Euler, EKF0 and EKF1 solvers and of both posterior-propagating filters (exact initial condition) decreases at least with the order of the method: "
     "1 for Euler, q+1 for a noise-free order-q integrated Brownian prior (q = 1 by default, or 2). With an order-q integrated Brownian prior (q = 1, 2) the filters are exact on solutions that are polynomials in time of degree at most q.",
     ["inputs", "programs"],
     "all smooth ODEs, step refinements, orders q = 1, 2, solver variants",
     "Tests look at one resolution with loose tolerance.",
     ["ode_solvers/"],
     [("filters and Euler", P + "ode_solvers/")],
     ["returned states over a refinement of h"],
     "convergence-rate monitor against a high-accuracy reference integrator",
     "Rates measured over randomised ODEs; thresholds leave a margin of half an order.")

prop("C15", "With a key, filters return exact draws from the Gaussian posterior they computed",
     "Given a key, every Gaussian filter returns a draw whose law, over keys, is the normal law with the posterior mean and covariance of the solution component (for the marginal parabola filter: jointly of solution, Brownian increment and second coefficient); "
     "without a key it returns the mean. Draws for different keys are independent, the same key repeats the draw, and both covariance forms give the same law.",
     ["inputs", "configurations"],
     "all keys, filters, priors, noise levels, dims, forms",
     "Tests pass no key or look at end-to-end moments at 10% where the sampling variance is negligible.",
     ["ode_solvers/", "ssm_parabola/"],
     [("sampling", P + "ode_solvers/ekf1.py:solver"), ("sampling", P + "ode_solvers/ekf1_2.py:solver"), ("sampling", P + "ssm_parabola/ekf1.py:solver")],
     ["returned samples over many keys"],
     "whitening statistics over recorded draws against reference posterior",
     "Mean, covariance and normality within >6 sigma bands over recorded draws.")

prop("C16", "Posterior-propagating filters carry mean and covariance, untouched by sampling",
     "The posterior-propagating filters start from the carried Gaussian law (m, P) of the solution, with derivative mean F(m,0) and derivative covariance induced by the linearisation (EKF1) or zero (EKF0), and return a sample plus the posterior mean and covariance of the solution after N steps; "
     "the incoming sample and the key influence the outgoing sample only. Chained through the SDE driver, the means and covariances equal those of one filter run over the whole horizon re-initialised at each interval boundary in this way.",
     ["inputs", "histories", "configurations"],
     "all vector fields, carried laws (including zero and singular covariances), chains, keys, forms, priors, noise",
     "Tests start from zero covariance and look only at end-to-end sample moments.",
     ["ode_solvers/ekf0_2.py", "ode_solvers/ekf1_2.py", "sde_solver.py"],
     [("initial law", P + "ode_solvers/ekf1_2.py:solver"), ("initial law", P + "ode_solvers/ekf0_2.py:solver")],
     ["returned (sample, mean, covariance) triples", "driver trajectories of tuples"],
     "reference-model monitor (numpy Gaussian propagation) + non-interference monitor",
     "Compared to an independent float64 model on randomised chains.")

prop("C17", "Calibration quantities are the filter's residuals and their quasi-MLE",
     "When asked for everything, the posterior-propagating filters additionally return the full-state sample, mean and covariance and the last observation residual y'-F(y,t) at the predicted mean with its covariance H P H^T + R (a covariance, in both forms). "
     "The diffusion estimate equals the average over steps and coordinates of z^T S^{-1} z; scaling the prior covariance (with the carried covariance, zero noise) by c scales all covariances by c, leaves means and residuals unchanged and scales the estimate by 1/c.",
     ["inputs", "configurations"],
     "all vector fields, priors, scales c, dims, sequences of residuals, forms",
     "No test requests the extra outputs or calls the calibration.",
     ["ode_solvers/ekf0_2.py", "ode_solvers/ekf1_2.py", "ode_solvers/probnum/calibration.py", "ode_solvers/probnum/ekf.py"],
     [("uncertainty outputs", P + "ode_solvers/probnum/ekf.py:ekf"), ("estimate", P + "ode_solvers/probnum/calibration.py:mle_diffusion")],
     ["extra outputs", "estimate"],
     "reference-model monitor + scale-equivariance monitor",
     "Compared to an independent float64 model.")

prop("C18", "The integrated Brownian / OU prior is the exact transition of its SDE",
     "For every order q, step dt, dimension and diffusion scale the integrated Brownian prior returns zero mean increment, the Taylor transition matrix and the exact transition covariance of the q-times integrated Brownian motion, block-diagonal over coordinates, and is a consistent semigroup: composing two steps gives the transition over their sum. "
     "For theta > 0 the transition matrix is the exact exponential of the drift and the covariance is correct to leading order in dt.",
     ["inputs", "configurations"],
     "all q, dt, sigma, theta, dim",
     "Tests use q=1, theta=0, sigma=1 implicitly.",
     ["ode_solvers/probnum/IOUP.py"],
     [("closed forms", P + "ode_solvers/probnum/IOUP.py:transition_function")],
     ["returned (xi, Q, A)"],
     "closed-form and Chapman-Kolmogorov monitor",
     "Exact identities over randomised parameters.")

prop("C19", "Matern and generic linear-SDE priors are exact discretisations",
     "The generic prior returns, for any dX = (F X + u)dt + L dW, the exact A = exp(Fh), xi = int exp(Fs)u ds and Q = int exp(Fs)LL^T exp(F^Ts) ds up to quadrature resolution and the rounding of the matrix exponential. "
     "The Matern prior of smoothness k+1/2, length l and magnitude is that discretisation for the drift with characteristic polynomial (x+lambda)^(k+1), lambda = sqrt(2k+1)/l, replicated over coordinates; closed form and numerical route agree, and it keeps the stationary covariance of the process invariant.",
     ["inputs", "configurations"],
     "all stable or unstable F, inputs u, L, steps h; all k, length, magnitude, dt, dim, both routes",
     "No test touches these priors (the generic one even crashed on the supported JAX).",
     ["ode_solvers/probnum/matern.py", "ode_solvers/probnum/transition_function.py"],
     [("closed form", P + "ode_solvers/probnum/matern.py:transition_function"), ("quadrature", P + "ode_solvers/probnum/transition_function.py:transition_function")],
     ["returned (xi, Q, A)"],
     "reference-model monitor (van Loan matrix exponential) + stationarity monitor",
     "Randomised parameters compared to an independent float64 computation.")

prop("C20", "State layout, padding and prior composition never mix coordinates or orders",
     "Interlacing places component j of array i at position j*n+i and its matrix version is the covariance of the interlaced vector; padding a prior appends zero states only; combining independent priors is block-diagonal. "
     "Hence relabelling the coordinates of an ODE (with its priors and noise) relabels the filter output, decoupled systems are solved as if separately, and a coordinate's result is not changed by padding its prior to a higher order where both initialise exactly.",
     ["inputs", "configurations"],
     "all dims, orders, heterogeneous priors, permutations, decoupled systems",
     "Tests are scalar or use the same prior for all coordinates of two-dimensional problems.",
     ["ode_solvers/probnum/_utils.py", "ode_solvers/probnum/transition_function.py", "ode_solvers/", "ssm_parabola/"],
     [("interlacing", P + "ode_solvers/probnum/_utils.py"), ("padding/composition", P + "ode_solvers/probnum/transition_function.py")],
     ["helper outputs", "filter outputs under relabelling"],
     "metamorphic monitor (permutation, decoupling, padding) + layout oracle",
     "Held on randomised configurations.")

prop("C21", "The marginal parabola filter is the EKF on the coefficient-augmented state",
     "For every drift, square diffusion, interval length delta and N substeps, the marginal parabola filters return the solution, Brownian increment and second coefficient of the EKF posterior of the state (y, y', W, I) started at y0, f(y0,0), 0, 0 with the exact joint covariance of y'(0)=f+sigma P'(0), W ~ N(0,delta), I ~ N(0,delta/2), "
     "with W and I constant in time and observations y' = f(y,t) + sigma(y,t) P'(t) at t=h,...,Nh; the EKF0 variant ignores the derivative in y only. "
     "For linear drift and constant diffusion, given increment and second coefficient the solution then has the posterior law of the fixed-parabola filter of that parabola.",
     ["inputs", "programs", "configurations"],
     "all drifts, square diffusions (singular, state- and time-dependent), delta, N, priors, noise, both forms",
     "The only test runs one harmonic oscillator at loose tolerance.",
     ["ssm_parabola/ekf.py", "ssm_parabola/ekf0.py", "ssm_parabola/ekf1.py"],
     [("augmented model", P + "ssm_parabola/ekf.py:_solver")],
     ["returned mean components", "sampled covariance"],
     "reference-model monitor (numpy augmented EKF) + differential monitor against the fixed-parabola filter, conditionally on the sampled parabola",
     "Randomised configurations compared to independent float64 models.")

prop("C22", "The marginal-parabola SDE driver chains its filter over time-shifted intervals",
     "On every interval k the marginal-parabola driver calls the filter with the previous end state, the drift and diffusion shifted to start at time t_k, the interval length and a fresh key, and appends the returned state. "
     "It returns the grid 0,delta,...,N*delta and N+1 states starting at x0, for every drift, diffusion, filter, delta and N.",
     ["inputs", "programs", "configurations"],
     "all drifts, diffusions, filters, delta, N, keys",
     "One autonomous problem is tested by moments.",
     ["ssm_parabola/ssm_parabola_ode.py", "utils/insert.py"],
     [("scan body", P + "ssm_parabola/ssm_parabola_ode.py:sde_solver")],
     ["return value", "calls into the user supplied filter"],
     "reference-model monitor (recording stub filter + independent replay)",
     "Every recorded run replayed by an independent model.")

prop("C23", "The progress bar never changes results and counts every iteration once",
     "Decorating a scan body with the progress bar leaves carries and outputs unchanged, for plain and tuple inputs, jitted or not. For every number of iterations it creates one bar with that total and the message as description, its updates are non-negative, never exceed and finally sum to the number of iterations, and it is closed after the last one.",
     ["inputs", "histories", "configurations"],
     "all iteration counts (around and beyond the 1000-iteration throttling), bodies, messages, repeated runs",
     "Tests never look at the bar; the throttling arithmetic is only exercised at N=1000.",
     ["utils/progress_bar.py", "sde_solver.py", "ssm_parabola/ssm_parabola_ode.py"],
     [("throttled host callbacks", P + "utils/progress_bar.py:progress_bar")],
     ["events on the bar (create/update/close)", "scan results with and without the bar"],
     "event-log monitor on the bar object (conservation, exactly-once close) + differential monitor",
     "Held on the recorded event logs for the enumerated iteration counts.")

prop("C24", "The problem catalogue's dynamics and its stated moments belong together",
     "Every catalogued problem returns an initial state, drift and diffusion of consistent shapes implementing its documented equation, square variants having the same noise covariance as the original. "
     "Every closed-form mean or variance it returns solves the corresponding moment equations (exact ones), or matches the Ito-Taylor expansion of the process's moments at the initial state (means to second order, variances at least to leading order in each entry); the random linear problem draws independent standard normal drift and diffusion matrices from its key.",
     ["inputs", "configurations"],
     "all catalogue entries, states, times, keys, dims",
     "Tests use the catalogue as the oracle, so errors in it cancel or are hidden by tolerance.",
     ["utils/ivp.py"],
     [("problems", P + "utils/ivp.py")],
     ["returned functions evaluated over states and times"],
     "oracle monitor (moment ODEs by high-accuracy integration, independent equations, generator-based expansions)",
     "Held on evaluated states and times.")

prop("C25", "Solvers are pure: transforms, batching and repetition never change results",
     "Every public solver gives the same result, up to rounding, called eagerly, under jit, under vmap over keys and initial states, and with jit disabled (draws made with a square-root-form covariance, whose factor is not unique: the same law); calling it again, in any order with other calls, gives bit-identical results, and so does another process up to rounding. "
     "It never modifies its inputs and returns finite values of the expected shape with floating dtype equal to that of the enabled precision, which it uses throughout (a change of the inputs far below single precision still moves a double-precision result by its derivative).",
     ["inputs", "histories", "configurations"],
     "all solvers, call orders, transforms, precisions",
     "Tests call each solver one way only.",
     ["sde_solver.py", "sde_solvers/", "ode_solvers/", "ssm_parabola/", "foster_polynomial.py", "ito_stratonovich.py"],
     [("functional scans", P)],
     ["results of the same call through different transforms and histories", "caller's arrays"],
     "differential monitor across transforms and call histories",
     "Held on the recorded call histories.")

prop("C26", "Parabola-ODE and SDE schemes converge strongly to the exact solution",
     "Driven by one common Brownian path and refining the step, the parabola-ODE schemes (Euler or Gaussian filters as integrators, enough substeps) converge pathwise to the Stratonovich solution with strong order at least 1 for additive or commutative noise (1/2 in general), so does Euler-Maruyama to the Ito solution with order 1/2 (1 for additive noise); "
     "on linear problems with additive noise the one-step mean and covariance of each scheme match the exact transition to its nominal local order.",
     ["inputs", "programs", "histories"],
     "commutative-noise and additive-noise problems, refinements of the step, integrators, schemes",
     "Tests look at marginal moments at one step length; strong order is only examined by hand-run scripts.",
     ["sde_solver.py", "foster_polynomial.py", "sde_solvers/", "ode_solvers/", "ito_stratonovich.py"],
     [("whole pipeline", P)],
     ["terminal states over refinements of the step on shared paths"],
     "convergence-rate monitor on coupled paths with exact solutions",
     "Rates measured on recorded refinements, with a margin.")


prop("C27", "Pathwise experiments save solver and reference on one Brownian path",
     "Every pathwise convergence script saves, for each resolution and each Monte-Carlo key, the announced solver's trajectory on the grid of the step (starting at x0, equal to what the package's driver gives for that key, problem, prior and "
     "resolution) and, where it announces a reference, the Euler-Maruyama solution (the exact linear solution in the linear experiment) driven by that same key's fine Brownian increments, sampled on the same grid: one reference path per solver path. "
     "The script runs to completion, and the difference of the two shrinks with the step.",
     ["inputs", "configurations"],
     "all experiment scripts, their resolutions, Monte-Carlo keys, solvers, problems, priors and precisions",
     "No test runs a script; each carries its own copy of the driver, so a wrong pairing, a lost path or a wrong scaling silently changes the published convergence rates.",
     ["../scripts/"],
     [("per-script copies of the driver with an on-the-fly reference", "scripts/pathwise_convergence_experiment_2_RAM.py:experiment"), ("local-error experiment", "scripts/local_order_experiment_from_scratch.py:experiment"),
      ("linear experiment", "scripts/breaking_multidimensionnal.py:experiment")],
     ["saved .npy files", "keys split by the script"],
     "observation of whole script runs (recorded saves and keys) against the package driver and a numpy reference",
     "Held on the first resolutions of each script with the number of Monte-Carlo keys cut down.")

prop("C28", "Posterior-sampling experiments save a consistent path, posterior and MLE",
     "The posterior-sampling and calibration scripts save files describing one Brownian path: coarse increments are sums of the fine ones, the fine, coarse and parabola-ODE solutions are those of the saved increments and coefficients, and the saved means and covariances are the "
     "mixture filter's along that path. Posterior samples are independent Gaussian draws with exactly the saved means and covariances, and the calibrated run uses the prior whose diffusion is the maximum-likelihood estimate, so that it leaves nothing to calibrate and rescales the covariances by the estimate.",
     ["inputs", "configurations"],
     "the scripts of sampling_from_posterior_alg3, both precisions, all saved files, time points, coordinates and samples",
     "No test runs these scripts, and their output only looks wrong next to an independent computation.",
     ["../scripts/sampling_from_posterior_alg3/"],
     [("posterior sampling", "scripts/sampling_from_posterior_alg3/pathwise_sampling_from_posterior.py:experiment"), ("calibrated rerun", "scripts/sampling_from_posterior_alg3/uncertainty_calibration.py:experiment")],
     ["saved .npy files", "keys split by the script"],
     "observation of whole script runs, cross-file consistency monitors and whitening statistics",
     "Held on full runs of the three scripts in both precisions.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                             observe_at=p["observe"], hook_needed=None))) + "\n")
    checks, na = [], []
    for p in PROPS:
        if os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py")):
            cmd = "/opt/venv/bin/python -B run.py " + p["id"]
            checks.append(dict(property=p["id"], quick_cmd=cmd + " --tier quick", thorough_cmd=cmd + " --tier thorough",
                               evidence_file="evidence/%s.json" % p["id"], technique="runtime monitoring: " + p["technique"],
                               level="exploration", level_note=p["note"]))
        else:
            na.append(dict(property=p["id"], reason="its monitor is not built yet, so nothing is claimed"))
    man = dict(version=1, setup_cmd="/opt/venv/bin/python -B run.py --selftest", checks=checks, not_applicable=na,
               notes="No hooks in /repo are needed: every monitor observes the public API (recording stubs, patched third-party "
                     "event sinks such as tqdm, returned values). See DESIGN.md.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
