"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
S = "BayesicFitting/source/"
K = S + "kernels/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("M01", "Parameter derivatives of every model are exact",
 "For every model the library ships, the reported partial derivative of the model value with respect to each of its parameters is the mathematical derivative of the value the same model returns, for every parameter vector in the model's domain and every list of input points. One row per input point and one column per parameter, in parameter order, the value at one point never depending on the other points (fixed-kernel and table models included).",
 ["inputs", "configurations"],
 "every model class and every documented constructor option (order, degree, kernel, knots, shape), every parameter vector in its domain, every input array of any length",
 "The tests compare numerical and analytic derivatives at one or two hand-picked parameter vectors with a tolerance of 1e-3; branches (special points, large arguments, knots, other orders/degrees) are not reached.",
 [S+f for f in "GaussModel.py ArctanModel.py ExpModel.py LorentzModel.py VoigtModel.py PseudoVoigtModel.py SincModel.py SineModel.py SineAmpModel.py PowerModel.py PowerLawModel.py LogisticModel.py PolynomialModel.py ChebyshevPolynomialModel.py HarmonicModel.py PadeModel.py PolySineAmpModel.py PolySurfaceModel.py SurfaceSplinesModel.py SplinesModel.py BasicSplinesModel.py BSplinesModel.py SineSplineModel.py SineSplineDriftModel.py SineDriftModel.py EtalonModel.py EtalonDriftModel.py RadialVelocityModel.py StellarOrbitModel.py Kepplers2ndLaw.py KernelModel.py Kernel2dModel.py FreeShapeModel.py FootballModel.py SoftMaxModel.py NeuralNetUtilities.py UserModel.py AstropyModel.py".split()],
 [("closed-form partials", "basePartial of each model class"), ("default numerical partial", S+"BaseModel.py numPartial"), ("design matrix of linear models", S+"LinearModel.py")],
 ["Model.partial", "Model.result"])

prop("M02", "Input derivatives of every model are exact",
 "For every model the library ships, the reported derivative of the model value with respect to the independent variable is the mathematical derivative of the value the same model returns, at every input where that derivative exists and for every parameter vector in the domain.",
 ["inputs", "configurations"],
 "every model class and constructor option, every parameter vector in its domain, every input array",
 "The tests sample the derivative at one parameter vector on one grid, for the default order or degree only.",
 [S+f for f in "BaseModel.py LinearModel.py GaussModel.py ArctanModel.py ExpModel.py LorentzModel.py VoigtModel.py PseudoVoigtModel.py SincModel.py SineModel.py SineAmpModel.py PowerModel.py PowerLawModel.py LogisticModel.py PolynomialModel.py ChebyshevPolynomialModel.py HarmonicModel.py PadeModel.py PolySineAmpModel.py PolySurfaceModel.py SplinesModel.py BasicSplinesModel.py BSplinesModel.py SineSplineModel.py SineSplineDriftModel.py SineDriftModel.py EtalonModel.py EtalonDriftModel.py RadialVelocityModel.py Kepplers2ndLaw.py KernelModel.py FreeShapeModel.py".split()],
 [("closed-form derivatives", "baseDerivative of each model class"), ("default numerical derivative", S+"BaseModel.py numDerivative")],
 ["Model.derivative", "Model.result"])

prop("M03", "Compound models compose values and derivatives by the calculus rules",
 "A compound model built from constituents by addition, subtraction, multiplication, division or piping, with or without brackets and to any nesting depth, returns the constituents' values combined left to right by those operations. Its parameter partials and its input derivative are those of that combined function (sum, product, quotient and chain rule), whichever way the compound was built: in place, by operators on copies, by appending a compound, or by copying.",
 ["inputs", "programs", "configurations"],
 "every expression tree over models, every parameter vector, every input array",
 "A handful of fixed two- and three-term chains at one parameter vector are tested; mixed operators, nested brackets, pipes behind products and copies of chains are not.",
 [S+"Model.py", S+"BracketModel.py", S+"BaseModel.py", S+"FixedModel.py"],
 [("recursive evaluation of the chain", S+"Model.py _recursiveResult/_recursivePartial/_recursiveDerivative"), ("appending constituents and automatic brackets", S+"Model.py appendModel"), ("brackets", S+"Model.py Brackets, "+S+"BracketModel.py")],
 ["Model.result", "Model.partial", "Model.derivative"])

prop("M04", "Compound models keep parameters, constituents and copies consistent",
 "In a compound model the parameter list is the concatenation, in order, of the constituents' parameters; extracting a constituent returns a stand-alone model with that constituent's own parameters, values and priors; and names, priors and limits asked for by overall index are those of the constituent owning that index. A copy of any model evaluates identically to its original, and later changing parameters, priors or structure of one never affects the other; operators that build new models leave their operands unchanged.",
 ["programs", "histories", "configurations"],
 "every way of building a chain, every index, every later modification of original or copy",
 "Tests copy a few models and compare once; aliasing shows only after a later modification, and index mapping errors only at particular positions in longer or bracketed chains.",
 [S+"Model.py", S+"BaseModel.py", S+"FixedModel.py", S+"BracketModel.py", S+"Prior.py"],
 [("copying", "copy() of each model class, "+S+"Model.py"), ("isolation", S+"Model.py isolateModel"), ("index resolution", S+"Model.py getPrior/setPrior/getParameterName/setLimits")],
 ["Model.copy", "Model.isolateModel", "Model.parameters", "Model.getPrior", "Model.getParameterName"])

prop("M05", "Fixing parameters restricts the model and nothing else",
 "A model in which some parameters are fixed to numbers returns exactly what the free model returns with those numbers filled in, and its partials are the free model's partials for the remaining parameters, in order. A parameter replaced by another model makes the value equal to substituting that model's value at each input point, with that model's parameters appended to the list and the partials and input derivative following the chain rule.",
 ["inputs", "configurations"],
 "every model class, every subset of fixed parameters, every replacement model, all parameter values and inputs",
 "Only a few models are tested with one particular fixed parameter; index shifts show only for particular subsets.",
 [S+"FixedModel.py", S+"BaseModel.py", S+"PolynomialModel.py", S+"GaussModel.py", S+"SineModel.py", S+"ConstantModel.py", S+"PseudoVoigtModel.py"],
 [("expanding and selecting parameters", S+"FixedModel.py expand/select"), ("chain rule through replaced parameters", S+"FixedModel.py partial/derivative")],
 ["Model.result", "Model.partial", "Model.derivative"])

prop("M06", "Kernel functions match their derivative, range and normalisation",
 "For every convolution kernel the reported derivative is the derivative of its value, the value is an even function, it vanishes outside the declared range of a bounded kernel, and the declared integral and full width at half maximum are those of the function. The variant taking a squared argument, where offered, equals the value at the square root.",
 ["inputs", "configurations"],
 "every kernel class, all real arguments",
 "Tests sample a coarse grid; edges of the support and the declared constants are compared loosely or not at all.",
 [K+f for f in "Kernel.py Biweight.py CosSquare.py Cosine.py Gauss.py Huber.py Lorentz.py Parabola.py Sinc.py Tophat.py Triangle.py Tricube.py Triweight.py Uniform.py".split()],
 [("kernel value and derivative", "result/partial of each kernel class"), ("declared attributes", "__init__ of each kernel class")],
 ["Kernel.result", "Kernel.partial", "Kernel.resultsq", "Kernel.integral", "Kernel.fwhm", "Kernel.range"])

prop("B01", "Prior transforms between unit interval and domain are exact inverses",
 "For every prior, mapping a unit value to the parameter domain and back (and the reverse, for values inside the limits) returns the same value, the map is increasing and continuous, unit values 0 and 1 map to the ends of the allowed domain, and no unit value maps outside the limits (an unlimited end is reached only to within a documented large number of scales; uniform and Jeffreys priors need both limits). For a circular prior the unit interval covers three periods and the values inside the limits correspond to the middle one. This holds after any change of limits or scale, for copies, and for scalar as well as array arguments.",
 ["inputs", "configurations", "histories"],
 "every prior class, every admissible setting of location, scale, limits and period, every value, every order of setting them",
 "Tests use one or two settings per prior and a few values; one-sided limits, limits not containing the centre, later changes of limits and copies are not covered.",
 [S+f for f in "Prior.py UniformPrior.py JeffreysPrior.py ExponentialPrior.py LaplacePrior.py CauchyPrior.py GaussPrior.py CircularUniformPrior.py HyperParameter.py NoiseScale.py".split()],
 [("transforms", "domain2Unit/unit2Domain of each prior"), ("limit handling", S+"Prior.py setLimits/setPriorLimits/limitedIntegral/limitedDomain2Unit")],
 ["Prior.unit2Domain", "Prior.domain2Unit"])

prop("B02", "Prior densities are normalised and agree with their transforms",
 "For every prior the reported density is the derivative of its map from domain to unit interval, so it integrates to one over the allowed domain and is zero outside it (for a circular prior, whose map covers three periods, it is three times that derivative); the reported log density is the logarithm of that density (minus infinity outside), and the reported derivative of the log density is its derivative. The reported domain range and integral are those of the allowed domain. A uniform or Jeffreys prior without both limits refuses to give a density.",
 ["inputs", "configurations", "histories"],
 "every prior class and setting, every value inside and outside the limits",
 "Tests compare a few values; normalisation under one-sided or changed limits is not tested.",
 [S+f for f in "Prior.py UniformPrior.py JeffreysPrior.py ExponentialPrior.py LaplacePrior.py CauchyPrior.py GaussPrior.py CircularUniformPrior.py".split()],
 [("densities", "result/logResult/partialLog of each prior"), ("normalisation", S+"Prior.py getIntegral/getRange")],
 ["Prior.result", "Prior.logResult", "Prior.partialLog", "Prior.getIntegral", "Prior.getRange"])

prop("L01", "Log-likelihoods equal the documented density of the data",
 "For every error distribution the log-likelihood of a problem is the sum over data points of the logarithm of the documented probability density of the residual, with the current noise scale and shape, data points weighted as if repeated weight times (for the distributions that declare to accept weights) and scaled by their individual accuracy where given (for those with a noise scale). A copied error distribution has the same values and leaves the original alone. Summing the pointwise terms, evaluating in one go and updating after a change of some parameters all give the same value.",
 ["inputs", "configurations"],
 "every error distribution, every data set of any length, weights, accuracies, all parameter and hyperparameter values",
 "Tests check a few data sets and hyperparameter values with unit weights; normalisation constants with weights or accuracies together and other powers are sampled at one value.",
 [S+f for f in "ErrorDistribution.py ScaledErrorDistribution.py GaussErrorDistribution.py LaplaceErrorDistribution.py CauchyErrorDistribution.py PoissonErrorDistribution.py ExponentialErrorDistribution.py UniformErrorDistribution.py BernoulliErrorDistribution.py MixedErrorDistribution.py Gauss2dErrorDistribution.py LogFactorial.py".split()],
 [("pointwise log density", "logLdata of each distribution"), ("summed log density", "logLikelihood_alt of each distribution"), ("hyperparameters", S+"ErrorDistribution.py")],
 ["ErrorDistribution.logLikelihood", "ErrorDistribution.logLdata", "ErrorDistribution.updateLogL"])

prop("L02", "Gradients of the log-likelihood are exact",
 "For every error distribution and problem type, the reported gradient of the log-likelihood with respect to any selected list of parameters and hyperparameters is the mathematical derivative of the log-likelihood that same distribution returns, in the order of the selection, also in the presence of weights, accuracies, uncertainties in both coordinates and several outputs (the derivative to a noise scale which given accuracies replace is documented as not implemented).",
 ["inputs", "configurations"],
 "every error distribution, every problem type, all data, weights, parameter values and selections",
 "Tests compare with a numerical gradient at one point; selections in other orders, weights together with hyperparameters and multi-output problems are not.",
 [S+f for f in "ErrorDistribution.py GaussErrorDistribution.py LaplaceErrorDistribution.py CauchyErrorDistribution.py PoissonErrorDistribution.py ExponentialErrorDistribution.py UniformErrorDistribution.py BernoulliErrorDistribution.py MixedErrorDistribution.py Gauss2dErrorDistribution.py ErrorsInXandYProblem.py ClassicProblem.py MultipleOutputProblem.py".split()],
 [("gradients", "partialLogL_alt and nextPartialData of each distribution")],
 ["ErrorDistribution.partialLogL"])

prop("L03", "Problems present residuals, weights and partials consistently",
 "For every kind of problem the residuals are data minus model (wrapped into the declared period for cyclic quantities, when within one and a half period), the weighted squared residuals use the weight of each point (and the accuracies in both coordinates where these are uncertain), and the partials are those of the model extended with the true-position parameters where both coordinates are uncertain. Mapping the full parameter vector between unit space and domain applies each parameter's own prior by index, and a copied problem is equal to and independent of its original where documented.",
 ["inputs", "configurations"],
 "every problem type, all data, weights, accuracies, periods and parameter values",
 "Tests use a single data set without or with one kind of weights.",
 [S+f for f in "Problem.py ClassicProblem.py ErrorsInXandYProblem.py MultipleOutputProblem.py EvidenceProblem.py Engine.py".split()],
 [("residuals and cyclic correction", S+"Problem.py"), ("true-position parameters", S+"ErrorsInXandYProblem.py"), ("output folding", S+"MultipleOutputProblem.py")],
 ["Problem.residuals", "Problem.weightedResSq", "Problem.partial", "Problem.domain2Unit", "Problem.unit2Domain"])

prop("F01", "Linear fitters return the weighted least-squares optimum",
 "Fitting a linear model returns parameters at which the weighted sum of squared residuals is stationary in every fitted direction, so no other parameters give a smaller one; integer weights act as repeating data points, an accuracy as dividing by its square, kept parameters stay exactly at their given values, and added normalisation constraints enter as extra weighted data. The reported misfit is that weighted sum at the returned parameters, the model holds them, and neither the data nor the weights passed in are altered; repeated use of one fitter gives what a fresh one would.",
 ["inputs", "configurations", "histories"],
 "all data, weights, accuracies, kept parameters, constraints and sequences of fits, for any non-degenerate linear model and any number of points",
 "Tests fit a few data sets with unit weights and compare two fitters with each other.",
 [S+f for f in "BaseFitter.py Fitter.py QRFitter.py".split()],
 [("normal equations", S+"Fitter.py fit"), ("QR decomposition", S+"QRFitter.py fit"), ("kept parameters", S+"BaseFitter.py keepFixed/insertParameters")],
 ["Fitter.fit", "QRFitter.fit", "BaseFitter.chisq", "Model.parameters"])

prop("F02", "Fit uncertainties and evidence follow from Hessian, misfit and priors",
 "After a fit the reported covariance is the inverse of the weighted Hessian of the fitted parameters times the squared noise scale, the standard deviations are the square roots of its diagonal placed at the fitted indices (zero for kept ones), and the noise scale is the misfit per degree of freedom. The log evidence is the log-likelihood plus the log of the posterior volume over the prior volume of the fitted parameters, with the scale prior range when the scale is fitted too, and the reported evidence is the same in base ten.",
 ["inputs", "configurations"],
 "all data sets, weights, accuracies, kept parameters, limits, fixed or fitted noise scale",
 "Tests compare one data set with stored numbers or between two fitters that share the code.",
 [S+f for f in "BaseFitter.py MaxLikelihoodFitter.py IterativeFitter.py".split()],
 [("covariance and deviations", S+"BaseFitter.py getCovarianceMatrix/getStandardDeviations/makeVariance"), ("evidence", S+"BaseFitter.py getLogZ/getEvidence/getLogLikelihood")],
 ["BaseFitter.covariance", "BaseFitter.stdevs", "BaseFitter.scale", "BaseFitter.logZ", "BaseFitter.evidence"])

prop("F03", "Iterative fitters report what they found and never drop a better point",
 "Every non-linear fitter returns parameters whose misfit (or log-likelihood) is exactly the one it reports and which the model then holds; the accepted misfit never increases from one accepted step to the next, the simplex minimiser returns the best point it evaluated inside its limits, kept parameters are never moved, and robust weights stay between zero and one. Failing to converge within the allowed iterations is signalled (by an error, or by a warning where a minimiser of scipy gave up), never silently returned as a result.",
 ["inputs", "configurations", "histories"],
 "all objective functions, starting points, limits, kept parameters and iteration histories",
 "Tests converge one or two problems; accept/reject sequences and non-convergence are not exercised.",
 [S+f for f in "LevenbergMarquardtFitter.py CurveFitter.py ScipyFitter.py MaxLikelihoodFitter.py AmoebaFitter.py AnnealingAmoeba.py RobustShell.py IterativeFitter.py BaseFitter.py MonteCarlo.py".split()],
 [("step acceptance", S+"LevenbergMarquardtFitter.py trialfit"), ("simplex moves", S+"AnnealingAmoeba.py"), ("robust weights", S+"RobustShell.py")],
 ["fit() of each fitter", "chisq", "Model.parameters", "AnnealingAmoeba.minimize"])

prop("S01", "Every accepted exploration step obeys the likelihood constraint",
 "Whenever an exploration engine changes a walker, the new walker's log-likelihood is at least the current threshold, equals the log-likelihood of the parameters stored with it, and every fitted parameter lies inside its prior's domain while parameters that are not fitted keep their values. A failed attempt leaves the walker list as it was; walkers at other positions than the addressed one are never changed (engines asked to append only add walkers).",
 ["inputs", "histories", "configurations"],
 "every engine, every likelihood function, every prior, threshold and random sequence",
 "Random exploration tests check a few hundred steps for one seed; a wrong acceptance or a stale value is not visible in averages.",
 [S+f for f in "Engine.py GalileanEngine.py ChordEngine.py GibbsEngine.py StepEngine.py RandomEngine.py StartEngine.py BirthEngine.py DeathEngine.py StructureEngine.py Explorer.py Walker.py PhantomCollection.py ErrorDistribution.py".split()],
 [("acceptance tests", "execute of each engine"), ("storing a walker", S+"Engine.py setWalker"), ("unit-range bookkeeping", S+"Engine.py getUnitMinmax, "+S+"PhantomCollection.py")],
 ["Engine.execute", "WalkerList"])

prop("S02", "Order engines only permute, and tour costs are permutation costs",
 "Every order engine proposes an ordering that is a permutation of the ordering it started from, stores it only with its own cost above the threshold, and leaves it otherwise. The cost of an ordering is minus the sum of the distances along the closed tour divided by the scale, independent of where the tour starts, equal whether distances are computed or tabulated.",
 ["inputs", "histories"],
 "every ordering of any length, every random sequence, every distance function",
 "Tests run one seed on one small set of points.",
 [S+f for f in "OrderEngine.py MoveEngine.py ReverseEngine.py SwitchEngine.py ShuffleEngine.py LoopEngine.py NearEngine.py StartOrderEngine.py SalesmanProblem.py OrderProblem.py DistanceCostFunction.py".split()],
 [("reordering", "executeOnce of each order engine"), ("tour length", S+"SalesmanProblem.py, "+S+"DistanceCostFunction.py")],
 ["OrderEngine.execute", "SalesmanProblem.result", "DistanceCostFunction.logLikelihood"])

prop("S03", "Nested sampling books evidence, weights and samples consistently",
 "At every iteration the discarded walker is the one with the lowest log-likelihood, discarded values never decrease, the accumulated evidence is the log of the sum of the stored sample weights and the information is the weighted mean log-likelihood minus the log evidence. The final posterior sample weights sum to one, and reported averages, standard deviations, median and mode are those of the weighted samples.",
 ["histories", "inputs", "configurations"],
 "every sequence of log-likelihoods, ensemble size, number discarded per iteration and posterior sample list",
 "Sampling tests are statistical and most are excluded for run time; an error of one bookkeeping term is within their tolerance.",
 [S+f for f in "NestedSampler.py SampleList.py Sample.py WalkerList.py PhantomSampler.py".split()],
 [("evidence update", S+"NestedSampler.py updateEvidence/sample"), ("weights and averages", S+"SampleList.py")],
 ["NestedSampler.sample", "SampleList", "logZ", "information"])

prop("S04", "Walkers, samples and their lists are independent values kept in order",
 "Copying a walker, sample or list gives an equal object that shares no mutable state with the original: later changes of either never show in the other (data and models that do not change their form are shared, as documented). Lists that promise an ordering by log-likelihood keep it after insertion and cropping, cropping removes exactly the elements not above the threshold, and normalising, thinning or re-weighting a sample list only does what it says.",
 ["histories", "inputs"],
 "every sequence of copies, insertions, removals and modifications",
 "Tests copy once and compare; aliasing appears only after a later modification.",
 [S+f for f in "Walker.py WalkerList.py Sample.py SampleList.py PhantomCollection.py Engine.py".split()],
 [("copying", S+"Walker.py copy, "+S+"Sample.py copy"), ("ordered insertion", S+"WalkerList.py insertWalker/cropOnLow/firstIndex")],
 ["Walker.copy", "Sample.copy", "WalkerList", "SampleList"])

prop("D01", "Growing, shrinking and varying models keep every index consistent",
 "When a dynamic model grows or shrinks, alone or as a constituent of a chain at any position, the parameter vector, the counts of parameters, the list of fitted indices and the number of components change together; the parameters of all other constituents and components keep their values (splitting or merging splines may change the parameter next to the new or removed knot), fitted indices keep pointing to the same parameters, and the numbers of components stay within their minimum and maximum. A grown model evaluates as a freshly built model of that size, and growing a copy never affects the original.",
 ["histories", "programs", "configurations"],
 "every sequence of grow, shrink, vary and copy steps, every position in a compound, every random sequence",
 "Tests run one fixed sequence for one model and seed.",
 [S+f for f in "Dynamic.py Modifiable.py HarmonicDynamicModel.py PolynomialDynamicModel.py SplinesDynamicModel.py RepeatingModel.py DecisionTreeModel.py BirthEngine.py DeathEngine.py StructureEngine.py".split()],
 [("index shifting", S+"Dynamic.py alterParameters/alterFitindex/alterParameterSize"), ("grow and shrink", "grow/shrink of each dynamic model")],
 ["Model.grow", "Model.shrink", "Model.parameters", "Walker.fitIndex"])

prop("D02", "Repeated, combined and tree models equal their expanded form",
 "A repeated model equals the sum of its components with the shared parameters inserted, a combined model equals the chain of its components with the declared additive and multiplicative relations between their parameters, and a decision tree returns for each point the parameter of the one leaf its branches lead to, each point in exactly one leaf. Their partials and derivatives are those of that expanded form, and encoding and decoding a tree gives back the same tree.",
 ["inputs", "configurations"],
 "every number of repeats, set of shared parameters, relations, tree shape, parameter values and inputs",
 "Tests try one shape of each with few inputs.",
 [S+f for f in "RepeatingModel.py CombiModel.py DecisionTreeModel.py BracketModel.py".split()],
 [("shared parameters", S+"RepeatingModel.py"), ("relations between parameters", S+"CombiModel.py expandParameters"), ("leaf assignment", S+"DecisionTreeModel.py")],
 ["Model.result", "Model.partial", "Model.derivative"])

prop("D03", "Spline models are piecewise polynomials with the promised smoothness",
 "Every spline model of order n is, between neighbouring knots, a polynomial of degree at most n, and at inner knots the value and its first n-1 derivatives are continuous, for every choice of knots, order and parameters; B-spline bases are non-negative, sum to one inside the knot range and vanish outside their own support. Parameterisations by basis functions and by polynomial pieces span the same functions.",
 ["inputs", "configurations"],
 "every knot sequence, order, parameter vector and input in the knot range",
 "Tests evaluate order three on one knot set and grid.",
 [S+f for f in "SplinesModel.py BasicSplinesModel.py BSplinesModel.py bspline.py splinelab.py SplinesDynamicModel.py SurfaceSplinesModel.py SineSplineModel.py SineSplineDriftModel.py".split()],
 [("knot bookkeeping", S+"SplinesModel.py"), ("basis construction", S+"BasicSplinesModel.py makeBaseBasis"), ("recursion", S+"bspline.py")],
 ["Model.result", "Model.derivative"])

prop("U01", "Evaluating never changes what the caller passed in",
 "Evaluating a model, prior, kernel, error distribution, problem or fitter with arrays of data, weights or parameters leaves those arrays, the model's own parameters and the object's configuration unchanged (apart from the documented results of a fit), so that evaluating twice, in any order and at any other inputs in between, gives the same values.",
 ["inputs", "histories"],
 "every evaluation method of every class, all inputs, every order of calls",
 "Tests use each array once; in-place modification or caching of a first input is invisible in a single evaluation.",
 [S+f for f in "BaseModel.py FixedModel.py Model.py Problem.py ErrorDistribution.py GaussErrorDistribution.py BaseFitter.py Prior.py StellarOrbitModel.py RadialVelocityModel.py Kepplers2ndLaw.py".split()],
 [("copies before in-place arithmetic", "all evaluation methods"), ("cached problem values", S+"Problem.py, "+S+"ErrorDistribution.py")],
 ["all evaluation methods"])

prop("U02", "Numerical utilities satisfy their mathematical definitions",
 "Log-factorials equal the logarithm of the gamma function one higher, pixel maps translate every position of an image to its index list and back one-to-one for any shape, an orthonormal basis consists of unit vectors perpendicular to each other and spanning what was offered, and Kepler's equation is solved to the stated accuracy for every eccentricity below one and every mean anomaly. Helper queries such as item lookup, lengths, betweenness and tolerances agree with their definitions.",
 ["inputs"],
 "every argument in the documented domain",
 "Tests try one or two arguments.",
 [S+f for f in "LogFactorial.py ImageAssistant.py OrthonormalBasis.py Kepplers2ndLaw.py Tools.py".split()],
 [("log factorial", S+"LogFactorial.py"), ("index map", S+"ImageAssistant.py"), ("Gram-Schmidt", S+"OrthonormalBasis.py"), ("root finding", S+"Kepplers2ndLaw.py")],
 ["logFactorial", "ImageAssistant", "OrthonormalBasis", "Kepplers2ndLaw", "Tools"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        for fn in p["anchors"]["files"]:
            assert os.path.exists("/repo/" + fn), fn
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
