#!/usr/bin/env python3
"""Source of /verif/known_findings.json."""
import json, os
ALL = ['C{:02d}'.format(i) for i in range(1, 20)]
KNOWN = [
 {"deviation": "resetscale", "principal": "C02", "properties": ALL,
  "what": "a change-point (ChangePoint, or a SerialTransitionModel separated by change-points) resets to the prior times the volume of a grid cell: the evidence is off by the cell volume per change-point",
  "identified_by": "transition models with a change-point at a time stamp within the data, on grids whose cell volume is not one; outcome equals the specification with deviation 'resetscale' (spec/TransModels.tla)",
  "reason": "the repository's tests pin the resulting evidence values, so that no commit can repair it"},
 {"deviation": "serialback", "principal": "C01", "properties": ALL,
  "what": "the backward message across a change-point of a SerialTransitionModel is the prior instead of a constant: distributions before the change-point count the prior twice",
  "identified_by": "full fits with SerialTransitionModel separated by a change-point, non-flat priors; specification with deviation 'serialback'",
  "reason": "the repository's tests pin the resulting values"},
 {"deviation": "combinedback", "principal": "C01", "properties": ALL,
  "what": "the backward pass of CombinedTransitionModel applies the sub-models in the forward order",
  "identified_by": "full fits with CombinedTransitionModel of models that do not commute; specification with deviation 'combinedback'",
  "reason": "the repository's tests pin the resulting values"},
 {"deviation": "onlineprior", "principal": "C10", "properties": ALL,
  "what": "the transition model distribution of OnlineStudy ignores the prior set by setTransitionModelPrior",
  "identified_by": "OnlineStudy with at least two transition models and a non-uniform transition model prior; specification with deviation 'onlineprior'",
  "reason": "the repository's tests pin the resulting values"},
 {"deviation": "onlinehgc", "principal": "C10", "properties": ALL,
  "what": "the evidence of OnlineStudy for transition models with several hyper-parameter values lacks the factor of the hyper-grid constant",
  "identified_by": "OnlineStudy with a transition model whose hyper-parameter values are regularly spaced with a spacing other than one; specification with deviation 'onlinehgc'",
  "reason": "the repository's tests pin the resulting values"},
 {"deviation": "compound", "principal": "C13", "properties": ["C13"],
  "what": "queries that use one source of randomness again after it has been combined with another one treat both occurrences as independent",
  "identified_by": "queries such as '(a@0+b@1) > a@0' (events with reuse: true); specification with deviation 'compound'",
  "reason": "requires tracking the joint distribution of all sources in the parser, i.e. a redesign"},
]
F = """b284e5d C18 loadData with another number of time stamps than data points kept the time stamps of earlier data
7709045 C05 a prior supplied as an array was modified in place and normalised inconsistently
d0ae741 C05 a prior supplied as a function was not converted to a density
327b288 C12 hyper-prior arrays of the user were rescaled in place; integer arrays failed
fb74cad C03 BivariateRandomWalk ignored the list of rho values
fd5225b C05 Deterministic ignored a list of hyper-priors
2e2c077 C09 OnlineStudy passed the wrong time to transition models (online and batch fits disagreed)
cfae636 C17 OnlineStudy.getParameterMeanValue used a single grid point
856c28c C17 OnlineStudy.getPD ignored the density flag
2f486f5 C12 reading a hyper-parameter distribution rescaled the stored one
bbc47b7 C12 plotting the parameter evolution altered the stored posterior
c33e3b7 C10 OnlineStudy.getHyperParameterDistribution returned densities
58df48f C10 time-averaged hyper-parameter distribution failed with several transition models
153d97c C10 hyper-parameter distributions failed with additional single-valued hyper-parameters
3a7d99b C12 a failed read-out of past distributions broke the online study
23535af C16 a rejected configuration left the first data point in the online study
4940222 C04 the Bernoulli likelihood altered the grid and accepted invalid probabilities
323a582 C05 default Bernoulli grid hit the singularities of the Jeffreys prior
b543266 C04 Poisson likelihood of float-valued counts
9893e1b C04 Poisson likelihood of counts above 170
cf2a23d C03 NotEqual failed for integer exponents
95188bd C03 NotEqual divided by zero for uniform distributions
fd5941a C14 a failed save destroyed an existing file
dfa96a7 C01 backward pass of ChangePoint and Independent counted the prior twice
4c84192 C01 backward pass assumed unit-spaced time stamps
96948a6 C03 resets ignored priors given as arrays or SymPy variables
07b7722 C02 local evidences of the forward pass did not factorise the evidence
6a00145 C02 local evidence of the full fit depended on the lattice constant
cb7c676 C06 local evidence of hyper-studies ignored the hyper-prior density
ce4d722 C11 cached kernels of random walks were used for other grids
6655e20 C11 transition models could not be shared among studies
7b5876c C11 evidence-only fit kept the results of a previous fit
e876e57 C19 aborted fits provided meaningless distributions
148da0a C06 hyper-study with a single combination ignored the values
a431f9e C16 hyper-studies failed with AttributeError if data or models were missing
4974d7b C11 change-point value 'all' was replaced by the first fit
d8d1946 C11 interrupted hyper fits altered the transition model
20d4906 C19 OnlineStudy: NaN probabilities of impossible models
f98f6c9 C13 different parameters at different times were combined element-wise
ae19687 C13 time stamp t was looked up in the last study only
8596695 C13 derived distributions lost the largest value
3f08b2b C13 queries of a single parameter failed
d2d9734 C12 returned transition model distribution changed with the next step
c1212fe C03 AlphaStableRandomWalk failed for two-dimensional grids with odd sizes
6b16617 C11 OnlineStudy left the hyper-parameter values of the transition models changed
43a7ba5 C19 hyper-study of impossible data reported NaN distributions
fb81834 C16 mean values and simulations without results failed with IndexError
43d0cfe C10 integer-valued transition model priors failed
48be15a C07 parallel evidence-only fit kept the results of a previous fit
c4bf103 C03 NotEqual amplified rounding errors of uniform distributions
f136974 C06 distributions of single-valued hyper-parameters failed
334857b C17 parameter distributions of a single time step failed
be583cd C08 duration distribution counted combinations that are not ordered
02f9593 C03 deterministic transition model produced negative probabilities
7e57da1 C13 parameter names were mistaken for functions
b55db52 C13 queries of a single function or sign failed
680b5ef C13 unknown names were silently ignored
cb116c1 C13 the sides of a comparison were not evaluated separately
7bbca72 C13 hyper-parameters of different times or transition models were combined element-wise
324b542 C10 plots of single-valued hyper-parameters failed
24cf29e C19 hyper-studies of impossible data reported empty means and NaN durations
68f3b2f C08 change-point values that cannot be ordered gave a fit with arbitrary values
05db328 C16 duration distribution without results failed with TypeError
7c79820 C11 interrupted hyper-study fit of a single combination left the single value in the transition model"""
fixed = []
for l in F.splitlines():
    c, p, w = l.split(' ', 2)
    fixed.append('fixed: property={} {} {}'.format(p, c, w))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
json.dump({'known': KNOWN, 'fixed': fixed}, open(out, 'w'), indent=1)
