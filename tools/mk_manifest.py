"""Regenerates MANIFEST.json from the checks that exist (run by hand)."""
import json
import os

D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'C01': ('exploration', 'property-based testing: Hypothesis solver specs, exact bound invariant on every recorded evaluation', 'No counterexample among the generated runs; exact comparison, no tolerance.'),
 'C02': ('exploration', 'property-based testing: solver specs x budgets x nsamples rules against recorded calls and log numbering', 'Recorded calls are the reference; no tolerance.'),
 'C03': ('exploration', 'property-based testing: solver specs; returned solution and, at every iteration, the live model are compared with the recorded evaluations', 'Tolerances only for base-point rounding (1e-12 relative).'),
 'C04': ('exploration', 'property-based testing: deterministic solver specs; best stored objective versus best recorded evaluation at every iteration and at the end', 'Comparison with 1e-12 relative slack.'),
 'C05': ('exploration', 'property-based testing: generated linear least-squares problems, differential oracle scipy lsq_linear with active-set polish', 'A feasible reference point bounds the optimum from above, so an alarm is sound.'),
 'C06': ('exploration', 'property-based testing: generated regularised linear problems, differential oracle accelerated proximal gradient / L-BFGS-B', 'A feasible reference point bounds the optimum from above, so an alarm is sound.'),
 'C07': ('exploration', 'property-based testing: argument and parameter grammar fuzzing with a documented-domain oracle', 'Documented parameter table transcribed by hand.'),
 'C08': ('fault_enumeration', 'fault injection fuzzing: fault kind x evaluation index enumerated for generated base specs, plus random fault specs', 'All evaluation indices of each generated base run are enumerated; base runs are sampled.'),
 'C09': ('exploration', 'property-based testing: generated convex set intersections, distance invariant on every recorded evaluation', 'Distances evaluated in closed form with rounding slack.'),
 'C10': ('exploration', 'property-based testing: solver specs over all exit routes, flag/message implications against recorded facts', 'Implications checked on the diagnostic table and recorded calls.'),
 'C11': ('exploration', 'property-based testing: solver specs, returned Jacobian versus an independent least-squares fit to the recorded evaluations', 'Tolerance proportional to the conditioning of the named points.'),
 'C12': ('exploration', 'property-based testing: generated (g,H,delta,box) for the box trust-region solver, validity predicate plus Cauchy-step reference', 'Exact box test; other tolerances are rounding bounds.'),
 'C13': ('exploration', 'property-based testing: generated geometry and convex subproblems, exact breakpoint reference maximiser and norm invariants', 'Reference maximiser by bisection on the clipped ray.'),
 'C14': ('exploration', 'property-based testing: initialisation specs and direction-generator inputs, poisedness/length/bounds invariants', 'Conditioning computed independently from recorded points.'),
 'C15': ('exploration', 'property-based testing: generated set intersections, reference projection to machine precision', 'Reference computed by a long Dykstra run / active-set checks.'),
 'C16': ('exploration', 'stateful property-based testing: operation histories on Model, independent least squares as oracle', 'Tolerance proportional to the conditioning of the point set.'),
 'C17': ('exploration', 'stateful model-based testing: operation histories on Model against a shadow model', 'Shadow model written from the property text.'),
 'C18': ('exploration', 'property-based testing: solver specs with diagnostics on, table invariants', 'Documented columns transcribed by hand.'),
 'C19': ('exploration', 'metamorphic property-based testing: repeated runs under different global RNG states and interleavings must be bit-identical', 'Bit-exact comparison.'),
 'C20': ('exploration', 'property-based testing: JSON round trip of solver results and synthetic results', 'Field-by-field exact comparison.'),
}
checks, na = [], []
for p, (level, tech, note) in NOTE.items():
    if os.path.exists(os.path.join(D, 'pbt', 'checks', p.lower() + '.py')):
        checks.append(dict(property=p, quick_cmd='bash check.sh %s quick' % p, thorough_cmd='bash check.sh %s thorough' % p,
                           technique=tech, level=level, level_note=note + ' Trusts numpy/scipy/Hypothesis and the harness in pbt/.'))
    else:
        na.append(dict(property=p, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='bash check.sh --selftest', checks=checks, not_applicable=na,
               notes='No hooks in /repo. All checks import dfols from /repo working tree (pure Python, nothing to build). PBT_SCALE scales case counts, PBT_WORKERS the number of processes.'),
          open(os.path.join(D, 'MANIFEST.json'), 'w'), indent=1)
