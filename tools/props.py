#!/usr/bin/env python3
"""Source of properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=['inputs'], text=over), why_tests_cant=why,
                  anchors=dict(files=['include/vecmath/' + f for f in files], mechanism=mech)))

prop('C01', 'Rounding, truncation and grid snapping of scalars and vectors',
  "For every floating point value, truncating, flooring, taking the ceiling, rounding to nearest (halves away from zero), rounding away from zero and rounding towards zero return exactly the integral value their names promise, the fractional part is exactly what truncation drops, and correction (to integers) replaces a value by its nearest integer iff it is closer than epsilon. "
  "Snapping to a grid yields a multiple of the grid size: the nearest one (moving at most half a cell, halves away from zero), the next one away from zero, or the next one towards zero. "
  "On vectors all of these, and the test for integral vectors, act on each component like the scalar operation.",
  "every float and every double (IEEE-exact) for the rounding functions; every value and grid size for snapping (real arithmetic)",
  "the tests sample a few dozen values; boundaries such as the largest value below one half, odd integers above 2^52, or values beyond the int64 range are single points in 2^64",
  ['scalar.h', 'vec.h'], 'trunc through an int64_t conversion; floor/ceil/round/fract/snap/correct derived from it; vec overloads loop over components')
prop('C02', 'Scalar selection, clamping and classification',
  "Minimum and maximum of any number of values (plain, by magnitude, or ignoring non-numbers) return one of the given values and no given value beats it; clamping keeps values inside the bounds and moves others to the nearest bound. "
  "Sign, step, interval containment (bounds in either order), tolerance comparisons, NaN/infinity tests and the distance of non-negative or unsigned values match their definitions for every input including NaN and infinities where defined. "
  "The vector forms apply the scalar operation to each component.",
  "every float, double and int value (bit-exact), argument lists of length 1 to 5, vectors of dimension 2 to 4",
  "tests use a handful of ordered constants; NaN in a particular position, ties, signed zeros and mixed signs are not covered",
  ['scalar.h', 'vec.h'], 'variadic recursive min/max families, clamp, sign, step, contains, is_equal, is_zero')
prop('C03', 'Cyclic indices, remainders, angle normalisation and interpolation',
  "Stepping a cyclic index forward or backward by any stride stays inside the range and the two directions undo each other; the remainder of a division has the sign of the dividend, is smaller than the divisor and differs from the dividend by a whole multiple; normalising an angle in degrees or radians yields the equivalent angle in [0, full turn). "
  "Linear interpolation hits both end points and stays between them for weights in [0,1]; smooth interpolation is 0 before the first edge, 1 after the second and the cubic Hermite polynomial in between; degree/radian conversions are inverse and map 180 degrees to pi. "
  "The next greater floating point value is the immediate successor; square roots are non-negative, square back to the argument and are non-numbers for negative arguments; vector forms work per component.",
  "every index/count/stride within the stated bounds, every finite real operand, every float/double for the successor",
  "tests check single constants per function; wrap-around and sign combinations are infinite families",
  ['scalar.h', 'vec.h', 'constants.h'], 'succ/pred/mod/normalize_degrees/normalize_radians/mix/smoothstep/to_radians/to_degrees/nextgreater/sqrt/sqrt_c')
exec(open(os.path.join(V, 'tools', 'props_more.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'props_more.py')) else None
have = {f[:-4] for f in os.listdir(V + '/harness') if f.endswith('.cpp')}
na = {x['property'] for x in json.load(open(V + '/not_applicable.json'))}
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        if p['id'] in have or p['id'] in na:
            f.write(json.dumps(p) + '\n')
