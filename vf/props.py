"""Property id -> check"""
from . import kcheck, rcheck, hcheck, tcheck, scheck, aspec, rspec, gspec, ispec, uspec
ARITH = ['add', 'subtract', 'multiply', 'true_divide', 'divide', 'floor_divide', 'minimum', 'maximum', 'logical_and', 'logical_or', 'bitwise_and', 'bitwise_or', 'bitwise_xor']
CMPN = ['equal', 'not_equal', 'less', 'greater', 'less_equal', 'greater_equal']
UN = ['abs', 'absolute', 'signbit', 'fabs', 'invert', 'floor', 'ceil', 'trunc', 'rint', 'negative', 'positive', 'sign', 'sqrt', 'square', 'reciprocal', 'logical_not', 'isinf', 'isnan', 'isfinite', 'cbrt']
PROPS = {}
PROPS['B01'] = lambda R: kcheck.run(R, set(ARITH), 'arith')
PROPS['B02'] = lambda R: kcheck.run(R, set(CMPN), 'cmp')
PROPS['B03'] = lambda R: kcheck.run(R, set(UN), 'unary')
PROPS['B05'] = rcheck.run
PROPS['D01'] = hcheck.run_d01
PROPS['B06'] = hcheck.run_b06
PROPS['B07'] = hcheck.run_b07
PROPS['C01'] = hcheck.run_c01
PROPS['L01'] = hcheck.run_l01
PROPS['T01'] = tcheck.run_t01
PROPS['T02'] = tcheck.run_t02
PROPS['T03'] = tcheck.run_t03
PROPS['S01'] = scheck.run_s01
PROPS['S02'] = scheck.run_s02
PROPS['S03'] = scheck.run_s03
PROPS['A01'] = aspec.run
PROPS['R01'] = rspec.run
PROPS['G01'] = gspec.run_g01
PROPS['G02'] = gspec.run_g02
PROPS['I01'] = ispec.run_i01
PROPS['B04'] = uspec.run_b04
