"""Analysis roots: the real elementary functions and how to call them."""
from terms import *

UNARY = ['sqrt', 'cbrt', 'exp', 'log', 'log10', 'log1p', 'log1p1m2', 'sin', 'cos', 'tan', 'csc', 'sec', 'cot', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh',
         'floor', 'ceil', 'fabs', 'abs', 'inv', 'gamma']
