from oracle import inverse
from numpy import array, ndarray
class LinAlgError(Exception):
    pass
def inv(a):
    return ndarray(inverse(array(a).rows))
def det(a):
    a = array(a).rows
    if len(a) == 1:
        return a[0][0]
    s = 0
    for j in range(len(a)):
        m = [[r[k] for k in range(len(a)) if k != j] for r in a[1:]]
        s = s + (-1) ** j * a[0][j] * det(m)
    return s
def solve(a, b):
    return inv(a) @ array(b)
