from demolib import *
L = lib(3, "side2cell")
lo, hi = (0, 0, 0), (2, 1, 2)
s = [A(lo, hi, 1, d, f=rnd(5 + d)) for d in range(3)]
r = A(lo, hi, 1)
call(L, "side2cell", box(lo, hi), s, 1, r, 1)
for i in cells(lo, hi):
    close(r[i], sum(s[d][i] + s[d][sh(i, d)] for d in range(3)) / 6., "cell %s" % (i,))
