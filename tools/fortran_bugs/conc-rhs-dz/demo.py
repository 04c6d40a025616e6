from demolib import *
L = lib(3, "concentrationrhs")
lo, hi = (0, 0, 0), (2, 1, 2)
dx = (.4, .3, .1)
fl = [A(lo, hi, 1, d, f=rnd(5 + d)) for d in range(3)]
r = A(lo, hi, 1)
call(L, "computerhsconcentration", box(lo, hi), vec(*dx), fl, 1, 1.25, r, 1)
tot = sum(r[i] for i in cells(lo, hi)) * dx[0] * dx[1] * dx[2]
s = 0
for d in range(3):
    area = dx[0] * dx[1] * dx[2] / dx[d]
    for i in cells(lo, hi):
        if i[d] == hi[d]: s += 1.25 * area * fl[d][sh(i, d)]
        if i[d] == lo[d]: s -= 1.25 * area * fl[d][i]
close(tot, s, "mass balance")
