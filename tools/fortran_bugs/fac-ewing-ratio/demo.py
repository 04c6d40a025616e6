from demolib import *
L = lib(2, "ellipticfacops")
lo, hi = (0, 0), (1, 7)
u = A(lo, hi, 4, f=rnd(3)); fl = [A(lo, hi, 0, d, f=rnd(5 + d)) for d in range(2)]
old = [fl[0][(2, j)] for j in range(8)]
call(L, "efo_ewingfixfluxcondc2d", fl, 0, 0, 1.5, u, 4, 4, box(lo, hi), 1, ints(2, 4), ints(2, 0), ints(2, 7), vec(.1, .2))
for c in (0, 4):          # transverse corrections cancel over a coarse side
    close(sum(fl[0][(2, c + j)] for j in range(4)), sum(2. / 3. * old[c + j] for j in range(4)), "coarse side %d" % c, 1e-6)
