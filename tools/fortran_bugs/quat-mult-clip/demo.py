from demolib import *
L = lib(2)
for a, b in (((1., 2., 3., 4.), (.5, -1., 2., 1.)), ((1., 2., -30., 4.), (.5, -1., 2., 1.))):
    r = vec(0, 0, 0, 0)
    call(L, "quatmult4", vec(*a), vec(*b), r)
    close(sum(x * x for x in r), sum(x * x for x in a) * sum(x * x for x in b), "norm of product")
