// SAMRAI's boundary kernels: ghost value such that a u + b du/dn = g at the face
#ifndef VERIF_BCKERNELS_H
#define VERIF_BCKERNELS_H
extern "C" void settype1cells2d_(double* data, const int& difirst, const int& dilast, const int& djfirst, const int&, const double* a, const double* b, const double* g, const int& ifirst, const int& ilast, const int& jfirst, const int&,
                                 const int& ibeg, const int& iend, const int& jbeg, const int& jend, const int& face, const int& ghos, const int& inte, const int& location, const double& h, const int& zerog)
{
   const int n = dilast - difirst + 1, nf = ilast - ifirst + 1;
   for (int j = jbeg; j <= jend; j++)
      for (int i = ibeg; i <= iend; i++) {
         const int q = location < 2 ? (face - ifirst) + (j - jfirst) * nf : (i - ifirst) + (face - jfirst) * nf;
         const int to = location < 2 ? (ghos - difirst) + (j - djfirst) * n : (i - difirst) + (ghos - djfirst) * n;
         const int from = location < 2 ? (inte - difirst) + (j - djfirst) * n : (i - difirst) + (inte - djfirst) * n;
         double v = data[from] * (b[q] - 0.5 * h * a[q]);
         if (!zerog) v = v + h * g[q];
         data[to] = v / (b[q] + 0.5 * h * a[q]);
      }
}
extern "C" void settype1cells3d_(double* data, const int& difirst, const int& dilast, const int& djfirst, const int& djlast, const int& dkfirst, const int&, const double* a, const double* b, const double* g, const int& ifirst, const int& ilast,
                                 const int& jfirst, const int& jlast, const int& kfirst, const int&, const int& ibeg, const int& iend, const int& jbeg, const int& jend, const int& kbeg, const int& kend, const int& face, const int& ghos, const int& inte,
                                 const int& location, const double& h, const int& zerog)
{
   const int n0 = dilast - difirst + 1, n1 = djlast - djfirst + 1, f0 = ilast - ifirst + 1, f1 = jlast - jfirst + 1, ax = location / 2;
   auto at = [&](int i, int j, int k) { return (i - difirst) + ((j - djfirst) + (k - dkfirst) * n1) * n0; };
   for (int k = kbeg; k <= kend; k++)
      for (int j = jbeg; j <= jend; j++)
         for (int i = ibeg; i <= iend; i++) {
            int x[3] = {i, j, k}, y[3] = {i, j, k}, z[3] = {i, j, k};
            x[ax] = face; y[ax] = ghos; z[ax] = inte;
            const int q = (x[0] - ifirst) + ((x[1] - jfirst) + (x[2] - kfirst) * f1) * f0;
            double v = data[at(z[0], z[1], z[2])] * (b[q] - 0.5 * h * a[q]);
            if (!zerog) v = v + h * g[q];
            data[at(y[0], y[1], y[2])] = v / (b[q] + 0.5 * h * a[q]);
         }
}
extern "C" void settype2cells2d_(double*, const int&, const int&, const int&, const int&, const int*, const int*, const int&) { ::verif_stop("unmodelled corner", "facops", 0); }
extern "C" void settype2cells3d_(double*, const int&, const int&, const int&, const int&, const int&, const int&, const int*, const int*, const int&) { ::verif_stop("unmodelled edge", "facops", 0); }
extern "C" void settype3cells3d_(double*, const int&, const int&, const int&, const int&, const int&, const int&, const int*, const int*, const int&) { ::verif_stop("unmodelled corner", "facops", 0); }
#endif
